#![allow(static_mut_ref)]
#![allow(clippy::all)]
mod alloc;
mod cloud;
mod disk;
mod draw;
mod dressed;
mod files;
mod load;
mod net;
mod serve;
mod track;
mod interpose;
mod mono;
mod plans;
mod runner;
mod tree;
mod wmm;

#[global_allocator]
static ALLOC: alloc::Poison = alloc::Poison;

fn no_aslr() {
    // same addresses in every process; best effort
    unsafe {
        if std::env::var("GOKOSIM_REEXEC").is_err() {
            let old = libc::personality(0xffff_ffff);
            if old >= 0 && libc::personality(old as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("GOKOSIM_REEXEC", "1").exec();
            }
        }
    }
}

fn main() {
    no_aslr();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[1];
            let plan = plans::PLANS.iter().find(|p| p.id == *id).expect("property");
            let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let seconds = opt("--seconds").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 900.0 } else { 100.0 });
            let o = runner::Options {
                tier,
                seed,
                runs: opt("--runs").and_then(|s| s.parse().ok()),
                seconds,
                workers: opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                only: opt("--only"),
            };
            runner::check(plan, &o)
        }
        Some("replay") => runner::replay(plans::PLANS, &args[1], args.iter().any(|a| a == "--log")),
        Some("one") => {
            let plan = plans::PLANS.iter().find(|p| p.id == args[1]).expect("property");
            runner::one(plan, &args[2], args[3].parse().unwrap(), args.iter().any(|a| a == "--log"))
        }
        Some("list") => {
            for p in plans::PLANS {
                println!("{} {:?}", p.id, p.scenarios.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: gokosim check ID | replay FILE | one ID SCENARIO SEED [--log] | list");
            2
        }
    };
    std::process::exit(code);
}
