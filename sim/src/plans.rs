//! Which scenarios decide which property.
use crate::runner::{Plan, Scenario};
use crate::*;

const fn sc(name: &'static str, weight: u32, chaos: u64, fair: u64, run: fn()) -> Scenario {
    Scenario { name, weight, chaos, fair, run }
}

const MONO_RULE: &str = "each run draws a workload (operations, keys, number of readers, reader creation and teardown, panics in closures) and a schedule from its seed; a run is non-trivial and distinct if its sequence of context switches differs from every other run's";
const MONO_REAL: &[&str] = &["goko::monomap (reader, writer, inner map, all of its code)", "hashbrown"];
const MONO_STUB: &[&str] = &["atomics, fences and mutex of the map: release/acquire view model choosing what loads observe (cfg goko_sim)", "thread scheduler"];
const MONO_ASSUME: &[&str] = &["stores to one location take effect in execution order", "a thread inside a read does not create readers", "at most 4 versions of staleness per load"];

pub static C01: Plan = Plan {
    id: "C01",
    scenarios: &[sc("map-mixed", 4, 4000, 20000, mono::mixed), sc("map-teardown", 3, 4000, 20000, mono::teardown)],
    quick_runs: 150000,
    rule: MONO_RULE,
    real: MONO_REAL,
    stub: MONO_STUB,
    assumptions: MONO_ASSUME,
    probes: &["read within a read on one handle", "writer dropped during the run", "fault stale load", "fault panic in a read's closure", "reader created during the run"],
};
pub static C02: Plan = Plan {
    id: "C02",
    scenarios: &[sc("map-mixed", 4, 4000, 20000, mono::mixed), sc("map-sequential", 2, 6000, 20000, mono::sequential)],
    quick_runs: 150000,
    rule: MONO_RULE,
    real: MONO_REAL,
    stub: MONO_STUB,
    assumptions: MONO_ASSUME,
    probes: &["writer dropped during the run", "fault stale load"],
};
pub static C03: Plan = Plan {
    id: "C03",
    scenarios: &[
        sc("map-stalled-writer", 3, 3000, 20000, mono::stalled_writer),
        sc("map-stalled-readers", 3, 3000, 20000, mono::stalled_readers),
        sc("map-unlucky-writer", 2, 20000, 80000, mono::unlucky_writer),
        sc("map-teardown", 2, 4000, 20000, mono::teardown),
    ],
    quick_runs: 150000,
    rule: MONO_RULE,
    real: MONO_REAL,
    stub: MONO_STUB,
    assumptions: MONO_ASSUME,
    probes: &["fault writer stalled", "fault idle reader stalled", "fault panic in a read's closure", "publishes between reads", "teardowns between reads"],
};


const TREE_RULE: &str = "each run draws a data set (size, dimension, duplicates, ties, spread, index numbering), build parameters, number of pool workers, operations, faults and a schedule from its seed; a run is non-trivial and distinct if its sequence of context switches differs from every other run's";
const TREE_REAL: &[&str] = &["goko::covertree (builders, data caches, layers, nodes, queries)", "goko::plugins", "goko::query_interface", "goko::monomap", "pointcloud traits with their default methods", "rayon's parallel iterators"];
const TREE_STUB: &[&str] = &["data source: in memory, yields and fails at the scheduler's will (real metric semantics: L1, L2 or L-infinity)", "rayon-core's thread pool: simulated workers, the scheduler chooses who takes which job", "crossbeam-channel: real code with scheduling points", "atomics of the map and the node counter: sequentially consistent with scheduling points", "std mutexes and rwlocks: real, blocking through the simulated futex", "clock and entropy"];
const TREE_ASSUME: &[&str] = &["finite coordinates, scale_base > 1, layer scales representable as positive f32", "up to about 420 points", "comparison of distances against bounds allows relative rounding of 1e-4"];

pub static C04: Plan = Plan {
    id: "C04",
    scenarios: &[sc("build", 30, 20000, 2000000, tree::c04), sc("build-empty", 1, 20000, 2000000, tree::c04_empty)],
    quick_runs: 150000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["data sets over 300 points", "data sets of very wide points", "rayon job taken by another worker", "builder configured from a file"],
};
pub static C05: Plan = Plan {
    id: "C05",
    scenarios: &[sc("build-twice", 10, 30000, 2000000, tree::c05), sc("build-config", 2, 20000, 2000000, tree::c05_config)],
    quick_runs: 100000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["two builds at once", "rayon job taken by another worker"],
};
pub static C06: Plan = Plan {
    id: "C06",
    scenarios: &[sc("build-faults", 1, 30000, 2000000, tree::c06)],
    quick_runs: 120000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["fault point access failed", "builds given up", "builds without a failed access"],
};
pub static C07: Plan = Plan {
    id: "C07",
    scenarios: &[sc("knn", 1, 30000, 2000000, tree::c07)],
    quick_runs: 90000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "knn answered", "routing_knn answered", "data sets over 300 points"],
};
pub static C08: Plan = Plan {
    id: "C08",
    scenarios: &[sc("query-faults", 3, 30000, 2000000, tree::c08_faults), sc("query-teardown", 2, 30000, 2000000, tree::c08_teardown)],
    quick_runs: 120000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["fault point access failed", "queries that returned an error", "fault writer dropped", "queries after the writer had gone"],
};
pub static C09: Plan = Plan {
    id: "C09",
    scenarios: &[sc("paths", 1, 30000, 2000000, tree::c09)],
    quick_runs: 120000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "path answered", "known_path answered", "final addresses rebuilt"],
};
pub static C25: Plan = Plan {
    id: "C25",
    scenarios: &[sc("views", 1, 30000, 2000000, tree::c25)],
    quick_runs: 100000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "views compared", "views of a tree that is gone", "fault writer dropped", "data sets over 300 points"],
};
pub static C10: Plan = Plan {
    id: "C10",
    scenarios: &[sc("plugins", 4, 40000, 3000000, tree::c10), sc("summaries", 1, 40000, 3000000, crate::dressed::c10_kinds)],
    quick_runs: 120000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "plugin seen on a node during the run", "plugin seen complete during the run", "restricted coverage indexes attached", "own plugins attached", "plugins attached again", "singleton gaussians attached", "both summaries seen during the run", "fault label unreadable"],
};
pub static C11: Plan = Plan {
    id: "C11",
    scenarios: &[sc("bulk", 6, 40000, 3000000, tree::c11), sc("bulk-array", 2, 40000, 3000000, tree::c11_array)],
    quick_runs: 70000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["fault point access failed", "column major arrays", "strided arrays"],
};
pub static C20: Plan = Plan {
    id: "C20",
    scenarios: &[sc("distances", 20, 20000, 1000000, tree::c20), sc("distances-extreme", 1, 20000, 1000000, tree::c20_extreme)],
    quick_runs: 150000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["moments and matrices compared", "fault point access failed", "lists that returned an error", "rayon job taken by another worker"],
};

const FILE_REAL: &[&str] = &["goko::utils save_tree and load_tree", "goko::covertree save and load", "protobuf encoding and decoding", "std::fs on a simulated disk", "goko::covertree, goko::monomap", "rayon's parallel iterators"];
const FILE_STUB: &[&str] = &["disk: C library file calls below /sim/ work on memory that keeps apart what is synced; the scheduler decides failures, short transfers, interruptions, the moment of a crash and what unsynced data survives", "data source: in memory", "rayon-core's thread pool: simulated workers", "clock and entropy"];
const FILE_ASSUME: &[&str] = &["after a power failure name changes survive as a prefix of their order, unsynced writes in any subset, torn at any byte", "one process saves to a path at a time"];

pub static C12: Plan = Plan {
    id: "C12",
    scenarios: &[sc("round-trip", 1, 40000, 3000000, files::c12)],
    quick_runs: 60000,
    rule: TREE_RULE,
    real: FILE_REAL,
    stub: FILE_STUB,
    assumptions: FILE_ASSUME,
    probes: &["fault short transfer", "fault interrupted call", "data sets over 300 points"],
};
pub static C13: Plan = Plan {
    id: "C13",
    scenarios: &[sc("save-faults", 1, 60000, 3000000, files::c13)],
    quick_runs: 65000,
    rule: TREE_RULE,
    real: FILE_REAL,
    stub: FILE_STUB,
    assumptions: FILE_ASSUME,
    probes: &["saves at the same time", "fault crash", "fault disk full", "fault sync failed", "fault rename failed", "fault open failed", "fault write failed", "fault unsynced data lost", "fault torn write", "fault name changes lost", "crashes that left the new tree", "crashes that left the previous tree", "saves that returned an error", "power failures after a successful save"],
};
pub static C14: Plan = Plan {
    id: "C14",
    scenarios: &[sc("damaged-file", 1, 60000, 3000000, files::c14)],
    quick_runs: 80000,
    rule: TREE_RULE,
    real: FILE_REAL,
    stub: FILE_STUB,
    assumptions: FILE_ASSUME,
    probes: &["fault file truncated", "fault bits flipped", "fault read failed", "fault points missing", "loads that returned an error", "damage that gave another sound tree"],
};

pub static C21: Plan = Plan {
    id: "C21",
    scenarios: &[sc("load", 1, 60000, 3000000, load::c21)],
    quick_runs: 65000,
    rule: "each run draws data and label files, their layout and damage, configurations, the loaders to call, the calls that fail and the order of loaders working at the same time from its seed; a run is non-trivial and distinct if its sequence of context switches differs from every other run's",
    real: &["pointcloud's data sources, glued clouds, label sources and loaders", "goko's building of trees from configurations", "csv, flate2, glob, yaml-rust", "Rust's file system layer"],
    stub: &["file system: open, read, map, unmap, directory listing on an in-memory disk below /sim, seeded"],
    assumptions: &["files do not change while they are being loaded", "a mapping shows the file as it was when mapped"],
    probes: &["fault short transfer", "fault open failed", "fault read failed", "fault map failed", "fault file missing", "fault size not a multiple", "fault file truncated", "fault directory in its place", "fault unreadable label", "fault gzip truncated", "fault gzip check sum", "fault unusable configuration", "fault wrong count", "gzip files of several members", "loads failed by the disk", "loads refused", "loads that got through failed calls", "runs with several loaders", "glued clouds reindexed", "reindexing refused"],
};

const SERVE_RULE: &str = "each run draws a data set, build parameters, clients with their requests and encodings, connection behaviour (buffer sizes, fragmentation, resets, stalls) and the order in which tasks are polled and clients act from its seed; a run is non-trivial and distinct if its sequence of context switches differs from every other run's";
const SERVE_REAL: &[&str] = &["serve_goko (service, parsers, API, tracker workers)", "hyper's HTTP/1 server", "tokio's channels, locks and task machinery", "goko tree, queries and trackers", "pointcloud's L2 metric", "flate2, rmp-serde, serde_json"];
const SERVE_STUB: &[&str] = &["sockets and listener (in memory, seeded)", "tokio's run queue: simulated threads poll tasks in seeded order", "data source (seeded failures)", "clients"];
const SERVE_ASSUME: &[&str] = &["HTTP/1 only", "a task is polled by one thread at a time (tokio's own guarantee)", "scheduling points at socket, data and tree accesses"];

pub static C15: Plan = Plan {
    id: "C15",
    scenarios: &[sc("clients", 3, 40000, 2000000, serve::c15), sc("services", 1, 40000, 2000000, serve::c15_services)],
    quick_runs: 25000,
    rule: SERVE_RULE,
    real: SERVE_REAL,
    stub: SERVE_STUB,
    assumptions: SERVE_ASSUME,
    probes: &["chunked bodies", "compressed bodies", "answers compared", "malformed refused with a status", "malformed requests refused by closing", "fault short socket read", "fault connection reset", "refused as data could not be read"],
};
pub static C16: Plan = Plan {
    id: "C16",
    scenarios: &[sc("hostile-clients", 3, 40000, 2000000, serve::c16), sc("services", 1, 40000, 2000000, serve::c16_services)],
    quick_runs: 18000,
    rule: SERVE_RULE,
    real: SERVE_REAL,
    stub: SERVE_STUB,
    assumptions: SERVE_ASSUME,
    probes: &["fault connection reset", "fault connection reset while answering", "fault connection cut", "fault client stalled", "fault client not reading", "runs with failing data", "malformed requests", "services used to the end"],
};
pub static C17: Plan = Plan {
    id: "C17",
    scenarios: &[sc("shared-trackers", 1, 40000, 2000000, serve::c17)],
    quick_runs: 20000,
    rule: SERVE_RULE,
    real: SERVE_REAL,
    stub: SERVE_STUB,
    assumptions: SERVE_ASSUME,
    probes: &["tracker histories checked", "fault connection lost while tracking", "fault request cancelled", "clients through the library"],
};
pub static C18: Plan = Plan {
    id: "C18",
    scenarios: &[sc("requests-in-flight", 1, 40000, 2000000, serve::c18)],
    quick_runs: 35000,
    rule: SERVE_RULE,
    real: SERVE_REAL,
    stub: SERVE_STUB,
    assumptions: SERVE_ASSUME,
    probes: &["requests polled before they were ready", "fault request dropped in flight", "fault runtime shut down", "requests that failed", "requests answered", "fault body aborted", "runs with many requests in flight"],
};
pub static C19: Plan = Plan {
    id: "C19",
    scenarios: &[sc("windows", 1, 40000, 2000000, track::c19)],
    quick_runs: 45000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "windows that slid", "unlimited trackers", "trackers appended", "fault writer dropped", "trackers recomputed"],
};

pub static C24: Plan = Plan {
    id: "C24",
    scenarios: &[sc("baseline", 1, 40000, 2000000, track::c24)],
    quick_runs: 40000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["baselines trained", "trainings that failed", "full sequences compared", "first samples compared", "second samples compared", "randomness of many sequences judged", "fault writer dropped"],
};

pub static C26: Plan = Plan {
    id: "C26",
    scenarios: &[sc("draws", 1, 30000, 2000000, draw::c26)],
    quick_runs: 60000,
    rule: TREE_RULE,
    real: TREE_REAL,
    stub: TREE_STUB,
    assumptions: TREE_ASSUME,
    probes: &["trees saved and loaded", "distributions drawn from", "empty distributions drawn from", "walks to the end", "priors changed", "divergences compared", "categoricals compared", "categoricals not comparable", "fault writer dropped", "nothing to draw from any more"],
};

pub static PLANS: &[&Plan] = &[&C01, &C02, &C03, &C04, &C05, &C06, &C07, &C08, &C09, &C10, &C11, &C12, &C13, &C14, &C15, &C16, &C17, &C18, &C19, &C20, &C21, &C24, &C25, &C26];
