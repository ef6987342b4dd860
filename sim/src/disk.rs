//! A simulated disk: every path below /sim/ lives in memory, with what would survive a power failure kept apart
//! from what the running process sees. The C library's file functions are taken over for such paths and for
//! descriptors opened on them; the scheduler decides short transfers, interruptions, failures and the moment of a crash.
use crate::interpose::{ret, set_errno};
use simcore::raw::syscall6;
use simcore::{chance, count, decide};
use std::collections::BTreeMap;
use std::ffi::CStr;

pub const ROOT: &str = "/sim";
const FD0: i32 = 700_000;

#[derive(Clone, Debug)]
enum DataOp {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
#[derive(Clone, Debug)]
enum NsOp {
    Add(String, usize),
    Del(String),
    Move(String, String),
}
#[derive(Clone, Default)]
struct Inode {
    dir: bool,
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<DataOp>,
}
struct Fd {
    ino: usize,
    pos: usize,
    flags: i32,
    path: String,
}
#[derive(Default, Clone, Debug)]
pub struct Faults {
    /// Interrupted calls and short transfers, which change nothing for a correct program.
    pub benign: bool,
    /// Per mille of calls that fail outright.
    pub errors: usize,
    /// This call fails outright.
    pub fail_at: Option<u64>,
    /// Bytes until the disk is full.
    pub room: Option<usize>,
    /// The machine stops at this call.
    pub crash_at: Option<u64>,
}
#[derive(Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    ns: Vec<NsOp>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub faults: Faults,
    pub ops: u64,
    pub dead: bool,
    /// Calls that were made to fail.
    pub failed: u64,
    pub last_failed: &'static str,
    maps: Vec<(usize, usize)>,
    dirs: Vec<Box<DirStream>>,
    pub bad_unmap: Option<String>,
    pub mapped: u64,
}
struct DirStream {
    fd: i32,
    names: Vec<(String, usize, bool)>,
    pos: usize,
    ent: libc::dirent64,
}

static mut DISK: *mut Disk = std::ptr::null_mut();

pub fn disk() -> &'static mut Disk {
    unsafe {
        if DISK.is_null() {
            let mut d = Disk { next_fd: FD0, ..Default::default() };
            d.inodes.push(Inode { dir: true, ..Default::default() });
            d.names.insert(ROOT.to_string(), 0);
            d.durable_names.insert(ROOT.to_string(), 0);
            DISK = Box::into_raw(Box::new(d));
        }
        &mut *DISK
    }
}

fn parent(p: &str) -> &str {
    &p[..p.rfind('/').unwrap_or(0)]
}
fn apply(d: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write(off, b) => {
            if d.len() < off + b.len() {
                d.resize(off + b.len(), 0);
            }
            d[*off..off + b.len()].copy_from_slice(b);
        }
        DataOp::Trunc(n) => d.resize(*n, 0),
    }
}
fn apply_ns(m: &mut BTreeMap<String, usize>, op: &NsOp) {
    match op {
        NsOp::Add(p, i) => {
            m.insert(p.clone(), *i);
        }
        NsOp::Del(p) => {
            m.remove(p);
        }
        NsOp::Move(a, b) => {
            if let Some(i) = m.remove(a) {
                m.insert(b.clone(), i);
            }
        }
    }
}

impl Disk {
    fn ns(&mut self, op: NsOp) {
        apply_ns(&mut self.names, &op);
        self.ns.push(op);
    }
    fn data(&mut self, ino: usize, op: DataOp) {
        let i = &mut self.inodes[ino];
        apply(&mut i.data, &op);
        i.pending.push(op);
    }
    /// Called by scenarios: puts a file there as if it had always been, safely on disk.
    pub fn put(&mut self, path: &str, bytes: &[u8]) {
        self.mkdirs(parent(path));
        let ino = self.inodes.len();
        self.inodes.push(Inode { dir: false, data: bytes.to_vec(), durable: bytes.to_vec(), pending: vec![] });
        self.names.insert(path.to_string(), ino);
        self.durable_names.insert(path.to_string(), ino);
    }
    pub fn mkdirs(&mut self, path: &str) {
        if self.names.contains_key(path) {
            return;
        }
        self.mkdirs(parent(path));
        let ino = self.inodes.len();
        self.inodes.push(Inode { dir: true, ..Default::default() });
        self.names.insert(path.to_string(), ino);
        self.durable_names.insert(path.to_string(), ino);
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
        self.durable_names.remove(path);
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.names.get(path).map(|i| self.inodes[*i].data.clone())
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    pub fn open_maps(&self) -> usize {
        self.maps.len()
    }
    /// Makes everything durable.
    pub fn settle(&mut self) {
        self.durable_names = self.names.clone();
        self.ns.clear();
        for i in self.inodes.iter_mut() {
            i.durable = i.data.clone();
            i.pending.clear();
        }
    }
    /// What a process finds after it was killed (nothing is lost) or after the power failed (anything not synced may be lost).
    pub fn restart(&mut self, power: bool) {
        self.fds.clear();
        self.dead = false;
        self.faults = Faults::default();
        if !power {
            return;
        }
        // the names change in order, but how many of the changes made it is open
        let keep = decide("names kept", self.ns.len() + 1);
        if keep < self.ns.len() {
            count("fault name changes lost");
        }
        let log = std::mem::take(&mut self.ns);
        for op in &log[..keep] {
            apply_ns(&mut self.durable_names, op);
        }
        self.names = self.durable_names.clone();
        for i in self.inodes.iter_mut() {
            if i.pending.is_empty() {
                continue;
            }
            let ops = std::mem::take(&mut i.pending);
            match decide("data kept", 4) {
                // none of it
                0 => count("fault unsynced data lost"),
                // a prefix, the last write torn
                1 => {
                    let n = decide("writes kept", ops.len() + 1);
                    for (k, op) in ops.iter().enumerate().take(n) {
                        match op {
                            DataOp::Write(o, b) if k + 1 == n => {
                                let cut = decide("torn at", b.len().min(60_000) + 1);
                                apply(&mut i.durable, &DataOp::Write(*o, b[..cut].to_vec()));
                                count("fault torn write");
                            }
                            op => apply(&mut i.durable, op),
                        }
                    }
                }
                // any of them, in any order of arrival: some stay away, their space reads as zeros
                2 => {
                    for op in &ops {
                        if decide("write kept", 2) == 1 {
                            apply(&mut i.durable, op);
                        } else {
                            count("fault write lost");
                            if let DataOp::Write(o, b) = op {
                                if i.durable.len() < o + b.len() && decide("size kept", 2) == 1 {
                                    let n = o + b.len();
                                    apply(&mut i.durable, &DataOp::Trunc(n));
                                }
                            }
                        }
                    }
                }
                _ => {
                    for op in &ops {
                        apply(&mut i.durable, op);
                    }
                }
            }
            i.data = i.durable.clone();
        }
    }
}

/// Begins a call. Err: it is to fail with this error.
fn enter(what: &'static str, hard: &[i32], interruptible: bool) -> Result<(), i32> {
    simcore::step(what);
    let d = disk();
    if d.dead {
        return Err(libc::EIO);
    }
    d.ops += 1;
    if d.faults.crash_at == Some(d.ops) {
        d.dead = true;
        count("fault crash");
        return Err(libc::EIO);
    }
    if d.faults.benign && interruptible && chance("interrupted", 120) {
        count("fault interrupted call");
        return Err(libc::EINTR);
    }
    if !hard.is_empty() {
        let hit = d.faults.fail_at == Some(d.ops) || (d.faults.errors > 0 && chance("file error", d.faults.errors));
        if hit {
            let e = hard[decide("which error", hard.len())];
            d.failed += 1;
            d.last_failed = what;
            count(match what {
                "file open" => "fault open failed",
                "file read" => "fault read failed",
                "file write" => "fault write failed",
                "file sync" => "fault sync failed",
                "file rename" => "fault rename failed",
                "file map" => "fault map failed",
                _ => "fault file call failed",
            });
            return Err(e);
        }
    }
    Ok(())
}
fn fail_with(e: i32) -> isize {
    unsafe { set_errno(e) };
    -1
}

fn sim_path(p: *const libc::c_char) -> Option<String> {
    if p.is_null() || !simcore::in_sim() {
        return None;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    if b == b"/sim" || b.starts_with(b"/sim/") {
        let s = String::from_utf8_lossy(b).to_string();
        // normalise . and .. and doubled slashes
        let mut parts: Vec<&str> = vec![];
        for c in s.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                c => parts.push(c),
            }
        }
        Some(format!("/{}", parts.join("/")))
    } else {
        None
    }
}
fn sim_fd(fd: i32) -> bool {
    fd >= FD0 && unsafe { !DISK.is_null() }
}

fn open_path(path: String, flags: i32) -> isize {
    let writing = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let hard: &[i32] = if writing { &[libc::EACCES, libc::ENOSPC, libc::EIO, libc::EMFILE, libc::EROFS] } else { &[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENFILE] };
    if let Err(e) = enter("file open", hard, flags & libc::O_DIRECTORY == 0) {
        return fail_with(e);
    }
    let d = disk();
    let ino = match d.names.get(&path).copied() {
        Some(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail_with(libc::EEXIST);
            }
            if d.inodes[i].dir && writing {
                return fail_with(libc::EISDIR);
            }
            if !d.inodes[i].dir && flags & libc::O_DIRECTORY != 0 {
                return fail_with(libc::ENOTDIR);
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return fail_with(libc::ENOENT);
            }
            match d.names.get(parent(&path)) {
                Some(p) if d.inodes[*p].dir => {}
                Some(_) => return fail_with(libc::ENOTDIR),
                None => return fail_with(libc::ENOENT),
            }
            let i = d.inodes.len();
            d.inodes.push(Inode::default());
            d.ns(NsOp::Add(path.clone(), i));
            i
        }
    };
    if flags & libc::O_TRUNC != 0 && writing && !d.inodes[ino].data.is_empty() {
        d.data(ino, DataOp::Trunc(0));
    }
    let fd = d.next_fd;
    d.next_fd += 1;
    d.fds.insert(fd, Fd { ino, pos: 0, flags, path });
    fd as isize
}

    // local file systems do not interrupt reads of files
fn read_at(fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> isize {
    if let Err(e) = enter("file read", &[libc::EIO], false) {
        return fail_with(e);
    }
    let d = disk();
    let f = match d.fds.get_mut(&fd) {
        Some(f) => f,
        None => return fail_with(libc::EBADF),
    };
    let i = &d.inodes[f.ino];
    if i.dir {
        return fail_with(libc::EISDIR);
    }
    let pos = at.unwrap_or(f.pos);
    let mut len = n.min(i.data.len().saturating_sub(pos));
    if d.faults.benign && len > 1 && chance("short", 300) {
        len = 1 + decide("short by", (len - 1).min(60_000));
        count("fault short transfer");
    }
    if len > 0 {
        unsafe { std::ptr::copy_nonoverlapping(i.data[pos..].as_ptr(), buf, len) };
    }
    if at.is_none() {
        f.pos = pos + len;
    }
    len as isize
}

fn write_at(fd: i32, buf: *const u8, n: usize, at: Option<usize>) -> isize {
    let dead = disk().dead;
    if let Err(e) = enter("file write", &[libc::EIO, libc::ENOSPC, libc::EDQUOT], true) {
        // the machine may stop with part of the data written
        let d = disk();
        if d.dead && !dead && n > 0 {
            let cut = decide("crash mid write", n.min(60_000) + 1);
            if let Some(f) = d.fds.get(&fd) {
                let (ino, pos) = (f.ino, at.unwrap_or(f.pos));
                let b = unsafe { std::slice::from_raw_parts(buf, cut) }.to_vec();
                d.data(ino, DataOp::Write(pos, b));
            }
        }
        return fail_with(e);
    }
    let d = disk();
    let f = match d.fds.get(&fd) {
        Some(f) => f,
        None => return fail_with(libc::EBADF),
    };
    if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
        return fail_with(libc::EBADF);
    }
    let ino = f.ino;
    let pos = if f.flags & libc::O_APPEND != 0 { d.inodes[ino].data.len() } else { at.unwrap_or(f.pos) };
    let mut len = n;
    if let Some(room) = d.faults.room {
        if room == 0 && n > 0 {
            d.failed += 1;
            d.last_failed = "file write";
            count("fault disk full");
            return fail_with(libc::ENOSPC);
        }
        len = len.min(room);
    }
    if d.faults.benign && len > 1 && chance("short", 300) {
        len = 1 + decide("short by", (len - 1).min(60_000));
        count("fault short transfer");
    }
    if let Some(room) = d.faults.room.as_mut() {
        *room -= len;
    }
    let b = unsafe { std::slice::from_raw_parts(buf, len) }.to_vec();
    d.data(ino, DataOp::Write(pos, b));
    if at.is_none() {
        d.fds.get_mut(&fd).unwrap().pos = pos + len;
    }
    len as isize
}

fn sync(fd: i32) -> isize {
    if let Err(e) = enter("file sync", &[libc::EIO, libc::ENOSPC], true) {
        return fail_with(e);
    }
    let d = disk();
    let ino = match d.fds.get(&fd) {
        Some(f) => f.ino,
        None => return fail_with(libc::EBADF),
    };
    if d.inodes[ino].dir {
        for op in std::mem::take(&mut d.ns) {
            apply_ns(&mut d.durable_names, &op);
        }
    } else {
        let i = &mut d.inodes[ino];
        i.durable = i.data.clone();
        i.pending.clear();
    }
    count("syncs");
    0
}

fn do_rename(a: String, b: String, noreplace: bool) -> isize {
    if let Err(e) = enter("file rename", &[libc::EIO, libc::EACCES, libc::ENOSPC], false) {
        return fail_with(e);
    }
    let d = disk();
    let i = match d.names.get(&a) {
        Some(i) => *i,
        None => return fail_with(libc::ENOENT),
    };
    match d.names.get(parent(&b)) {
        Some(p) if d.inodes[*p].dir => {}
        _ => return fail_with(libc::ENOENT),
    }
    if let Some(j) = d.names.get(&b) {
        if noreplace {
            return fail_with(libc::EEXIST);
        }
        if d.inodes[*j].dir != d.inodes[i].dir {
            return fail_with(if d.inodes[*j].dir { libc::EISDIR } else { libc::ENOTDIR });
        }
    }
    if a != b {
        d.ns(NsOp::Move(a, b));
    }
    0
}

fn do_unlink(p: String, dir: bool) -> isize {
    if let Err(e) = enter("file unlink", &[libc::EIO, libc::EACCES], false) {
        return fail_with(e);
    }
    let d = disk();
    match d.names.get(&p) {
        None => fail_with(libc::ENOENT),
        Some(i) if d.inodes[*i].dir && !dir => fail_with(libc::EISDIR),
        Some(i) if !d.inodes[*i].dir && dir => fail_with(libc::ENOTDIR),
        Some(_) => {
            let pre = format!("{}/", p);
            if dir && d.names.keys().any(|k| k.starts_with(&pre)) {
                return fail_with(libc::ENOTEMPTY);
            }
            d.ns(NsOp::Del(p));
            0
        }
    }
}

fn fill_stat(ino: usize, st: *mut libc::stat64) {
    let i = &disk().inodes[ino];
    unsafe {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_ino = ino as u64 + 1;
        (*st).st_nlink = 1;
        (*st).st_mode = if i.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
        (*st).st_size = i.data.len() as i64;
        (*st).st_blksize = 4096;
        (*st).st_blocks = (i.data.len() as i64 + 511) / 512;
    }
}
fn stat_path(p: &str, st: *mut libc::stat64) -> isize {
    if let Err(e) = enter("file stat", &[], false) {
        return fail_with(e);
    }
    match disk().names.get(p) {
        Some(i) => {
            fill_stat(*i, st);
            0
        }
        None => fail_with(libc::ENOENT),
    }
}
fn stat_fd(fd: i32, st: *mut libc::stat64) -> isize {
    if let Err(e) = enter("file stat", &[], false) {
        return fail_with(e);
    }
    match disk().fds.get(&fd) {
        Some(f) => {
            fill_stat(f.ino, st);
            0
        }
        None => fail_with(libc::EBADF),
    }
}
fn statx_from(st: &libc::stat64, out: *mut libc::statx) {
    unsafe {
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*out).stx_mask = 0x7ff;
        (*out).stx_ino = st.st_ino;
        (*out).stx_nlink = 1;
        (*out).stx_mode = st.st_mode as u16;
        (*out).stx_size = st.st_size as u64;
        (*out).stx_blksize = 4096;
        (*out).stx_blocks = st.st_blocks as u64;
    }
}

macro_rules! sys {
    ($n:expr $(, $a:expr)*) => {{
        let mut v = [0usize; 6];
        let mut i = 0;
        $( v[i] = $a as usize; i += 1; )*
        let _ = i;
        ret(syscall6($n, v[0], v[1], v[2], v[3], v[4], v[5]))
    }};
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    match sim_path(p) {
        Some(s) => open_path(s, flags) as i32,
        None => sys!(libc::SYS_open, p, flags, mode) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    match sim_path(p) {
        Some(s) => open_path(s, flags) as i32,
        None => sys!(libc::SYS_openat, dir, p, flags, mode) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim_fd(fd) {
        simcore::step("file close");
        return if disk().fds.remove(&fd).is_some() || disk().dead { 0 } else { fail_with(libc::EBADF) as i32 };
    }
    sys!(libc::SYS_close, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if sim_fd(fd) {
        return read_at(fd, b, n, None);
    }
    sys!(libc::SYS_read, fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return read_at(fd, b, n, Some(off as usize));
    }
    sys!(libc::SYS_pread64, fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if sim_fd(fd) {
        for k in 0..n as usize {
            let io = &*v.add(k);
            if io.iov_len > 0 {
                return read_at(fd, io.iov_base as *mut u8, io.iov_len, None);
            }
        }
        return 0;
    }
    sys!(libc::SYS_readv, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if sim_fd(fd) {
        return write_at(fd, b, n, None);
    }
    sys!(libc::SYS_write, fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return write_at(fd, b, n, Some(off as usize));
    }
    sys!(libc::SYS_pwrite64, fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if sim_fd(fd) {
        for k in 0..n as usize {
            let io = &*v.add(k);
            if io.iov_len > 0 {
                return write_at(fd, io.iov_base as *const u8, io.iov_len, None);
            }
        }
        return 0;
    }
    sys!(libc::SYS_writev, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if sim_fd(fd) {
        let d = disk();
        let f = match d.fds.get_mut(&fd) {
            Some(f) => f,
            None => return fail_with(libc::EBADF) as i64,
        };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            _ => d.inodes[f.ino].data.len() as i64,
        };
        if base + off < 0 {
            return fail_with(libc::EINVAL) as i64;
        }
        f.pos = (base + off) as usize;
        return f.pos as i64;
    }
    sys!(libc::SYS_lseek, fd, off, whence) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if sim_fd(fd) {
        if let Err(e) = enter("file truncate", &[libc::EIO, libc::ENOSPC], true) {
            return fail_with(e) as i32;
        }
        let d = disk();
        return match d.fds.get(&fd) {
            Some(f) => {
                let ino = f.ino;
                d.data(ino, DataOp::Trunc(n as usize));
                0
            }
            None => fail_with(libc::EBADF) as i32,
        };
    }
    sys!(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if sim_fd(fd) {
        return sync(fd) as i32;
    }
    sys!(libc::SYS_fsync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if sim_fd(fd) {
        return sync(fd) as i32;
    }
    sys!(libc::SYS_fdatasync, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => do_rename(a, b, false) as i32,
        (None, None) => sys!(libc::SYS_rename, a, b) as i32,
        _ => fail_with(libc::EXDEV) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: i32, a: *const libc::c_char, e: i32, b: *const libc::c_char) -> i32 {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => do_rename(a, b, false) as i32,
        (None, None) => sys!(libc::SYS_renameat, d, a, e, b) as i32,
        _ => fail_with(libc::EXDEV) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    match sim_path(p) {
        Some(s) => do_unlink(s, false) as i32,
        None => sys!(libc::SYS_unlink, p) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, p: *const libc::c_char, flags: i32) -> i32 {
    match sim_path(p) {
        Some(s) => do_unlink(s, flags & libc::AT_REMOVEDIR != 0) as i32,
        None => sys!(libc::SYS_unlinkat, d, p, flags) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const libc::c_char) -> i32 {
    match sim_path(p) {
        Some(s) => do_unlink(s, true) as i32,
        None => sys!(libc::SYS_rmdir, p) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: u32) -> i32 {
    match sim_path(p) {
        Some(s) => {
            if let Err(e) = enter("file mkdir", &[libc::ENOSPC, libc::EACCES], false) {
                return fail_with(e) as i32;
            }
            let d = disk();
            if d.names.contains_key(&s) {
                return fail_with(libc::EEXIST) as i32;
            }
            if !d.names.contains_key(parent(&s)) {
                return fail_with(libc::ENOENT) as i32;
            }
            let i = d.inodes.len();
            d.inodes.push(Inode { dir: true, ..Default::default() });
            d.ns(NsOp::Add(s, i));
            0
        }
        None => sys!(libc::SYS_mkdir, p, mode) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: i32, a: *const libc::c_char, db: i32, b: *const libc::c_char, flags: i32) -> i32 {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => {
            if let Err(e) = enter("file link", &[libc::ENOSPC, libc::EACCES], false) {
                return fail_with(e) as i32;
            }
            let d = disk();
            if d.names.contains_key(&b) {
                return fail_with(libc::EEXIST) as i32;
            }
            match d.names.get(&a).copied() {
                Some(i) => {
                    d.ns(NsOp::Add(b, i));
                    0
                }
                None => fail_with(libc::ENOENT) as i32,
            }
        }
        (None, None) => sys!(libc::SYS_linkat, da, a, db, b, flags) as i32,
        _ => fail_with(libc::EXDEV) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    match sim_path(p) {
        Some(s) => stat_path(&s, st) as i32,
        None => sys!(libc::SYS_stat, p, st) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    match sim_path(p) {
        Some(s) => stat_path(&s, st) as i32,
        None => sys!(libc::SYS_lstat, p, st) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const libc::c_char, st: *mut libc::stat64) -> i32 {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut libc::stat64) -> i32 {
    if sim_fd(fd) {
        return stat_fd(fd, st) as i32;
    }
    sys!(libc::SYS_fstat, fd, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut libc::stat64) -> i32 {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: i32, p: *const libc::c_char, st: *mut libc::stat64, flags: i32) -> i32 {
    if sim_fd(dir) {
        let name = CStr::from_ptr(p).to_string_lossy().to_string();
        let base = match disk().fds.get(&dir) {
            Some(f) => f.path.clone(),
            None => return fail_with(libc::EBADF) as i32,
        };
        return stat_path(&format!("{}/{}", base, name), st) as i32;
    }
    match sim_path(p) {
        Some(s) => stat_path(&s, st) as i32,
        None => sys!(libc::SYS_newfstatat, dir, p, st, flags) as i32,
    }
}
pub unsafe fn do_statx(dir: i32, p: *const libc::c_char, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
    let mut st: libc::stat64 = std::mem::zeroed();
    let empty = !p.is_null() && *p == 0;
    let r = if sim_fd(dir) && (empty || p.is_null()) {
        stat_fd(dir, &mut st)
    } else if sim_fd(dir) && *p != b'/' as i8 {
        fstatat64(dir, p, &mut st, 0) as isize
    } else {
        match sim_path(p) {
            Some(s) => stat_path(&s, &mut st),
            None => return sys!(libc::SYS_statx, dir, p, flags, mask, out) as i32,
        }
    };
    if r == 0 {
        statx_from(&st, out);
    }
    r as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, p: *const libc::c_char, flags: i32, mask: u32, out: *mut libc::statx) -> i32 {
    do_statx(dir, p, flags, mask, out)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const libc::c_char, mode: i32) -> i32 {
    match sim_path(p) {
        Some(s) => {
            if disk().names.contains_key(&s) {
                0
            } else {
                fail_with(libc::ENOENT) as i32
            }
        }
        None => sys!(libc::SYS_access, p, mode) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if sim_fd(fd) {
        if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
            let d = disk();
            let (ino, pos, flags, path) = match d.fds.get(&fd) {
                Some(f) => (f.ino, f.pos, f.flags, f.path.clone()),
                None => return fail_with(libc::EBADF) as i32,
            };
            let n = d.next_fd;
            d.next_fd += 1;
            d.fds.insert(n, Fd { ino, pos, flags, path });
            return n;
        }
        return 0;
    }
    sys!(libc::SYS_fcntl, fd, cmd, arg) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, mode: u32) -> i32 {
    if sim_fd(fd) {
        return 0;
    }
    sys!(libc::SYS_fchmod, fd, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if sim_fd(fd) {
        return 0;
    }
    sys!(libc::SYS_flock, fd, op) as i32
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, ao: *mut i64, b: i32, bo: *mut i64, n: usize, flags: u32) -> isize {
    if sim_fd(a) || sim_fd(b) {
        return fail_with(libc::EINVAL);
    }
    sys!(libc::SYS_copy_file_range, a, ao, b, bo, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: i32, i: i32, off: *mut i64, n: usize) -> isize {
    if sim_fd(o) || sim_fd(i) {
        return fail_with(libc::EINVAL);
    }
    sys!(libc::SYS_sendfile, o, i, off, n)
}

// ---- directories

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const libc::c_char) -> *mut libc::DIR {
    type F = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR;
    match sim_path(p) {
        Some(s) => {
            let fd = open_path(s.clone(), libc::O_RDONLY | libc::O_DIRECTORY);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            let d = disk();
            let pre = format!("{}/", s);
            // the order in which a directory lists its entries is not specified
            let mut names: Vec<(String, usize, bool)> = d.names.iter().filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/')).map(|(k, i)| (k[pre.len()..].to_string(), *i, d.inodes[*i].dir)).collect();
            for k in (1..names.len()).rev() {
                names.swap(k, decide("directory order", k + 1));
            }
            d.dirs.push(Box::new(DirStream { fd: fd as i32, names, pos: 0, ent: std::mem::zeroed() }));
            &mut **d.dirs.last_mut().unwrap() as *mut DirStream as *mut libc::DIR
        }
        None => {
            let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"opendir\0".as_ptr() as *const _));
            f(p)
        }
    }
}
fn our_dir(p: *mut libc::DIR) -> Option<usize> {
    if unsafe { DISK.is_null() } {
        return None;
    }
    disk().dirs.iter().position(|x| &**x as *const DirStream as usize == p as usize)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(p: *mut libc::DIR) -> *mut libc::dirent64 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    match our_dir(p) {
        Some(_) => {
            if let Err(e) = enter("dir read", &[libc::EIO], false) {
                fail_with(e);
                return std::ptr::null_mut();
            }
            // others may have closed theirs meanwhile
            let k = our_dir(p).unwrap();
            let s = &mut disk().dirs[k];
            if s.pos == s.names.len() {
                return std::ptr::null_mut();
            }
            let (n, ino, dir) = s.names[s.pos].clone();
            s.pos += 1;
            s.ent = std::mem::zeroed();
            s.ent.d_ino = ino as u64 + 1;
            s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            s.ent.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
            for (a, b) in s.ent.d_name.iter_mut().zip(n.as_bytes()) {
                *a = *b as i8;
            }
            &mut s.ent
        }
        None => {
            let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const _));
            f(p)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(p: *mut libc::DIR) -> i32 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> i32;
    match our_dir(p) {
        Some(k) => {
            let s = disk().dirs.remove(k);
            disk().fds.remove(&s.fd);
            0
        }
        None => {
            let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"closedir\0".as_ptr() as *const _));
            f(p)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(p: *mut libc::DIR) -> i32 {
    type F = unsafe extern "C" fn(*mut libc::DIR) -> i32;
    match our_dir(p) {
        Some(k) => disk().dirs[k].fd,
        None => {
            let f: F = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"dirfd\0".as_ptr() as *const _));
            f(p)
        }
    }
}

// ---- mappings

const PAGE: usize = 4096;
fn pages(n: usize) -> usize {
    (n + PAGE - 1) / PAGE * PAGE
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize {
    if !sim_fd(fd) || flags & libc::MAP_ANONYMOUS != 0 {
        return sys!(libc::SYS_mmap, addr, len, prot, flags, fd, off) as usize;
    }
    if let Err(e) = enter("file map", &[libc::ENOMEM, libc::EACCES, libc::ENODEV], false) {
        return fail_with(e) as usize;
    }
    let d = disk();
    let f = match d.fds.get(&fd) {
        Some(f) => f,
        None => return fail_with(libc::EBADF) as usize,
    };
    if len == 0 || off as usize % PAGE != 0 {
        return fail_with(libc::EINVAL) as usize;
    }
    let data = &d.inodes[f.ino].data;
    let have = data.len().saturating_sub(off as usize);
    // a page on either side belongs to nobody, and whole pages past the end of the file cannot be touched
    let total = pages(len) + 2 * PAGE;
    let base = syscall6(libc::SYS_mmap, 0, total, 0, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
    if base < 0 {
        return fail_with(libc::ENOMEM) as usize;
    }
    let at = base as usize + PAGE;
    let n = have.min(pages(len));
    if n > 0 {
        syscall6(libc::SYS_mprotect, at, pages(n), 3, 0, 0, 0);
        std::ptr::copy_nonoverlapping(data[off as usize..].as_ptr(), at as *mut u8, n);
        syscall6(libc::SYS_mprotect, at, pages(n), (prot & 3) as usize, 0, 0, 0);
    }
    d.maps.push((at, pages(len)));
    d.mapped += 1;
    at
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize {
    mmap64(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: usize, len: usize) -> i32 {
    if !DISK.is_null() && simcore::on_sim_thread() {
        let d = disk();
        if let Some(k) = d.maps.iter().position(|(a, n)| addr < a + n + PAGE && addr + len > a - PAGE) {
            let (a, n) = d.maps[k];
            if addr % PAGE != 0 || len == 0 {
                d.bad_unmap = Some(format!("munmap({:#x}, {}) is not a valid call", addr, len));
                return fail_with(libc::EINVAL) as i32;
            }
            let end = addr + pages(len);
            if addr < a || end > a + n {
                d.bad_unmap = Some(format!("munmap of {} bytes at offset {} of a mapping of {}", len, addr as i64 - a as i64, n));
                return 0;
            }
            syscall6(libc::SYS_mprotect, addr, pages(len), 0, 0, 0, 0);
            d.maps.remove(k);
            if addr > a {
                d.maps.push((a, addr - a));
            }
            if end < a + n {
                d.maps.push((end, a + n - end));
            }
            return 0;
        }
    }
    sys!(libc::SYS_munmap, addr, len) as i32
}
