//! Memory shared between the process of a run and its parent: survives a crash of the run.
pub const TRACE_CAP: usize = 2_000_000;
pub const KINDS: usize = 160;
pub const NOTE_CAP: usize = 60_000;
pub const CTR: usize = 128;

#[repr(C)]
pub struct Shared {
    pub completed: u64,
    pub steps: u64,
    pub time: u64,
    pub switches: u64,
    pub threads: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub entropy: u64,
    pub evals: u64,
    pub trace_len: u64,
    pub failed: u64,
    pub category: [u8; 64],
    pub message_len: u64,
    pub message: [u8; 8192],
    pub note_len: u64,
    pub note: [u8; NOTE_CAP],
    pub kinds: [[u8; 24]; KINDS],
    pub ctr_names: [[u8; 40]; CTR],
    pub ctr: [u64; CTR],
    pub ctr_len: u64,
    pub trace_kind: [u8; TRACE_CAP],
    pub trace_val: [u16; TRACE_CAP],
}

fn put(dst: &mut [u8], s: &str) -> usize {
    let b = s.as_bytes();
    let n = b.len().min(dst.len());
    dst[..n].copy_from_slice(&b[..n]);
    for x in dst[n..].iter_mut().take(1) { *x = 0; }
    n
}
pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|c| *c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).to_string()
}

impl Shared {
    pub fn reset(&mut self) {
        self.completed = 0; self.steps = 0; self.time = 0; self.switches = 0; self.threads = 0; self.hash = 0;
        self.sched_hash = 0; self.state_hash = 0; self.entropy = 0; self.evals = 0; self.trace_len = 0; self.failed = 0;
        self.message_len = 0; self.note_len = 0; self.ctr_len = 0;
        self.category = [0; 64];
        self.kinds = [[0; 24]; KINDS];
    }
    pub fn set_kind(&mut self, i: usize, k: &str) { assert!(i < KINDS, "too many decision kinds"); put(&mut self.kinds[i], k); }
    pub fn push(&mut self, kind: u8, v: u16) {
        let i = self.trace_len as usize;
        if i < TRACE_CAP { self.trace_kind[i] = kind; self.trace_val[i] = v; self.trace_len += 1; }
    }
    pub fn set_failure(&mut self, category: &str, message: &str) {
        if self.failed == 0 {
            put(&mut self.category, category);
            self.message_len = put(&mut self.message, message) as u64;
            self.failed = 1;
        }
    }
    pub fn append_note(&mut self, s: &str) {
        let l = self.note_len as usize;
        let b = s.as_bytes();
        let n = b.len().min(NOTE_CAP.saturating_sub(l + 1));
        self.note[l..l + n].copy_from_slice(&b[..n]);
        if l + n < NOTE_CAP { self.note[l + n] = b'\n'; self.note_len = (l + n + 1) as u64; }
    }
    pub fn set_counters(&mut self, c: &[(&'static str, u64)]) {
        let n = c.len().min(CTR);
        for i in 0..n { put(&mut self.ctr_names[i], c[i].0); self.ctr[i] = c[i].1; }
        self.ctr_len = n as u64;
    }
    pub fn counters(&self) -> Vec<(String, u64)> {
        (0..self.ctr_len as usize).map(|i| (get(&self.ctr_names[i]), self.ctr[i])).collect()
    }
    pub fn message(&self) -> String { String::from_utf8_lossy(&self.message[..self.message_len as usize]).to_string() }
    pub fn note(&self) -> String { String::from_utf8_lossy(&self.note[..self.note_len as usize]).to_string() }
    pub fn streams(&self) -> Vec<(String, Vec<u16>)> {
        let mut out: Vec<(String, Vec<u16>)> = Vec::new();
        for k in 0..KINDS { if self.kinds[k][0] != 0 { out.push((get(&self.kinds[k]), Vec::new())); } }
        for i in 0..self.trace_len as usize { out[self.trace_kind[i] as usize].1.push(self.trace_val[i]); }
        out
    }
}
