//! The run queue of asynchronous tasks. Simulated worker threads take tasks from it in an order the scheduler chooses.
type Poll = Box<dyn FnOnce() + 'static>;

static mut QUEUE: Vec<Poll> = Vec::new();
static mut POLLS: u64 = 0;
static mut RUNNING: usize = 0;
const KEY: usize = usize::MAX - 91;

fn queue() -> &'static mut Vec<Poll> {
    unsafe { &mut *std::ptr::addr_of_mut!(QUEUE) }
}

/// Makes a task runnable. Called on a simulated thread; not a yield point.
pub fn push(p: Poll) {
    queue().push(p);
    crate::wake(KEY, 1);
}
/// Tasks waiting to be polled plus tasks being polled.
pub fn pending() -> usize {
    queue().len() + unsafe { RUNNING }
}
pub fn polls() -> u64 {
    unsafe { POLLS }
}

/// The body of a worker thread.
pub fn worker() {
    loop {
        let n = queue().len();
        if n == 0 {
            crate::block(KEY, "task worker idle", None);
            continue;
        }
        let v = if crate::fair() { 0 } else { crate::decide("task", n.min(60000)) };
        let p = queue().remove(v);
        unsafe {
            POLLS += 1;
            RUNNING += 1;
        }
        crate::step("poll task");
        p();
        unsafe {
            RUNNING -= 1;
        }
    }
}
