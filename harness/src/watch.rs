//! Calls that do not return.  Each thread notes when it is inside the code
//! under test; a monitor measures the processor time such a call has used.

use crate::case::Case;
use crate::ctx::CURRENT;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex, Weak};

/// A call converts at most a few MB, which takes milliseconds.
const CPU_LIMIT: u64 = 30;
/// For a call that waits without using the processor.
const IDLE_LIMIT: u64 = 200;

struct Slot {
    /// Odd while inside a call.
    seq: AtomicU64,
    case: AtomicPtr<Case>,
    /// Seconds.
    limit: AtomicU64,
    thread: i32,
}

static SLOTS: Mutex<Vec<Weak<Slot>>> = Mutex::new(Vec::new());

extern "C" {
    fn gettid() -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot {
            seq: AtomicU64::new(0),
            case: AtomicPtr::new(std::ptr::null_mut()),
            limit: AtomicU64::new(CPU_LIMIT),
            thread: unsafe { gettid() },
        });
        let mut v = SLOTS.lock().unwrap();
        v.retain(|w| w.strong_count() > 0);
        v.push(Arc::downgrade(&s));
        s
    };
}

pub fn enter() {
    SLOT.with(|s| {
        s.case.store(CURRENT.with(|c| c.get()) as *mut Case, Relaxed);
        s.seq.store(s.seq.load(Relaxed) | 1, Relaxed);
    })
}
/// For a call that takes its time.
pub fn enter_for(seconds: u64) {
    SLOT.with(|s| s.limit.store(seconds, Relaxed));
    enter()
}
pub fn leave() {
    SLOT.with(|s| {
        s.seq.store((s.seq.load(Relaxed) | 1) + 1, Relaxed);
        s.limit.store(CPU_LIMIT, Relaxed)
    })
}

/// The kernel's clock for the processor time of one thread; None once it has
/// ended.
fn cpu(thread: i32) -> Option<f64> {
    unsafe {
        let mut ts = [0i64; 2];
        if clock_gettime((!thread << 3) | 6, &mut ts) != 0 {
            return None;
        }
        Some(ts[0] as f64 + ts[1] as f64 / 1e9)
    }
}

/// `hung` is called with the case whose call does not return (null if unknown).
pub fn start(hung: fn(*const Case, &str)) {
    std::thread::spawn(move || {
        // (slot, seq, cpu at first sight, ticks)
        let mut seen: Vec<(usize, u64, f64, u64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
            let mut now = vec![];
            for s in &slots {
                let seq = s.seq.load(Relaxed);
                if seq & 1 == 0 {
                    continue;
                }
                let key = Arc::as_ptr(s) as usize;
                let t = match cpu(s.thread) {
                    Some(t) => t,
                    None => continue,
                };
                let (first, ticks) = match seen.iter().find(|x| x.0 == key && x.1 == seq) {
                    Some(x) => (x.2, x.3 + 1),
                    None => (t, 0),
                };
                now.push((key, seq, first, ticks));
                let limit = s.limit.load(Relaxed);
                let why = if t - first > limit as f64 {
                    format!("the call has not returned after {} s of processor time", limit)
                } else if ticks > IDLE_LIMIT && t - first < 1.0 {
                    format!("the call has waited for {} s without returning", IDLE_LIMIT)
                } else {
                    continue;
                };
                if s.seq.load(Relaxed) == seq {
                    hung(s.case.load(Relaxed), &why);
                }
            }
            seen = now;
        }
    });
}
