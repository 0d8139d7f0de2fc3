//! Running the code under test, and per-shard bookkeeping.

use crate::case::Case;
use crate::encs::ENCS;
use crate::model::Full;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok { used: usize },
    /// `other`: a decode error with another cause than invalid data.
    Err { ch: Option<char>, other: bool, s: usize, e: usize, written: usize },
    Panic(String),
    /// The returned slice is not inside the caller's buffer, or a byte outside
    /// the buffer changed.
    Wild(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub res: Res,
    /// Ok: the returned slice.  Err: the first `written` bytes of the buffer.
    pub out: Vec<u8>,
}

impl Got {
    pub fn show(&self) -> String {
        let o = if self.out.len() <= 40 {
            format!("{:02X?}", self.out)
        } else {
            format!("{:02X?}...({} bytes)", &self.out[..40], self.out.len())
        };
        match &self.res {
            Res::Ok { used } => format!("Ok(consumed {}, output {})", used, o),
            Res::Err { ch, other, s, e, written } => format!(
                "Err({}{}range {}..{}, written {}, output {})",
                ch.map(|c| format!("character U+{:04X}, ", c as u32)).unwrap_or_default(),
                if *other { "unknown conversion, " } else { "" },
                s,
                e,
                written,
                o
            ),
            Res::Panic(m) => format!("panic: {}", m),
            Res::Wild(m) => format!("out-of-buffer access: {}", m),
        }
    }
}

thread_local! {
    pub static IN_TARGET: Cell<bool> = Cell::new(false);
    pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    /// For the fatal-signal handler.
    pub static CURRENT: Cell<*const Case> = Cell::new(std::ptr::null());
}

/// Counts this thread's heap allocations.
pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_TARGET.with(|f| f.get()) {
            let m = i.to_string();
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            old(i)
        }
    }));
}

const PRE: usize = 16;
const POST: usize = 16;
pub fn dec_err(x: &text_encoding::DecodeError) -> Res {
    let other = x.cause != text_encoding::DecodeErrorCause::InvalidData;
    Res::Err { ch: None, other, s: x.error_range.0, e: x.error_range.1, written: x.output_bytes_written }
}

const GUARD: u8 = 0x5A;

/// One call of the code under test.
/// `skew` moves the buffer (and `din`, the input copy offset, the input).
pub struct Target {
    buf: Vec<u8>,
    input: Vec<u8>,
    pub calls: u64,
    /// Bytes of input and buffer of all calls.
    pub bytes: u64,
    /// Heap allocations during the last call.
    pub allocs: u64,
}

impl Target {
    pub fn new() -> Target {
        Target { buf: Vec::new(), input: Vec::new(), calls: 0, bytes: 0, allocs: 0 }
    }
    pub fn call(&mut self, e: usize, dec: bool, data: &[u8], end: bool, len: usize, fill: u8) -> Got {
        self.call_at(e, dec, data, end, len, fill, 0)
    }
    /// As `call`, with input copied to offset `k` of another allocation.
    pub fn call_moved(&mut self, e: usize, dec: bool, data: &[u8], end: bool, len: usize, fill: u8, skew: usize, k: usize) -> Got {
        let mut inp = std::mem::take(&mut self.input);
        inp.clear();
        inp.resize(k, 0xE3);
        inp.extend_from_slice(data);
        inp.extend_from_slice(&[0xE3, 0x81, 0x82, 0x41]);
        let g = self.call_at(e, dec, &inp[k..k + data.len()], end, len, fill, skew);
        self.input = inp;
        g
    }
    pub fn call_at(&mut self, e: usize, dec: bool, data: &[u8], end: bool, len: usize, fill: u8, skew: usize) -> Got {
        self.calls += 1;
        self.bytes += (data.len() + len) as u64;
        let pre = PRE + skew;
        let need = pre + len + POST;
        if self.buf.len() < need {
            self.buf.resize(need.next_power_of_two().max(256), 0);
        }
        let buf = &mut self.buf[..need];
        buf[..pre].fill(GUARD);
        buf[pre..pre + len].fill(fill);
        buf[pre + len..].fill(GUARD);
        let base = buf.as_ptr() as usize + pre;
        let r = {
            let out = &mut buf[pre..pre + len];
            let text = if dec { "" } else { std::str::from_utf8(data).expect("encoder input is UTF-8") };
            IN_TARGET.with(|f| f.set(true));
            crate::watch::enter();
            let before = ALLOCS.with(|a| a.get());
            let r = catch_unwind(AssertUnwindSafe(move || {
                if dec {
                    match (ENCS[e].dec)(data, out, end) {
                        Ok((s, n)) => (s.as_ptr() as usize, s.len(), Res::Ok { used: n }),
                        Err(x) => {
                            (0, 0, dec_err(&x))
                        }
                    }
                } else {
                    match (ENCS[e].enc)(text, out, end) {
                        Ok((s, n)) => (s.as_ptr() as usize, s.len(), Res::Ok { used: n }),
                        Err(x) => (
                            0,
                            0,
                            Res::Err {
                                ch: Some(x.character),
                                other: false,
                                s: x.error_range.0,
                                e: x.error_range.1,
                                written: x.output_bytes_written,
                            },
                        ),
                    }
                }
            }));
            self.allocs = ALLOCS.with(|a| a.get()) - before;
            crate::watch::leave();
            IN_TARGET.with(|f| f.set(false));
            r
        };
        let buf = &self.buf[..need];
        if buf[..pre].iter().any(|&b| b != GUARD) || buf[pre + len..].iter().any(|&b| b != GUARD) {
            return Got { res: Res::Wild("bytes next to the buffer changed".into()), out: vec![] };
        }
        match r {
            Err(_) => Got { res: Res::Panic(PANIC_MSG.with(|p| p.borrow().clone())), out: vec![] },
            Ok((p, n, res)) => match res {
                Res::Ok { .. } => {
                    if n == 0 {
                        Got { res, out: vec![] }
                    } else if p < base || p + n > base + len {
                        Got { res: Res::Wild(format!("slice of {} bytes lies outside the buffer of {}", n, len)), out: vec![] }
                    } else {
                        let o = p - base + pre;
                        Got { res, out: buf[o..o + n].to_vec() }
                    }
                }
                Res::Err { written, .. } => {
                    let w = written.min(len);
                    Got { res, out: buf[pre..pre + w].to_vec() }
                }
                _ => unreachable!(),
            },
        }
    }
}

pub struct Ctx {
    pub t: Target,
    pub labels: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
    /// Scratch model results.
    pub f: Full,
    pub f2: Full,
    pub note: Vec<String>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            t: Target::new(),
            labels: Vec::new(),
            nontrivial: false,
            f: Full { out: vec![], cuts: vec![], stop: crate::model::Step::End },
            f2: Full { out: vec![], cuts: vec![], stop: crate::model::Step::End },
            note: Vec::new(),
        }
    }
    pub fn label(&mut self, l: &'static str) {
        for x in self.labels.iter_mut() {
            if x.0 == l {
                x.1 += 1;
                return;
            }
        }
        self.labels.push((l, 1));
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
}
