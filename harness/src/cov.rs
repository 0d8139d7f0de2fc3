//! Coverage feedback.  In the guided build (see cov-rustc.sh) the crate under
//! test, and nothing else, is compiled with SanitizerCoverage; its callbacks
//! land here.  A feature is an edge with a bucketed execution count, or a
//! comparison site with how near its operands came to being equal.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

static GUARDS: AtomicU32 = AtomicU32::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);

const SITES: usize = 1 << 12;
/// Features are below this: sites come first, then edges.
pub const FEATURES: usize = SITES * 256 + MAX_GUARDS * 16;
const EDGE0: usize = SITES * 256;
const MAX_GUARDS: usize = 1 << 15;

#[derive(Clone, Copy, Default)]
struct Site {
    /// The latest unequal operands.
    a: u64,
    b: u64,
    epoch: u32,
    /// The least distances of this run.
    ham: u8,
    log: u8,
    logged: u8,
    used: bool,
}

pub struct State {
    on: bool,
    epoch: u32,
    count: Vec<u32>,
    hit: Vec<u32>,
    sites: Vec<Site>,
    /// Sites touched in this run, and ever.
    touched: Vec<u16>,
    used: Vec<u16>,
    feats: Vec<u32>,
    /// Unequal comparisons of one run, a few per site, while `logging`.
    pub logging: bool,
    pub log: Vec<(u64, u64)>,
    /// Constants that the code compared something with.
    pub consts: Vec<u64>,
    const_seen: Vec<u64>,
    /// The latest byte strings compared with unequal ones.
    pub strs: Vec<([u8; 16], usize)>,
    /// The next one to overwrite (guided build).
    #[allow(dead_code)]
    str_at: usize,
}

thread_local! {
    static ST: Cell<*mut State> = const { Cell::new(std::ptr::null_mut()) };
}

/// A shard's state; never freed, threads come and go.
pub fn new_state() -> *mut State {
    Box::leak(Box::new(State {
        on: false,
        epoch: 0,
        count: vec![0; MAX_GUARDS],
        hit: Vec::with_capacity(MAX_GUARDS),
        sites: vec![Site::default(); SITES],
        touched: Vec::with_capacity(SITES),
        used: Vec::with_capacity(SITES),
        feats: Vec::with_capacity(SITES * 2 + MAX_GUARDS),
        logging: false,
        log: Vec::with_capacity(4096),
        consts: Vec::with_capacity(1 << 13),
        const_seen: vec![0; 1 << 12],
        strs: vec![([0; 16], 0); 16],
        str_at: 0,
    }))
}
pub fn attach(p: *mut State) {
    ST.with(|s| s.set(p));
}
/// This thread's state: only its own callbacks and its guided loop use it,
/// never nested.
pub fn st() -> &'static mut State {
    unsafe { &mut *ST.with(|s| s.get()) }
}
#[inline(always)]
fn live() -> Option<&'static mut State> {
    let p = ST.with(|s| s.get());
    if p.is_null() {
        return None;
    }
    let s = unsafe { &mut *p };
    if s.on {
        Some(s)
    } else {
        None
    }
}

pub fn instrumented() -> bool {
    GUARDS.load(Ordering::Relaxed) > 0
}
pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}
/// The edge that a feature stands for, if it does.
pub fn edge_of(feature: usize) -> Option<usize> {
    feature.checked_sub(EDGE0).map(|f| f / 16)
}

impl State {
    pub fn begin(&mut self) {
        self.epoch += 1;
        self.feats.clear();
        self.touched.clear();
        self.on = true;
    }
    /// Ends a run; the features it hit.
    pub fn end(&mut self) -> &[u32] {
        self.on = false;
        for i in 0..self.hit.len() {
            let g = self.hit[i] as usize;
            let n = self.count[g];
            self.count[g] = 0;
            let b = match n {
                0..=3 => n,
                4..=7 => 4,
                8..=15 => 5,
                16..=31 => 6,
                32..=127 => 7,
                _ => 8 + (n > 1024) as u32,
            };
            self.feats.push((EDGE0 + g * 16) as u32 + b);
        }
        self.hit.clear();
        for &k in &self.touched {
            let s = &self.sites[k as usize];
            self.feats.push(k as u32 * 256 + s.ham as u32);
            self.feats.push(k as u32 * 256 + 65 + s.log as u32);
        }
        &self.feats
    }
    pub fn site(&self, r: usize) -> (u64, u64) {
        match self.used.len() {
            0 => (0, 0),
            n => {
                let s = &self.sites[self.used[r % n] as usize];
                (s.a, s.b)
            }
        }
    }
    pub fn start_log(&mut self) {
        self.logging = true;
        self.log.clear();
        for s in self.sites.iter_mut() {
            s.logged = 0;
        }
    }
    #[inline(always)]
    fn cmp(&mut self, pc: usize, a: u64, b: u64, konst: bool) {
        let pc = (pc.wrapping_sub(BASE.load(Ordering::Relaxed)) as u32).wrapping_mul(0x9E37_79B1);
        let k = (pc >> 20) as usize;
        let s = unsafe { self.sites.get_unchecked_mut(k) };
        let ham = (a ^ b).count_ones() as u8;
        let dist = a.abs_diff(b);
        // Exact below 32, then quarters of powers of two (at most 32 + 4 * 59).
        let log = if dist < 32 {
            dist as u32
        } else {
            let e = 63 - dist.leading_zeros();
            (32 + (e - 5) * 4 + ((dist >> (e - 2)) & 3) as u32).min(190)
        } as u8;
        if s.epoch != self.epoch {
            s.epoch = self.epoch;
            s.ham = ham;
            s.log = log;
            self.touched.push(k as u16);
        } else {
            s.ham = s.ham.min(ham);
            s.log = s.log.min(log);
        }
        if a != b {
            s.a = a;
            s.b = b;
            if !s.used {
                s.used = true;
                self.used.push(k as u16);
            }
            if self.logging && s.logged < 6 && self.log.len() < 4096 && !self.log.contains(&(a, b)) {
                s.logged += 1;
                self.log.push((a, b));
            }
        }
        if konst {
            let i = ((a.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 52) as usize;
            let seen = unsafe { self.const_seen.get_unchecked_mut(i) };
            if *seen != a.wrapping_add(1) {
                *seen = a.wrapping_add(1);
                if self.consts.len() < 1 << 13 && !self.consts.contains(&a) {
                    self.consts.push(a);
                }
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    BASE.store(__sanitizer_cov_trace_pc_guard as *const () as usize, Ordering::Relaxed);
    while p < stop {
        if unsafe { *p } == 0 {
            let n = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            unsafe { *p = n.min(MAX_GUARDS as u32 - 1) };
        }
        p = p.wrapping_add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if let Some(s) = live() {
        unsafe {
            let g = *g;
            let n = s.count.get_unchecked_mut(g as usize);
            if *n == 0 {
                s.hit.push(g);
            }
            *n = n.wrapping_add(1).max(1);
        }
    }
}

macro_rules! cmp {
    ($($name:ident $imp:ident $ty:ty, $k:expr;)*) => { $(
        #[unsafe(naked)]
        #[no_mangle]
        pub unsafe extern "C" fn $name(_a: $ty, _b: $ty) {
            // The return address is the comparison's identity.
            core::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym $imp)
        }
        extern "C" fn $imp(a: $ty, b: $ty, pc: usize) {
            if let Some(s) = live() {
                s.cmp(pc, a as u64, b as u64, $k);
            }
        }
    )* };
}
cmp! {
    __sanitizer_cov_trace_cmp1 cmp1 u8, false;
    __sanitizer_cov_trace_cmp2 cmp2 u16, false;
    __sanitizer_cov_trace_cmp4 cmp4 u32, false;
    __sanitizer_cov_trace_cmp8 cmp8 u64, false;
    __sanitizer_cov_trace_const_cmp1 ccmp1 u8, true;
    __sanitizer_cov_trace_const_cmp2 ccmp2 u16, true;
    __sanitizer_cov_trace_const_cmp4 ccmp4 u32, true;
    __sanitizer_cov_trace_const_cmp8 ccmp8 u64, true;
}

#[unsafe(naked)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _cases: *const u64) {
    core::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym switch)
}
extern "C" fn switch(v: u64, cases: *const u64, pc: usize) {
    // cases[0] = how many, cases[1] = width, then the values.
    let s = match live() {
        Some(s) => s,
        None => return,
    };
    let n = unsafe { *cases as usize };
    // The nearest case below or at, and the nearest above.
    let at = |i: usize| unsafe { *cases.add(2 + i) };
    let (mut lo, mut hi) = (0, n);
    while lo < hi {
        let m = (lo + hi) / 2;
        if at(m) < v {
            lo = m + 1
        } else {
            hi = m
        }
    }
    for i in [lo.wrapping_sub(1), lo] {
        if i < n {
            s.cmp(pc.wrapping_add(i.wrapping_mul(0x1_0001)), at(i), v, true);
        }
    }
}

// Comparisons of byte strings are calls of the C library (the guided build
// links with --wrap).
#[cfg(guided)]
mod mem {
    use super::live;
    extern "C" {
        fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
        fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    }
    unsafe fn note(a: *const u8, b: *const u8, n: usize) {
        if n == 0 || n > 64 || !crate::ctx::IN_TARGET.with(|f| f.get()) {
            return;
        }
        let s = match live() {
            Some(s) => s,
            None => return,
        };
        let mut k = 0;
        while k < n && unsafe { *a.add(k) == *b.add(k) } {
            k += 1;
        }
        s.cmp(0x5000_0000 + n * 0x101, k as u64, n as u64, false);
        if k < n && n <= 16 {
            for p in [a, b] {
                let mut w = [0u8; 16];
                for (i, w) in w.iter_mut().enumerate().take(n) {
                    *w = unsafe { *p.add(i) };
                }
                let at = s.str_at;
                s.strs[at] = (w, n);
                s.str_at = (at + 1) % s.strs.len();
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        unsafe {
            note(a, b, n);
            __real_memcmp(a, b, n)
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        unsafe {
            note(a, b, n);
            __real_bcmp(a, b, n)
        }
    }
}
