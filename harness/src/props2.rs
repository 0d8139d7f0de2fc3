//! Properties over sizes, resources and pipelines (C24-C26), and the checks on
//! very large inputs that C13-C15 also use.

use crate::case::Case;
use crate::ctx::{Ctx, Got, Res, CURRENT};
use crate::encs::{self, Kind, ENCS};
use crate::gen;
use crate::model::{self, full, Step};
use crate::props::{Prop, Source::*, Sub};
use crate::rng::Src;
use crate::verify::{exact, input_desc};
use std::cell::RefCell;

// ------------------------------------------------------------ repeated units

/// data = unit ++ tail, plan = [repetitions, buffer length, length of the unit]
pub(crate) struct Rep<'a> {
    pub unit: &'a [u8],
    pub tail: &'a [u8],
    pub n: usize,
    /// The unit converts to this many bytes.
    pub out: usize,
}

fn boundary_at(c: &Case, at: usize) -> usize {
    let mut k = at.min(c.data.len());
    if !c.dec {
        while k < c.data.len() && c.data[k] & 0xC0 == 0x80 {
            k += 1;
        }
    }
    k
}

/// None: the unit does not convert completely, or joins with what follows it.
pub(crate) fn rep(c: &Case) -> Option<Rep<'_>> {
    let (unit, tail) = c.data.split_at(boundary_at(c, c.p(2)));
    let k = ENCS[c.enc].kind;
    let n = c.p(0).max(1);
    if unit.is_empty() || unit.len() > 4096 || unit.len() * n > 1 << 27 {
        return None;
    }
    let a = full(k, c.dec, unit, false);
    if a.stop != Step::End || a.out.is_empty() {
        return None;
    }
    let twice = [unit, unit, tail].concat();
    let b = full(k, c.dec, &twice, true);
    if !b.cuts.contains(&(unit.len(), a.out.len())) || !b.cuts.contains(&(2 * unit.len(), 2 * a.out.len())) {
        return None;
    }
    Some(Rep { unit, tail, n, out: a.out.len() })
}

fn build(r: &Rep, out: &mut Vec<u8>) {
    out.clear();
    out.reserve(r.unit.len() * r.n + r.tail.len());
    for _ in 0..r.n {
        out.extend_from_slice(r.unit);
    }
    out.extend_from_slice(r.tail);
}

thread_local! {
    static BIG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static BIG_OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

/// The result for `unit * n ++ tail` follows from the model's for `unit ++ tail`.
pub fn huge(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let r = match rep(c) {
        Some(r) => r,
        None => {
            x.label("not applicable");
            return Ok(());
        }
    };
    BIG.with(|big| {
        let mut big = big.borrow_mut();
        build(&r, &mut big);
        let k = ENCS[c.enc].kind;
        let len = c.p(1).min(r.out * (r.n + 2) + 1000);
        x.nt();
        x.label(match big.len() {
            0..=0xFFFF => "under 64 KiB",
            0x1_0000..=0xF_FFFF => "64 KiB to 1 MiB",
            0x10_0000..=0xFF_FFFF => "1 MiB to 16 MiB",
            _ => "over 16 MiB",
        });
        let g = x.t.call(c.enc, c.dec, &big, c.end, len, c.fill);
        // Reduce to the last unit and the tail, or to the unit that is cut.
        let whole = (len / r.out).min(r.n - 1);
        let (skip_in, skip_out) = (whole * r.unit.len(), whole * r.out);
        let rest = &big[skip_in..];
        let rest = if whole == r.n - 1 { rest } else { &rest[..r.unit.len()] };
        let f = full(k, c.dec, rest, c.end);
        let one = full(k, c.dec, r.unit, false);
        let periodic = g.out.len() < skip_out
            || (g.out[..skip_out.min(r.out)] == one.out[..skip_out.min(r.out)]
                && g.out[..skip_out - r.out.min(skip_out)] == g.out[r.out.min(skip_out)..skip_out]);
        let small = |v: usize, by: usize| v.checked_sub(by);
        let g2 = match g.res {
            Res::Ok { used } => small(used, skip_in).map(|used| Res::Ok { used }),
            Res::Err { ch, other, s, e, written } => match (small(s, skip_in), small(e, skip_in), small(written, skip_out)) {
                (Some(s), Some(e), Some(written)) => Some(Res::Err { ch, other, s, e, written }),
                _ => None,
            },
            ref r => Some(r.clone()),
        };
        let shown = Got { res: g.res.clone(), out: g.out[..g.out.len().min(50)].to_vec() };
        let bad = |why: &str| {
            Err(format!(
                "{} repetitions of {} with buffer {} (is_end {}) then {:02X?}: {} ({} output bytes): {}",
                r.n,
                input_desc(c.enc, c.dec, r.unit, c.end, len),
                len,
                c.end,
                &r.tail[..r.tail.len().min(24)],
                shown.show(),
                g.out.len(),
                why
            ))
        };
        match g2 {
            Some(res) if g.out.len() >= skip_out && periodic => {
                let g2 = Got { res, out: g.out[skip_out..].to_vec() };
                match exact(c.enc, c.dec, rest, c.end, len - skip_out, &g2, &f) {
                    Ok(()) => Ok(()),
                    Err(m) => bad(&format!("after the first {} input bytes: {}", skip_in, m)),
                }
            }
            Some(_) if !periodic => bad("the output is not the repeated conversion of the unit"),
            _ => bad("less was converted than fits"),
        }
    })
}

fn mk_rep(s: &mut Src, c: &mut Case, e: usize, dec: bool, size: u64) {
    c.reset();
    c.enc = e;
    c.dec = dec;
    c.end = s.chance(1, 2);
    c.fill = s.pick(&[0xA5, 0x00, 0xFF]);
    let n = s.range(1, 24) as usize;
    if dec {
        gen::bytes(s, e, true, n, &mut c.data)
    } else {
        gen::text(s, e, true, n, &mut c.data)
    }
    if s.chance(1, 3) {
        // Shift the phase, so that unit boundaries fall on any offset.
        let k = s.us(3);
        for _ in 0..k {
            gen_ascii(c, e, dec);
        }
    }
    let unit = c.data.len();
    let m = s.us(6);
    let good = s.chance(1, 3);
    let mut tail = vec![];
    if dec {
        gen::bytes(s, e, good, m, &mut tail)
    } else {
        gen::text(s, e, good, m, &mut tail)
    }
    c.data.append(&mut tail);
    let reps = (size / unit.max(1) as u64).max(1);
    let out = full(ENCS[e].kind, dec, &c.data[..unit], false).out.len() as u64;
    let total = out * reps;
    let len = match s.us(4) {
        0 => total + 1000,
        1 => (total + s.range(0, 12)).saturating_sub(6),
        2 => total + s.range(0, 30),
        _ => s.range(0, total.max(1)),
    };
    c.plan = vec![reps as u32, len as u32, unit as u32];
}
fn gen_ascii(c: &mut Case, e: usize, dec: bool) {
    if dec {
        c.data.extend_from_slice(model::enc_char(ENCS[e].kind, 'k').unwrap().s());
    } else {
        c.data.push(b'k');
    }
}
fn huge_size(s: &mut Src) -> u64 {
    match s.us(4) {
        0 => (1 << 24) + s.range(0, 4000),
        1 => s.range(1 << 20, 1 << 24),
        2 => (1 << s.range(17, 23)) + s.range(0, 4000),
        _ => s.range(100_000, 1 << 22),
    }
}
pub fn mk_huge(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    let n = huge_size(s);
    mk_rep(s, c, e, dec, n)
}

// ------------------------------------------------------------ C24

fn c24_alloc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let len = c.p(0);
    let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
    if !c.data.is_empty() && len > 0 {
        x.nt();
    }
    match g.res {
        Res::Panic(_) | Res::Wild(_) => Err(format!("{}: {}", input_desc(c.enc, c.dec, &c.data, c.end, len), g.show())),
        _ if x.t.allocs > 0 => Err(format!(
            "{} allocated memory {} times",
            input_desc(c.enc, c.dec, &c.data, c.end, len),
            x.t.allocs
        )),
        _ => Ok(()),
    }
}

/// As `c24_alloc`, for `unit * n ++ tail`.
fn c24_alloc_large(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let (unit, tail) = c.data.split_at(boundary_at(c, c.p(2)));
    let n = c.p(0).max(1);
    if unit.len() * n > 1 << 26 {
        return Ok(());
    }
    x.nt();
    BIG.with(|big| {
        let mut big = big.borrow_mut();
        build(&Rep { unit, tail, n, out: 0 }, &mut big);
        let len = c.p(1).min(4 * big.len() + 1000);
        let g = x.t.call(c.enc, c.dec, &big, c.end, len, c.fill);
        let what = || format!("{} bytes: {} repetitions of {}", big.len(), n, input_desc(c.enc, c.dec, unit, c.end, len));
        match g.res {
            Res::Panic(_) | Res::Wild(_) => Err(format!("{}: {}", what(), Got { res: g.res.clone(), out: vec![] }.show())),
            _ if x.t.allocs > 0 => Err(format!("{}: allocated memory {} times", what(), x.t.allocs)),
            _ => Ok(()),
        }
    })
}

const STACK: usize = 128 << 10;

extern "C" {
    fn sigaltstack(new: *const [usize; 3], old: *mut [usize; 3]) -> i32;
}

/// data = prefix ++ unit ++ tail, plan = [repetitions of the unit, buffer length,
/// end of the unit, end of the prefix]; none of them need be valid.  The call
/// is made on a thread with a small stack; running out of it is a fault, which
/// the signal handler reports.
fn c24_stack(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let (at, to) = (boundary_at(c, c.p(3).min(c.p(2))), boundary_at(c, c.p(2)));
    let (prefix, unit, tail) = (&c.data[..at], &c.data[at..to], &c.data[to..]);
    let n = c.p(0).max(1);
    if unit.is_empty() || unit.len() * n > 1 << 26 {
        x.label("not applicable");
        return Ok(());
    }
    x.nt();
    let mut big = BIG.with(|b| std::mem::take(&mut *b.borrow_mut()));
    build(&Rep { unit, tail, n, out: 0 }, &mut big);
    big.splice(0..0, prefix.iter().copied());
    let len = c.p(1).min(6 * big.len() + 1000);
    let mut out = BIG_OUT.with(|b| std::mem::take(&mut *b.borrow_mut()));
    if out.len() < len {
        out.resize(len, 0);
    }
    let text = if c.dec { "" } else { std::str::from_utf8(&big).unwrap() };
    let case = c as *const Case as usize;
    let (e, dec, end) = (c.enc, c.dec, c.end);
    let (b, o) = (&big[..], &mut out[..len]);
    let ok = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, move || {
                let alt = vec![0u8; 256 << 10];
                let ss = [alt.as_ptr() as usize, 0, alt.len()];
                let mut old = [0usize; 3];
                unsafe { sigaltstack(&ss, &mut old) };
                CURRENT.with(|p| p.set(case as *const Case));
                crate::ctx::IN_TARGET.with(|f| f.set(true));
                crate::watch::enter();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if dec {
                        (ENCS[e].dec)(b, o, end).is_ok()
                    } else {
                        (ENCS[e].enc)(text, o, end).is_ok()
                    }
                }));
                crate::watch::leave();
                crate::ctx::IN_TARGET.with(|f| f.set(false));
                CURRENT.with(|p| p.set(std::ptr::null()));
                unsafe { sigaltstack(&old, std::ptr::null_mut()) };
                r.is_ok()
            })
            .map(|h| h.join().unwrap_or(false))
    });
    x.t.calls += 1;
    BIG.with(|v| *v.borrow_mut() = big);
    BIG_OUT.with(|v| *v.borrow_mut() = out);
    match ok {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("{} repeated {} times: panic", input_desc(c.enc, c.dec, unit, c.end, len), n)),
        Err(e) => panic!("cannot start a thread: {}", e),
    }
}

// ------------------------------------------------------------ C25

extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
/// This thread's processor time in nanoseconds.
fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 * 1e9 + ts[1] as f64
}

/// The least processor time of `n` runs of one call, after one untimed.
fn time(e: usize, dec: bool, data: &[u8], text: &str, end: bool, out: &mut [u8], n: usize) -> Result<f64, String> {
    let mut best = f64::MAX;
    for i in 0..n + 1 {
        let t = cpu();
        crate::ctx::IN_TARGET.with(|f| f.set(true));
        crate::watch::enter();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if dec {
                std::hint::black_box((ENCS[e].dec)(data, out, end).is_ok());
            } else {
                std::hint::black_box((ENCS[e].enc)(text, out, end).is_ok());
            }
        }));
        crate::watch::leave();
        crate::ctx::IN_TARGET.with(|f| f.set(false));
        if r.is_err() {
            return Err("panic".into());
        }
        if i > 0 {
            best = best.min(cpu() - t);
        }
    }
    Ok(best)
}

const SMALL: usize = 16 << 10;
const GROWTH: usize = 256;

/// plan = [-, buffer length, unit length, mode].  Mode 0: 256 times the input
/// and buffer may cost at most 8 * 256 times as much.  Mode 1: beyond what the
/// buffer holds, the length of the input costs nothing.  Mode 2: beyond what the
/// input needs, the length of the buffer costs nothing.  Mode 3: like mode 1, with
/// the tail (that may be invalid) in front.  The margins are far above what
/// measurement noise reaches and far below what the larger size costs when it
/// counts.
fn c25(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let mut k = c.clone();
    k.plan.resize(4, 0);
    k.plan[0] = 2;
    let r = match rep(&k) {
        Some(r) => r,
        None => {
            x.label("not applicable");
            return Ok(());
        }
    };
    x.nt();
    let mode = c.p(3) % 4;
    let front = if mode == 3 { r.tail.len() } else { 0 };
    x.label(["input and buffer grow", "input grows", "buffer grows", "input after an error grows"][mode]);
    let small_n = SMALL / r.unit.len() + 1;
    let big_n = match mode {
        0 => GROWTH * small_n,
        1 | 3 => (24 << 20) / r.unit.len(),
        _ => small_n,
    };
    let rep_big = Rep { n: big_n, ..r };
    let small_out = match mode {
        0 => small_n * r.out + 100,
        1 | 3 => c.p(1) % 4096,
        _ => small_n * r.out + 100,
    };
    let big_out = match mode {
        0 => big_n * r.out + 100,
        1 | 3 => small_out,
        _ => 24 << 20,
    };
    let mut big = BIG.with(|b| std::mem::take(&mut *b.borrow_mut()));
    let mut out = BIG_OUT.with(|b| std::mem::take(&mut *b.borrow_mut()));
    if mode == 3 {
        let bare = Rep { tail: &[], ..rep_big };
        build(&bare, &mut big);
        big.splice(0..0, r.tail.iter().copied());
    } else {
        build(&rep_big, &mut big);
    }
    if out.len() < big_out {
        out.resize(big_out, 0);
    }
    let text = if c.dec { "" } else { std::str::from_utf8(&big).unwrap() };
    let cut = front + small_n * r.unit.len();
    let (st, sd) = if c.dec { ("", &big[..cut]) } else { (&text[..cut], &big[..0]) };
    let mut measure = |runs: usize| -> Result<(f64, f64), String> {
        let a = time(c.enc, c.dec, sd, st, c.end, &mut out[..small_out], runs)?;
        let b = time(c.enc, c.dec, &big, text, c.end, &mut out[..big_out], runs)?;
        Ok((a, b))
    };
    let too_much = |a: f64, b: f64| match mode {
        0 => b > GROWTH as f64 * 8.0 * a + 3e6,
        _ => b > 30.0 * a + 6e5,
    };
    // A suspicious measurement is repeated before it counts.
    let mut res = Ok(());
    for round in 0..6 {
        match measure(if round == 0 { 2 } else { 5 }) {
            Err(e) => {
                res = Err(e);
                break;
            }
            Ok((a, b)) if too_much(a, b) => {
                res = Err(format!(
                    "{:.1} us for {} input bytes with a buffer of {}, {:.1} us for {} input bytes with a buffer of {}",
                    a / 1e3,
                    cut,
                    small_out,
                    b / 1e3,
                    big.len(),
                    big_out
                ))
            }
            Ok(_) => {
                res = Ok(());
                break;
            }
        }
    }
    x.t.calls += 6;
    BIG.with(|v| *v.borrow_mut() = big);
    BIG_OUT.with(|v| *v.borrow_mut() = out);
    res.map_err(|m| format!("{} repeated: {}", input_desc(c.enc, c.dec, r.unit, c.end, small_out), m))
}
/// plan = [-, buffer length]; data = one unit, valid or not.  Taking all of its
/// repetitions through the buffer, each call with all that remains, errors
/// stepped over: 64 times the length may cost at most 8 * 64 times as much.
fn c25_stream(c: &Case, x: &mut Ctx) -> Result<(), String> {
    const FROM: usize = 6 << 10;
    const BY: usize = 64;
    if c.data.is_empty() || c.data.len() > 512 {
        x.label("not applicable");
        return Ok(());
    }
    x.nt();
    let mut buf = vec![0u8; c.p(1).clamp(8, 8192)];
    let n = FROM / c.data.len() + 1;
    let big = c.data.repeat(n * BY);
    let total = std::cell::Cell::new(0u64);
    let mut run = |len: usize, limit: f64| -> Result<f64, String> {
        let d = &big[..len];
        let text = if c.dec { "" } else { std::str::from_utf8(d).unwrap() };
        let t = cpu();
        let (mut at, mut calls) = (0, 0u32);
        crate::ctx::IN_TARGET.with(|f| f.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            while at < len {
                crate::watch::enter();
                let used = if c.dec {
                    match (ENCS[c.enc].dec)(&d[at..], &mut buf, c.end) {
                        Ok((_, u)) => u,
                        Err(e) => e.error_range.1,
                    }
                } else {
                    match (ENCS[c.enc].enc)(&text[at..], &mut buf, c.end) {
                        Ok((_, u)) => u,
                        Err(e) => e.error_range.1,
                    }
                };
                crate::watch::leave();
                if used == 0 {
                    break;
                }
                at += used;
                calls += 1;
                if calls % 64 == 0 && cpu() - t > limit {
                    break;
                }
            }
        }));
        crate::ctx::IN_TARGET.with(|f| f.set(false));
        r.map_err(|_| "panic".to_string())?;
        total.set(total.get() + calls as u64);
        Ok(cpu() - t)
    };
    let small = n * c.data.len();
    // A suspicious measurement is repeated before it counts.
    for round in 0..6 {
        let mut a = f64::MAX;
        for _ in 0..3 + round {
            a = a.min(run(small, f64::MAX)?);
        }
        let limit = 8.0 * BY as f64 * a + 3e6;
        let mut b = f64::MAX;
        for _ in 0..1 + round {
            b = b.min(run(big.len(), limit)?);
            if b <= limit {
                x.t.calls += total.get();
                return Ok(());
            }
        }
        if round == 5 {
            return Err(format!(
                "streaming {} repetitions of {} ({} bytes) takes {:.1} us, {} bytes take more than {:.1} us",
                n,
                input_desc(c.enc, c.dec, &c.data, c.end, c.p(1)),
                small,
                a / 1e3,
                big.len(),
                b / 1e3
            ));
        }
    }
    Ok(())
}
fn mk_stream(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    any_unit(s, c, e, d);
    c.plan = vec![0, s.pick(&[8, 16, 64, 500, 4096])];
}
/// A unit of any kind.
fn any_unit(s: &mut Src, c: &mut Case, e: usize, dec: bool) {
    c.reset();
    c.enc = e;
    c.dec = dec;
    c.end = s.chance(1, 2);
    let n = s.range(1, 12) as usize;
    let good = s.chance(1, 4);
    if !dec {
        gen::text(s, e, good, n, &mut c.data)
    } else if s.chance(1, 2) {
        gen::bytes(s, e, good, n, &mut c.data)
    } else {
        // One or two byte values.
        let (a, b) = (s.us(256) as u8, s.us(256) as u8);
        for _ in 0..n {
            c.data.push(if s.chance(3, 4) { a } else { b });
        }
    }
    if c.data.is_empty() {
        c.data.push(b'k');
    }
}
fn mk_any_rep(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    any_unit(s, c, e, d);
    let unit = std::mem::take(&mut c.data);
    let (k, m) = (s.us(4), s.us(4));
    let put = |s: &mut Src, n: usize, out: &mut Vec<u8>| {
        let good = s.chance(1, 2);
        if d {
            gen::bytes(s, e, good, n, out)
        } else {
            gen::text(s, e, good, n, out)
        }
    };
    put(s, k, &mut c.data);
    let at = c.data.len();
    c.data.extend_from_slice(&unit);
    let to = c.data.len();
    let mut tail = vec![];
    put(s, m, &mut tail);
    c.data.append(&mut tail);
    let size = s.range(8_000, 60_000);
    let len = if s.chance(1, 2) { 6 * size } else { s.range(0, size) };
    c.plan = vec![(size / unit.len() as u64) as u32, len as u32, to as u32, at as u32];
}
fn mk_cost(s: &mut Src, c: &mut Case, e: usize, dec: bool, mode: u32) {
    mk_rep(s, c, e, dec, SMALL as u64);
    c.plan[0] = 2;
    c.plan[1] = s.us(4096) as u32;
    c.plan.push(mode);
}

// ------------------------------------------------------------ C26

/// What remains of a stream after dropping (UTF-8) or replacing invalid parts.
fn lossy_text(e: usize, data: &[u8]) -> String {
    let k = ENCS[e].kind;
    let l = model::lossy(k, true, data, true);
    let mut t = Vec::new();
    let mut from = 0;
    for (_, _, o) in &l.bad {
        t.extend_from_slice(&l.out[from..*o]);
        if k != Kind::Utf8 {
            t.extend_from_slice("\u{FFFD}".as_bytes());
        }
        from = *o;
    }
    t.extend_from_slice(&l.out[from..]);
    String::from_utf8(t).unwrap()
}
fn lossy_bytes(e: usize, text: &str) -> (Vec<u8>, usize) {
    let k = ENCS[e].kind;
    let q = model::enc_char(k, '?').unwrap();
    let l = model::lossy(k, false, text.as_bytes(), true);
    let mut t = Vec::new();
    let mut from = 0;
    for (_, _, o) in &l.bad {
        t.extend_from_slice(&l.out[from..*o]);
        t.extend_from_slice(q.s());
        from = *o;
    }
    t.extend_from_slice(&l.out[from..]);
    (t, l.bad.len())
}

/// Bytes of one encoding to bytes of another through bounded buffers, the way
/// the documentation describes.  plan = [target encoding, decoder's buffer,
/// encoder's buffer, chunk sizes...]
fn pipeline(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let (a, b) = (c.enc, c.p(0) % encs::N);
    // Any character fits into 4 bytes (Big5 codes can stand for two).
    let (m, o) = (c.p(1).max(4), c.p(2).max(4));
    let chunk = |i: usize| if c.plan.len() > 3 { c.p(3 + i % (c.plan.len() - 3)).max(1) } else { usize::MAX };
    let text = lossy_text(a, &c.data);
    let (want, replaced) = lossy_bytes(b, &text);
    let fail = |why: String| {
        Err(format!(
            "{} to {} with buffers of {} and {}, chunks {:?}, bytes {:02X?}{}: {}",
            ENCS[a].name,
            ENCS[b].name,
            m,
            o,
            &c.plan[3.min(c.plan.len())..c.plan.len().min(12)],
            &c.data[..c.data.len().min(40)],
            if c.data.len() > 40 { "..." } else { "" },
            why
        ))
    };
    let (mut fed, mut n, mut rounds, mut errors) = (0, 0, 0u64, 0);
    let mut held: Vec<u8> = vec![];
    let mut mid: Vec<u8> = vec![];
    let mut got: Vec<u8> = vec![];
    loop {
        let k = chunk(n).min(c.data.len() - fed);
        n += 1;
        held.extend_from_slice(&c.data[fed..fed + k]);
        fed += k;
        let eof = fed == c.data.len();
        // Decode what there is.
        loop {
            rounds += 1;
            if rounds > 8 * (c.data.len() as u64 + 8) * 4 {
                return fail("no end after more rounds than the data can need".into());
            }
            let g = x.t.call(a, true, &held, eof, m, c.fill);
            let (used, stop) = match g.res {
                Res::Ok { used } => (used, used == 0),
                Res::Err { e, .. } => {
                    errors += 1;
                    (e, false)
                }
                _ => return fail(format!("decoding: {}", g.show())),
            };
            if used > held.len() {
                return fail(format!("decoding {:02X?}: {}", held, g.show()));
            }
            mid.extend_from_slice(&g.out);
            if matches!(g.res, Res::Err { .. }) && ENCS[a].kind != Kind::Utf8 {
                mid.extend_from_slice("\u{FFFD}".as_bytes());
            }
            held.drain(..used);
            let last = eof && held.is_empty();
            // Encode what there is.
            loop {
                if std::str::from_utf8(&mid).is_err() {
                    return fail(format!("the decoder gave {:02X?}, which is not UTF-8", mid));
                }
                rounds += 1;
                let g = x.t.call(b, false, &mid, last, o, c.fill);
                match g.res {
                    Res::Ok { used } if used <= mid.len() => {
                        got.extend_from_slice(&g.out);
                        mid.drain(..used);
                        if used == 0 {
                            break;
                        }
                    }
                    Res::Err { e, .. } if e <= mid.len() => {
                        got.extend_from_slice(&g.out);
                        got.extend_from_slice(model::enc_char(ENCS[b].kind, '?').unwrap().s());
                        mid.drain(..e);
                    }
                    _ => return fail(format!("encoding {:02X?}: {}", mid, g.show())),
                }
                if mid.is_empty() {
                    break;
                }
            }
            if stop || held.is_empty() {
                break;
            }
        }
        if eof {
            break;
        }
    }
    if errors > 0 {
        x.label("invalid bytes skipped");
    }
    if replaced > 0 {
        x.label("characters replaced");
    }
    if n > 1 && want != c.data {
        x.nt();
    }
    if !held.is_empty() || !mid.is_empty() {
        return fail(format!("at the end {:02X?} and text {:02X?} are stuck", held, mid));
    }
    if got != want {
        let at = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
        return fail(format!(
            "output differs from the whole conversion at byte {}: {:02X?} instead of {:02X?}",
            at,
            &got[at..got.len().min(at + 12)],
            &want[at..want.len().min(at + 12)]
        ));
    }
    Ok(())
}
fn mk_pipeline(s: &mut Src, c: &mut Case) {
    let a = gen::pick_enc(s);
    let b = gen::pick_enc(s);
    c.reset();
    c.enc = a;
    c.dec = true;
    c.fill = s.pick(&[0xA5, 0x00, 0xFF]);
    match s.us(3) {
        // Text that suits the target, in the source's encoding.
        0 => {
            let mut t = vec![];
            let n = gen::length(s);
            gen::text(s, b, true, n, &mut t);
            c.data = lossy_bytes(a, std::str::from_utf8(&t).unwrap()).0;
        }
        k => gen::data(s, a, true, k == 1, &mut c.data),
    }
    let small = |s: &mut Src| match s.us(3) {
        0 => 4,
        1 => s.range(4, 9),
        _ => s.range(4, 80),
    } as u32;
    let (m, o) = (small(s), small(s));
    c.plan = vec![b as u32, m, o];
    let n = s.range(1, 6);
    for _ in 0..n {
        let k = match s.us(3) {
            0 => s.range(1, 3),
            1 => s.range(1, 12),
            _ => s.range(1, 90),
        };
        c.plan.push(k as u32);
    }
}
fn mk_pipeline_large(s: &mut Src, c: &mut Case) {
    mk_pipeline(s, c);
    c.data.clear();
    gen::data_large(s, c.enc, true, &mut c.data);
    c.plan[1] = s.range(200, 9000) as u32;
    c.plan[2] = s.range(200, 9000) as u32;
    c.plan.truncate(3);
    let n = s.range(1, 6);
    for _ in 0..n {
        let k = s.range(500, 5000);
        c.plan.push(k as u32);
    }
}

pub fn huge_sub(dec: bool) -> Sub {
    Sub {
        name: if dec { "huge-decode" } else { "huge-encode" },
        what: "a unit repeated to 100 KiB - 16 MiB, then a tail that may be invalid; any buffer length",
        source: Rand {
            quick: 96,
            thorough: 1_200,
            make: if dec { |s, c| mk_huge(s, c, true) } else { |s, c| mk_huge(s, c, false) },
        },
        check: huge,
    }
}

pub fn props2() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "Non-trivial: a call with input and room (allocation); an input of a repeated unit (stack, huge).",
            subs: vec![
                Sub {
                    name: "allocation",
                    what: "random calls, heap allocations counted during the call",
                    source: Rand {
                        quick: 3_000_000,
                        thorough: 20_000_000,
                        make: |s, c| {
                            let e = gen::pick_enc(s);
                            let d = s.chance(1, 2);
                            c.reset();
                            c.enc = e;
                            c.dec = d;
                            c.end = !s.chance(1, 3);
                            gen::data(s, e, d, false, &mut c.data);
                            let n = model::with_full(ENCS[e].kind, d, &c.data, c.end, |f| gen::buf_len(s, f));
                            c.plan.push(n as u32);
                        },
                    },
                    check: c24_alloc,
                },
                Sub {
                    name: "stack",
                    what: "inputs of 100 KiB - 4 MiB on a thread with a 128 KiB stack",
                    source: Rand {
                        quick: 760,
                        thorough: 8_000,
                        make: |s, c| {
                            let e = s.us(encs::N);
                            let d = s.chance(1, 2);
                            let n = s.range(100_000, 4 << 20);
                            mk_rep(s, c, e, d, n)
                        },
                    },
                    check: c24_stack,
                },
                Sub {
                    name: "stack-byte-runs",
                    what: "38 decoders, every byte value 12000 times, alone or after one of 2 prefixes, both flags, on that stack",
                    source: Enum {
                        n: |_| 38 * 256 * 3 * 2,
                        make: |i, c| {
                            c.reset();
                            c.enc = (i % 38) as usize;
                            c.dec = true;
                            let i = i / 38;
                            c.end = i % 2 == 1;
                            let p: &[u8] = [&b""[..], b"k", &[0x88]][(i / 2 % 3) as usize];
                            c.data.extend_from_slice(p);
                            c.data.push((i / 6) as u8);
                            c.plan = vec![12_000, 80_000, c.data.len() as u32, p.len() as u32];
                        },
                    },
                    check: c24_stack,
                },
                Sub {
                    name: "stack-any",
                    what: "any unit, valid or not, repeated to 8 - 60 KiB between any prefix and tail, on that stack",
                    source: Rand { quick: 12_000, thorough: 150_000, make: mk_any_rep },
                    check: c24_stack,
                },
                Sub {
                    name: "allocation-large",
                    what: "inputs of up to 16 MiB, heap allocations counted during the call",
                    source: Rand {
                        quick: 20_000,
                        thorough: 200_000,
                        make: |s, c| {
                            let d = s.chance(1, 2);
                            if s.chance(1, 130) {
                                mk_huge(s, c, d);
                                return;
                            }
                            let e = gen::pick_enc(s);
                            c.reset();
                            c.enc = e;
                            c.dec = d;
                            c.end = !s.chance(1, 3);
                            if s.chance(5, 6) {
                                gen::data_deep(s, e, d, &mut c.data);
                            } else {
                                gen::data_large(s, e, d, &mut c.data);
                            }
                            let n = 4 * c.data.len() as u64 + 4;
                            let n = if s.chance(1, 2) { n } else { s.range(0, n) };
                            c.plan = vec![1, n as u32, c.data.len() as u32];
                        },
                    },
                    check: c24_alloc_large,
                },
            ],
        },
        Prop {
            id: "C25",
            rule: "Non-trivial: two sizes were converted and their processor times compared.",
            subs: vec![
                Sub {
                    name: "every-encoding",
                    what: "38 encodings x 2 directions x 4 modes, a fixed unit of plain text",
                    source: Enum {
                        n: |_| 38 * 2 * 4,
                        make: |i, c| {
                            c.reset();
                            c.enc = (i / 8) as usize;
                            c.dec = i % 2 == 1;
                            for _ in 0..8 {
                                gen_ascii(c, c.enc, c.dec);
                            }
                            c.plan = vec![2, 1000, c.data.len() as u32, (i / 2 % 4) as u32];
                        },
                    },
                    check: c25,
                },
                Sub {
                    name: "random",
                    what: "random encodings, units, buffers",
                    source: Rand {
                        quick: 1_200,
                        thorough: 12_000,
                        make: |s, c| {
                            let e = gen::pick_enc(s);
                            let d = s.chance(1, 2);
                            let m = s.us(4) as u32;
                            mk_cost(s, c, e, d, m)
                        },
                    },
                    check: c25,
                },
                Sub {
                    name: "streaming",
                    what: "any unit, valid or not, repeated to 6 and 384 KiB, taken through a buffer of 8 to 4096 bytes with errors stepped over",
                    source: Rand { quick: 6_000, thorough: 60_000, make: mk_stream },
                    check: c25_stream,
                },
            ],
        },
        Prop {
            id: "C26",
            rule: "Non-trivial: the source came in more than one chunk and the result differs from the source bytes.",
            subs: vec![
                Sub {
                    name: "pipeline",
                    what: "random source and target encodings, data, chunk sizes and buffer sizes",
                    source: Rand { quick: 2_000_000, thorough: 30_000_000, make: mk_pipeline },
                    check: pipeline,
                },
                Sub {
                    name: "large",
                    what: "sources of 4 KiB to 180 KiB",
                    source: Rand { quick: 400, thorough: 8_000, make: mk_pipeline_large },
                    check: pipeline,
                },
            ],
        },
    ]
}
