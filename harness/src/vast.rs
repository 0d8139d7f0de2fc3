//! Inputs and outputs beyond 4 GiB, where a position no longer fits into 32
//! bits.  The memory is an alias of a few MiB mapped again and again: the input
//! is periodic, and so is what a correct conversion writes.

use crate::case::Case;
use crate::ctx::{Ctx, Got, Res};
use crate::encs::{self, BIG5, ENCS, Kind, SB0, SJIS};
use crate::gen;
use crate::model::{self, full, full_into};
use crate::props::{Source::*, Sub};
use crate::props2::rep;
use crate::rng::Src;
use crate::verify::{exact, input_desc};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn close(fd: i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
const PAGE: usize = 4096;

/// Processor time of this thread.
fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

/// `chunks` times the same `chunk` bytes, then `own` bytes.
struct Span {
    at: *mut u8,
    mapped: usize,
    chunk: usize,
    chunks: usize,
}
impl Span {
    /// Without a period, no part of it is shared.
    fn new(period: usize, total: usize, own_min: usize) -> Option<Span> {
        let chunk = PAGE * period.max(1) * ((1 << 22) / (PAGE * period.max(1))).max(1);
        let chunks = if period == 0 { 0 } else { (total / chunk).saturating_sub(1) };
        let own = (total - chunks * chunk + own_min + PAGE) / PAGE * PAGE;
        let mapped = chunks * chunk + own;
        unsafe {
            let bad = usize::MAX as *mut u8;
            let at = mmap(std::ptr::null_mut(), mapped, 0, 0x4022, -1, 0); // private, anonymous, no reserve
            if at == bad {
                return None;
            }
            let s = Span { at, mapped, chunk, chunks };
            if chunks > 0 {
                let fd = memfd_create(b"tev\0".as_ptr(), 1);
                if fd < 0 {
                    return None;
                }
                let mut ok = ftruncate(fd, chunk as i64) == 0;
                for i in 0..chunks {
                    ok = ok && mmap(at.add(i * chunk), chunk, 3, 0x11, fd, 0) != bad; // shared, fixed
                }
                close(fd);
                if !ok {
                    return None;
                }
            }
            if mmap(at.add(chunks * chunk), own, 3, 0x4032, -1, 0) == bad {
                return None;
            }
            Some(s)
        }
    }
}
impl Drop for Span {
    fn drop(&mut self) {
        unsafe {
            munmap(self.at, self.mapped);
        }
    }
}

/// (result, bytes written, are they at the start of the buffer)
fn raw(c: &Case, data: &[u8], buf: &mut [u8]) -> std::thread::Result<(Res, usize, bool)> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let at = buf.as_ptr();
        if c.dec {
            match (ENCS[c.enc].dec)(data, buf, c.end) {
                Ok((t, used)) => (Res::Ok { used }, t.len(), t.as_ptr() == at || t.is_empty()),
                Err(e) => (crate::ctx::dec_err(&e), e.output_bytes_written, true),
            }
        } else {
            match (ENCS[c.enc].enc)(unsafe { std::str::from_utf8_unchecked(data) }, buf, c.end) {
                Ok((t, used)) => (Res::Ok { used }, t.len(), t.as_ptr() == at || t.is_empty()),
                Err(e) => (
                    Res::Err { ch: Some(e.character), other: false, s: e.error_range.0, e: e.error_range.1, written: e.output_bytes_written },
                    e.output_bytes_written,
                    true,
                ),
            }
        }
    }))
}

/// data = unit ++ tail, plan = [2, mode, length of the unit, jitter].  Bit 0 of
/// mode: the input, otherwise the output goes beyond 4 GiB.  Bits 1, 2: how long
/// the buffer is.
pub fn vast(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let r = match rep(c) {
        Some(r) => r,
        None => {
            x.label("not applicable");
            return Ok(());
        }
    };
    let k = ENCS[c.enc].kind;
    let (l, o) = (r.unit.len(), r.out);
    let target = (1usize << 32) + (1 << 20);
    let n = target / if c.p(1) & 1 == 1 { l } else { o } + 1;
    let extra = full(k, c.dec, &[r.unit, r.tail].concat(), c.end).out.len();
    let len = match c.p(1) >> 1 & 3 {
        0 => n * o + extra + 1000,
        1 => ((1 << 32) + c.p(3)).min(n * o),
        2 => n * o - c.p(3).min(n * o),
        _ => n * o + c.p(3) % 64,
    };
    let (ins, outs) = match (Span::new(l, n * l, r.tail.len()), Span::new(o, n * o, extra + 2000)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            x.label("no address space");
            return Ok(());
        }
    };
    // Fill the shared part and the part of its own.
    let fill = |s: &Span, unit: &[u8], total: usize, tail: &[u8]| unsafe {
        let put = |at: usize, n: usize| {
            for i in 0..n / unit.len() {
                std::ptr::copy_nonoverlapping(unit.as_ptr(), s.at.add(at + i * unit.len()), unit.len());
            }
        };
        if s.chunks > 0 {
            put(0, s.chunk);
        }
        put(s.chunks * s.chunk, total - s.chunks * s.chunk);
        std::ptr::copy_nonoverlapping(tail.as_ptr(), s.at.add(total), tail.len());
    };
    fill(&ins, r.unit, n * l, r.tail);
    let data = unsafe { std::slice::from_raw_parts(ins.at, n * l + r.tail.len()) };
    let buf = unsafe { std::slice::from_raw_parts_mut(outs.at, len) };
    // How long will it take?  A thousandth of it tells.
    let part = (n / 1000).max(1);
    let t0 = cpu();
    let first = x.t.call(c.enc, c.dec, &data[..part * l], c.end, part * o, 0);
    let slow = (cpu() - t0) * 1000.0 > 60.0;
    if slow && first.res == (Res::Ok { used: part * l }) {
        x.label("too slow here");
        return Ok(());
    }
    x.nt();
    crate::ctx::IN_TARGET.with(|f| f.set(true));
    crate::watch::enter_for(250);
    let res = raw(c, data, buf);
    crate::watch::leave();
    crate::ctx::IN_TARGET.with(|f| f.set(false));
    x.t.calls += 1;
    x.label(["output beyond 4 GiB", "input beyond 4 GiB"][c.p(1) & 1]);
    let bad = |why: String| {
        Err(format!(
            "{} repetitions ({} bytes) of {} with buffer {} (is_end {}) then {:02X?}: {}",
            n,
            n * l,
            input_desc(c.enc, c.dec, r.unit, c.end, len),
            len,
            c.end,
            &r.tail[..r.tail.len().min(24)],
            why
        ))
    };
    let (res, written, inside) = match res {
        Ok(r) => r,
        Err(_) => return bad("panic".into()),
    };
    if !inside || written > len {
        return bad("the result is not at the start of the buffer".into());
    }
    let whole = (len / o).min(n - 1);
    let (skip_in, skip_out) = (whole * l, whole * o);
    let short = |res: &Res| Got { res: res.clone(), out: vec![] }.show();
    let less = |v: usize, by: usize| v.checked_sub(by);
    let res2 = match res {
        Res::Ok { used } => less(used, skip_in).map(|used| Res::Ok { used }),
        Res::Err { ch, other, s, e, written } => match (less(s, skip_in), less(e, skip_in), less(written, skip_out)) {
            (Some(s), Some(e), Some(written)) => Some(Res::Err { ch, other, s, e, written }),
            _ => None,
        },
        ref r => Some(r.clone()),
    };
    let (res2, out) = match res2 {
        Some(r2) if written >= skip_out => (r2, unsafe { std::slice::from_raw_parts(outs.at.add(skip_out), written - skip_out) }),
        _ => return bad(format!("{}, {} bytes of output: less was converted than fits", short(&res), written)),
    };
    let rest = &data[skip_in..];
    let rest = if whole == n - 1 { rest } else { &rest[..l] };
    let f = full(k, c.dec, rest, c.end);
    if out.len() > f.out.len() + 100 {
        return bad(format!("{}, {} bytes of output", short(&res), written));
    }
    if let Err(m) = exact(c.enc, c.dec, rest, c.end, len - skip_out, &Got { res: res2, out: out.to_vec() }, &f) {
        return bad(format!("after the first {} input bytes: {}", skip_in, m));
    }
    // What is before that: the shared chunk, and the units of the other part.
    let one = full(k, c.dec, r.unit, false).out;
    let same = |from: usize, to: usize| (from..to.max(from)).step_by(o).all(|i| unsafe { std::slice::from_raw_parts(outs.at.add(i), o) } == &one[..]);
    if !same(0, outs.chunk.min(skip_out)) || !same((outs.chunks * outs.chunk).min(skip_out), skip_out) {
        return bad("the output is not the repeated conversion of the unit".into());
    }
    Ok(())
}

const EDGE: usize = 1 << 18;
thread_local! {
    /// Two stretches of memory with nothing accessible before or after them.
    static EDGES: Option<(Span, Span)> = Span::walled().and_then(|a| Some((a, Span::walled()?)));
}
impl Span {
    fn walled() -> Option<Span> {
        unsafe {
            let bad = usize::MAX as *mut u8;
            let at = mmap(std::ptr::null_mut(), EDGE + 2 * PAGE, 0, 0x4022, -1, 0);
            if at == bad || mmap(at.add(PAGE), EDGE, 3, 0x32, -1, 0) == bad {
                return None;
            }
            Some(Span { at, mapped: EDGE + 2 * PAGE, chunk: EDGE, chunks: 0 })
        }
    }
}
/// Input and buffer where memory begins or ends: a read or write beside them
/// ends in a signal.  plan = [buffer length]
pub fn edges(c: &Case, x: &mut Ctx) -> Result<(), String> {
    EDGES.with(|r| {
        let (i, o) = match r {
            Some(r) => (&r.0, &r.1),
            None => {
                x.label("no address space");
                return Ok(());
            }
        };
        let (n, len) = (c.data.len(), c.p(0).min(EDGE));
        if n > EDGE {
            return Ok(());
        }
        if n > 0 && len > 0 {
            x.nt();
        }
        for k in 0..3 {
            let at = |s: &Span, n: usize, end: bool| unsafe { s.at.add(PAGE + if end { EDGE - n } else { 0 }) };
            let (ip, op) = (at(i, n, k != 1), at(o, len, k != 2));
            let inp = unsafe { std::slice::from_raw_parts_mut(ip, n) };
            inp.copy_from_slice(&c.data);
            let buf = unsafe { std::slice::from_raw_parts_mut(op, len) };
            crate::ctx::IN_TARGET.with(|f| f.set(true));
            crate::watch::enter();
            let res = raw(c, inp, buf);
            crate::watch::leave();
            crate::ctx::IN_TARGET.with(|f| f.set(false));
            x.t.calls += 1;
            match res {
                Ok((_, n, inside)) if n > len || !inside => {
                    return Err(format!("{}: the result is not at the start of the buffer", input_desc(c.enc, c.dec, &c.data, c.end, len)))
                }
                // A panic is C01's business.
                _ => {}
            }
            if inp != &c.data[..] {
                return Err(format!("{}: the input changed", input_desc(c.enc, c.dec, &c.data, c.end, len)));
            }
        }
        Ok(())
    })
}

const MOST: usize = (1 << 33) + 4096;
thread_local! {
    /// Zeros, and a buffer.
    static ROOM: Option<(Span, Span)> = {
        let i = Span::new(0, MOST, 0);
        let o = Span::new(1, MOST, 0);
        match (i, o) {
            (Some(i), Some(o)) => Some((i, o)),
            _ => None,
        }
    };
}
/// A short input and a buffer of GiB, or a short buffer and GiB of input (the
/// data, then zeros).  plan = [1 for the latter, length, length in GiB, length
/// of the short buffer]
pub fn roomy(c: &Case, x: &mut Ctx) -> Result<(), String> {
    ROOM.with(|r| {
        let (i, o) = match r {
            Some(r) => (&r.0, &r.1),
            None => {
                x.label("no address space");
                return Ok(());
            }
        };
        let size = ((c.p(2) << 30) + c.p(1)).saturating_sub(8).clamp(1 << 30, MOST);
        let long_input = c.p(0) == 1;
        let mut rest = c.data.clone();
        if rest.len() > 1 << 20 {
            return Ok(());
        }
        if long_input {
            rest.resize(c.data.len() + 400, 0);
        }
        full_into(ENCS[c.enc].kind, c.dec, &rest, c.end, &mut x.f);
        let len = if long_input { c.p(3).min(x.f.out.len().saturating_sub(40)) } else { size };
        let inp = unsafe { std::slice::from_raw_parts_mut(i.at, if long_input { size } else { c.data.len() }) };
        inp[..c.data.len()].copy_from_slice(&c.data);
        let buf = unsafe { std::slice::from_raw_parts_mut(o.at, len) };
        x.nt();
        x.label(if long_input { "input of GiB" } else { "buffer of GiB" });
        crate::ctx::IN_TARGET.with(|f| f.set(true));
        crate::watch::enter();
        let res = raw(c, inp, buf);
        crate::watch::leave();
        crate::ctx::IN_TARGET.with(|f| f.set(false));
        x.t.calls += 1;
        let out = match &res {
            Ok((_, n, _)) => unsafe { std::slice::from_raw_parts(o.at, (*n).min(1 << 22)) }.to_vec(),
            Err(_) => vec![],
        };
        inp[..c.data.len()].fill(0);
        let what = if long_input { format!("input of {} bytes (zeros at the end)", size) } else { "large buffer".into() };
        match res {
            Err(_) => Err(format!("{}: {}: panic", input_desc(c.enc, c.dec, &rest, c.end, len), what)),
            Ok((_, n, inside)) if n > len || !inside => {
                Err(format!("{}: {}: the result is not at the start of the buffer", input_desc(c.enc, c.dec, &rest, c.end, len), what))
            }
            Ok((res, _, _)) => exact(c.enc, c.dec, &rest, c.end, len, &Got { res, out }, &x.f).map_err(|m| format!("{}: {}", what, m)),
        }
    })
}
fn make_roomy(i: u64, dec: bool, c: &mut Case) {
    let mut s = Src::seeded(crate::rng::mix(i ^ 0x4007));
    c.reset();
    c.enc = (i % encs::N as u64) as usize;
    c.dec = dec;
    c.end = s.chance(1, 2);
    let any = s.chance(1, 2);
    gen::data(&mut s, c.enc, dec, !any, &mut c.data);
    let short = match s.us(3) {
        0 => s.range(0, 4),
        1 => s.range(0, 40),
        _ => c.data.len() as u64 + s.range(0, 20),
    };
    c.plan = vec![s.us(8).min(1) as u32 ^ 1, s.range(0, 64) as u32, s.pick(&[2, 4, 4, 8]), short as u32];
}
pub fn roomy_sub(dec: bool) -> Sub {
    Sub {
        name: if dec { "roomy-decode" } else { "roomy-encode" },
        what: "short inputs with buffers of 2 - 8 GiB; inputs of 2 - 8 GiB with short buffers",
        source: Enum {
            n: |t| if t { 600 * encs::N as u64 } else { 60 * encs::N as u64 },
            make: if dec { |i, c| make_roomy(i, true, c) } else { |i, c| make_roomy(i, false, c) },
        },
        check: roomy,
    }
}

/// Encodings of every kind.
fn nth(i: u64) -> usize {
    match i % 8 {
        7 => SB0 + (i / 8 * 7 + 3) as usize % 30,
        k => k as usize, // UTF-8, the four of UTF-16 and UTF-32, Big5, Shift JIS
    }
}
fn make(i: u64, e: usize, dec: bool, bad: bool, way: u64, c: &mut Case) {
    let mut s = Src::seeded(crate::rng::mix(i ^ 0x7A57));
    c.reset();
    c.enc = e;
    c.dec = dec;
    c.end = s.chance(2, 3);
    let kind = ENCS[e].kind;
    // Mostly ASCII, which converts quickly.
    let k = model::enc_char(kind, 'k').unwrap();
    let ascii: &[u8] = if dec { k.s() } else { b"k" };
    let a = s.range(30, 60);
    for _ in 0..a {
        c.data.extend_from_slice(ascii);
    }
    if dec {
        gen::bytes(&mut s, e, true, 1, &mut c.data)
    } else {
        gen::text(&mut s, e, true, 1, &mut c.data)
    }
    for _ in 0..s.us(4) {
        c.data.extend_from_slice(ascii);
    }
    let unit = c.data.len();
    for _ in 0..s.us(4) {
        c.data.extend_from_slice(ascii);
    }
    if bad {
        let t: &[u8] = if !dec {
            "\u{10FFFF}k".as_bytes()
        } else {
            // Each way to be invalid, at the end and before it.
            let ways: &[&[u8]] = match kind {
                Kind::Utf8 => &[b"\xFFk", b"\xE3\x81k", b"\xF0\x9F\x98", b"\xED\xA0\x80k"],
                Kind::U16 { be: true } => &[b"\xDC\x00\x00k", b"\xD8\x00\x00k", b"\xD8\x00", b"\x00"],
                Kind::U16 { be: false } => &[b"\x00\xDCk\x00", b"\x00\xD8k\x00", b"\x00\xD8", b"k"],
                Kind::U32 { be: true } => &[b"\xFF\xFF\xFF\xFF", b"\x00\x00", b"\x00\x00\xD8\x00", b"\x00\x11\x00\x00\x00\x00\x00k"],
                Kind::U32 { be: false } => &[b"\xFF\xFF\xFF\xFF", b"k\x00", b"\x00\xD8\x00\x00", b"\x00\x00\x11\x00k\x00\x00\x00"],
                Kind::Big5 => &[b"\x80k", b"\x8E", b"\x81\x40k", b"\x8E\xFFk"],
                Kind::Sjis => &[b"\xA0k", b"\x88", b"\x81\x20k", b"\xEB\x40k"],
                _ => &[b"\xFFk"],
            };
            ways[way as usize % ways.len()]
        };
        c.data.extend_from_slice(t);
    } else if dec && s.chance(1, 2) {
        // Something incomplete, for those that have it.
        gen::bytes(&mut s, e, false, 1, &mut c.data)
    }
    let mode = if bad { s.chance(3, 4) as u32 } else { s.us(8) as u32 };
    c.plan = vec![2, mode, unit as u32, s.pick(&[0, 1, 2, 3, 5, 40, 1000])];
}
/// `bad`: what follows is an error; only the position of it counts.
pub fn subs(dirs: &'static [bool], bad: bool) -> Sub {
    fn n(thorough: bool, q: u64, t: u64) -> u64 {
        if thorough { t } else { q }
    }
    let what = "inputs and outputs beyond 4 GiB (a few MiB mapped again and again), one call";
    match (dirs, bad) {
        ([_, _], _) => Sub {
            name: "vast",
            what,
            source: Enum { n: |t| n(t, 8, 320), make: |i, c| make(i, nth(i), (i + i / 8) % 2 == 1, false, 0, c) },
            check: vast,
        },
        ([true], _) => Sub {
            name: "vast",
            what,
            source: Enum { n: |t| n(t, 32, 320), make: |i, c| make(i + 1000, if i % 8 == 7 { [SB0 + 6, SB0 + 7, SB0 + 8, encs::ASCII][i as usize / 8 % 4] } else { nth(i) }, true, true, i / 8, c) },
            check: vast,
        },
        _ => Sub {
            name: "vast",
            what,
            source: Enum { n: |t| n(t, 3, 60), make: |i, c| make(i + 2000, [BIG5, SJIS, SB0 + (i / 3) as usize % 30][(i % 3) as usize], false, true, 0, c) },
            check: vast,
        },
    }
}
