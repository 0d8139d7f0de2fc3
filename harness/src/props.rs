//! The properties as executable checks (C01..C20).  Each sub-check pairs a
//! source of cases with a predicate that must hold for *every* case value, so
//! that shrunk and replayed cases need no generator.

use crate::case::Case;
use crate::ctx::{Ctx, Got, Res};
use crate::encs::{self, Kind, ENCS};
use crate::gen;
use crate::model::{self, full_into, refs, Step};
use crate::rng::Src;
use crate::verify::{conform, exact, input_desc, structural};

pub type Check = fn(&Case, &mut Ctx) -> Result<(), String>;

pub enum Source {
    /// Complete enumeration: `n(thorough)` cases.
    Enum { n: fn(bool) -> u64, make: fn(u64, &mut Case) },
    /// An enumeration that can make the same case twice: distinct cases are
    /// counted by hash.
    EnumDup { n: fn(bool) -> u64, make: fn(u64, &mut Case) },
    /// Random cases.
    Rand { quick: u64, thorough: u64, make: fn(&mut Src, &mut Case) },
}

pub struct Sub {
    pub name: &'static str,
    pub what: &'static str,
    pub source: Source,
    pub check: Check,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

// ------------------------------------------------------------ enumerations

pub const SCALARS: u64 = 0x11_0000 - 0x800;
pub fn nth_scalar(i: u64) -> char {
    let i = i as u32;
    char::from_u32(if i < 0xD800 { i } else { i + 0x800 }).unwrap()
}
fn put(c: &mut Case, ch: char) {
    let mut b = [0; 4];
    c.data.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
}
fn value32(c: &mut Case, be: bool, v: u32) {
    c.reset();
    c.dec = true;
    c.enc = if be { encs::U32BE } else { encs::U32LE };
    c.data.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}
fn put_unit16(c: &mut Case, be: bool, u: u16) {
    c.data.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
}

/// 0, 1 or 2 bytes; 65793 values.
const SHORT2: u64 = 1 + 256 + 65536;
fn short2(i: u64, out: &mut Vec<u8>) {
    if i == 0 {
    } else if i <= 256 {
        out.push((i - 1) as u8);
    } else {
        out.extend_from_slice(&((i - 257) as u16).to_be_bytes());
    }
}

// ------------------------------------------------------------ case makers

fn base(s: &mut Src, c: &mut Case, e: usize, dec: bool) {
    c.reset();
    c.enc = e;
    c.dec = dec;
    c.end = !s.chance(1, 3);
    c.fill = s.pick(&[0xA5, 0x00, 0xFF, 0x80, 0x41]);
}

/// Any encoding, any direction, any data, a buffer length that matters.
fn mk_any(s: &mut Src, c: &mut Case, e: usize, dec: bool) {
    base(s, c, e, dec);
    gen::data(s, e, dec, false, &mut c.data);
    push_len(s, c);
}
fn push_len(s: &mut Src, c: &mut Case) {
    let n = model::with_full(ENCS[c.enc].kind, c.dec, &c.data, c.end, |f| gen::buf_len(s, f));
    c.plan.push(n as u32);
}
fn mk_dec(s: &mut Src, c: &mut Case, e: usize) {
    mk_any(s, c, e, true)
}
fn mk_enc(s: &mut Src, c: &mut Case, e: usize) {
    mk_any(s, c, e, false)
}
fn mk_any_any(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    mk_any(s, c, e, d)
}
fn mk_large(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    mk_large_of(s, c, e, d)
}
fn mk_large_of(s: &mut Src, c: &mut Case, e: usize, d: bool) {
    base(s, c, e, d);
    if s.chance(2, 3) {
        gen::data_deep(s, e, d, &mut c.data);
        if s.chance(2, 3) {
            c.plan.push(amp(c) as u32);
            return;
        }
    } else {
        gen::data_large(s, e, d, &mut c.data);
    }
    push_len(s, c);
}
fn u16e(s: &mut Src) -> usize {
    s.pick(&[encs::U16BE, encs::U16LE])
}
fn u32e(s: &mut Src) -> usize {
    s.pick(&[encs::U32BE, encs::U32LE])
}

fn amp(c: &Case) -> usize {
    4 * c.data.len() + 16
}

// ------------------------------------------------------------ C01

fn c01(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let len = c.p(0);
    let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
    match g.res {
        Res::Err { .. } => x.label("error result"),
        Res::Ok { used } if used < c.data.len() => x.label("partial result"),
        _ => x.label("complete result"),
    }
    if c.data.iter().any(|&b| b >= 0x80) {
        x.nt();
    }
    structural(c.enc, c.dec, &c.data, c.end, len, &g)
}
fn c01_grid(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.data.iter().any(|&b| b >= 0x80) {
        x.nt();
    }
    let n = c.data.len();
    for len in [4 * n + 8, n, n / 2, n / 4 + 2] {
        let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
        structural(c.enc, c.dec, &c.data, c.end, len, &g)?;
    }
    Ok(())
}
/// One case = one input, all small buffer lengths and both flags.
fn c01_small(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    for len in 0..=8 {
        for end in [false, true] {
            let g = x.t.call(c.enc, c.dec, &c.data, end, len, c.fill);
            structural(c.enc, c.dec, &c.data, end, len, &g)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ mappings

/// C02..C10: walk the data with `conform`, resuming after every error.
fn mapping(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    let mut pos = 0;
    let mut first = true;
    loop {
        let d = &c.data[pos..];
        full_into(k, c.dec, d, c.end, &mut x.f);
        if first && (x.f.out.len() != d.len() || x.f.out != d || matches!(x.f.stop, Step::Bad { .. })) {
            x.nontrivial = true;
        }
        if first && !c.dec && k == Kind::Utf8 && d.iter().any(|&b| b >= 0x80) {
            x.nontrivial = true;
        }
        if first && !c.plan.is_empty() {
            let len = c.p(0);
            let g = x.t.call(c.enc, c.dec, d, c.end, len, c.fill);
            conform(c.enc, c.dec, d, c.end, len, &g, &x.f)?;
        }
        let len = x.f.out.len() + 8;
        let g = x.t.call(c.enc, c.dec, d, c.end, len, c.fill);
        conform(c.enc, c.dec, d, c.end, len, &g, &x.f)?;
        first = false;
        match g.res {
            Res::Err { e, .. } if e < d.len() => pos += e,
            _ => return Ok(()),
        }
    }
}
/// For enumerations: ample and every smaller buffer.
fn mapping_all_lens(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, c.end, &mut x.f);
    let n = x.f.out.len();
    let mut len = n + 4;
    loop {
        let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
        conform(c.enc, c.dec, &c.data, c.end, len, &g, &x.f)?;
        if len == 0 {
            return Ok(());
        }
        len = if len > n { n } else { len - 1 };
    }
}
fn map_ample(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, c.end, &mut x.f);
    let len = x.f.out.len() + 4;
    let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
    conform(c.enc, c.dec, &c.data, c.end, len, &g, &x.f)
}

// ------------------------------------------------------------ streaming

#[derive(Default, PartialEq, Debug, Clone)]
struct Sess {
    out: Vec<u8>,
    /// (start, end, output position, character)
    bad: Vec<(usize, usize, usize, Option<char>)>,
    consumed: usize,
}

fn substitute(c: &Case, x: &mut Ctx, out: &mut Vec<u8>) -> Result<(), String> {
    if c.dec {
        return Ok(());
    }
    let g = x.t.call(c.enc, false, b"?", true, 8, c.fill);
    match g.res {
        Res::Ok { used: 1 } => {
            out.extend_from_slice(&g.out);
            Ok(())
        }
        _ => Err(format!("encode {}(\"?\") returned {}", ENCS[c.enc].name, g.show())),
    }
}

/// Whole input, ample buffer, end flag set; errors skipped (substituted).
fn one_shot(c: &Case, x: &mut Ctx, subst: bool) -> Result<Sess, String> {
    let mut r = Sess::default();
    loop {
        let d = &c.data[r.consumed..];
        let g = x.t.call(c.enc, c.dec, d, true, 4 * d.len() + 16, c.fill);
        structural(c.enc, c.dec, d, true, 4 * d.len() + 16, &g)?;
        r.out.extend_from_slice(&g.out);
        match g.res {
            Res::Ok { used } => {
                r.consumed += used;
                return Ok(r);
            }
            Res::Err { ch, s, e, .. } => {
                r.bad.push((r.consumed + s, r.consumed + e, r.out.len(), ch));
                if subst {
                    substitute(c, x, &mut r.out)?;
                }
                r.consumed += e;
                if r.consumed >= c.data.len() {
                    return Ok(r);
                }
            }
            _ => unreachable!(),
        }
    }
}

fn leftover_bound(e: usize, dec: bool) -> usize {
    match (ENCS[e].kind, dec) {
        (Kind::Utf8, true) | (Kind::U16 { .. }, true) | (Kind::U32 { .. }, true) => 3,
        (Kind::Big5, true) | (Kind::Sjis, true) => 1,
        (Kind::Big5, false) => 2,
        _ => 0,
    }
}

/// plan = [substitute?, n, chunk sizes * n, buffer sizes * rest]
fn session(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let subst = c.p(0) & 1 == 1;
    let nch = c.p(1).min(c.plan.len().saturating_sub(2));
    let chunks: &[u32] = if c.plan.len() > 2 { &c.plan[2..2 + nch] } else { &[] };
    let bufs: &[u32] = if c.plan.len() > 2 + nch { &c.plan[2 + nch..] } else { &[] };
    let whole = one_shot(c, x, subst)?;
    let mut r = Sess::default();
    let mut pending: Vec<u8> = Vec::new();
    let mut fed = 0;
    let mut ci = 0;
    let mut bi = 0;
    let mut carried = false;
    let n = c.data.len();
    let ctx_desc = |what: &str, p: &[u8], end: bool, len: usize, g: &Got| {
        format!(
            "streaming {} after {} input bytes: {} returned {}: {}",
            ENCS[c.enc].name,
            fed_desc(n, p.len()),
            input_desc(c.enc, c.dec, p, end, len),
            g.show(),
            what
        )
    };
    loop {
        // Feed one chunk.  Once the plan is used up everything is fed.
        let mut to = if ci < chunks.len() { (fed + chunks[ci] as usize).min(n) } else { n };
        if !c.dec {
            while to < n && (c.data[to] & 0xC0) == 0x80 {
                to += 1;
            }
        }
        let last = ci >= chunks.len() || (ci + 1 == chunks.len() && to == n);
        ci += 1;
        pending.extend_from_slice(&c.data[fed..to]);
        fed = to;
        let mut stalled = 0;
        loop {
            let len = if stalled > 3 || bufs.is_empty() {
                4 * pending.len() + 16
            } else {
                bi += 1;
                bufs[(bi - 1) % bufs.len()] as usize
            };
            let ample = len >= 4 * pending.len() + 16;
            let g = x.t.call(c.enc, c.dec, &pending, last, len, c.fill);
            structural(c.enc, c.dec, &pending, last, len, &g)?;
            r.out.extend_from_slice(&g.out);
            match g.res {
                Res::Ok { used } => {
                    if ample && !last && pending.len() - used > leftover_bound(c.enc, c.dec) {
                        return Err(ctx_desc("more than one incomplete character was left unconsumed", &pending, last, len, &g));
                    }
                    if ample && last && used < pending.len() {
                        return Err(ctx_desc("input was left unconsumed at the end", &pending, last, len, &g));
                    }
                    r.consumed += used;
                    pending.drain(..used);
                    if pending.is_empty() {
                        break;
                    }
                    if used == 0 {
                        if len >= 4 && last {
                            return Err(ctx_desc("no progress although the next character fits", &pending, last, len, &g));
                        }
                        stalled += 1;
                    } else {
                        stalled = 0;
                    }
                    if ample && !last {
                        carried = true;
                        break;
                    }
                }
                Res::Err { ch, s, e, .. } => {
                    r.bad.push((r.consumed + s, r.consumed + e, r.out.len(), ch));
                    if subst {
                        substitute(c, x, &mut r.out)?;
                    }
                    r.consumed += e;
                    pending.drain(..e);
                    stalled = 0;
                    if pending.is_empty() {
                        break;
                    }
                }
                _ => unreachable!(),
            }
        }
        if last {
            break;
        }
    }
    x.label(match (carried, !whole.bad.is_empty()) {
        (true, true) => "carried tail + errors",
        (true, false) => "carried tail",
        (false, true) => "errors",
        (false, false) => "neither",
    });
    if ci >= 2 && n >= 2 && c.data.iter().any(|&b| b >= 0x80) {
        x.nt();
    }
    if r.out != whole.out {
        return Err(format!(
            "streaming {} {:?} with chunks {:?} and buffers {:?} (substitute {}): output {:02X?}, one-shot output {:02X?}",
            if c.dec { "decode" } else { "encode" },
            ENCS[c.enc].name,
            chunks,
            bufs,
            subst,
            &r.out[..r.out.len().min(64)],
            &whole.out[..whole.out.len().min(64)]
        ));
    }
    let same = if c.dec && ENCS[c.enc].kind == Kind::Utf8 {
        // Same bytes, possibly reported in different pieces.
        merge(&r.bad) == merge(&whole.bad)
    } else {
        r.bad == whole.bad
    };
    if !same {
        return Err(format!(
            "streaming {} {} with chunks {:?} and buffers {:?}: invalid ranges {:?}, one-shot {:?}",
            if c.dec { "decode" } else { "encode" },
            ENCS[c.enc].name,
            chunks,
            bufs,
            &r.bad[..r.bad.len().min(8)],
            &whole.bad[..whole.bad.len().min(8)]
        ));
    }
    if r.consumed != n || whole.consumed != n {
        return Err(format!(
            "{}: streaming consumed {} and one-shot {} of {} bytes",
            ENCS[c.enc].name, r.consumed, whole.consumed, n
        ));
    }
    Ok(())
}
fn fed_desc(n: usize, left: usize) -> String {
    format!("{} (pending {})", n, left)
}
fn merge(b: &[(usize, usize, usize, Option<char>)]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    for &(s, e, o, _) in b {
        match v.last_mut() {
            Some(l) if l.1 == s && l.2 == o => l.1 = e,
            _ => v.push((s, e, o)),
        }
    }
    v
}

fn mk_session(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    base(s, c, e, dec);
    c.end = true;
    let n = match s.us(4) {
        0 => s.us(4),
        1 | 2 => s.range(2, 20) as usize,
        _ => s.range(10, 100) as usize,
    };
    if dec {
        gen::bytes(s, e, false, n, &mut c.data)
    } else {
        gen::text(s, e, false, n, &mut c.data)
    }
    session_plan(s, c);
}
fn session_plan(s: &mut Src, c: &mut Case) {
    let n = c.data.len();
    c.plan.push(s.us(2) as u32);
    let style = s.us(5);
    let mut left = n as i64;
    let mut ch = vec![];
    while left > 0 && ch.len() < 400 {
        let k = match style {
            0 => 1,
            1 => s.us(4),
            2 => s.us(9),
            3 => s.us(n + 1),
            _ => s.pick(&[0, 1, 2, 3, 7, 8, 16]),
        };
        ch.push(k as u32);
        left -= k as i64;
        if style == 3 && ch.len() > 3 {
            break;
        }
    }
    if s.chance(1, 4) {
        ch.push(0); // an empty final chunk carries the end flag
    }
    c.plan.push(ch.len() as u32);
    c.plan.extend_from_slice(&ch);
    if s.chance(2, 3) {
        let k = 1 + s.us(5);
        for _ in 0..k {
            let b = match s.us(5) {
                0 => s.us(4),
                1 => s.range(1, 6) as usize,
                2 => s.range(4, 12) as usize,
                3 => s.range(4, 40) as usize,
                _ => 4 * n + 16,
            };
            c.plan.push(b as u32);
        }
    }
}

// ------------------------------------------------------------ position grids

/// Run lengths where block-wise code changes its mind, in input or output.
fn grid_run(k: u64) -> usize {
    let k = k as usize;
    const AROUND: [usize; 3] = [256, 512, 1024];
    if k < 140 {
        k
    } else if k < GRID_RUNS as usize {
        AROUND[(k - 140) / 3] + (k - 140) % 3 - 1
    } else {
        // Thorough only.
        let j = k - GRID_RUNS as usize;
        if j < 1000 {
            140 + j
        } else {
            4090 + (j - 1000)
        }
    }
}
const GRID_RUNS: u64 = 140 + 3 * 3;
const GRID_RUNS_T: u64 = GRID_RUNS + 1000 + 10;
const GRID_MARKS: u64 = 128 + 64;

/// A run of one character, then one more unit, then 0..3 of the run again:
/// every ASCII character and 64 drawn units after every run length.
/// Encodings LO..LO+N; D: 0 encode, 1 decode, 2 both.
fn grid_n<const N: u64, const D: u64>(t: bool) -> u64 {
    N * if D == 2 { 2 } else { 1 } * 2 * GRID_MARKS * if t { GRID_RUNS_T } else { GRID_RUNS }
}
fn grid<const LO: usize, const N: u64, const D: u64>(i: u64, c: &mut Case) {
    c.reset();
    c.enc = LO + (i % N) as usize;
    let mut k = i / N;
    c.dec = D == 1;
    if D == 2 {
        c.dec = k & 1 == 1;
        k >>= 1;
    }
    let plain = k & 1 == 0;
    k >>= 1;
    let mark = k % GRID_MARKS;
    let run = grid_run(k / GRID_MARKS);
    let mut s = Src::seeded(i ^ (LO as u64) << 40);
    c.end = mark >= 128 || !s.chance(1, 4);
    let kind = ENCS[c.enc].kind;
    let unit = |c: &mut Case, ch: char| {
        if c.dec {
            c.data.extend_from_slice(model::enc_char(kind, ch).unwrap().s());
        } else {
            put(c, ch);
        }
    };
    let f = if plain { 'a' } else { grid_filler(kind) };
    for _ in 0..run {
        unit(c, f);
    }
    if mark < 128 {
        unit(c, mark as u8 as char);
    } else if !c.dec {
        let ch = gen::any_char(&mut s, c.enc);
        put(c, ch);
    } else if s.chance(1, 2) {
        gen::bad_token(&mut s, c.enc, &mut c.data);
    } else {
        gen::good_token(&mut s, c.enc, &mut c.data);
    }
    for _ in 0..s.us(4) {
        unit(c, f);
    }
}
/// A non-ASCII character of the encoding.
fn grid_filler(kind: Kind) -> char {
    match kind {
        Kind::Utf8 => '\u{E9}',
        Kind::U16 { .. } | Kind::U32 { .. } => '\u{20AC}',
        Kind::Ascii => '\u{7F}',
        Kind::Sb(i) => refs().sb[i].dec.iter().find_map(|&d| d).unwrap(),
        Kind::Big5 | Kind::Sjis => '\u{4E2D}',
    }
}
const GRID_WHAT: &str = "after runs of one character (0..139, around 256, 512 and 1024; ASCII and not), every ASCII character and 64 other units";

// ------------------------------------------------------------ sequences

/// Everything the encoding converts, one character each: the characters in
/// UTF-8, or (dec) the codes.
fn items(e: usize, dec: bool) -> &'static [model::Small] {
    use std::sync::OnceLock;
    static T: [OnceLock<Vec<model::Small>>; 76] = [const { OnceLock::new() }; 76];
    T[e * 2 + dec as usize].get_or_init(|| {
        let k = ENCS[e].kind;
        if !dec {
            return (0..SCALARS)
                .map(nth_scalar)
                .filter(|&ch| model::enc_char(k, ch).is_some())
                .map(|ch| model::Small::new(ch.encode_utf8(&mut [0; 4]).as_bytes()))
                .collect();
        }
        let mut v = vec![];
        for i in 1..SHORT2 {
            let mut b = vec![];
            short2(i, &mut b);
            if matches!(model::dec_step(k, &b, true), Step::Emit { used, .. } if used == b.len()) {
                v.push(model::Small::new(&b));
            }
        }
        v
    })
}
/// Every pair of characters of a legacy encoding next to each other.  Case i:
/// one character x, then x y x y' x y'' ... for all y from x on.
fn seq_n<const E: usize, const D: u64>(_: bool) -> u64 {
    (if D == 2 { 2 } else { 1 }) * items(E, true).len().max(items(E, false).len()) as u64
}
fn seq<const E: usize, const D: u64>(i: u64, c: &mut Case) {
    c.reset();
    c.enc = E;
    let mut i = i as usize;
    c.dec = D == 1;
    if D == 2 {
        c.dec = i & 1 == 1;
        i >>= 1;
    }
    let v = items(E, c.dec);
    if i >= v.len() {
        return;
    }
    // Long and short ones in turn, so that all shards have the same work.
    let a = if i % 2 == 0 { i / 2 } else { v.len() - 1 - i / 2 };
    for b in &v[a..] {
        c.data.extend_from_slice(v[a].s());
        c.data.extend_from_slice(b.s());
    }
}
/// `map_ample`, where the enumeration has holes.
fn map_seq(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.data.is_empty() {
        return Ok(());
    }
    map_ample(c, x)
}
fn c13_seq(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.data.is_empty() {
        return Ok(());
    }
    c13_nt(c, x)
}
const SEQ_WHAT: &str = "every two characters (decoding: codes) of the encoding next to each other, in long inputs";
/// Every three characters of a single-byte encoding next to each other.
fn seq3_n(_: bool) -> u64 {
    31 * 65536
}
fn seq3<const DEC: bool>(i: u64, c: &mut Case) {
    c.reset();
    c.enc = encs::ASCII + (i % 31) as usize;
    c.dec = DEC;
    let v = items(c.enc, DEC);
    let k = (i / 31) as usize;
    let (mut a, b) = (k % 256, k / 256);
    a = if a % 2 == 0 { a / 2 } else { 255 - a / 2 };
    if a < v.len() && b < v.len() && b >= a {
        for z in &v[a..] {
            for q in [v[a], v[b], *z] {
                c.data.extend_from_slice(q.s());
            }
        }
    }
}
const SEQ3_WHAT: &str = "every three characters (decoding: bytes) of each of 31 encodings next to each other";
fn pair_split_enc(i: u64, c: &mut Case) {
    pair31(i & !1, c);
    c.plan.push((i & 1) as u32);
    if i & 2 == 2 {
        c.plan.push(1);
    }
}
fn pair_split_dec(i: u64, c: &mut Case) {
    c.reset();
    c.dec = true;
    let k = i / 2;
    let e = (k % 34) as usize;
    c.enc = if e == 0 { encs::UTF8 } else { encs::BIG5 + e - 1 };
    c.data.extend_from_slice(&((k / 34) as u16).to_be_bytes());
    c.data.push(b'b');
    c.plan.push((i & 1) as u32);
    if k / 34 % 2 == 1 {
        c.plan.push(4);
    }
}
fn split_seq(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.data.is_empty() {
        return Ok(());
    }
    split_all(c, x)
}
/// Three bytes in UTF-8, Big5 and Shift JIS, the flag clear or set.
fn three_bytes(i: u64, c: &mut Case) {
    c.reset();
    c.dec = true;
    c.enc = [encs::UTF8, encs::BIG5, encs::SJIS][(i % 3) as usize];
    c.end = i / 3 & 1 == 1;
    c.data.extend_from_slice(&((i / 6) as u32).to_be_bytes()[1..]);
}
/// Characters that an encoding lacks, first those of all kinds of widths.
fn lacking(e: usize) -> &'static [char] {
    use std::sync::OnceLock;
    static T: [OnceLock<Vec<char>>; 38] = [const { OnceLock::new() }; 38];
    T[e].get_or_init(|| {
        let k = ENCS[e].kind;
        let all = [
            0x80, 0x85, 0xA0, 0xAD, 0xE9, 0xFF, 0x100, 0x153, 0x301, 0x304, 0x30C, 0x3A9, 0x401, 0x5D0, 0x660, 0x7FF, 0x800, 0xE01, 0x1E00,
            0x200B, 0x200D, 0x2028, 0x20AC, 0x2122, 0x25A0, 0x3000, 0x3042, 0x4E00, 0x9FFF, 0xAC00, 0xD7FF, 0xE000, 0xF8FF, 0xFE0F, 0xFEFF,
            0xFF71, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F3FB, 0x1F600, 0x20021, 0xE0100, 0x10FFFF,
        ];
        all.iter().map(|&u| char::from_u32(u).unwrap()).filter(|&ch| model::enc_char(k, ch).is_none()).take(40).collect()
    })
}
fn neighbours_n(_: bool) -> u64 {
    let most = [encs::BIG5, encs::SJIS].iter().map(|&e| items(e, false).len()).max().unwrap();
    // Two of the encodings are large: one index for them, one for the others.
    40 * (2 * most as u64 + 31 * 256)
}
fn neighbours(i: u64, c: &mut Case) {
    c.reset();
    let bad = (i % 40) as usize;
    let k = (i / 40) as usize;
    let most = (neighbours_n(false) / 40) as usize - 31 * 256;
    let a;
    if k < most {
        c.enc = [encs::BIG5, encs::SJIS][k % 2];
        a = k / 2;
    } else {
        c.enc = encs::ASCII + (k - most) % 31;
        a = (k - most) / 31;
    }
    let (v, l) = (items(c.enc, false), lacking(c.enc));
    if a >= v.len() || bad >= l.len() {
        return;
    }
    c.data.extend_from_slice(v[a].s());
    put(c, l[bad]);
    c.data.extend_from_slice(v[a].s());
}
fn resume_seq(c: &Case, x: &mut Ctx) -> Result<(), String> {
    if c.data.is_empty() {
        return Ok(());
    }
    resume(c, x)
}
/// UTF encodings LO..LO+N, both directions: a marked character and every
/// scalar value next to each other, in both orders.
const BLOCK: u64 = 4096;
const BLOCKS: u64 = (SCALARS + BLOCK - 1) / BLOCK;
fn marked() -> &'static [char] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<char>> = OnceLock::new();
    T.get_or_init(|| {
        let first: Vec<u32> = vec![
            0xFEFF, 0x200D, 0, 0xA, 0xD, 0x1A, 0x1B, 0x7F, 0x41, 0x80, 0xA0, 0xE9, 0x301, 0x304, 0x7FF, 0x800, 0x2028, 0x2060, 0x20AC, 0x3042,
            0xD7FF, 0xE000, 0xFE0E, 0xFE0F, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F3FB, 0x1F600, 0xE0001, 0x10FFFF,
        ];
        let rest = gen::BOUNDARY
            .iter()
            .copied()
            .chain(0..0x100)
            .chain(0x300..0x370)
            .chain(0x2000..0x2070)
            .chain(0xFE00..0xFE10)
            .chain(0xFFF0..0x10000)
            .filter(|&u| char::from_u32(u).is_some());
        let mut v = vec![];
        for u in first.iter().copied().chain(rest) {
            let ch = char::from_u32(u).unwrap();
            if !v.contains(&ch) {
                v.push(ch);
            }
        }
        v
    })
}
fn mseq_n<const N: u64>(t: bool) -> u64 {
    N * 2 * BLOCKS * if t { marked().len() as u64 } else { 32 }
}
fn mseq<const LO: usize, const N: u64>(i: u64, c: &mut Case) {
    c.reset();
    c.enc = LO + (i % N) as usize;
    let k = i / N;
    c.dec = k & 1 == 1;
    let k = k / 2;
    let a = marked()[(k / BLOCKS) as usize];
    let lo = k % BLOCKS * BLOCK;
    let kind = ENCS[c.enc].kind;
    for j in lo..(lo + BLOCK).min(SCALARS) {
        for ch in [a, nth_scalar(j)] {
            if c.dec {
                c.data.extend_from_slice(model::enc_char(kind, ch).unwrap().s());
            } else {
                put(c, ch);
            }
        }
    }
}
const MSEQ_WHAT: &str = "each of 32 characters (thorough: all of several blocks) and every scalar value next to each other, in both orders";
/// Every pair of characters of a single-byte encoding, for tight buffers.
fn pair31_n(_: bool) -> u64 {
    2 * 31 * 65536
}
fn pair31(i: u64, c: &mut Case) {
    c.reset();
    c.dec = i & 1 == 1;
    let k = i / 2;
    c.enc = encs::ASCII + (k % 31) as usize;
    let v = items(c.enc, c.dec);
    let (a, b) = ((k / 31 % 256) as usize, (k / 31 / 256) as usize);
    if a < v.len() && b < v.len() {
        c.data.extend_from_slice(v[a].s());
        c.data.extend_from_slice(v[b].s());
    }
}

/// Just enough room, one byte less, and ample.
fn c13_grid(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, c.end, &mut x.f);
    let n = x.f.out.len();
    for len in [n, n.saturating_sub(1), n + 3] {
        let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
        exact(c.enc, c.dec, &c.data, c.end, len, &g, &x.f)?;
    }
    if x.f.cuts.len() > 2 && x.f.cuts.len() < n {
        x.nt();
    }
    Ok(())
}
/// Cut at every byte near the end, the rest of the input in one chunk.
fn split_grid(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let n = c.data.len();
    let mut d = c.clone();
    for back in [1, 2, 3, 4, 5, 8] {
        if back < n {
            d.plan.clear();
            d.plan.extend_from_slice(&[0, 2, (n - back) as u32, back as u32]);
            session(&d, x)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C13..C15

fn c13(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, c.end, &mut x.f);
    let n = x.f.out.len();
    if c.plan.is_empty() && n <= 700 {
        // Every buffer length.
        for len in 0..=n + 2 {
            let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
            exact(c.enc, c.dec, &c.data, c.end, len, &g, &x.f)?;
        }
        if x.f.cuts.len() > 2 && x.f.cuts.len() < n {
            x.nt();
        }
        x.label("all buffer lengths");
    } else {
        for i in 0..c.plan.len().max(1) {
            let len = c.p(i);
            let g = x.t.call(c.enc, c.dec, &c.data, c.end, len, c.fill);
            exact(c.enc, c.dec, &c.data, c.end, len, &g, &x.f)?;
            if len < n {
                x.label("limited");
                if x.f.cuts.binary_search_by(|q| q.1.cmp(&len)).is_err() {
                    x.label("limit inside a character");
                    x.nt();
                }
            }
        }
    }
    Ok(())
}
/// The real buffer-limited call repeated until done gives the one-shot result.
fn c13_drain(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, true, &mut x.f);
    let mut pos = 0;
    let mut out = Vec::new();
    let mut i = 0;
    while pos < x.f.in_pos() {
        let len = if c.plan.is_empty() { 4 } else { 4 + c.p(i % c.plan.len()) };
        i += 1;
        let d = &c.data[pos..];
        let g = x.t.call(c.enc, c.dec, d, true, len, c.fill);
        structural(c.enc, c.dec, d, true, len, &g)?;
        out.extend_from_slice(&g.out);
        match g.res {
            Res::Ok { used: 0 } => {
                return Err(format!("{} made no progress", input_desc(c.enc, c.dec, d, true, len)))
            }
            Res::Ok { used } => pos += used,
            Res::Err { s, .. } => {
                pos += s;
                if pos != x.f.in_pos() {
                    return Err(format!(
                        "{} returned {} where no invalid data begins",
                        input_desc(c.enc, c.dec, d, true, len),
                        g.show()
                    ));
                }
            }
            _ => unreachable!(),
        }
    }
    if i > 1 {
        x.nt();
    }
    if out != x.f.out || pos != x.f.in_pos() {
        return Err(format!(
            "{} drained through buffers of 4+{:?} bytes gave {:02X?} consuming {}, expected {:02X?} consuming {}",
            input_desc(c.enc, c.dec, &c.data, true, 4),
            c.plan,
            &out[..out.len().min(64)],
            pos,
            &x.f.out[..x.f.out.len().min(64)],
            x.f.in_pos()
        ));
    }
    Ok(())
}
fn mk_drain(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    base(s, c, e, d);
    let good = s.chance(1, 2);
    gen::data(s, e, d, good, &mut c.data);
    let n = s.us(4);
    for _ in 0..n {
        let b = if s.chance(1, 2) { s.us(4) } else { s.us(30) };
        c.plan.push(b as u32);
    }
}
fn mk_c13_all(s: &mut Src, c: &mut Case) {
    let e = gen::pick_enc(s);
    let d = s.chance(1, 2);
    base(s, c, e, d);
    let n = s.range(1, 30) as usize;
    if d {
        gen::bytes(s, e, false, n, &mut c.data)
    } else {
        gen::text(s, e, false, n, &mut c.data)
    }
}
fn mk_c13_some(s: &mut Src, c: &mut Case) {
    mk_any_any(s, c);
    for _ in 0..5 {
        push_len(s, c);
    }
}

/// C14/C15: first error exact, then resume over the whole input; every call
/// has room.  `plan[i]` is extra buffer space for the i-th call.
fn resume(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    let mut pos = 0;
    let mut errors = 0;
    let mut call = 0;
    loop {
        let d = &c.data[pos..];
        full_into(k, c.dec, d, c.end, &mut x.f);
        let len = x.f.out.len() + 2 + if c.plan.is_empty() { 6 } else { c.p(call % c.plan.len()) };
        call += 1;
        let g = x.t.call(c.enc, c.dec, d, c.end, len, c.fill);
        exact(c.enc, c.dec, d, c.end, len, &g, &x.f)?;
        match g.res {
            Res::Err { s, e, .. } => {
                errors += 1;
                if s > 0 && e < d.len() {
                    x.nt();
                }
                // What was written is valid on its own in the target encoding
                // (or, decoding, valid text).
                if !c.dec {
                    let out = g.out.clone();
                    let h = x.t.call(c.enc, true, &out, true, 4 * out.len() + 8, c.fill);
                    match h.res {
                        Res::Ok { used } if used == out.len() => {}
                        _ => {
                            return Err(format!(
                                "{}: the written part {:02X?} does not decode: {}",
                                input_desc(c.enc, c.dec, d, c.end, len),
                                &out[..out.len().min(40)],
                                h.show()
                            ))
                        }
                    }
                }
                pos += e;
                if pos >= c.data.len() {
                    break;
                }
            }
            _ => break,
        }
    }
    x.label(match errors {
        0 => "no error",
        1 => "one error",
        _ => "several errors",
    });
    Ok(())
}
fn mk_resume(s: &mut Src, c: &mut Case, dec: bool) {
    // Only encodings that can fail.
    let e = loop_pick(s, |e| dec || matches!(ENCS[e].kind, Kind::Big5 | Kind::Sjis | Kind::Ascii | Kind::Sb(_)));
    base(s, c, e, dec);
    gen::data(s, e, dec, false, &mut c.data);
    let n = s.us(3);
    for _ in 0..n {
        let k = s.us(8);
        c.plan.push(k as u32);
    }
}
fn loop_pick(s: &mut Src, ok: impl Fn(usize) -> bool) -> usize {
    for _ in 0..20 {
        let e = gen::pick_enc(s);
        if ok(e) {
            return e;
        }
    }
    encs::BIG5
}

// ------------------------------------------------------------ C16, C17

fn c16_expect(e: usize, t: &str) -> String {
    if ENCS[e].kind != Kind::Sjis {
        return t.to_string();
    }
    t.chars()
        .map(|c| match c {
            '\u{A5}' => '\u{5C}',
            '\u{203E}' => '\u{7E}',
            '\u{2212}' => '\u{FF0D}',
            c => c,
        })
        .collect()
}
/// If encoding succeeds, decoding gives the text back.
fn c16(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let n = c.data.len();
    let g = x.t.call(c.enc, false, &c.data, true, 4 * n + 16, c.fill);
    structural(c.enc, false, &c.data, true, 4 * n + 16, &g)?;
    let (bytes, upto) = match g.res {
        Res::Ok { used } => (g.out, used),
        // The part before the error was encoded successfully.
        Res::Err { s, .. } => {
            x.label("unrepresentable character");
            (g.out, s)
        }
        _ => unreachable!(),
    };
    if upto == n {
        x.label("encoded completely");
    }
    if bytes[..] != c.data[..upto] {
        x.nt();
    }
    let h = x.t.call(c.enc, true, &bytes, true, 4 * bytes.len() + 16, c.fill);
    let want = c16_expect(c.enc, &c.text()[..upto]);
    match h.res {
        Res::Ok { used } if used == bytes.len() && h.out == want.as_bytes() => Ok(()),
        _ => Err(format!(
            "{}: text {:?} encodes to {:02X?}, which decodes to {}",
            ENCS[c.enc].name,
            c.text()[..upto].chars().take(24).collect::<String>(),
            &bytes[..bytes.len().min(40)],
            h.show()
        )),
    }
}

fn c17(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let n = c.data.len();
    let g = x.t.call(c.enc, true, &c.data, true, 4 * n + 16, c.fill);
    structural(c.enc, true, &c.data, true, 4 * n + 16, &g)?;
    let (text, upto) = match g.res {
        Res::Ok { used } => (g.out, used),
        Res::Err { s, .. } => {
            x.label("invalid data");
            (g.out, s)
        }
        _ => unreachable!(),
    };
    if upto == n {
        x.label("decoded completely");
    }
    if upto > 0 && text[..] != c.data[..upto] {
        x.nt();
    }
    let name = ENCS[c.enc].name;
    let h = x.t.call(c.enc, false, &text, true, 4 * text.len() + 16, c.fill);
    let again = match h.res {
        Res::Ok { used } if used == text.len() => h.out.clone(),
        _ => {
            return Err(format!(
                "{}: bytes {:02X?} decode to {:?}, which encodes to {}",
                name,
                &c.data[..upto.min(40)],
                String::from_utf8_lossy(&text).chars().take(24).collect::<String>(),
                h.show()
            ))
        }
    };
    match ENCS[c.enc].kind {
        Kind::Big5 | Kind::Sjis => {
            if again[..] != c.data[..upto] {
                x.label("re-encoded differently");
            }
            let d = x.t.call(c.enc, true, &again, true, 4 * again.len() + 16, c.fill);
            if d.res != (Res::Ok { used: again.len() }) || d.out != text {
                return Err(format!(
                    "{}: bytes {:02X?} re-encode to {:02X?}, which decodes to {} instead of the same text",
                    name,
                    &c.data[..upto.min(40)],
                    &again[..again.len().min(40)],
                    d.show()
                ));
            }
            let r = x.t.call(c.enc, false, &d.out, true, 4 * text.len() + 16, c.fill);
            if r.out != again || r.res != h.res {
                return Err(format!(
                    "{}: re-encoding is not stable: {:02X?} then {}",
                    name,
                    &again[..again.len().min(40)],
                    r.show()
                ));
            }
            Ok(())
        }
        _ => {
            if again[..] == c.data[..upto] {
                Ok(())
            } else {
                Err(format!(
                    "{}: bytes {:02X?} decode and re-encode to {:02X?}",
                    name,
                    &c.data[..upto.min(40)],
                    &again[..again.len().min(40)]
                ))
            }
        }
    }
}
fn mk_good(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    base(s, c, e, dec);
    c.end = true;
    let good = !s.chance(1, 5);
    gen::data(s, e, dec, good, &mut c.data);
}

// ------------------------------------------------------------ C18

fn c18(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let k = ENCS[c.enc].kind;
    full_into(k, c.dec, &c.data, false, &mut x.f);
    full_into(k, c.dec, &c.data, true, &mut x.f2);
    let ample = x.f2.out.len().max(x.f.out.len()) + 8;
    let may_wait = matches!(x.f.stop, Step::Bad { may_wait: true, .. });
    let need_more = x.f.stop == Step::NeedMore;
    x.label(if need_more {
        "incomplete tail"
    } else if may_wait {
        "truncated-looking malformed tail"
    } else {
        "complete"
    });
    if need_more {
        x.nt();
    }
    let fit = x.f2.out.len();
    let lens = [ample, fit, c.p(0)];
    for &len in &lens[..if c.plan.is_empty() { 2 } else { 3 }] {
        let a = x.t.call(c.enc, c.dec, &c.data, false, len, c.fill);
        let b = x.t.call(c.enc, c.dec, &c.data, true, len, c.fill);
        if !need_more && !may_wait || x.f.out.len() > len && x.f2.out.len() > len {
            // The tail is complete, or never reached.
            if a != b {
                return Err(format!(
                    "{} returned {}, but with is_end true {}",
                    input_desc(c.enc, c.dec, &c.data, false, len),
                    a.show(),
                    b.show()
                ));
            }
        }
        if need_more && len >= ample {
            // Without the flag: exactly the tail is left; with it: finalised.
            exact(c.enc, c.dec, &c.data, false, len, &a, &x.f)?;
            exact(c.enc, c.dec, &c.data, true, len, &b, &x.f2)?;
        } else if need_more && len >= fit {
            // The final character just fits, or the error needs no room.
            exact(c.enc, c.dec, &c.data, true, len, &b, &x.f2)?;
        }
        if need_more && x.f.out.len() <= len && len < ample {
            let tail = x.f.in_pos();
            match a.res {
                Res::Ok { used } if used <= tail => {}
                _ => {
                    return Err(format!(
                        "{} returned {}; expected success leaving the incomplete tail at {}",
                        input_desc(c.enc, c.dec, &c.data, false, len),
                        a.show(),
                        tail
                    ))
                }
            }
        }
        if len >= ample {
            if let Res::Ok { used } = b.res {
                if used != c.data.len() {
                    return Err(format!(
                        "{} returned {}; expected all input consumed",
                        input_desc(c.enc, c.dec, &c.data, true, len),
                        b.show()
                    ));
                }
            }
        }
    }
    Ok(())
}
fn mk_c18(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    base(s, c, e, dec);
    let n = gen::length(s);
    if dec {
        let good = s.chance(1, 2);
        gen::bytes(s, e, good, n, &mut c.data);
        if s.chance(1, 2) {
            let at = c.data.len();
            gen::good_token(s, e, &mut c.data);
            let t = c.data.len() - at;
            if t > 1 {
                let keep = 1 + s.us(t - 1);
                c.data.truncate(at + keep);
            }
        }
    } else {
        let good = s.chance(1, 2);
        gen::text(s, e, good, n, &mut c.data);
        if e == encs::BIG5 && s.chance(1, 2) {
            put(c, if s.chance(1, 2) { '\u{CA}' } else { '\u{EA}' });
        }
    }
    if s.chance(1, 3) {
        push_len(s, c);
    }
}

// ------------------------------------------------------------ C19

fn same(c: &Case, len: usize, a: &Got, b: &Got, why: &str) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!(
            "{} returned {}, but {} {}",
            input_desc(c.enc, c.dec, &c.data, c.end, len),
            a.show(),
            why,
            b.show()
        ))
    }
}

/// plan = [len, fill2, skew, input offset, surplus, other-encoding seed]
fn c19(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let len = c.p(0);
    let d = &c.data;
    let (e, dec) = (c.enc, c.dec);
    let a = x.t.call(e, dec, d, c.end, len, c.fill);
    if let Res::Panic(_) | Res::Wild(_) = a.res {
        return structural(e, dec, d, c.end, len, &a);
    }
    if d.iter().any(|&b| b >= 0x80) {
        x.nt();
    }
    let b = x.t.call(e, dec, d, c.end, len, c.p(1) as u8);
    same(c, len, &a, &b, "with other buffer contents")?;
    let b = x.t.call_moved(e, dec, d, c.end, len, c.fill, c.p(2) % 16, c.p(3) % 16);
    same(c, len, &a, &b, "with input and buffer moved in memory")?;

    // History: unrelated and related calls in between.
    let mut s = Src::seeded(c.p(5) as u64);
    for i in 0..4 {
        let o = if i < 2 { e } else { gen::pick_enc(&mut s) };
        let odec = if i == 0 { dec } else { s.chance(1, 2) };
        let cut = {
            let mut k = s.us(d.len() + 1);
            while !odec && k < d.len() && d[k] & 0xC0 == 0x80 {
                k += 1;
            }
            k
        };
        let from = if !odec && !dec || odec { &d[..cut] } else { &b"abc"[..] };
        let end = s.chance(1, 2);
        let l = s.us(d.len() + 8);
        x.t.call(o, odec, from, end, l, 0x11);
    }
    let b = x.t.call(e, dec, d, c.end, len, c.fill);
    same(c, len, &a, &b, "after other calls")?;

    // Surplus space.
    let full = 4 * d.len() + 16;
    let p = x.t.call(e, dec, d, c.end, full, c.fill);
    let q = x.t.call(e, dec, d, c.end, full + c.p(4), c.fill);
    same(c, full, &p, &q, "with a still larger buffer")?;
    if p.out.len() + 8 <= len {
        x.label("ample buffer");
        same(c, len, &a, &p, "with a larger buffer")?;
    } else {
        x.label("tight buffer");
    }

    // Input beyond what was converted.
    let m = match a.res {
        Res::Ok { used } => used + 12,
        Res::Err { e, .. } => e + 4,
        _ => 0,
    };
    if m < d.len() {
        let mut m = m;
        while !dec && m < d.len() && d[m] & 0xC0 == 0x80 {
            m += 1;
        }
        x.label("input beyond");
        let is_utf8 = ENCS[e].kind == Kind::Utf8 && dec;
        for tail in [&b""[..], &b"xyz"[..], &b"\xC3\xA9\xE2\x82\xAC\0\0"[..]] {
            let mut v = d[..m].to_vec();
            v.extend_from_slice(tail);
            let b = x.t.call(e, dec, &v, c.end, len, c.fill);
            let eq = match (&a.res, &b.res) {
                (Res::Err { s, written, ch, .. }, Res::Err { s: s2, written: w2, ch: c2, .. }) if is_utf8 => {
                    s == s2 && written == w2 && ch == c2 && a.out == b.out
                }
                _ => a == b,
            };
            if !eq {
                return Err(format!(
                    "{} returned {}, but with the input after byte {} replaced by {:02X?} {}",
                    input_desc(e, dec, d, c.end, len),
                    a.show(),
                    m,
                    tail,
                    b.show()
                ));
            }
        }
    }
    Ok(())
}
fn mk_c19(s: &mut Src, c: &mut Case) {
    mk_any_any(s, c);
    c.plan.push(s.range(0, 255) as u32);
    c.plan.push(s.us(16) as u32);
    c.plan.push(s.us(16) as u32);
    let k = match s.us(4) {
        0 => 1,
        1 => s.us(16),
        2 => s.us(300),
        _ => s.us(5000),
    };
    c.plan.push(k as u32);
    c.plan.push(s.range(0, 1 << 20) as u32);
}

/// Many threads convert different pieces of a script at once; each result must
/// equal the one computed alone.  plan = [seed of the call list, n]
fn c19_threads(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let mut s = Src::seeded(c.p(0) as u64 | 1 << 40);
    let mut calls: Vec<Case> = vec![];
    let n = c.p(1).clamp(1, 400);
    for i in 0..n {
        let mut k = Case::default();
        if i % 4 == 0 {
            k = c.clone();
            k.plan = vec![amp(c) as u32];
        } else {
            mk_any_any(&mut s, &mut k);
        }
        calls.push(k);
    }
    x.nt();
    let alone: Vec<Got> = calls.iter().map(|k| x.t.call(k.enc, k.dec, &k.data, k.end, k.p(0), k.fill)).collect();
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (calls, alone, case) = (&calls, &alone, c as *const Case as usize);
                sc.spawn(move || {
                    crate::ctx::CURRENT.with(|p| p.set(case as *const Case));
                    let mut tg = crate::ctx::Target::new();
                    for r in 0..calls.len() {
                        let i = if t % 2 == 0 { r } else { calls.len() - 1 - r };
                        let k = &calls[i];
                        let g = tg.call(k.enc, k.dec, &k.data, k.end, k.p(0), k.fill);
                        if g != alone[i] {
                            return Err(format!(
                                "{} returned {} alone, but {} with other threads converting",
                                input_desc(k.enc, k.dec, &k.data, k.end, k.p(0)),
                                alone[i].show(),
                                g.show()
                            ));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("harness thread failed"))).collect()
    });
    res.into_iter().collect()
}
fn mk_threads(s: &mut Src, c: &mut Case) {
    mk_any_any(s, c);
    c.plan.clear();
    c.plan.push(s.range(0, 1 << 30) as u32);
    c.plan.push(s.range(20, 200) as u32);
}

// ------------------------------------------------------------ C20

/// ASCII is itself everywhere (except UTF-16/32).  `data` is ASCII.
fn c20_ascii(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    let d: Vec<u8> = c.data.iter().map(|b| b & 0x7F).collect();
    let want = |g: &Got, len: usize, dec: bool| {
        let n = len.min(d.len());
        if g.res == (Res::Ok { used: n }) && g.out[..] == d[..n] {
            Ok(())
        } else {
            Err(format!(
                "{} returned {}; ASCII must be unchanged",
                input_desc(c.enc, dec, &d, c.end, len),
                g.show()
            ))
        }
    };
    for len in [d.len() + 4, c.p(0)] {
        for dec in [false, true] {
            let g = x.t.call(c.enc, dec, &d, c.end, len, c.fill);
            want(&g, len, dec)?;
        }
    }
    Ok(())
}
fn ascii_compat(e: usize) -> bool {
    !matches!(ENCS[e].kind, Kind::U16 { .. } | Kind::U32 { .. })
}

fn swap_units(b: &[u8], w: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    for ch in b.chunks(w) {
        if ch.len() == w {
            v.extend(ch.iter().rev());
        } else {
            v.extend(ch.iter());
        }
    }
    v
}
/// Little-endian is byte-swapped big-endian.  c.enc = the big-endian one.
fn c20_swap(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let (be, le, w) = if matches!(ENCS[c.enc].kind, Kind::U32 { .. }) {
        (encs::U32BE, encs::U32LE, 4)
    } else {
        (encs::U16BE, encs::U16LE, 2)
    };
    x.nt();
    for len in [amp(c), c.p(0)] {
        let a = x.t.call(be, c.dec, &c.data, c.end, len, c.fill);
        let (input, b);
        if c.dec {
            input = swap_units(&c.data, w);
            b = x.t.call(le, true, &input, c.end, len, c.fill);
        } else {
            let mut r = x.t.call(le, false, &c.data, c.end, len, c.fill);
            r.out = swap_units(&r.out, w);
            b = r;
        }
        if a.res != b.res || a.out != b.out {
            return Err(format!(
                "{} returned {}, but little-endian (byte-swapped) {}",
                input_desc(be, c.dec, &c.data, c.end, len),
                a.show(),
                b.show()
            ));
        }
    }
    Ok(())
}
/// ISO 8859-1 = the first 256 scalar values.
fn c20_latin1(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    let t: String = c.data.iter().map(|&b| b as char).collect();
    let n = c.data.len();
    let g = x.t.call(encs::LATIN1, true, &c.data, true, 2 * n + 4, c.fill);
    if g.res != (Res::Ok { used: n }) || g.out != t.as_bytes() {
        return Err(format!("{} returned {}", input_desc(encs::LATIN1, true, &c.data, true, 2 * n + 4), g.show()));
    }
    let g = x.t.call(encs::LATIN1, false, t.as_bytes(), true, n + 4, c.fill);
    if g.res != (Res::Ok { used: t.len() }) || g.out != c.data {
        return Err(format!("{} returned {}", input_desc(encs::LATIN1, false, t.as_bytes(), true, n + 4), g.show()));
    }
    Ok(())
}
/// Decode anything (errors become U+FFFD), carry the text through every UTF.
fn c20_transcode(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let mut text: Vec<u8> = vec![];
    let mut pos = 0;
    loop {
        let d = &c.data[pos..];
        let g = x.t.call(c.enc, true, d, true, 4 * d.len() + 16, c.fill);
        structural(c.enc, true, d, true, 4 * d.len() + 16, &g)?;
        text.extend_from_slice(&g.out);
        match g.res {
            Res::Err { e, .. } => {
                text.extend_from_slice("\u{FFFD}".as_bytes());
                pos += e;
                if pos >= c.data.len() {
                    break;
                }
            }
            _ => break,
        }
    }
    if text.iter().any(|&b| b >= 0x80) {
        x.nt();
    }
    for u in encs::UTF8..=encs::U32LE {
        let g = x.t.call(u, false, &text, true, 4 * text.len() + 16, c.fill);
        if g.res != (Res::Ok { used: text.len() }) {
            return Err(format!("{} returned {}", input_desc(u, false, &text, true, 4 * text.len() + 16), g.show()));
        }
        let h = x.t.call(u, true, &g.out, true, text.len() + 16, c.fill);
        if h.res != (Res::Ok { used: g.out.len() }) || h.out != text {
            return Err(format!(
                "text {:?} from {} does not survive {}: {}",
                String::from_utf8_lossy(&text).chars().take(24).collect::<String>(),
                ENCS[c.enc].name,
                ENCS[u].name,
                h.show()
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ the list

fn e_scalar_all_encs(i: u64, c: &mut Case) {
    c.reset();
    c.enc = (i / SCALARS) as usize;
    put(c, nth_scalar(i % SCALARS));
}

pub fn props() -> Vec<Prop> {
    use Source::{Enum, EnumDup, Rand};
    let mut v: Vec<Prop> = Vec::new();

    v.push(Prop {
        id: "C01",
        rule: "A case is (encoding, direction, input, end flag, buffer length, previous buffer contents). Non-trivial: the input holds at least one non-ASCII byte. Enumerated cases are inputs tried with 9 buffer lengths and both flags.",
        subs: vec![
            Sub {
                name: "short-inputs",
                what: "every byte string of length 0..2, 38 decoders, buffer 0..8, both flags",
                source: Enum {
                    n: |_| 38 * SHORT2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = (i / SHORT2) as usize;
                        short2(i % SHORT2, &mut c.data);
                    },
                },
                check: c01_small,
            },
            Sub {
                name: "scalars",
                what: "every scalar value x 38 encoders, buffer 0..8, both flags",
                source: Enum { n: |_| 38 * SCALARS, make: e_scalar_all_encs },
                check: c01_small,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<38, 2>, make: grid::<0, 38, 2> }, check: c01_grid },
            Sub { name: "any", what: "structured random inputs, any encoding, direction, buffer, flag", source: Rand { quick: 18_000_000, thorough: 60_000_000, make: mk_any_any }, check: c01 },
            Sub {
                name: "noise",
                what: "unstructured random bytes and text",
                source: Rand {
                    quick: 9_000_000,
                    thorough: 30_000_000,
                    make: |s, c| {
                        let e = gen::pick_enc(s);
                        let d = s.chance(2, 3);
                        base(s, c, e, d);
                        let n = s.us(24);
                        for _ in 0..n {
                            if d {
                                let b = s.range(0, 255) as u8;
                                c.data.push(b);
                            } else {
                                let ch = gen::random_scalar(s);
                                put(c, ch);
                            }
                        }
                        c.plan.push(s.us(c.data.len() * 2 + 8) as u32);
                    },
                },
                check: c01,
            },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 12800, thorough: 48000, make: mk_large }, check: c01 },
        ],
    });

    v.push(Prop {
        id: "C02",
        rule: "A case is (byte order, direction, input, end flag, buffer). Non-trivial: the conversion is not a plain copy (always, for UTF-16 of non-empty input).",
        subs: vec![
            Sub {
                name: "encode-scalars",
                what: "every scalar value, both orders, every buffer length up to what it needs",
                source: Enum {
                    n: |_| 2 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.enc = if i < SCALARS { encs::U16BE } else { encs::U16LE };
                        put(c, nth_scalar(i % SCALARS));
                    },
                },
                check: mapping_all_lens,
            },
            Sub {
                name: "decode-scalars",
                what: "the UTF-16 form of every scalar value, both orders, both flags, every buffer length",
                source: Enum {
                    n: |_| 4 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        let be = i & 2 == 2;
                        c.enc = if be { encs::U16BE } else { encs::U16LE };
                        let x = model::enc_char(Kind::U16 { be }, nth_scalar(i / 4)).unwrap();
                        c.data.extend_from_slice(x.s());
                    },
                },
                check: mapping_all_lens,
            },
            Sub {
                name: "unit-pairs",
                what: "surrogate/boundary units x every unit, both orders, both flags, then truncations",
                source: Enum {
                    n: |t| 65536 * 2 * 2 * if t { 2048 + 8 } else { 24 },
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        let be = i & 2 == 2;
                        c.enc = if be { encs::U16BE } else { encs::U16LE };
                        let second = (i / 4 % 65536) as u16;
                        let k = (i / 4 / 65536) as u16;
                        const F: [u16; 24] = [
                            0xD7FF, 0xE000, 0x0041, 0xFFFF, 0xFEFF, 0xFFFE, 0x0000, 0x00D8, 0xD800, 0xDBFF, 0xDC00,
                            0xDFFF, 0xD801, 0xD840, 0xD8FF, 0xD900, 0xDA55, 0xDBFE, 0xDC01, 0xDCFF, 0xDD00, 0xDE33,
                            0xDFFE, 0xD83D,
                        ];
                        let first = if k < 24 { F[k as usize] } else { 0xD800 + (k - 8) };
                        put_unit16(c, be, first);
                        put_unit16(c, be, second);
                    },
                },
                check: map_ample,
            },
            Sub {
                name: "truncated",
                what: "every scalar's UTF-16 form cut short by one byte, both orders, both flags",
                source: EnumDup {
                    n: |_| 4 * SCALARS * 2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        let be = i & 2 == 2;
                        c.enc = if be { encs::U16BE } else { encs::U16LE };
                        let x = model::enc_char(Kind::U16 { be }, nth_scalar(i / 8)).unwrap();
                        let cut = if i & 4 == 4 { 1 } else { 2 };
                        c.data.extend_from_slice(&x.s()[..x.n - cut]);
                    },
                },
                check: map_ample,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<2, 2>, make: grid::<1, 2, 2> }, check: map_ample },
            Sub { name: "sequences", what: MSEQ_WHAT, source: Enum { n: mseq_n::<2>, make: mseq::<1, 2> }, check: map_seq },
            Sub { name: "texts", what: "random texts, encode", source: Rand { quick: 3_000_000, thorough: 10_000_000, make: |s, c| { let e = u16e(s); mk_enc(s, c, e) } }, check: mapping },
            Sub { name: "bytes", what: "random well- and ill-formed UTF-16, decode, resuming after errors", source: Rand { quick: 5_400_000, thorough: 20_000_000, make: |s, c| { let e = u16e(s); mk_dec(s, c, e) } }, check: mapping },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let e = u16e(s); let d = s.chance(1, 2); mk_large_of(s, c, e, d) } }, check: mapping },
        ],
    });

    v.push(Prop {
        id: "C03",
        rule: "A case is (byte order, direction, input, end flag, buffer). Non-trivial: the conversion is not a plain copy (always, for UTF-32 of non-empty input).",
        subs: vec![
            Sub {
                name: "encode-scalars",
                what: "every scalar value, both orders, every buffer length up to what it needs",
                source: Enum {
                    n: |_| 2 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.enc = if i < SCALARS { encs::U32BE } else { encs::U32LE };
                        put(c, nth_scalar(i % SCALARS));
                    },
                },
                check: mapping_all_lens,
            },
            Sub {
                name: "decode-values",
                what: "0..120000h, and 65536 low halves under 24 shapes of the upper bits, both orders",
                source: Enum {
                    n: |_| 2 * (0x12_0000 + 0x1_0000 * 24),
                    make: |i, c| {
                        let k = i / 2;
                        let v = if k < 0x12_0000 {
                            k as u32
                        } else {
                            let j = k - 0x12_0000;
                            let (lo, sh) = ((j & 0xFFFF) as u32, (j >> 16) as u32);
                            if sh < 8 {
                                lo | 0x0100_0000u32 << sh
                            } else {
                                lo.rotate_left(sh) ^ 0x0011_0000
                            }
                        };
                        value32(c, i & 1 == 1, v)
                    },
                },
                check: map_ample,
            },
            Sub {
                name: "all-values",
                what: "all 2^32 values, both orders (thorough only)",
                source: Enum { n: |t| if t { 2 << 32 } else { 0 }, make: |i, c| value32(c, i & 1 == 1, (i / 2) as u32) },
                check: map_ample,
            },
            Sub {
                name: "truncated",
                what: "an incomplete final unit of 1..3 bytes after each of 0..2 characters, both flags",
                source: EnumDup {
                    n: |_| 2 * 2 * 3 * 3 * 4096,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        let be = i & 2 == 2;
                        c.enc = if be { encs::U32BE } else { encs::U32LE };
                        let mut k = i / 4;
                        let cut = (k % 3) as usize + 1;
                        k /= 3;
                        let n = k % 3;
                        k /= 3;
                        for j in 0..=n {
                            let ch = gen::scalar(crate::rng::mix(k * 3 + j) as u32 % 0x11_0000);
                            c.data.extend_from_slice(model::enc_char(Kind::U32 { be }, ch).unwrap().s());
                        }
                        let l = c.data.len();
                        c.data.truncate(l - cut);
                    },
                },
                check: map_ample,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<2, 2>, make: grid::<3, 2, 2> }, check: map_ample },
            Sub { name: "sequences", what: MSEQ_WHAT, source: Enum { n: mseq_n::<2>, make: mseq::<3, 2> }, check: map_seq },
            Sub { name: "texts", what: "random texts, encode", source: Rand { quick: 3_000_000, thorough: 10_000_000, make: |s, c| { let e = u32e(s); mk_enc(s, c, e) } }, check: mapping },
            Sub { name: "bytes", what: "random well- and ill-formed UTF-32, decode, resuming after errors", source: Rand { quick: 5_400_000, thorough: 20_000_000, make: |s, c| { let e = u32e(s); mk_dec(s, c, e) } }, check: mapping },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let e = u32e(s); let d = s.chance(1, 2); mk_large_of(s, c, e, d) } }, check: mapping },
        ],
    });

    v.push(Prop {
        id: "C04",
        rule: "A case is (direction, bytes, end flag, buffer). Non-trivial: decoding, the input is not plain well-formed text, i.e. the decoder must report or withhold something; encoding, some character is not ASCII; enumerations count every string.",
        subs: vec![
            Sub {
                name: "short-strings",
                what: "every byte string of length 0..3, both flags",
                source: Enum {
                    n: |_| 2 * (SHORT2 + (1 << 24)),
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        let k = i / 2;
                        if k < SHORT2 {
                            short2(k, &mut c.data);
                        } else {
                            let v = (k - SHORT2) as u32;
                            c.data.extend_from_slice(&v.to_be_bytes()[1..]);
                        }
                    },
                },
                check: map_ample,
            },
            Sub {
                name: "class-strings",
                what: "every string of 4 (thorough: 5) bytes over 30 boundary bytes, both flags, resuming after errors",
                source: Enum {
                    n: |t| 2 * (30u64.pow(4) + if t { 30u64.pow(5) } else { 0 }),
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        const B: [u8; 30] = [
                            0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC,
                            0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x00,
                        ];
                        let mut k = i / 2;
                        let mut n = 4;
                        if k >= 30u64.pow(4) {
                            k -= 30u64.pow(4);
                            n = 5;
                        }
                        for _ in 0..n {
                            c.data.push(B[(k % 30) as usize]);
                            k /= 30;
                        }
                    },
                },
                check: mapping,
            },
            Sub {
                name: "scalars",
                what: "every scalar value: encode, and decode of its UTF-8 form, every buffer length",
                source: Enum {
                    n: |_| 2 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.dec = i & 1 == 1;
                        put(c, nth_scalar(i / 2));
                    },
                },
                check: mapping_all_lens,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<1, 2>, make: grid::<0, 1, 2> }, check: map_ample },
            Sub { name: "sequences", what: MSEQ_WHAT, source: Enum { n: mseq_n::<1>, make: mseq::<0, 1> }, check: map_seq },
            Sub { name: "bytes", what: "random well- and ill-formed UTF-8, decode, resuming after errors", source: Rand { quick: 9_000_000, thorough: 40_000_000, make: |s, c| mk_dec(s, c, encs::UTF8) }, check: mapping },
            Sub { name: "texts", what: "random texts, encode", source: Rand { quick: 2_400_000, thorough: 8_000_000, make: |s, c| mk_enc(s, c, encs::UTF8) }, check: mapping },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let d = s.chance(2, 3); mk_large_of(s, c, encs::UTF8, d) } }, check: mapping },
        ],
    });

    v.push(Prop {
        id: "C05",
        rule: "A case is (single-byte encoding, bytes, buffer). Non-trivial: some byte is above 7F.",
        subs: vec![
            Sub {
                name: "pairs",
                what: "every byte string of length 0..2 in 31 encodings, every buffer length",
                source: Enum {
                    n: |_| 31 * SHORT2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = encs::ASCII + (i / SHORT2) as usize;
                        short2(i % SHORT2, &mut c.data);
                    },
                },
                check: mapping_all_lens,
            },
            Sub {
                name: "positions",
                what: "every byte at every offset 0..80 of an ASCII or high-byte run, 31 encodings",
                source: EnumDup {
                    n: |_| 31 * 256 * 80 * 2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = encs::ASCII + (i % 31) as usize;
                        let k = i / 31;
                        let b = (k % 256) as u8;
                        let at = (k / 256 % 80) as usize;
                        let f = if k / 256 / 80 == 0 || c.enc == encs::ASCII {
                            b'k'
                        } else {
                            (128..=255u8)
                                .find(|&q| refs().sb[c.enc - encs::SB0].dec[q as usize - 128].is_some())
                                .unwrap()
                        };
                        c.data.resize(at, f);
                        c.data.push(b);
                        c.data.extend_from_slice(&[f; 20]);
                    },
                },
                check: map_ample,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<31, 1>, make: grid::<7, 31, 1> }, check: map_ample },
            Sub { name: "triples", what: SEQ3_WHAT, source: Enum { n: seq3_n, make: seq3::<true> }, check: map_seq },
            Sub { name: "bytes", what: "random byte strings, resuming after errors", source: Rand { quick: 7_200_000, thorough: 25_000_000, make: |s, c| { let e = gen::pick_sb(s); mk_dec(s, c, e) } }, check: mapping },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let e = gen::pick_sb(s); mk_large_of(s, c, e, true) } }, check: mapping },
        ],
    });

    v.push(Prop {
        id: "C06",
        rule: "A case is (single-byte encoding, text, buffer). Non-trivial: some character is non-ASCII.",
        subs: vec![
            Sub {
                name: "scalars",
                what: "every scalar value in 31 encodings",
                source: Enum {
                    n: |_| 31 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.enc = encs::ASCII + (i / SCALARS) as usize;
                        put(c, nth_scalar(i % SCALARS));
                    },
                },
                check: map_ample,
            },
            Sub {
                name: "positions",
                what: "every encodable and every boundary character at every offset 0..40 of a run, 31 encodings",
                source: EnumDup {
                    n: |_| 31 * 400 * 40,
                    make: |i, c| {
                        c.reset();
                        c.enc = encs::ASCII + (i % 31) as usize;
                        let k = i / 31;
                        let (w, at) = ((k % 400) as usize, k / 400);
                        let ch = if w < 128 && c.enc != encs::ASCII {
                            refs().sb[c.enc - encs::SB0].dec[w].unwrap_or('\u{FFFD}')
                        } else {
                            gen::scalar(gen::BOUNDARY[w % gen::BOUNDARY.len()])
                        };
                        for j in 0..at {
                            c.data.push(b'a' + (j % 20) as u8);
                        }
                        put(c, ch);
                        c.data.extend_from_slice(b"0123456789abcdef");
                    },
                },
                check: map_ample,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<31, 0>, make: grid::<7, 31, 0> }, check: map_ample },
            Sub { name: "triples", what: SEQ3_WHAT, source: Enum { n: seq3_n, make: seq3::<false> }, check: map_seq },
            Sub { name: "texts", what: "random texts, resuming after errors", source: Rand { quick: 7_200_000, thorough: 25_000_000, make: |s, c| { let e = gen::pick_sb(s); mk_enc(s, c, e) } }, check: mapping },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let e = gen::pick_sb(s); mk_large_of(s, c, e, false) } }, check: mapping },
        ],
    });

    fn db_dec_subs(v: &mut Vec<Sub>, sjis: bool) {
        v.push(Sub {
            name: "pairs",
            what: "every byte string of length 0..2, both flags, every buffer length",
            source: Enum {
                n: |_| 2 * SHORT2,
                make: if sjis {
                    |i, c| {
                        c.reset();
                        c.enc = encs::SJIS;
                        c.dec = true;
                        c.end = i & 1 == 1;
                        short2(i / 2, &mut c.data);
                    }
                } else {
                    |i, c| {
                        c.reset();
                        c.enc = encs::BIG5;
                        c.dec = true;
                        c.end = i & 1 == 1;
                        short2(i / 2, &mut c.data);
                    }
                },
            },
            check: mapping_all_lens,
        });
        v.push(Sub {
            name: "three-bytes",
            what: "every string of three bytes, both flags, resuming after errors",
            source: Enum {
                n: |_| 2 << 24,
                make: if sjis { |i, c| three(i, c, encs::SJIS) } else { |i, c| three(i, c, encs::BIG5) },
            },
            check: mapping,
        });
        v.push(Sub {
            name: "in-context",
            what: "every byte pair after 0..3 ASCII or one double-byte character and before each of 7 bytes, resuming after errors",
            source: Enum {
                n: |t| 65536 * if t { 5 * 7 } else { 14 },
                make: if sjis {
                    |i, c| ctx_pair(i, c, encs::SJIS)
                } else {
                    |i, c| ctx_pair(i, c, encs::BIG5)
                },
            },
            check: mapping,
        });
    }
    fn three(i: u64, c: &mut Case, e: usize) {
        c.reset();
        c.enc = e;
        c.dec = true;
        c.end = i & 1 == 1;
        c.data.extend_from_slice(&((i / 2) as u32).to_be_bytes()[1..]);
    }
    fn ctx_pair(i: u64, c: &mut Case, e: usize) {
        c.reset();
        c.enc = e;
        c.dec = true;
        let w = i / 65536;
        let p: &[u8] = match w % 5 {
            0 => b"",
            1 => b"a",
            2 => &[0x88, 0xA1],
            3 => b"abc",
            _ => &[0xA4, 0x40, 0x42],
        };
        let s: u8 = [0x41, 0xA4, 0x80, 0x00, 0xFF, 0x7F, 0xE0][(w % 7) as usize];
        c.data.extend_from_slice(p);
        c.data.extend_from_slice(&((i % 65536) as u16).to_be_bytes());
        c.data.push(s);
    }
    fn db_enc_scalars(sjis: bool) -> Sub {
        Sub {
            name: "scalars",
            what: "every scalar value, both flags, every buffer length",
            source: Enum {
                n: |_| 2 * SCALARS,
                make: if sjis {
                    |i, c| {
                        c.reset();
                        c.enc = encs::SJIS;
                        c.end = i & 1 == 1;
                        put(c, nth_scalar(i / 2));
                    }
                } else {
                    |i, c| {
                        c.reset();
                        c.enc = encs::BIG5;
                        c.end = i & 1 == 1;
                        put(c, nth_scalar(i / 2));
                    }
                },
            },
            check: mapping_all_lens,
        }
    }

    let mut subs = vec![];
    db_dec_subs(&mut subs, false);
    subs.push(Sub { name: "bytes", what: "random byte strings, resuming after errors", source: Rand { quick: 6_000_000, thorough: 25_000_000, make: |s, c| mk_dec(s, c, encs::BIG5) }, check: mapping });
    subs.push(Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<1, 1>, make: grid::<5, 1, 1> }, check: map_ample });
    subs.push(Sub { name: "sequences", what: SEQ_WHAT, source: Enum { n: seq_n::<5, 1>, make: seq::<5, 1> }, check: map_seq });
    subs.push(Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| mk_large_of(s, c, encs::BIG5, true) }, check: mapping });
    v.push(Prop { id: "C07", rule: "A case is (bytes, end flag, buffer). Non-trivial: some byte is above 7F; enumerations count every string.", subs });

    let mut subs = vec![db_enc_scalars(false)];
    subs.push(Sub {
        name: "combining",
        what: "U+00CA, U+00EA and neighbours followed by every scalar value, both flags",
        source: Enum {
            n: |t| SCALARS * 2 * if t { 6 } else { 2 },
            make: |i, c| {
                c.reset();
                c.enc = encs::BIG5;
                c.end = i & 1 == 1;
                let k = i / 2;
                let a = ['\u{CA}', '\u{EA}', '\u{C9}', '\u{EB}', '\u{4E00}', 'a'][(k / SCALARS) as usize];
                put(c, a);
                put(c, nth_scalar(k % SCALARS));
            },
        },
        check: mapping,
    });
    subs.push(Sub {
        name: "combining-strings",
        what: "every string of length 0..6 over {CA, EA, 304, 30C, a, 4E00, 301}, both flags, every buffer length",
        source: Enum {
            n: |_| 2 * (7u64.pow(7) - 1) / 6,
            make: |i, c| {
                c.reset();
                c.enc = encs::BIG5;
                c.end = i & 1 == 1;
                let mut k = i / 2;
                let mut n = 0;
                while k >= 7u64.pow(n) {
                    k -= 7u64.pow(n);
                    n += 1;
                }
                for _ in 0..n {
                    put(c, ['\u{CA}', '\u{EA}', '\u{304}', '\u{30C}', 'a', '\u{4E00}', '\u{301}'][(k % 7) as usize]);
                    k /= 7;
                }
            },
        },
        check: mapping_all_lens,
    });
    subs.push(Sub { name: "texts", what: "random texts, resuming after errors", source: Rand { quick: 6_000_000, thorough: 25_000_000, make: |s, c| mk_enc(s, c, encs::BIG5) }, check: mapping });
    subs.push(Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<1, 0>, make: grid::<5, 1, 0> }, check: map_ample });
    subs.push(Sub { name: "sequences", what: SEQ_WHAT, source: Enum { n: seq_n::<5, 0>, make: seq::<5, 0> }, check: map_seq });
    subs.push(Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| mk_large_of(s, c, encs::BIG5, false) }, check: mapping });
    v.push(Prop { id: "C08", rule: "A case is (text, end flag, buffer). Non-trivial: some character is non-ASCII; enumerations count every text.", subs });

    let mut subs = vec![];
    db_dec_subs(&mut subs, true);
    subs.push(Sub { name: "bytes", what: "random byte strings, resuming after errors", source: Rand { quick: 6_000_000, thorough: 25_000_000, make: |s, c| mk_dec(s, c, encs::SJIS) }, check: mapping });
    subs.push(Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<1, 1>, make: grid::<6, 1, 1> }, check: map_ample });
    subs.push(Sub { name: "sequences", what: SEQ_WHAT, source: Enum { n: seq_n::<6, 1>, make: seq::<6, 1> }, check: map_seq });
    subs.push(Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| mk_large_of(s, c, encs::SJIS, true) }, check: mapping });
    v.push(Prop { id: "C09", rule: "A case is (bytes, end flag, buffer). Non-trivial: some byte is above 7F; enumerations count every string.", subs });

    let mut subs = vec![db_enc_scalars(true)];
    subs.push(Sub {
        name: "in-context",
        what: "every scalar value between two others (ASCII, half-width, double-byte), quick: every scalar in one context, thorough: six",
        source: Enum {
            n: |t| SCALARS * if t { 6 } else { 1 },
            make: |i, c| {
                c.reset();
                c.enc = encs::SJIS;
                let ctx = (i / SCALARS + i) % 6;
                put(c, ['a', '\u{FF71}', '\u{4E9C}', '\u{E000}', '\u{80}', '\u{2212}'][ctx as usize]);
                put(c, nth_scalar(i % SCALARS));
                put(c, ['\u{4E9C}', 'b', '\u{FF9F}', '\u{A5}', '\u{E757}', '\u{3042}'][ctx as usize]);
            },
        },
        check: mapping,
    });
    subs.push(Sub { name: "texts", what: "random texts, resuming after errors", source: Rand { quick: 6_000_000, thorough: 25_000_000, make: |s, c| mk_enc(s, c, encs::SJIS) }, check: mapping });
    subs.push(Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<1, 0>, make: grid::<6, 1, 0> }, check: map_ample });
    subs.push(Sub { name: "sequences", what: SEQ_WHAT, source: Enum { n: seq_n::<6, 0>, make: seq::<6, 0> }, check: map_seq });
    subs.push(Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| mk_large_of(s, c, encs::SJIS, false) }, check: mapping });
    v.push(Prop { id: "C10", rule: "A case is (text, end flag, buffer). Non-trivial: some character is non-ASCII; enumerations count every text.", subs });

    for (id, dec) in [("C11", false), ("C12", true)] {
        v.push(Prop {
            id,
            rule: "A case is (encoding, input, chunk sizes, buffer sizes, substitute or skip). Non-trivial: at least two calls with fresh chunks, and some non-ASCII byte.",
            subs: vec![
                Sub {
                    name: "two-way-splits",
                    what: "short inputs cut at every position, into buffers of every size",
                    source: Rand {
                        quick: 2_400_000,
                        thorough: 8_000_000,
                        make: if dec {
                            |s, c| mk_split(s, c, true)
                        } else {
                            |s, c| mk_split(s, c, false)
                        },
                    },
                    check: split_all,
                },
                Sub {
                    name: "pairs",
                    what: if dec {
                        "every two bytes, then an ASCII byte, in 34 byte-oriented encodings, cut at every position, skipping and substituting"
                    } else {
                        "every two characters of each of 31 single-byte encodings, cut at every position, skipping and substituting"
                    },
                    source: if dec { Enum { n: |_| 34 * 65536 * 2, make: pair_split_dec } } else { Enum { n: |_| 31 * 65536 * 2, make: pair_split_enc } },
                    check: split_seq,
                },
                Sub {
                    name: "run-grid",
                    what: GRID_WHAT,
                    source: EnumDup {
                        n: grid_n::<38, 0>,
                        make: if dec { grid::<0, 38, 1> } else { grid::<0, 38, 0> },
                    },
                    check: split_grid,
                },
                Sub {
                    name: "sessions",
                    what: "random histories of chunks and buffers against the one-shot call",
                    source: Rand {
                        quick: 5_400_000,
                        thorough: 20_000_000,
                        make: if dec {
                            |s, c| mk_session(s, c, true)
                        } else {
                            |s, c| mk_session(s, c, false)
                        },
                    },
                    check: session,
                },
                Sub {
                    name: "large",
                    what: "inputs of up to 180 KiB in chunks of about 1 to 64 KiB",
                    source: Rand {
                        quick: 2_560,
                        thorough: 12_000,
                        make: if dec {
                            |s, c| mk_large_session(s, c, true)
                        } else {
                            |s, c| mk_large_session(s, c, false)
                        },
                    },
                    check: session,
                },
            ],
        });
    }

    v.push(Prop {
        id: "C13",
        rule: "A case is (encoding, direction, input, flag, buffer lengths). Non-trivial: some tried length falls inside a character's converted form, or all lengths were tried over several multi-byte characters.",
        subs: vec![
            Sub {
                name: "scalars",
                what: "every scalar value x 38 encoders, all lengths",
                source: Enum { n: |_| 38 * SCALARS, make: e_scalar_all_encs },
                check: c13_nt,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<38, 2>, make: grid::<0, 38, 2> }, check: c13_grid },
            Sub { name: "pairs", what: "every two characters (decoding: bytes) of each of 31 single-byte encodings, every buffer length", source: Enum { n: pair31_n, make: pair31 }, check: c13_seq },
            Sub { name: "all-lengths", what: "random short inputs, every buffer length from 0 to full", source: Rand { quick: 2_100_000, thorough: 7_000_000, make: mk_c13_all }, check: c13 },
            Sub { name: "some-lengths", what: "random inputs, several buffer lengths near unit boundaries", source: Rand { quick: 5_400_000, thorough: 20_000_000, make: mk_c13_some }, check: c13 },
            Sub { name: "drain", what: "repeated small-buffer calls drain the whole input", source: Rand { quick: 2_400_000, thorough: 8_000_000, make: mk_drain }, check: c13_drain },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 9600, thorough: 36000, make: mk_large }, check: c13 },
            crate::props2::huge_sub(false),
            crate::props2::huge_sub(true),
            crate::vast::roomy_sub(false),
            crate::vast::roomy_sub(true),
            crate::vast::subs(&[false, true], false),
        ],
    });

    for (id, dec) in [("C14", false), ("C15", true)] {
        let mut subs = vec![];
        if !dec {
            subs.push(Sub {
                name: "sandwich",
                what: "every scalar value between representable characters in the 33 encodings that can fail",
                source: Enum {
                    n: |_| 33 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.enc = encs::BIG5 + (i % 33) as usize;
                        let k = i / 33;
                        c.data.extend_from_slice(b"ab");
                        put(c, nth_scalar(k));
                        c.data.extend_from_slice(b"cd");
                    },
                },
                check: resume,
            });
            subs.push(Sub {
                name: "neighbours",
                what: "every representable character of 33 encodings before and after each of 40 that are not",
                source: Enum { n: neighbours_n, make: neighbours },
                check: resume_seq,
            });
        } else {
            subs.push(Sub {
                name: "sandwich",
                what: "every byte pair between ASCII bytes in the 34 byte-oriented encodings, both flags",
                source: Enum {
                    n: |_| 34 * 65536 * 2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        let k = i / 2;
                        c.end = i & 1 == 1;
                        let e = (k % 34) as usize;
                        c.enc = if e == 0 { encs::UTF8 } else { encs::BIG5 + e - 1 };
                        c.data.push(b'a');
                        c.data.extend_from_slice(&((k / 34) as u16).to_be_bytes());
                        c.data.push(b'b');
                    },
                },
                check: resume,
            });
            subs.push(Sub {
                name: "utf8-classes",
                what: "every string of 4 bytes over 30 boundary bytes in UTF-8",
                source: Enum {
                    n: |_| 2 * 30u64.pow(4),
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.end = i & 1 == 1;
                        const B: [u8; 30] = [
                            0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC,
                            0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x00,
                        ];
                        let mut k = i / 2;
                        for _ in 0..4 {
                            c.data.push(B[(k % 30) as usize]);
                            k /= 30;
                        }
                    },
                },
                check: resume,
            });
        }
        if dec {
            subs.push(Sub {
                name: "three-bytes",
                what: "every string of three bytes in UTF-8, Big5 and Shift JIS, both flags",
                source: Enum { n: |_| 3 * 2 << 24, make: three_bytes },
                check: resume,
            });
        }
        subs.push(Sub {
            name: "resume",
            what: "random inputs with invalid parts, resumed after every error",
            source: Rand {
                quick: 9_000_000,
                thorough: 35_000_000,
                make: if dec {
                    |s, c| mk_resume(s, c, true)
                } else {
                    |s, c| mk_resume(s, c, false)
                },
            },
            check: resume,
        });
        subs.push(Sub {
            name: "large",
            what: "inputs of up to 180 KiB",
            source: Rand {
                quick: 9_600,
                thorough: 60_000,
                make: if dec {
                    |s, c| {
                        let e = gen::pick_enc(s);
                        mk_large_of(s, c, e, true);
                        c.plan.clear()
                    }
                } else {
                    |s, c| {
                        let e = gen::pick_enc(s);
                        mk_large_of(s, c, e, false);
                        c.plan.clear()
                    }
                },
            },
            check: resume,
        });
        subs.push(Sub {
            name: "run-grid",
            what: GRID_WHAT,
            source: EnumDup {
                n: grid_n::<38, 0>,
                make: if dec { grid::<0, 38, 1> } else { grid::<0, 38, 0> },
            },
            check: resume,
        });
        subs.push(crate::props2::huge_sub(dec));
        subs.push(if dec { crate::vast::subs(&[true], true) } else { crate::vast::subs(&[false], true) });
        v.push(Prop {
            id,
            rule: "A case is (encoding, input, flag, surplus space); the check resumes after every reported error to the end of the input. Non-trivial: an error was reported with converted data before it and more input after it.",
            subs,
        });
    }

    v.push(Prop {
        id: "C29",
        rule: "A case is (encoding, direction, input, flag, buffer length, offsets in memory), run in this build and in another; results are compared. Non-trivial: input and buffer are not empty.",
        subs: vec![],
    });
    v.push(Prop {
        id: "C30",
        rule: "A case is (encoding, direction, input, flag, buffer length). Non-trivial: input and buffer are not empty.",
        subs: vec![
            Sub {
                name: "run-grid",
                what: GRID_WHAT,
                source: EnumDup { n: grid_n::<38, 2>, make: |i, c| {
                    grid::<0, 38, 2>(i, c);
                    c.plan.clear();
                    if i / 76 % 2 == 0 {
                        let n = model::with_full(ENCS[c.enc].kind, c.dec, &c.data, c.end, |f| f.out.len());
                        c.plan.push(n as u32);
                    } else {
                        push_len(&mut Src::seeded(i), c);
                    }
                } },
                check: crate::vast::edges,
            },
            Sub {
                name: "edges",
                what: "input and buffer that begin or end where memory begins or ends",
                source: Rand { quick: 6_000_000, thorough: 60_000_000, make: mk_any_any },
                check: crate::vast::edges,
            },
            Sub {
                name: "large",
                what: "the same, inputs of up to 180 KiB",
                source: Rand { quick: 8_000, thorough: 40_000, make: mk_large },
                check: crate::vast::edges,
            },
        ],
    });

    v.push(Prop {
        id: "C16",
        rule: "A case is (encoding, text). Non-trivial: the encoded form differs from the text's own UTF-8 bytes.",
        subs: vec![
            Sub { name: "scalars", what: "every scalar value in 38 encodings", source: Enum { n: |_| 38 * SCALARS, make: e_scalar_all_encs }, check: c16 },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<38, 0>, make: grid::<0, 38, 0> }, check: c16 },
            Sub { name: "sequences-big5", what: SEQ_WHAT, source: Enum { n: seq_n::<5, 0>, make: seq::<5, 0> }, check: c16 },
            Sub { name: "sequences-shiftjis", what: SEQ_WHAT, source: Enum { n: seq_n::<6, 0>, make: seq::<6, 0> }, check: c16 },
            Sub { name: "triples", what: SEQ3_WHAT, source: Enum { n: seq3_n, make: seq3::<false> }, check: c16 },
            Sub { name: "texts", what: "random texts", source: Rand { quick: 7_200_000, thorough: 25_000_000, make: |s, c| mk_good(s, c, false) }, check: c16 },
            Sub {
                name: "char-pairs",
                what: "pairs of characters of the same encoding (Big5, Shift JIS and single-byte pools)",
                source: Rand {
                    quick: 3_600_000,
                    thorough: 20_000_000,
                    make: |s, c| {
                        let e = encs::BIG5 + s.us(33);
                        base(s, c, e, false);
                        for _ in 0..2 {
                            let ch = gen::any_char(s, e);
                            put(c, ch);
                        }
                    },
                },
                check: c16,
            },
            Sub { name: "large", what: "texts of up to 180 KiB", source: Rand { quick: 6_400, thorough: 24_000, make: |s, c| { let e = gen::pick_enc(s); mk_large_of(s, c, e, false) } }, check: c16 },
        ],
    });

    v.push(Prop {
        id: "C17",
        rule: "A case is (encoding, bytes). Non-trivial: something decodes, to text whose UTF-8 bytes differ from the input.",
        subs: vec![
            Sub {
                name: "short-inputs",
                what: "every byte string of length 0..2 in 38 encodings",
                source: Enum {
                    n: |_| 38 * SHORT2,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = (i / SHORT2) as usize;
                        short2(i % SHORT2, &mut c.data);
                    },
                },
                check: c17,
            },
            Sub {
                name: "units",
                what: "the UTF-8/16/32 form of every scalar value",
                source: Enum {
                    n: |_| 5 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = (i / SCALARS) as usize;
                        let x = model::enc_char(ENCS[c.enc].kind, nth_scalar(i % SCALARS)).unwrap();
                        c.data.extend_from_slice(x.s());
                    },
                },
                check: c17,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<38, 1>, make: grid::<0, 38, 1> }, check: c17 },
            Sub { name: "sequences-big5", what: SEQ_WHAT, source: Enum { n: seq_n::<5, 1>, make: seq::<5, 1> }, check: c17 },
            Sub { name: "sequences-shiftjis", what: SEQ_WHAT, source: Enum { n: seq_n::<6, 1>, make: seq::<6, 1> }, check: c17 },
            Sub { name: "triples", what: SEQ3_WHAT, source: Enum { n: seq3_n, make: seq3::<true> }, check: c17 },
            Sub { name: "bytes", what: "random byte strings, mostly well-formed", source: Rand { quick: 7_200_000, thorough: 25_000_000, make: |s, c| mk_good(s, c, true) }, check: c17 },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: |s, c| { let e = gen::pick_enc(s); mk_large_of(s, c, e, true) } }, check: c17 },
        ],
    });

    v.push(Prop {
        id: "C18",
        rule: "A case is (encoding, direction, input, optional buffer length), run with the flag clear and set. Non-trivial: the input ends inside a character.",
        subs: vec![
            Sub {
                name: "short-inputs",
                what: "every byte string of length 0..2 in the encodings with an end flag, buffer 0..7",
                source: Enum {
                    n: |_| 7 * SHORT2 * 8,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.plan.push((i % 8) as u32);
                        let i = i / 8;
                        c.enc = (i / SHORT2) as usize;
                        short2(i % SHORT2, &mut c.data);
                    },
                },
                check: c18,
            },
            Sub {
                name: "prefixes",
                what: "every proper prefix of the UTF-8/16/32 form of every scalar value, after 0 or 1 characters",
                source: EnumDup {
                    n: |_| 5 * SCALARS * 3,
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        c.enc = (i % 5) as usize;
                        let k = i / 5;
                        let kind = ENCS[c.enc].kind;
                        let ch = nth_scalar(k / 3);
                        if k & 8 == 8 {
                            let y = model::enc_char(kind, '\u{20AC}').unwrap();
                            c.data.extend_from_slice(y.s());
                        }
                        let x = model::enc_char(kind, ch).unwrap();
                        let n = (k % 3) as usize + 1;
                        c.data.extend_from_slice(&x.s()[..n.min(x.n)]);
                    },
                },
                check: c18,
            },
            Sub {
                name: "big5-encode",
                what: "every scalar value as the last character of a Big5 encode",
                source: Enum {
                    n: |_| SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.enc = encs::BIG5;
                        if i & 1 == 1 {
                            put(c, '\u{4E00}');
                        }
                        put(c, nth_scalar(i));
                    },
                },
                check: c18,
            },
            Sub { name: "run-grid", what: GRID_WHAT, source: EnumDup { n: grid_n::<7, 2>, make: grid::<0, 7, 2> }, check: c18 },
            Sub { name: "three-bytes", what: "every string of three bytes in UTF-8, Big5 and Shift JIS", source: Enum { n: |_| 3 << 24, make: |i, c| three_bytes(i / 3 * 6 + i % 3, c) }, check: c18 },
            Sub { name: "decode", what: "random inputs, often truncated", source: Rand { quick: 9_000_000, thorough: 30_000_000, make: |s, c| mk_c18(s, c, true) }, check: c18 },
            Sub { name: "encode", what: "random texts", source: Rand { quick: 3_000_000, thorough: 10_000_000, make: |s, c| mk_c18(s, c, false) }, check: c18 },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 6400, thorough: 24000, make: mk_large }, check: c18 },
        ],
    });

    v.push(Prop {
        id: "C19",
        rule: "A case is a call plus a perturbation (buffer contents, alignment, surplus, interleaved calls, changed input after the converted part; or other threads). Non-trivial: the input holds a non-ASCII byte.",
        subs: vec![
            Sub { name: "perturb", what: "random calls repeated under perturbations", source: Rand { quick: 4_200_000, thorough: 15_000_000, make: mk_c19 }, check: c19 },
            Sub { name: "threads", what: "scripts of calls run by 4 threads at once against the same calls run alone", source: Rand { quick: 8_000, thorough: 60_000, make: mk_threads }, check: c19_threads },
            Sub { name: "large", what: "inputs of up to 180 KiB", source: Rand { quick: 4800, thorough: 18000, make: mk_large }, check: c19 },
        ],
    });

    v.push(Prop {
        id: "C20",
        rule: "A case is (relation, encoding, input, buffer). Non-trivial: for the transcoding relation, the text holds a non-ASCII character; for the others every case.",
        subs: vec![
            Sub {
                name: "ascii",
                what: "random ASCII texts unchanged in the 34 ASCII-compatible encodings, both directions",
                source: Rand {
                    quick: 2_400_000,
                    thorough: 8_000_000,
                    make: |s, c| {
                        let e = loop_pick(s, ascii_compat);
                        let d = s.chance(1, 2);
                        base(s, c, e, d);
                        let n = gen::length(s);
                        for _ in 0..n {
                            let b = s.range(0, 127) as u8;
                            c.data.push(b);
                        }
                        c.plan.push(s.us(n + 3) as u32);
                    },
                },
                check: c20_ascii,
            },
            Sub {
                name: "ascii-pairs",
                what: "every pair of ASCII bytes in the 34 ASCII-compatible encodings, both directions",
                source: Enum {
                    n: |_| 34 * 128 * 128,
                    make: |i, c| {
                        c.reset();
                        let e = (i % 34) as usize;
                        c.enc = if e == 0 { encs::UTF8 } else { encs::BIG5 + e - 1 };
                        let k = i / 34;
                        c.data.push((k % 128) as u8);
                        c.data.push((k / 128) as u8);
                        c.plan.push(1);
                    },
                },
                check: c20_ascii,
            },
            Sub {
                name: "byte-order-scalars",
                what: "every scalar value: little-endian is byte-swapped big-endian, both directions",
                source: Enum {
                    n: |_| 4 * SCALARS,
                    make: |i, c| {
                        c.reset();
                        c.dec = i & 1 == 1;
                        c.enc = if i & 2 == 2 { encs::U32BE } else { encs::U16BE };
                        let ch = nth_scalar(i / 4);
                        if c.dec {
                            let x = model::enc_char(ENCS[c.enc].kind, ch).unwrap();
                            c.data.extend_from_slice(x.s());
                        } else {
                            put(c, ch);
                        }
                    },
                },
                check: c20_swap,
            },
            Sub {
                name: "byte-order",
                what: "random inputs: little-endian is byte-swapped big-endian with the same counts and errors",
                source: Rand {
                    quick: 5_400_000,
                    thorough: 20_000_000,
                    make: |s, c| {
                        let e = s.pick(&[encs::U16BE, encs::U32BE]);
                        let d = s.chance(2, 3);
                        mk_any(s, c, e, d)
                    },
                },
                check: c20_swap,
            },
            Sub {
                name: "latin1",
                what: "random byte strings in ISO 8859-1 against the first 256 scalar values",
                source: Rand {
                    quick: 1_200_000,
                    thorough: 4_000_000,
                    make: |s, c| {
                        base(s, c, encs::LATIN1, true);
                        let n = gen::length(s);
                        for _ in 0..n {
                            let b = s.range(0, 255) as u8;
                            c.data.push(b);
                        }
                    },
                },
                check: c20_latin1,
            },
            Sub {
                name: "transcode",
                what: "random bytes of every encoding, decoded and carried through all five UTFs",
                source: Rand {
                    quick: 3_000_000,
                    thorough: 10_000_000,
                    make: |s, c| {
                        let e = gen::pick_enc(s);
                        base(s, c, e, true);
                        gen::data(s, e, true, false, &mut c.data);
                    },
                },
                check: c20_transcode,
            },
            Sub {
                name: "transcode-pairs",
                what: "every byte pair of every encoding, decoded and carried through all five UTFs",
                source: Enum {
                    n: |t| if t { 38 * SHORT2 } else { 2 * SHORT2 + 31 * 257 },
                    make: |i, c| {
                        c.reset();
                        c.dec = true;
                        let q = 2 * SHORT2 + 31 * 257;
                        if i < 2 * SHORT2 {
                            c.enc = encs::BIG5 + (i / SHORT2) as usize;
                            short2(i % SHORT2, &mut c.data);
                        } else if i < q {
                            let k = i - 2 * SHORT2;
                            c.enc = encs::ASCII + (k / 257) as usize;
                            short2(k % 257, &mut c.data);
                        } else {
                            c.enc = (i / SHORT2) as usize;
                            short2(i % SHORT2, &mut c.data);
                        }
                    },
                },
                check: c20_transcode,
            },
            Sub {
                name: "large",
                what: "inputs of up to 180 KiB, transcoded",
                source: Rand { quick: 4_800, thorough: 18_000, make: |s, c| { let e = gen::pick_enc(s); mk_large_of(s, c, e, true) } },
                check: c20_transcode,
            },
        ],
    });
    v.extend(crate::props2::props2());
    v
}

fn c13_nt(c: &Case, x: &mut Ctx) -> Result<(), String> {
    x.nt();
    c13(c, x)
}

/// C11/C12: every cut position of a short input, with one repeated buffer size.
fn split_all(c: &Case, x: &mut Ctx) -> Result<(), String> {
    let mut k = c.clone();
    for cut in 0..=c.data.len() {
        if !c.dec && cut < c.data.len() && c.data[cut] & 0xC0 == 0x80 {
            continue;
        }
        k.plan.clear();
        k.plan.push(c.p(0) as u32 & 1);
        k.plan.push(2);
        k.plan.push(cut as u32);
        k.plan.push((c.data.len() - cut) as u32);
        for b in c.plan.iter().skip(1) {
            k.plan.push(*b);
        }
        session(&k, x)?;
    }
    Ok(())
}
fn mk_split(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    base(s, c, e, dec);
    let n = s.range(1, 8) as usize;
    if dec {
        gen::bytes(s, e, false, n, &mut c.data)
    } else {
        gen::text(s, e, false, n, &mut c.data)
    }
    c.data.truncate(60.min(c.data.len()));
    if !dec {
        while std::str::from_utf8(&c.data).is_err() {
            c.data.pop();
        }
    }
    c.plan.push(s.us(2) as u32);
    if s.chance(1, 2) {
        c.plan.push(s.range(0, 9) as u32);
    }
}
fn mk_large_session(s: &mut Src, c: &mut Case, dec: bool) {
    let e = gen::pick_enc(s);
    base(s, c, e, dec);
    if s.chance(1, 2) {
        gen::data_deep(s, e, dec, &mut c.data);
    } else {
        gen::data_large(s, e, dec, &mut c.data);
    }
    c.plan.push(s.us(2) as u32);
    let mut left = c.data.len() as i64;
    let mut ch = vec![];
    while left > 0 {
        let k = match s.us(3) {
            0 => s.range(1000, 1100),
            1 => s.range(4090, 4100),
            _ => s.range(3000, 65600),
        };
        ch.push(k as u32);
        left -= k as i64;
    }
    c.plan.push(ch.len() as u32);
    c.plan.extend_from_slice(&ch);
    let n = s.us(3);
    for _ in 0..n {
        let b = s.range(500, 20_000);
        c.plan.push(b as u32);
    }
}
