//! Reference models.  Nothing here uses the crate under test: the UTFs are
//! written from the Unicode standard's definitions, the legacy encodings from
//! the frozen mapping files in /verif/ref and the WHATWG algorithms.

use crate::encs::{Kind, SB_REF_NAMES};
use std::sync::OnceLock;

pub struct SbRef {
    pub dec: [Option<char>; 128],
    /// BMP-indexed: byte or 0.
    pub enc: Vec<u8>,
    pub chars: Vec<char>,
    pub undefined: Vec<u8>,
}
pub struct DbRef {
    /// pointer -> scalar value, 0 = undefined
    pub dec: Vec<u32>,
    /// scalar value -> lead<<8 | trail, 0 = none (only indexed characters)
    pub enc: Vec<u16>,
    pub chars: Vec<char>,
    pub ptrs: Vec<u32>,
    /// Indexed characters that occur at more than one pointer.
    pub dups: Vec<char>,
}
pub struct Refs {
    pub sb: Vec<SbRef>,
    pub big5: DbRef,
    pub sjis: DbRef,
}

pub fn big5_bytes(ptr: u32) -> (u8, u8) {
    let lead = ptr / 157 + 0x81;
    let t = ptr % 157;
    (lead as u8, (t + if t < 0x3F { 0x40 } else { 0x62 }) as u8)
}
pub fn sjis_bytes(ptr: u32) -> (u8, u8) {
    let lead = ptr / 188;
    let t = ptr % 188;
    (
        (lead + if lead < 0x1F { 0x81 } else { 0xC1 }) as u8,
        (t + if t < 0x3F { 0x40 } else { 0x41 }) as u8,
    )
}
pub const BIG5_LAST: [u32; 6] = [0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345];
pub const GRAPHEMES: [(u32, char, char); 4] = [
    (1133, '\u{CA}', '\u{304}'),
    (1135, '\u{CA}', '\u{30C}'),
    (1164, '\u{EA}', '\u{304}'),
    (1166, '\u{EA}', '\u{30C}'),
];

pub fn db_ref(map: &[(u32, u32)], big5: bool) -> DbRef {
    let mut map = map.to_vec();
    map.sort();
    let maxp = map.iter().map(|x| x.0).max().unwrap_or(0) as usize;
    let mut r = DbRef {
        dec: vec![0; maxp + 1],
        enc: vec![0; map.iter().map(|x| x.1 as usize).max().unwrap_or(0) + 1],
        chars: vec![],
        ptrs: vec![],
        dups: vec![],
    };
    let mut seen = std::collections::HashSet::new();
    for &(p, c) in &map {
        r.dec[p as usize] = c;
        r.ptrs.push(p);
        if !seen.insert(c) {
            r.dups.push(char::from_u32(c).unwrap());
        }
        if !big5 && (8272..=8835).contains(&p) {
            continue;
        }
        let b = if big5 { big5_bytes(p) } else { sjis_bytes(p) };
        let code = (b.0 as u16) << 8 | b.1 as u16;
        let slot = &mut r.enc[c as usize];
        if *slot == 0 || (big5 && BIG5_LAST.contains(&c)) {
            *slot = code;
        }
    }
    for c in 0..r.enc.len() as u32 {
        if r.enc[c as usize] != 0 {
            r.chars.push(char::from_u32(c).unwrap());
        }
    }
    r
}

pub fn sb_ref(dec: [Option<char>; 128]) -> SbRef {
    let top = dec.iter().flatten().map(|c| *c as usize).max().unwrap_or(0);
    let mut r = SbRef { dec, enc: vec![0; top + 1], chars: vec![], undefined: vec![] };
    for b in 0..128 {
        match dec[b] {
            Some(c) => {
                let slot = &mut r.enc[c as usize];
                if *slot == 0 {
                    *slot = b as u8 + 128;
                    r.chars.push(c);
                }
            }
            None => r.undefined.push(b as u8 + 128),
        }
    }
    r
}

fn load() -> Refs {
    let mut sb: Vec<Option<SbRef>> = (0..30).map(|_| None).collect();
    for l in include_str!("../../ref/single_byte.tsv").lines() {
        let (n, v) = l.split_once('\t').unwrap();
        let i = SB_REF_NAMES.iter().position(|x| *x == n).unwrap();
        let mut dec = [None; 128];
        for (k, t) in v.split(' ').enumerate() {
            if t != "-" {
                dec[k] = Some(char::from_u32(u32::from_str_radix(t, 16).unwrap()).unwrap());
            }
        }
        sb[i] = Some(sb_ref(dec));
    }
    let idx = |s: &str| -> Vec<(u32, u32)> {
        s.lines()
            .map(|l| {
                let (a, b) = l.split_once('\t').unwrap();
                (a.parse().unwrap(), u32::from_str_radix(b, 16).unwrap())
            })
            .collect()
    };
    Refs {
        sb: sb.into_iter().map(|x| x.unwrap()).collect(),
        big5: db_ref(&idx(include_str!("../../ref/big5.tsv")), true),
        sjis: db_ref(&idx(include_str!("../../ref/jis0208.tsv")), false),
    }
}

pub fn refs() -> &'static Refs {
    static R: OnceLock<Refs> = OnceLock::new();
    R.get_or_init(load)
}

/// Up to 4 bytes of converted data.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Small {
    pub b: [u8; 4],
    pub n: usize,
}
impl Small {
    pub fn new(x: &[u8]) -> Small {
        let mut b = [0; 4];
        b[..x.len()].copy_from_slice(x);
        Small { b, n: x.len() }
    }
    pub fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Step {
    End,
    /// Consume `used` input bytes, produce `out`.
    Emit { used: usize, out: Small },
    /// Not decidable without more input (only when the end flag is clear).
    NeedMore,
    /// Encoding: `used` is the length of the unrepresentable character.
    /// Decoding: length of the error range.  `may_wait`: reporting may also be
    /// deferred (end flag clear and the bytes look like a truncated sequence).
    Bad { used: usize, may_wait: bool },
}

// ---------------------------------------------------------------- encoding

pub fn enc_char(k: Kind, c: char) -> Option<Small> {
    enc_char_in(refs(), k, c)
}
/// As `enc_char`, against other mapping data than the frozen one.
pub fn enc_char_in(r: &Refs, k: Kind, c: char) -> Option<Small> {
    let v = c as u32;
    Some(match k {
        Kind::Utf8 => {
            let x = match v {
                0..=0x7F => [v as u8, 0, 0, 0],
                0x80..=0x7FF => [0xC0 | (v >> 6) as u8, 0x80 | (v & 0x3F) as u8, 0, 0],
                0x800..=0xFFFF => [
                    0xE0 | (v >> 12) as u8,
                    0x80 | (v >> 6 & 0x3F) as u8,
                    0x80 | (v & 0x3F) as u8,
                    0,
                ],
                _ => [
                    0xF0 | (v >> 18) as u8,
                    0x80 | (v >> 12 & 0x3F) as u8,
                    0x80 | (v >> 6 & 0x3F) as u8,
                    0x80 | (v & 0x3F) as u8,
                ],
            };
            let n = if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x1_0000 { 3 } else { 4 };
            Small { b: x, n }
        }
        Kind::U16 { be } => {
            let two = |u: u32| -> [u8; 2] {
                let (h, l) = ((u >> 8) as u8, (u & 0xFF) as u8);
                if be { [h, l] } else { [l, h] }
            };
            if v < 0x1_0000 {
                Small::new(&two(v))
            } else {
                let w = v - 0x1_0000;
                let (a, b) = (two(0xD800 + w / 0x400), two(0xDC00 + w % 0x400));
                Small { b: [a[0], a[1], b[0], b[1]], n: 4 }
            }
        }
        Kind::U32 { be } => {
            let x = [0, (v >> 16) as u8, (v >> 8 & 0xFF) as u8, (v & 0xFF) as u8];
            Small { b: if be { x } else { [x[3], x[2], x[1], x[0]] }, n: 4 }
        }
        Kind::Ascii => {
            if v < 0x80 {
                Small::new(&[v as u8])
            } else {
                return None;
            }
        }
        Kind::Sb(i) => {
            if v < 0x80 {
                Small::new(&[v as u8])
            } else {
                match r.sb[i].enc.get(v as usize).copied().unwrap_or(0) {
                    0 => return None,
                    b => Small::new(&[b]),
                }
            }
        }
        Kind::Big5 => {
            if v < 0x80 {
                Small::new(&[v as u8])
            } else {
                match r.big5.enc.get(v as usize).copied().unwrap_or(0) {
                    0 => return None,
                    x => Small::new(&x.to_be_bytes()),
                }
            }
        }
        Kind::Sjis => match v {
            0..=0x80 => Small::new(&[v as u8]),
            0xA5 => Small::new(&[0x5C]),
            0x203E => Small::new(&[0x7E]),
            0xFF61..=0xFF9F => Small::new(&[(v - 0xFF61 + 0xA1) as u8]),
            0xE000..=0xE757 => {
                let b = sjis_bytes(v - 0xE000 + 8836);
                Small::new(&[b.0, b.1])
            }
            _ => {
                let v = if v == 0x2212 { 0xFF0D } else { v };
                match r.sjis.enc.get(v as usize).copied().unwrap_or(0) {
                    0 => return None,
                    x => Small::new(&x.to_be_bytes()),
                }
            }
        },
    })
}

pub fn enc_step(k: Kind, text: &str, is_end: bool) -> Step {
    enc_step_in(refs(), k, text, is_end)
}
pub fn enc_step_in(r: &Refs, k: Kind, text: &str, is_end: bool) -> Step {
    let mut it = text.chars();
    let c = match it.next() {
        None => return Step::End,
        Some(c) => c,
    };
    if k == Kind::Big5 && (c == '\u{CA}' || c == '\u{EA}') {
        match it.next() {
            Some(d) => {
                for &(p, a, b) in &GRAPHEMES {
                    if a == c && b == d {
                        let x = big5_bytes(p);
                        return Step::Emit { used: 4, out: Small::new(&[x.0, x.1]) };
                    }
                }
            }
            None if !is_end => return Step::NeedMore,
            None => {}
        }
    }
    match enc_char_in(r, k, c) {
        Some(out) => Step::Emit { used: c.len_utf8(), out },
        None => Step::Bad { used: c.len_utf8(), may_wait: false },
    }
}

// ---------------------------------------------------------------- decoding

fn emit(used: usize, v: u32) -> Step {
    match char::from_u32(v).and_then(|c| enc_char(Kind::Utf8, c)) {
        Some(out) => Step::Emit { used, out },
        None => unreachable!("model produced a non-scalar value"),
    }
}
fn bad(used: usize) -> Step {
    Step::Bad { used, may_wait: false }
}

/// Unicode table 3-7 (well-formed UTF-8 byte sequences): expected length and
/// allowed range of the second byte.
fn utf8_lead(b: u8) -> Option<(usize, u8, u8)> {
    Some(match b {
        0x00..=0x7F => (1, 0, 0),
        0xC2..=0xDF => (2, 0x80, 0xBF),
        0xE0 => (3, 0xA0, 0xBF),
        0xE1..=0xEC | 0xEE..=0xEF => (3, 0x80, 0xBF),
        0xED => (3, 0x80, 0x9F),
        0xF0 => (4, 0x90, 0xBF),
        0xF1..=0xF3 => (4, 0x80, 0xBF),
        0xF4 => (4, 0x80, 0x8F),
        _ => return None,
    })
}
/// Length of the well-formed sequence at the start of `b`, if there is one.
pub fn utf8_wf(b: &[u8]) -> Option<usize> {
    let (n, lo, hi) = utf8_lead(*b.first()?)?;
    if n == 1 {
        return Some(1);
    }
    if b.len() < n || b[1] < lo || b[1] > hi {
        return None;
    }
    if b[2..n].iter().all(|x| (0x80..=0xBF).contains(x)) {
        Some(n)
    } else {
        None
    }
}
/// Is all of `b` a proper prefix of some well-formed sequence?
pub fn utf8_viable(b: &[u8]) -> bool {
    match b.first().and_then(|&x| utf8_lead(x)) {
        Some((n, lo, hi)) => {
            b.len() < n
                && (b.len() < 2 || (b[1] >= lo && b[1] <= hi))
                && b[b.len().min(2)..].iter().all(|x| (0x80..=0xBF).contains(x))
        }
        None => false,
    }
}

/// Position just after the run of continuation / 11111xxx bytes that follows
/// the first byte of `b`.
pub fn utf8_run(b: &[u8]) -> usize {
    1 + b[1..].iter().take_while(|&&x| x & 0xC0 == 0x80 || x & 0xF8 == 0xF8).count()
}

pub fn dec_step(k: Kind, b: &[u8], is_end: bool) -> Step {
    dec_step_in(refs(), k, b, is_end)
}
pub fn dec_step_in(r: &Refs, k: Kind, b: &[u8], is_end: bool) -> Step {
    if b.is_empty() {
        return Step::End;
    }
    let tail = |n: usize| if is_end { bad(n) } else { Step::NeedMore };
    match k {
        Kind::Utf8 => {
            if let Some(n) = utf8_wf(b) {
                return Step::Emit { used: n, out: Small::new(&b[..n]) };
            }
            if utf8_viable(b) {
                return tail(b.len());
            }
            let want = match b[0] {
                x if x & 0xE0 == 0xC0 => 2,
                x if x & 0xF0 == 0xE0 => 3,
                x if x & 0xF8 == 0xF0 => 4,
                _ => 1,
            };
            let looks_truncated =
                b.len() < want && b[1..].iter().all(|x| x & 0xC0 == 0x80);
            Step::Bad { used: utf8_run(b), may_wait: !is_end && looks_truncated }
        }
        Kind::U16 { be } => {
            if b.len() < 2 {
                return tail(b.len());
            }
            let unit = |i: usize| -> u32 {
                let (x, y) = (b[i] as u32, b[i + 1] as u32);
                if be { x * 256 + y } else { y * 256 + x }
            };
            let u = unit(0);
            match u {
                0xD800..=0xDBFF => {
                    if b.len() < 4 {
                        return tail(b.len());
                    }
                    let v = unit(2);
                    if (0xDC00..=0xDFFF).contains(&v) {
                        emit(4, 0x1_0000 + (u - 0xD800) * 0x400 + (v - 0xDC00))
                    } else {
                        bad(2)
                    }
                }
                0xDC00..=0xDFFF => bad(2),
                _ => emit(2, u),
            }
        }
        Kind::U32 { be } => {
            if b.len() < 4 {
                return tail(b.len());
            }
            let mut v = 0u32;
            for i in 0..4 {
                v = v << 8 | b[if be { i } else { 3 - i }] as u32;
            }
            if v > 0x10_FFFF || (0xD800..=0xDFFF).contains(&v) {
                bad(4)
            } else {
                emit(4, v)
            }
        }
        Kind::Ascii => {
            if b[0] < 0x80 {
                emit(1, b[0] as u32)
            } else {
                bad(1)
            }
        }
        Kind::Sb(i) => {
            if b[0] < 0x80 {
                emit(1, b[0] as u32)
            } else {
                match r.sb[i].dec[b[0] as usize - 128] {
                    Some(c) => emit(1, c as u32),
                    None => bad(1),
                }
            }
        }
        Kind::Big5 => {
            // WHATWG Big5 decoder.
            let lead = b[0];
            if lead < 0x80 {
                return emit(1, lead as u32);
            }
            if lead < 0x81 || lead > 0xFE {
                return bad(1);
            }
            if b.len() < 2 {
                return tail(1);
            }
            let t = b[1];
            if (0x40..=0x7E).contains(&t) || (0xA1..=0xFE).contains(&t) {
                let off = if t < 0x7F { 0x40 } else { 0x62 };
                let p = (lead as u32 - 0x81) * 157 + (t as u32 - off);
                for &(gp, c, d) in &GRAPHEMES {
                    if gp == p {
                        let (x, y) = (c as u32, d as u32);
                        return Step::Emit {
                            used: 2,
                            out: Small {
                                b: [
                                    0xC0 | (x >> 6) as u8,
                                    0x80 | (x & 0x3F) as u8,
                                    0xC0 | (y >> 6) as u8,
                                    0x80 | (y & 0x3F) as u8,
                                ],
                                n: 4,
                            },
                        };
                    }
                }
                let v = r.big5.dec.get(p as usize).copied().unwrap_or(0);
                if v != 0 {
                    return emit(2, v);
                }
            }
            bad(if t < 0x80 { 1 } else { 2 })
        }
        Kind::Sjis => {
            // WHATWG Shift_JIS decoder.
            let lead = b[0];
            if lead <= 0x80 {
                return emit(1, lead as u32);
            }
            if (0xA1..=0xDF).contains(&lead) {
                return emit(1, 0xFF61 - 0xA1 + lead as u32);
            }
            if !((0x81..=0x9F).contains(&lead) || (0xE0..=0xFC).contains(&lead)) {
                return bad(1);
            }
            if b.len() < 2 {
                return tail(1);
            }
            let t = b[1];
            if (0x40..=0x7E).contains(&t) || (0x80..=0xFC).contains(&t) {
                let lo = if lead < 0xA0 { 0x81 } else { 0xC1 };
                let to = if t < 0x7F { 0x40 } else { 0x41 };
                let p = (lead as u32 - lo) * 188 + t as u32 - to;
                if (8836..=10715).contains(&p) {
                    return emit(2, 0xE000 - 8836 + p);
                }
                let v = r.sjis.dec.get(p as usize).copied().unwrap_or(0);
                if v != 0 {
                    return emit(2, v);
                }
            }
            bad(if t < 0x80 { 1 } else { 2 })
        }
    }
}

pub fn step(k: Kind, dec: bool, data: &[u8], is_end: bool) -> Step {
    if dec {
        dec_step(k, data, is_end)
    } else {
        // Encoder inputs are kept as valid UTF-8 by construction.
        enc_step(k, std::str::from_utf8(data).unwrap(), is_end)
    }
}

/// One-shot conversion of everything, with unlimited space.
/// Returns (output, unit boundaries (input, output), stop).
#[derive(Clone, Debug)]
pub struct Full {
    pub out: Vec<u8>,
    /// (input position, output position) after each emitted unit, starting (0,0).
    pub cuts: Vec<(usize, usize)>,
    /// What stopped the conversion (End, NeedMore or Bad).
    pub stop: Step,
}
impl Full {
    pub fn in_pos(&self) -> usize {
        self.cuts.last().unwrap().0
    }
}

pub fn full(k: Kind, dec: bool, data: &[u8], is_end: bool) -> Full {
    let mut f = Full { out: Vec::new(), cuts: vec![], stop: Step::End };
    full_into(k, dec, data, is_end, &mut f);
    f
}

/// As `full`, lending a per-thread scratch result.
pub fn with_full<R>(k: Kind, dec: bool, data: &[u8], is_end: bool, g: impl FnOnce(&Full) -> R) -> R {
    thread_local! {
        static F: std::cell::RefCell<Full> =
            std::cell::RefCell::new(Full { out: Vec::new(), cuts: Vec::new(), stop: Step::End });
    }
    F.with(|f| {
        let mut f = f.borrow_mut();
        full_into(k, dec, data, is_end, &mut f);
        g(&f)
    })
}

pub fn full_into(k: Kind, dec: bool, data: &[u8], is_end: bool, f: &mut Full) {
    f.out.clear();
    f.cuts.clear();
    f.cuts.push((0, 0));
    let mut pos = 0;
    let text = if dec { "" } else { std::str::from_utf8(data).unwrap() };
    loop {
        let s = if dec { dec_step(k, &data[pos..], is_end) } else { enc_step(k, &text[pos..], is_end) };
        match s {
            Step::Emit { used, out } => {
                f.out.extend_from_slice(out.s());
                pos += used;
                f.cuts.push((pos, f.out.len()));
            }
            s => {
                f.stop = s;
                return;
            }
        }
    }
}

/// Conversion of the whole input, skipping every invalid range.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lossy {
    pub out: Vec<u8>,
    /// (start, end, output position) of skipped ranges.
    pub bad: Vec<(usize, usize, usize)>,
    /// Unconsumed tail start (== len unless NeedMore).
    pub consumed: usize,
}
pub fn lossy(k: Kind, dec: bool, data: &[u8], is_end: bool) -> Lossy {
    let mut l = Lossy::default();
    let text = if dec { "" } else { std::str::from_utf8(data).unwrap() };
    loop {
        let p = l.consumed;
        let s = if dec { dec_step(k, &data[p..], is_end) } else { enc_step(k, &text[p..], is_end) };
        match s {
            Step::Emit { used, out } => {
                l.out.extend_from_slice(out.s());
                l.consumed += used;
            }
            Step::Bad { used, .. } => {
                l.bad.push((p, p + used, l.out.len()));
                l.consumed += used;
            }
            Step::End | Step::NeedMore => return l,
        }
    }
}
