//! Structured generators.  All randomness comes from `Src`.

use crate::encs::{self, Kind, ENCS};
use crate::model::{self, enc_char, refs};
use crate::rng::Src;

/// Scalars where code tends to change its mind.
pub static BOUNDARY: &[u32] = &[
    0x00, 0x01, 0x09, 0x0A, 0x0D, 0x1B, 0x20, 0x24, 0x3F, 0x40, 0x41, 0x5B, 0x5C, 0x5D, 0x60,
    0x7B, 0x7D, 0x7E, 0x7F, 0x80, 0x81, 0x85, 0x9F, 0xA0, 0xA1, 0xA2, 0xA3, 0xA5, 0xA7, 0xAC,
    0xAD, 0xB7, 0xBF, 0xC0, 0xC1, 0xC2, 0xC9, 0xCA, 0xCB, 0xD7, 0xDF, 0xE0, 0xE9, 0xEA, 0xEB,
    0xEC, 0xF7, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x192, 0x2C7, 0x2D9, 0x300, 0x301, 0x302, 0x303,
    0x304, 0x305, 0x30B, 0x30C, 0x30D, 0x30E, 0x31B, 0x323, 0x37E, 0x387, 0x3A9, 0x3BC, 0x3D5,
    0x400, 0x401, 0x44F, 0x451, 0x5BF, 0x5D0, 0x60C, 0x66D, 0x7FE, 0x7FF, 0x800, 0x801, 0xE3F,
    0xFFF, 0x1000, 0x1EF2, 0x200B, 0x200E, 0x2013, 0x2014, 0x2015, 0x2016, 0x201C, 0x2022, 0x2024,
    0x2025, 0x2027, 0x203E, 0x203F, 0x20AC, 0x2122, 0x2126, 0x2206, 0x2211, 0x2212, 0x2213,
    0x2215, 0x2219, 0x221A, 0x2223, 0x2225, 0x2227, 0x2252, 0x2261, 0x22A5, 0x2500, 0x2550,
    0x2551, 0x255E, 0x2561, 0x256A, 0x256D, 0x2574, 0x2581, 0x2588, 0x2593, 0x25CB, 0x2605,
    0x2FFF, 0x3000, 0x3001, 0x3007, 0x3013, 0x301C, 0x3041, 0x3093, 0x30A1, 0x30F6, 0x30FB,
    0x30FC, 0x3105, 0x3231, 0x32A3, 0x3400, 0x3435, 0x4DB5, 0x4DC0, 0x4E00, 0x4E28, 0x4E59,
    0x5140, 0x5341, 0x5345, 0x5344, 0x5F5E, 0x7676, 0x8000, 0x8001, 0x9FA0, 0x9FA5, 0x9FFF,
    0xA000, 0xAC00, 0xD7A3, 0xD7FF, 0xE000, 0xE001, 0xE0BB, 0xE0BC, 0xE757, 0xE758, 0xE7C7,
    0xEEB8, 0xF7EF, 0xF8F0, 0xF8FF, 0xF929, 0xF9DC, 0xFA0C, 0xFA0D, 0xFA0E, 0xFA2D, 0xFE30,
    0xFE31, 0xFE4F, 0xFEFF, 0xFF00, 0xFF01, 0xFF0D, 0xFF0F, 0xFF3C, 0xFF3E, 0xFF5E, 0xFF5F,
    0xFF60, 0xFF61, 0xFF62, 0xFF9E, 0xFF9F, 0xFFA0, 0xFFE0, 0xFFE3, 0xFFE4, 0xFFE5, 0xFFED,
    0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 0x1_00FF, 0x1_03FF, 0x1_0400, 0x1_F600,
    0x1_FFFF, 0x2_0000, 0x2_0021, 0x2_00CA, 0x2_0547, 0x2_7FFF, 0x2_A6D6, 0x2_F800, 0x3_FFFF,
    0x4_0000, 0x7_FFFF, 0x8_0000, 0xF_0000, 0xF_FFFF, 0x10_0000, 0x10_FC00, 0x10_FFFE, 0x10_FFFF,
];

pub fn scalar(v: u32) -> char {
    match char::from_u32(v) {
        Some(c) => c,
        None => '\u{D7FF}',
    }
}

pub fn random_scalar(s: &mut Src) -> char {
    let v = match s.us(5) {
        0 => s.range(0, 0x7F),
        1 => s.range(0x80, 0x7FF),
        2 => s.range(0x800, 0xFFFF),
        3 => s.range(0x1_0000, 0x2_FFFF),
        _ => s.range(0x1_0000, 0x10_FFFF),
    } as u32;
    scalar(v)
}

pub fn pick_enc(s: &mut Src) -> usize {
    const W: [u64; 9] = [10, 9, 9, 6, 6, 20, 20, 3, 24];
    match s.weighted(&W) {
        8 => encs::SB0 + s.us(encs::N - encs::SB0),
        i => i,
    }
}
pub fn pick_sb(s: &mut Src) -> usize {
    encs::ASCII + s.us(encs::N - encs::ASCII)
}

fn pool(e: usize) -> &'static [char] {
    match ENCS[e].kind {
        Kind::Sb(i) => &refs().sb[i].chars,
        Kind::Big5 => &refs().big5.chars,
        Kind::Sjis => &refs().sjis.chars,
        _ => &[],
    }
}

/// A character with a good chance of being interesting for encoding `e`.
pub fn any_char(s: &mut Src, e: usize) -> char {
    let p = pool(e);
    match s.weighted(&[20, 34, 6, 12, 10, 12, 3]) {
        0 => scalar(s.range(0, 0x7F) as u32),
        1 if !p.is_empty() => p[s.us(p.len())],
        2 if !p.is_empty() => {
            let c = p[s.us(p.len())] as u32;
            scalar(if s.chance(1, 2) { c + 1 } else { c - 1 })
        }
        3 => scalar(s.pick(BOUNDARY)),
        4 => special(s, e),
        5 => random_scalar(s),
        6 => {
            let o = encs::BIG5 + s.us(encs::N - encs::BIG5);
            let p = pool(o);
            if p.is_empty() {
                'z'
            } else {
                p[s.us(p.len())]
            }
        }
        _ => random_scalar(s),
    }
}

fn special(s: &mut Src, e: usize) -> char {
    match ENCS[e].kind {
        Kind::Big5 => match s.us(3) {
            0 => s.pick(&['\u{CA}', '\u{EA}', '\u{304}', '\u{30C}', '\u{CA}', '\u{EA}']),
            1 => scalar(s.pick(&model::BIG5_LAST)),
            _ => {
                let d = &refs().big5.dups;
                d[s.us(d.len())]
            }
        },
        Kind::Sjis => match s.us(5) {
            0 => s.pick(&['\u{80}', '\u{A5}', '\u{203E}', '\u{2212}', '\u{FF0D}', '\u{5C}', '\u{7E}']),
            1 => scalar(s.range(0xFF61, 0xFF9F) as u32),
            2 => scalar(s.range(0xE000, 0xE757) as u32),
            3 => scalar(s.pick(&[0xDFFF, 0xE758, 0xFF60, 0xFFA0, 0xE000, 0xE757, 0x81])),
            _ => {
                let d = &refs().sjis.dups;
                d[s.us(d.len())]
            }
        },
        Kind::U16 { .. } | Kind::U32 { .. } | Kind::Utf8 => scalar(s.pick(&[
            0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x1_0000, 0x1_03FF, 0x1_0400,
            0x10_FC00, 0x10_FFFF, 0xFEFF, 0xFFFE,
        ])),
        _ => scalar(s.range(0x80, 0xFF) as u32),
    }
}

/// Length classes, in units.
pub fn length(s: &mut Src) -> usize {
    match s.weighted(&[8, 14, 30, 24, 12, 6]) {
        0 => s.us(3),
        1 => s.range(1, 4) as usize,
        2 => s.range(3, 16) as usize,
        3 => s.range(10, 48) as usize,
        4 => s.range(30, 140) as usize,
        _ => {
            let b = s.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300]);
            b + s.us(4) - 1
        }
    }
}

fn push(out: &mut Vec<u8>, c: char) {
    let mut b = [0; 4];
    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
}

/// Chance (of 256) that a unit may be unrepresentable / malformed.
fn bad_profile(s: &mut Src) -> u64 {
    s.pick(&[0, 0, 0, 4, 16, 64, 160])
}

fn ascii_run(s: &mut Src, out: &mut Vec<u8>) {
    let n = match s.us(4) {
        0 => s.us(4),
        1 => s.us(12),
        2 => s.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33]),
        _ => s.us(40),
    };
    let fixed = s.chance(1, 2);
    for _ in 0..n {
        out.push(if fixed { b'a' } else { s.range(0, 0x7F) as u8 });
    }
}

/// Text aimed at encoding `e`; `only_good` excludes unrepresentable characters.
pub fn text(s: &mut Src, e: usize, only_good: bool, units: usize, out: &mut Vec<u8>) {
    let k = ENCS[e].kind;
    let bad = if only_good { 0 } else { bad_profile(s) };
    let runs = s.pick(&[0u64, 0, 24, 80]);
    let uniform = s.chance(1, 4); // text out of few distinct characters
    let ascii = s.chance(1, 10); // ASCII with little else
    let mut set = ['x'; 3];
    let one = |s: &mut Src| -> char {
        let allow = s.chance(bad, 256);
        for _ in 0..6 {
            let c = any_char(s, e);
            if allow || enc_char(k, c).is_some() {
                return c;
            }
        }
        'q'
    };
    if uniform {
        for x in set.iter_mut() {
            *x = one(s);
        }
    }
    let mut i = 0;
    while i < units {
        if ascii && s.chance(31, 32) {
            out.push(s.range(0, 0x7F) as u8);
            i += 1;
            continue;
        }
        if runs > 0 && s.chance(runs, 1024) {
            let before = out.len();
            ascii_run(s, out);
            i += out.len() - before;
            continue;
        }
        if uniform {
            let c = set[s.us(3)];
            push(out, c);
            i += 1;
            continue;
        }
        if k == Kind::Big5 && s.chance(1, 10) {
            let a = s.pick(&['\u{CA}', '\u{EA}']);
            push(out, a);
            i += 1;
            let n = s.us(3);
            for _ in 0..n {
                let c = s.pick(&['\u{304}', '\u{30C}', '\u{CA}', '\u{EA}', '\u{30D}', '\u{305}']);
                if bad > 0 || c != '\u{30D}' && c != '\u{305}' && out.ends_with(&[0xC3, 0x8A])
                    || matches!(c, '\u{CA}' | '\u{EA}')
                {
                    push(out, c);
                    i += 1;
                }
            }
            continue;
        }
        let c = one(s);
        push(out, c);
        i += 1;
    }
    if only_good && k == Kind::Big5 {
        // Combining characters are representable only directly after their base.
        let p = model::with_full(k, false, out, true, |f| f.in_pos());
        out.truncate(p);
    }
}

/// A malformed or borderline byte token for decoding `e`.
pub fn bad_token(s: &mut Src, e: usize, out: &mut Vec<u8>) {
    let rb = |s: &mut Src| s.range(0, 255) as u8;
    match ENCS[e].kind {
        Kind::Utf8 => {
            let lead = s.pick(&[
                0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4,
                0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x80, 0xBF,
            ]);
            let cont =
                |s: &mut Src| s.pick(&[0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0x80, 0xBF, 0xC0, 0x7F, 0xF8, 0xFF, 0xF7, 0x41]);
            let n = s.us(4);
            out.push(lead);
            for _ in 0..n {
                let b = cont(s);
                out.push(b);
            }
        }
        Kind::U16 { be } => {
            let unit = |s: &mut Src| -> u16 {
                match s.us(5) {
                    0 | 1 => s.range(0xD800, 0xDBFF) as u16,
                    2 | 3 => s.range(0xDC00, 0xDFFF) as u16,
                    _ => s.pick(&[0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x0041, 0xFEFF, 0xFFFE]),
                }
            };
            let n = 1 + s.us(3);
            for _ in 0..n {
                let u = unit(s);
                out.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
            }
            if s.chance(1, 6) {
                out.pop();
            }
        }
        Kind::U32 { be } => {
            let v = match s.us(6) {
                0 => s.range(0xD800, 0xDFFF) as u32,
                1 => s.range(0x11_0000, 0x11_FFFF) as u32,
                2 => s.u64() as u32,
                3 => s.pick(&[0xD800, 0xDFFF, 0x11_0000, 0xFFFF_FFFF, 0x8000_0041, 0x0100_0041, 0x4100_0000, 0x0041_0000]),
                4 => any_char(s, e) as u32 | 1 << s.range(21, 31),
                _ => any_char(s, e) as u32,
            };
            out.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
            if s.chance(1, 6) {
                let n = s.range(1, 3) as usize;
                out.truncate(out.len() - n);
            }
        }
        Kind::Big5 => {
            let lead = match s.us(4) {
                0 => s.pick(&[0x80, 0xFF, 0x81, 0xFE, 0x87, 0x88, 0xC6, 0xC8, 0xF9, 0xA0, 0xA1]),
                _ => s.range(0x80, 0xFF) as u8,
            };
            out.push(lead);
            if s.chance(7, 8) {
                let t = match s.us(3) {
                    0 => s.pick(&[0x00, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0xA0, 0xA1, 0xFE, 0xFF, 0x62, 0x64, 0xA3, 0xA5]),
                    _ => rb(s),
                };
                out.push(t);
            }
        }
        Kind::Sjis => {
            let lead = match s.us(4) {
                0 => s.pick(&[0x80, 0xA0, 0xFD, 0xFE, 0xFF, 0x81, 0x9F, 0xE0, 0xFC, 0xEF, 0xF0, 0xF9, 0xFA, 0xED]),
                _ => s.range(0x80, 0xFF) as u8,
            };
            out.push(lead);
            if s.chance(7, 8) {
                let t = match s.us(3) {
                    0 => s.pick(&[0x00, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0xFC, 0xFD, 0xFF, 0xA0, 0x9E, 0x9F]),
                    _ => rb(s),
                };
                out.push(t);
            }
        }
        Kind::Ascii => out.push(s.range(0x80, 0xFF) as u8),
        Kind::Sb(i) => {
            let u = &refs().sb[i].undefined;
            if u.is_empty() {
                out.push(rb(s));
            } else {
                out.push(u[s.us(u.len())]);
            }
        }
    }
}

/// A well-formed token.
pub fn good_token(s: &mut Src, e: usize, out: &mut Vec<u8>) {
    let k = ENCS[e].kind;
    match k {
        Kind::Big5 if s.chance(1, 2) => {
            if s.chance(1, 12) {
                let g = s.pick(&model::GRAPHEMES);
                let b = model::big5_bytes(g.0);
                out.extend_from_slice(&[b.0, b.1]);
                return;
            }
            let p = &refs().big5.ptrs;
            let b = model::big5_bytes(p[s.us(p.len())]);
            out.extend_from_slice(&[b.0, b.1]);
        }
        Kind::Sjis if s.chance(1, 2) => {
            let p = &refs().sjis.ptrs;
            let p = if s.chance(1, 8) { s.range(8836, 10715) as u32 } else { p[s.us(p.len())] };
            let b = model::sjis_bytes(p);
            out.extend_from_slice(&[b.0, b.1]);
        }
        Kind::Sb(i) if s.chance(1, 2) => {
            let b = s.range(0x80, 0xFF) as u8;
            if refs().sb[i].dec[b as usize - 128].is_some() {
                out.push(b);
            } else {
                out.push(b'u');
            }
        }
        _ => {
            for _ in 0..6 {
                let c = any_char(s, e);
                if let Some(x) = enc_char(k, c) {
                    out.extend_from_slice(x.s());
                    return;
                }
            }
            let x = enc_char(k, 'w').unwrap();
            out.extend_from_slice(x.s());
        }
    }
}

/// Bytes aimed at decoding `e`; `only_good` gives well-formed data.
pub fn bytes(s: &mut Src, e: usize, only_good: bool, units: usize, out: &mut Vec<u8>) {
    let bad = if only_good { 0 } else { bad_profile(s) };
    let runs = s.pick(&[0u64, 0, 24, 80]);
    let ascii = s.chance(1, 10);
    let ascii_compat = !matches!(ENCS[e].kind, Kind::U16 { .. } | Kind::U32 { .. });
    let mut i = 0;
    while i < units {
        if ascii && s.chance(31, 32) {
            let x = enc_char(ENCS[e].kind, scalar(s.range(0, 0x7F) as u32)).unwrap();
            out.extend_from_slice(x.s());
            i += 1;
            continue;
        }
        if runs > 0 && s.chance(runs, 1024) {
            let before = out.len();
            if ascii_compat {
                ascii_run(s, out);
                i += out.len() - before;
            } else {
                let n = s.us(20);
                for _ in 0..n {
                    let x = enc_char(ENCS[e].kind, 'a').unwrap();
                    out.extend_from_slice(x.s());
                }
                i += n;
            }
            continue;
        }
        if bad > 0 && s.chance(bad, 256) {
            match s.us(4) {
                0 => out.push(s.range(0, 255) as u8),
                1 => {
                    // Any prefix of a well-formed token.
                    let at = out.len();
                    good_token(s, e, out);
                    let n = out.len() - at;
                    out.truncate(at + s.us(n + 1));
                }
                _ => bad_token(s, e, out),
            }
        } else {
            good_token(s, e, out);
        }
        i += 1;
    }
    if !only_good {
        // Truncation at the end is its own interesting class.
        if s.chance(1, 4) && !out.is_empty() {
            let n = s.us(out.len().min(4) + 1);
            out.truncate(out.len() - n);
        }
        if bad > 0 && s.chance(1, 12) && !out.is_empty() {
            let i = s.us(out.len());
            match s.us(3) {
                0 => out[i] = s.range(0, 255) as u8,
                1 => {
                    out.remove(i);
                }
                _ => out.insert(i, s.range(0, 255) as u8),
            }
        }
    }
}

/// Input data for one direction.
pub fn data(s: &mut Src, e: usize, dec: bool, only_good: bool, out: &mut Vec<u8>) {
    let n = length(s);
    if dec {
        bytes(s, e, only_good, n, out)
    } else {
        text(s, e, only_good, n, out)
    }
}

/// A large input: sizes around and beyond 2^16.
pub fn data_large(s: &mut Src, e: usize, dec: bool, out: &mut Vec<u8>) {
    let target = match s.us(5) {
        0 => s.range(65_500, 65_600),
        1 => s.range(131_000, 131_200),
        2 => s.range(4_000, 4_200),
        3 => s.range(32_700, 32_800),
        _ => s.range(8_000, 180_000),
    } as usize;
    // A random block, repeated, with random material around the target size.
    let mut block = Vec::new();
    let n = 1 + s.us(60);
    if dec {
        bytes(s, e, true, n, &mut block)
    } else {
        text(s, e, true, n, &mut block)
    }
    if block.is_empty() {
        block.extend_from_slice(if dec { &[0; 4] } else { b"abcd" });
    }
    while out.len() + block.len() <= target {
        out.extend_from_slice(&block);
    }
    let m = s.us(12);
    let good = s.chance(1, 2);
    if dec {
        bytes(s, e, good, m, out)
    } else {
        text(s, e, good, m, out)
    }
}

/// Something notable (mostly an invalid unit) after a long stretch of valid
/// material, often near a multiple of a power of two.
pub fn data_deep(s: &mut Src, e: usize, dec: bool, out: &mut Vec<u8>) {
    let target = match s.us(4) {
        0 => s.range(100, 5_000),
        1 => s.range(5_000, 70_000),
        _ => (s.range(1, 3) << s.range(8, 15)) + s.range(0, 12) - 10,
    } as usize;
    let mut block = Vec::new();
    let unit = |s: &mut Src, out: &mut Vec<u8>| {
        if dec {
            good_token(s, e, out)
        } else {
            text(s, e, true, 1, out)
        }
    };
    match s.us(4) {
        // One unit, or ASCII, after an odd start.
        0 => unit(s, &mut block),
        1 => {}
        _ => {
            for _ in 0..s.range(2, 30) {
                unit(s, &mut block)
            }
        }
    }
    if block.is_empty() {
        let k = model::enc_char(ENCS[e].kind, 'k').unwrap();
        block.extend_from_slice(if dec { k.s() } else { b"k" });
    }
    for _ in 0..s.us(3) {
        unit(s, out);
    }
    while out.len() < target {
        out.extend_from_slice(&block);
    }
    for _ in 0..1 + s.us(3) {
        if s.chance(1, 4) {
            unit(s, out);
        } else if dec {
            bad_token(s, e, out);
        } else {
            let c = if s.chance(1, 2) { any_char(s, e) } else { random_scalar(s) };
            push(out, c);
        }
    }
    for _ in 0..s.us(3) {
        unit(s, out);
    }
}

/// A buffer length that matters for a conversion with these output cuts.
pub fn buf_len(s: &mut Src, f: &model::Full) -> usize {
    let total = f.out.len();
    match s.weighted(&[16, 18, 30, 12, 24]) {
        0 => total + 8 + s.us(16),
        1 => (total + s.us(6)).saturating_sub(s.us(5)),
        2 => {
            let c = f.cuts[s.us(f.cuts.len())].1;
            (c + s.us(5)).saturating_sub(s.us(3))
        }
        3 => s.us(7),
        _ => s.us(total + 5),
    }
}
