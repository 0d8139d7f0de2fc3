//! Oracles for a single call.

use crate::ctx::{Got, Res};
use crate::encs::{self, Kind, ENCS};
use crate::model::{self, Full, Step};

pub fn input_desc(e: usize, dec: bool, data: &[u8], end: bool, len: usize) -> String {
    let d = if dec {
        format!("{:02X?}", &data[..data.len().min(48)])
    } else {
        let t: String = String::from_utf8_lossy(data).chars().take(32).collect();
        format!("{:?}", t)
    };
    format!(
        "{}({}{} [{} bytes], buffer {} bytes, is_end {})",
        if dec { "decode " } else { "encode " }.to_string() + ENCS[e].name,
        d,
        if data.len() > 48 { "..." } else { "" },
        data.len(),
        len,
        end
    )
}

#[cold]
fn fail(e: usize, dec: bool, data: &[u8], end: bool, len: usize, got: &Got, want: String) -> Result<(), String> {
    Err(format!("{} returned {}; expected {}", input_desc(e, dec, data, end, len), got.show(), want))
}

/// C01: what every result must look like, whatever the encoding means.
pub fn structural(e: usize, dec: bool, data: &[u8], end: bool, len: usize, got: &Got) -> Result<(), String> {
    let f = |w: &str| fail(e, dec, data, end, len, got, w.to_string());
    let boundary = |i: usize| dec || i == data.len() || (data[i] & 0xC0) != 0x80;
    match got.res {
        Res::Panic(_) => f("a normal return"),
        Res::Wild(_) => f("a result inside the buffer"),
        Res::Ok { used } => {
            if used > data.len() {
                return f("a consumed count within the input");
            }
            if !boundary(used) {
                return f("a consumed count on a character boundary");
            }
            if got.out.len() > len {
                return f("output within the buffer");
            }
            if dec && std::str::from_utf8(&got.out).is_err() {
                return f("valid UTF-8 output");
            }
            Ok(())
        }
        Res::Err { s, e: x, written, .. } => {
            if s >= x {
                return f("a non-empty error range");
            }
            if x > data.len() {
                return f("an error range inside the input");
            }
            if !boundary(s) || !boundary(x) {
                return f("an error range on character boundaries");
            }
            if written > len {
                return f("output_bytes_written within the buffer");
            }
            if dec && std::str::from_utf8(&got.out).is_err() {
                return f("valid UTF-8 in the written part of the buffer");
            }
            Ok(())
        }
    }
}

fn bad_range_ok(k: Kind, dec: bool, data: &[u8], end: bool, pos: usize, used: usize, x: usize) -> bool {
    if k == Kind::Utf8 && dec {
        if x > data.len() || x < pos + used {
            return false;
        }
        (pos..x).all(|i| {
            model::utf8_wf(&data[i..]).is_none() && (i == pos || end || !model::utf8_viable(&data[i..]))
        })
    } else {
        x == pos + used
    }
}

/// Is `got` the error the model expects at the end of `f`?
fn is_expected_err(e: usize, dec: bool, data: &[u8], end: bool, used: usize, f: &Full, got: &Got) -> bool {
    let pos = f.in_pos();
    match got.res {
        Res::Err { ch, other, s, e: x, written } => {
            let want_ch =
                if dec { None } else { std::str::from_utf8(&data[pos..]).unwrap().chars().next() };
            s == pos
                && bad_range_ok(ENCS[e].kind, dec, data, end, pos, used, x)
                && written == f.out.len()
                && got.out == f.out
                && ch == want_ch
                && !other
        }
        _ => false,
    }
}

fn want_err(f: &Full, used: usize, dec: bool) -> String {
    format!(
        "Err({}range {}..{}, written {}, output {:02X?})",
        if dec { "invalid data, " } else { "that character, " },
        f.in_pos(),
        f.in_pos() + used,
        f.out.len(),
        &f.out[..f.out.len().min(40)]
    )
}

/// The exact result: the longest run of whole characters that fits, then what
/// stopped the conversion.  `f` is the unlimited model conversion for `end`.
pub fn exact(e: usize, dec: bool, data: &[u8], end: bool, len: usize, got: &Got, f: &Full) -> Result<(), String> {
    // Last unit boundary whose output fits.
    let i = match f.cuts.binary_search_by(|c| c.1.cmp(&len)) {
        Ok(i) => i,
        Err(i) => i - 1,
    };
    let (ip, op) = f.cuts[i];
    let is_ok = |got: &Got| got.res == Res::Ok { used: ip } && got.out.len() == op && got.out[..] == f.out[..op];
    let want_ok = || format!("Ok(consumed {}, output {:02X?})", ip, &f.out[op.saturating_sub(40).min(op)..op]);
    if i + 1 < f.cuts.len() {
        return if is_ok(got) { Ok(()) } else { fail(e, dec, data, end, len, got, want_ok()) };
    }
    match f.stop {
        Step::Bad { used, may_wait } => {
            if is_expected_err(e, dec, data, end, used, f, got) {
                return Ok(());
            }
            let free = len - f.out.len();
            let lenient = free == 0 || may_wait || (free < 2 && !dec && e == encs::SJIS);
            if lenient && is_ok(got) {
                return Ok(());
            }
            fail(e, dec, data, end, len, got, want_err(f, used, dec))
        }
        _ => {
            if is_ok(got) {
                Ok(())
            } else {
                fail(e, dec, data, end, len, got, want_ok())
            }
        }
    }
}

/// The mapping only: whatever was converted is the right conversion of what was
/// consumed, an error is reported only for (exactly) invalid data, and with
/// ample space everything convertible is converted.
pub fn conform(e: usize, dec: bool, data: &[u8], end: bool, len: usize, got: &Got, f: &Full) -> Result<(), String> {
    match got.res {
        Res::Ok { used } => {
            let cut = f.cuts.binary_search_by(|c| c.0.cmp(&used));
            let (ip, op) = match cut {
                Ok(i) => f.cuts[i],
                Err(_) => {
                    return fail(e, dec, data, end, len, got, "consumption of whole, convertible characters".into())
                }
            };
            if got.out.len() != op || got.out[..] != f.out[..op] {
                return fail(e, dec, data, end, len, got, format!("output {:02X?} for the consumed input", &f.out[..op.min(64)]));
            }
            if len >= f.out.len() + 4 {
                match f.stop {
                    Step::Bad { used, may_wait } => {
                        if !(may_wait && ip == f.in_pos()) {
                            return fail(e, dec, data, end, len, got, want_err(f, used, dec));
                        }
                    }
                    Step::End => {
                        if ip != data.len() {
                            return fail(e, dec, data, end, len, got, "conversion of all of the input".into());
                        }
                    }
                    _ => {}
                }
            }
            Ok(())
        }
        Res::Err { .. } => match f.stop {
            Step::Bad { used, .. } => {
                if is_expected_err(e, dec, data, end, used, f, got) {
                    Ok(())
                } else {
                    fail(e, dec, data, end, len, got, want_err(f, used, dec))
                }
            }
            _ => fail(e, dec, data, end, len, got, "no error: the input holds no invalid data".into()),
        },
        _ => fail(e, dec, data, end, len, got, "a normal return".into()),
    }
}
