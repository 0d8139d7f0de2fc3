//! Runs the cases it gets and says what came of them.  It is built in many
//! ways, and for other machines under Miri; the cases come from the harness.
//!
//! A case: encoding, flags (1 decode, 2 end of input), offset of the input and
//! of the buffer in their memory, fill byte, buffer length, input length (u32,
//! little-endian), input.  A result: kind (0 Ok, 1 Err, 2 panic, 3 the slice is
//! not in the buffer), cause, 4 numbers (the third: length of the output), output.

#[allow(dead_code)]
#[path = "../../harness/src/encs.rs"]
mod encs;

use encs::ENCS;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn u32_at(b: &[u8]) -> usize {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut all = vec![];
    std::io::stdin().read_to_end(&mut all).unwrap();
    // With a second thread that makes some of the same calls at the same time.
    let pair = std::env::var("TEV_PAIR").is_ok();
    std::thread::scope(|s| {
        if pair {
            s.spawn(|| run(&all, false));
        }
        run(&all, true);
    });
}

fn run(all: &[u8], tell: bool) {
    // Cases per write: what the harness knows after a crash.
    let per = u32_at(all).max(1);
    let mut rest = &all[4..];
    let mut out = Vec::with_capacity(1 << 16);
    let mut n_out = 0;
    while rest.len() >= 13 && (tell || rest.len() * 4 > all.len() * 3 || n_out == 0) {
        let (e, dec, end) = (rest[0] as usize, rest[1] & 1 != 0, rest[1] & 2 != 0);
        let (ioff, ooff) = (rest[2] as usize, rest[3] as usize);
        let fill = rest[4];
        let len = u32_at(&rest[5..9]);
        let n = u32_at(&rest[9..13]);
        let data = &rest[13..13 + n];
        rest = &rest[13 + n..];

        // In memory of their own that ends where they end.
        let mut inp = vec![0x5Au8; ioff + n].into_boxed_slice();
        inp[ioff..].copy_from_slice(data);
        let mut buf = vec![fill; ooff + len].into_boxed_slice();
        let at = buf.as_ptr() as usize + ooff;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (src, dst) = (&inp[ioff..], &mut buf[ooff..]);
            if dec {
                match (ENCS[e].dec)(src, dst, end) {
                    Ok((t, used)) => (0u8, 0u8, t.as_ptr() as usize, [used, 0, t.len(), 0]),
                    Err(x) => {
                        let other = (x.cause != text_encoding::DecodeErrorCause::InvalidData) as u8;
                        (1, 1 + other, at, [x.error_range.0, x.error_range.1, x.output_bytes_written, 0])
                    }
                }
            } else {
                // The harness has made sure of this.
                let text = unsafe { std::str::from_utf8_unchecked(src) };
                match (ENCS[e].enc)(text, dst, end) {
                    Ok((t, used)) => (0, 0, t.as_ptr() as usize, [used, 0, t.len(), 0]),
                    Err(x) => (1, 0, at, [x.error_range.0, x.error_range.1, x.output_bytes_written, x.character as usize]),
                }
            }
        }));
        let (mut kind, mut cause, mut nums) = (2, 0, [0; 4]);
        if let Ok((k, c, p, x)) = r {
            kind = k;
            cause = c;
            nums = x;
            if k == 0 && x[2] > 0 && p != at || x[2] > len {
                kind = 3;
                nums = [0; 4];
            }
        }
        out.push(kind);
        out.push(cause);
        for v in nums {
            out.extend_from_slice(&(v as u32).to_le_bytes());
        }
        out.extend_from_slice(&buf[ooff..ooff + nums[2]]);
        n_out += 1;
        if n_out % per == 0 || rest.len() < 13 {
            if tell && (std::io::stdout().write_all(&out).is_err() || std::io::stdout().flush().is_err()) {
                return;
            }
            out.clear();
        }
    }
}
