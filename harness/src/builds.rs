//! The same cases in other builds of the crate, and in Miri, which interprets it
//! as a given machine would run it and notices undefined behaviour (C29, C30).
//! The program that runs them is /verif/portable.

use crate::run::{env_seed, verif_dir, write_replay, SubReport};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use tev::case::{shrink, Case};
use tev::ctx::{Ctx, Got, Res};
use tev::encs::{self, ENCS};
use tev::gen;
use tev::model;
use tev::rng::{hash_bytes, mix, Src};

#[derive(Clone, Copy, PartialEq)]
enum How {
    /// A profile of /verif/portable.
    Native(&'static str),
    /// A target, whether it is an unoptimised build, flags.
    Miri(&'static str, bool, &'static str),
}
#[derive(Clone, Copy)]
struct Build {
    name: &'static str,
    what: &'static str,
    how: How,
}
const PLAIN: Build = Build { name: "build-plain", what: "unoptimised, with debug assertions and overflow checks", how: How::Native("plain") };
const FAST: Build = Build { name: "build-fast", what: "optimised across crates (opt-level 3, LTO), without checks", how: How::Native("fast") };
const SMALL: Build = Build { name: "build-small", what: "optimised for size, without checks", how: How::Native("small") };
const CPU: Build = Build {
    name: "build-native",
    what: "optimised, with all features of this processor enabled",
    how: How::Native("native"),
};
const BE: Build = Build {
    name: "miri-s390x",
    what: "64-bit big-endian machine (Miri), without debug assertions",
    how: How::Miri("s390x-unknown-linux-gnu", false, "-Zmiri-disable-stacked-borrows"),
};
const W32: Build = Build {
    name: "miri-i686",
    what: "32-bit machine (Miri), with debug assertions and overflow checks",
    how: How::Miri("i686-unknown-linux-gnu", true, "-Zmiri-disable-stacked-borrows"),
};
const UB: Build = Build {
    name: "miri-x86_64",
    what: "Miri: out-of-bounds access, uninitialised and invalid values, aliasing (tree borrows), races between two threads making the same calls",
    how: How::Miri("x86_64-unknown-linux-gnu", false, "-Zmiri-tree-borrows"),
};
const ALL: [Build; 7] = [PLAIN, FAST, SMALL, CPU, BE, W32, UB];

/// Which builds, with how many parallel processes each.
fn builds(id: &str) -> &'static [(Build, u64)] {
    match id {
        "C29" => &[(PLAIN, 8), (FAST, 8), (SMALL, 8), (CPU, 8), (BE, 4), (W32, 4)],
        "C30" => &[(UB, 8)],
        _ => &[],
    }
}
pub fn handles(id: &str) -> bool {
    !builds(id).is_empty()
}
pub fn is_sub(sub: &str) -> bool {
    ALL.iter().any(|b| b.name == sub)
}

#[derive(PartialEq, Clone, Debug)]
struct Rec {
    kind: u8,
    cause: u8,
    nums: [u32; 4],
    out: Vec<u8>,
}
impl Rec {
    fn show(&self) -> String {
        let n = self.nums;
        match self.kind {
            0 => format!("Ok(consumed {}, output {:02X?})", n[0], &self.out[..self.out.len().min(40)]),
            1 => format!(
                "Err({}range {}..{}, written {}, output {:02X?})",
                ["", "invalid data, ", "unknown conversion, "][self.cause as usize % 3],
                n[0],
                n[1],
                n[2],
                &self.out[..self.out.len().min(40)]
            ),
            2 => "panic".into(),
            _ => "a result that is not in the buffer".into(),
        }
    }
}
fn own(c: &Case, x: &mut Ctx) -> Rec {
    let g: Got = x.t.call(c.enc, c.dec, &c.data, c.end, c.p(0), c.fill);
    let n = g.out.len() as u32;
    match g.res {
        Res::Ok { used } => Rec { kind: 0, cause: 0, nums: [used as u32, 0, n, 0], out: g.out },
        Res::Err { ch, other, s, e, written } => Rec {
            kind: 1,
            cause: c.dec as u8 + other as u8,
            nums: [s as u32, e as u32, written as u32, ch.map(|c| c as u32).unwrap_or(0)],
            out: g.out,
        },
        Res::Panic(_) => Rec { kind: 2, cause: 0, nums: [0; 4], out: vec![] },
        Res::Wild(_) => Rec { kind: 3, cause: 0, nums: [0; 4], out: vec![] },
    }
}

/// plan = [buffer length, offset of the input, offset of the buffer]
fn put(c: &Case, v: &mut Vec<u8>) {
    v.extend_from_slice(&[c.enc as u8, c.dec as u8 | (c.end as u8) << 1, c.p(1).min(64) as u8, c.p(2).min(64) as u8, c.fill]);
    v.extend_from_slice(&(c.p(0) as u32).to_le_bytes());
    v.extend_from_slice(&(c.data.len() as u32).to_le_bytes());
    v.extend_from_slice(&c.data);
}

fn portable() -> String {
    format!("{}/portable", verif_dir())
}
fn nightly() -> Command {
    let mut k = Command::new("cargo");
    k.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("MIRI_SYSROOT", format!("{}/work/miri-sysroot", verif_dir()))
        .current_dir(portable());
    k
}
fn target_dir(b: &Build) -> String {
    match b.how {
        How::Native("native") => format!("{}/target-native", portable()),
        How::Native(_) => format!("{}/target", portable()),
        // One each: builds in one directory wait for each other.
        How::Miri(t, ..) => format!("{}/target-{}", portable(), t),
    }
}
fn command(b: &Build) -> Command {
    match b.how {
        How::Native(p) => Command::new(format!("{}/{}/portable", target_dir(b), p)),
        How::Miri(t, plain, flags) => {
            let mut k = nightly();
            k.args(["miri", "run", "-q", "--offline", "--target", t, "--target-dir", &target_dir(b)])
                .env("MIRIFLAGS", format!("-Zmiri-disable-isolation {}", flags));
            if !plain {
                k.arg("--release");
            }
            if b.name == UB.name {
                k.env("TEV_PAIR", "1");
            }
            k
        }
    }
}

enum Ready {
    Yes,
    /// Not the fault of the code under test.
    No(String),
    Broken(String),
}
/// Builds it.
fn prepare(b: &Build) -> Ready {
    let text = |o: &std::process::Output| {
        let s = String::from_utf8_lossy(&o.stderr).to_string();
        s.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n")
    };
    match b.how {
        How::Native(p) => {
            let o = Command::new("cargo")
                .env("RUSTFLAGS", if p == "native" { "-Ctarget-cpu=native" } else { "" })
                .args(["build", "--offline", "-q", "--profile", p, "--target-dir", &target_dir(b)])
                .current_dir(portable())
                .output();
            match o {
                Ok(o) if o.status.success() => Ready::Yes,
                Ok(o) => Ready::Broken(text(&o)),
                Err(e) => Ready::No(e.to_string()),
            }
        }
        How::Miri(t, ..) => {
            match nightly().args(["miri", "setup", "-q", "--target", t]).output() {
                Ok(o) if o.status.success() => {}
                Ok(o) => return Ready::No(text(&o)),
                Err(e) => return Ready::No(e.to_string()),
            }
            // No cases: only builds.
            match batch(b, &[], 1, Duration::from_secs(400)) {
                (_, None) => Ready::Yes,
                (_, Some(e)) => Ready::No(e),
            }
        }
    }
}

/// The results, and how it ended if not well.
fn batch(b: &Build, cases: &[Case], per: u32, limit: Duration) -> (Vec<Rec>, Option<String>) {
    let mut v = per.to_le_bytes().to_vec();
    for c in cases {
        put(c, &mut v);
    }
    let mut ch = match command(b).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return (vec![], Some(e.to_string())),
    };
    let (mut i, mut o, mut e) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let t0 = Instant::now();
    let (out, err, status, late) = std::thread::scope(|s| {
        s.spawn(move || i.write_all(&v));
        let o = s.spawn(move || {
            let mut b = vec![];
            let _ = o.read_to_end(&mut b);
            b
        });
        let e = s.spawn(move || {
            let mut b = vec![];
            let _ = e.read_to_end(&mut b);
            b
        });
        let mut late = false;
        let status = loop {
            match ch.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed() > limit => {
                    late = true;
                    kill_group(&mut ch);
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(5)),
                Err(_) => break None,
            }
        };
        (o.join().unwrap_or_default(), e.join().unwrap_or_default(), status, late)
    });
    let mut recs = vec![];
    let mut at = &out[..];
    while at.len() >= 18 {
        let w = |i: usize| u32::from_le_bytes([at[i], at[i + 1], at[i + 2], at[i + 3]]);
        let nums = [w(2), w(6), w(10), w(14)];
        let n = 18 + nums[2] as usize;
        if at.len() < n {
            break;
        }
        recs.push(Rec { kind: at[0], cause: at[1], nums, out: at[18..n].to_vec() });
        at = &at[n..];
    }
    if late {
        return (recs, Some(LATE.into()));
    }
    let ok = status.map(|s| s.success()).unwrap_or(false);
    if ok && recs.len() == cases.len() {
        return (recs, None);
    }
    let err = String::from_utf8_lossy(&err).to_string();
    let line = err.lines().find(|l| l.starts_with("error")).or(err.lines().last()).unwrap_or("").to_string();
    (recs, Some(format!("{} ({})", line, status.map(|s| s.to_string()).unwrap_or_default())))
}
const LATE: &str = "not finished in time";
fn kill_group(ch: &mut std::process::Child) {
    // cargo passes the end of its input and output on.
    let _ = ch.kill();
    let _ = ch.wait();
}

/// What is wrong with the case in this build.
fn judge(b: &Build, want: &Rec, got: Option<&Rec>, end: &Option<String>) -> Result<(), String> {
    let show = |m: String| Err(format!("{} [{}]: {}", b.name, b.what, m));
    match (got, end) {
        // Only undefined behaviour counts there.
        (Some(g), _) if g == want || b.name == UB.name => Ok(()),
        (Some(g), _) => show(format!("{} instead of {}", g.show(), want.show())),
        (None, Some(e)) if convicts(b, e) => show(e.clone()),
        _ => Ok(()),
    }
}
/// The end of the process is the code's fault.
fn convicts(b: &Build, e: &str) -> bool {
    match b.how {
        How::Native(_) => e != LATE,
        How::Miri(..) => e.contains("Undefined Behavior") || e.contains("abnormal termination"),
    }
}

/// Finds the case: the first one whose result is wrong, or the one that ended
/// the process.
fn find(b: &Build, cases: &[Case], want: &[Rec], limit: Duration, cut: &AtomicU64) -> Option<(Case, String)> {
    let per = if matches!(b.how, How::Native(_)) { 1 << 20 } else { 32 };
    let (recs, end) = batch(b, cases, per, limit);
    for (i, r) in recs.iter().enumerate() {
        if let Err(m) = judge(b, &want[i], Some(r), &None) {
            return Some((cases[i].clone(), m));
        }
    }
    let e = end?;
    if !convicts(b, &e) {
        cut.fetch_add((cases.len() - recs.len()) as u64, Relaxed);
        eprintln!("tev: {}: {}", b.name, e);
        return None;
    }
    // One of the following; a native build wrote nothing.
    let mut rest: &[Case] = &cases[recs.len()..];
    let mut rest_want: &[Rec] = &want[recs.len()..];
    if let How::Miri(..) = b.how {
        let n = rest.len().min(per as usize);
        rest = &rest[..n];
        rest_want = &rest_want[..n];
    }
    while rest.len() > 1 {
        let h = rest.len() / 2;
        let (r, end) = batch(b, &rest[..h], per, limit);
        if r.len() < h || end.is_some() {
            rest = &rest[..h];
            rest_want = &rest_want[..h];
        } else {
            rest = &rest[h..];
            rest_want = &rest_want[h..];
        }
    }
    let (r, end) = batch(b, rest, 1, limit);
    let m = match judge(b, rest_want.first()?, r.first(), &end) {
        Err(m) => m,
        // Only together with the cases before it.
        Ok(()) => format!("{} [{}]: {} (with other cases before it)", b.name, b.what, e),
    };
    Some((rest[0].clone(), m))
}

fn make(s: &mut Src, short: bool, i: u64, c: &mut Case) {
    c.reset();
    // Every encoding in both directions in turn.
    c.enc = (i % encs::N as u64) as usize;
    c.dec = i / encs::N as u64 % 2 == 1;
    c.end = !s.chance(1, 3);
    c.fill = s.pick(&[0xA5, 0x00, 0xFF, 0x80, 0x41]);
    if short {
        let n = match s.us(6) {
            _ if s.chance(1, 40) => s.range(24, 200),
            0 => s.range(0, 3),
            1..=3 => s.range(1, 8),
            _ => s.range(4, 24),
        } as usize;
        if c.dec {
            gen::bytes(s, c.enc, false, n, &mut c.data)
        } else {
            gen::text(s, c.enc, false, n, &mut c.data)
        }
    } else if s.chance(1, 3000) {
        if s.chance(1, 2) {
            gen::data_deep(s, c.enc, c.dec, &mut c.data)
        } else {
            gen::data_large(s, c.enc, c.dec, &mut c.data)
        }
    } else {
        gen::data(s, c.enc, c.dec, false, &mut c.data)
    }
    let n = model::with_full(ENCS[c.enc].kind, c.dec, &c.data, c.end, |f| gen::buf_len(s, f));
    c.plan = vec![n as u32, s.us(9) as u32, s.us(9) as u32];
}

const PAIRS: u64 = 65536 * encs::N as u64;
/// Characters of the two large encodings, and of the others.
const WIDE: u64 = 2 * 0x30000;
const LOW: u64 = encs::N as u64 * 0x3400;
const LISTED: u64 = PAIRS + WIDE + LOW;
/// The enumerated cases: every pair of bytes, characters one by one.
fn listed(i: u64, c: &mut Case) {
    c.reset();
    c.end = true;
    c.fill = 0xA5;
    c.dec = i < PAIRS;
    if c.dec {
        c.enc = (i >> 16) as usize;
        c.data = vec![(i >> 8) as u8, i as u8];
    } else {
        let (e, ch) = match i - PAIRS {
            k if k < WIDE => (encs::BIG5 as u64 + k % 2, k / 2),
            k => ((k - WIDE) % encs::N as u64, (k - WIDE) / encs::N as u64),
        };
        c.enc = e as usize;
        let ch = char::from_u32(ch as u32).unwrap_or('\u{FFFD}');
        c.data = ch.to_string().into_bytes();
    }
    c.plan = vec![8, i as u32 % 3, i as u32 / 3 % 3];
}

/// One case in one build.
fn alone(b: &Build, c: &Case, x: &mut Ctx) -> Result<(), String> {
    let want = own(c, x);
    let (r, end) = batch(b, std::slice::from_ref(c), 1, Duration::from_secs(100));
    judge(b, &want, r.first(), &end)
}

pub fn run(id: &str, thorough: bool, reports: &mut Vec<SubReport>, samples: &mut Vec<String>) -> i32 {
    let only = std::env::var("TEV_SUB").ok();
    let list: Vec<&(Build, u64)> = builds(id).iter().filter(|b| only.as_deref().map(|o| o == b.0.name).unwrap_or(true)).collect();
    // Natives one after another in one directory, the others meanwhile.
    let ready: Vec<Ready> = std::thread::scope(|s| {
        let h: Vec<_> = list.iter().map(|b| s.spawn(|| prepare(&b.0))).collect();
        h.into_iter().map(|h| h.join().unwrap_or(Ready::No("harness error".into()))).collect()
    });
    for (b, r) in list.iter().zip(&ready) {
        match r {
            Ready::Broken(m) => {
                eprintln!("{}", m);
                eprintln!("tev: {}: does not build", b.0.name);
                return 2;
            }
            Ready::No(m) => eprintln!("tev: {} is left out: {}", b.0.name, m),
            Ready::Yes => {}
        }
    }
    // The native ones in turn, then those in Miri side by side.
    let mut groups: Vec<Vec<(Build, u64)>> = vec![];
    let mut last = vec![];
    for (b, r) in list.iter().zip(&ready) {
        match (r, b.0.how) {
            (Ready::Yes, How::Native(_)) => groups.push(vec![**b]),
            (Ready::Yes, _) => last.push(**b),
            _ => {}
        }
    }
    groups.push(last);
    for g in groups {
        let found: Mutex<Option<(u64, Build, Case, String)>> = Mutex::new(None);
        let t0 = Instant::now();
        struct Tally {
            n: AtomicU64,
            cut: AtomicU64,
            errors: AtomicU64,
            seen: Mutex<Vec<u64>>,
        }
        let tallies: Vec<Tally> = g
            .iter()
            .map(|_| Tally { n: AtomicU64::new(0), cut: AtomicU64::new(0), errors: AtomicU64::new(0), seen: Mutex::new(vec![]) })
            .collect();
        let stop = AtomicBool::new(false);
        let shown: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for (k, (b, procs)) in g.iter().enumerate() {
                for p in 0..*procs {
                    let (t, found, stop, shown) = (&tallies[k], &found, &stop, &shown);
                    s.spawn(move || {
                        let native = matches!(b.how, How::Native(_));
                        // (batches, cases in each)
                        let (rounds, size) = match (native, thorough) {
                            (true, false) => (20, 12_000),
                            (true, true) => (200, 12_000),
                            (false, false) => (1, 3_200),
                            (false, true) => (10, 16_000),
                        };
                        let mut x = Ctx::new();
                        let first = if native { LISTED.div_ceil(size as u64 * procs) } else { 0 };
                        for r in 0..first + rounds {
                            if stop.load(Relaxed) {
                                break;
                            }
                            let mut s = Src::seeded(mix(env_seed() ^ hash_bytes(b.name.as_bytes(), mix(p << 32 | r))));
                            let mut cases = Vec::with_capacity(size);
                            let mut want = Vec::with_capacity(size);
                            for i in 0..size as u64 {
                                let mut c = Case::default();
                                if r < first {
                                    listed(((r * procs + p) * size as u64 + i) % LISTED, &mut c);
                                } else {
                                    make(&mut s, !native, i, &mut c);
                                }
                                let w = own(&c, &mut x);
                                t.errors.fetch_add((w.kind == 1) as u64, Relaxed);
                                want.push(w);
                                cases.push(c);
                            }
                            let limit = Duration::from_secs(if thorough { 3000 } else { 300 });
                            let f = find(b, &cases, &want, limit, &t.cut);
                            t.n.fetch_add(size as u64, Relaxed);
                            t.seen.lock().unwrap().extend(cases.iter().filter(|c| !c.data.is_empty() && c.p(0) > 0).map(|c| c.hash()));
                            if p == 0 && r == 0 {
                                shown.lock().unwrap().extend(cases.iter().skip(80).step_by(997).take(4).map(|c| format!("{}: {}", b.name, c.render())));
                            }
                            if let Some((c, m)) = f {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map(|g| g.0 > p).unwrap_or(true) {
                                    *g = Some((p, *b, c, m));
                                }
                                stop.store(true, Relaxed);
                            }
                        }
                    });
                }
            }
        });
        samples.extend(shown.into_inner().unwrap());
        for (t, (b, _)) in tallies.into_iter().zip(&g) {
            let mut seen = t.seen.into_inner().unwrap();
            seen.sort_unstable();
            seen.dedup();
            let (n, cut) = (t.n.into_inner(), t.cut.into_inner());
            let secs = t0.elapsed().as_secs_f64();
            println!("{} {}: {} cases, {} distinct non-trivial, {:.1} s", id, b.name, n - cut, seen.len(), secs);
            reports.push(SubReport {
                name: b.name.into(),
                what: b.what.into(),
                evals: n - cut,
                nontrivial: seen.len() as u64,
                calls: n - cut,
                complete: false,
                labels: [("errors reported", t.errors.into_inner()), ("not finished", cut)].iter().filter(|l| l.1 > 0).map(|l| (l.0.to_string(), l.1)).collect(),
                secs,
            });
        }
        if let Some((_, b, c, m)) = found.into_inner().unwrap() {
            let mut x = Ctx::new();
            let t0 = Instant::now();
            let mut fails = |c: &Case| t0.elapsed().as_secs() < 100 && alone(&b, c, &mut x).is_err();
            let small = if fails(&c) { shrink(&c, 2000, &mut fails) } else { c };
            let msg = alone(&b, &small, &mut x).err().unwrap_or(m);
            let path = write_replay(id, b.name, &small, &msg);
            println!("{} {}: {}", id, small.render(), msg);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
    }
    0
}

pub fn replay(path: &str, id: &str, sub: &str, c: &Case) -> i32 {
    let b = match ALL.iter().find(|b| b.name == sub) {
        Some(b) => b,
        None => return 2,
    };
    if let Ready::No(m) | Ready::Broken(m) = prepare(b) {
        eprintln!("{}", m);
        return 2;
    }
    println!("{} {}: {}", id, sub, c.render());
    match alone(b, c, &mut Ctx::new()) {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
