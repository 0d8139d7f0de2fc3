//! The runner: fixed, seeded work split over 8 logical shards; shrinking;
//! replay files; evidence.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;
use tev::case::{shrink, Case};
use tev::ctx::{Ctx, CURRENT};
use tev::props::{props, Prop, Source, Sub};
use tev::rng::{hash_bytes, mix, Src};

pub const SHARDS: u64 = 8;

pub fn verif_dir() -> String {
    std::env::var("TEV_DIR").unwrap_or_else(|_| "/verif".into())
}

pub struct Fail {
    pub shard: u64,
    pub case: Case,
    pub msg: String,
}

#[derive(Default)]
struct ShardOut {
    evals: u64,
    nontrivial: u64,
    calls: u64,
    seen: Vec<u64>,
    labels: Vec<(&'static str, u64)>,
    samples: Vec<String>,
    fail: Option<Fail>,
    len_hist: [u64; 8],
}

fn len_bucket(n: usize) -> usize {
    match n {
        0 => 0,
        1..=2 => 1,
        3..=8 => 2,
        9..=32 => 3,
        33..=128 => 4,
        129..=512 => 5,
        513..=8191 => 6,
        _ => 7,
    }
}
const LEN_NAMES: [&str; 8] = ["0", "1-2", "3-8", "9-32", "33-128", "129-512", "513-8191", "8192+"];

pub fn one(sub: &Sub, c: &Case, x: &mut Ctx) -> Result<(), String> {
    CURRENT.with(|p| p.set(c as *const Case));
    let r = (sub.check)(c, x);
    CURRENT.with(|p| p.set(std::ptr::null()));
    r
}

fn run_shard(prop: &Prop, sub: &Sub, shard: u64, seed: u64, thorough: bool, stop: &AtomicUsize) -> ShardOut {
    let mut o = ShardOut::default();
    let mut x = Ctx::new();
    let mut c = Case::default();
    let pseed = mix(seed ^ hash_bytes(format!("{}/{}/{}", prop.id, sub.name, shard).as_bytes(), 7));
    match &sub.source {
        Source::Enum { n, make } | Source::EnumDup { n, make } => {
            let dup = matches!(sub.source, Source::EnumDup { .. });
            let total = n(thorough);
            let lo = (total as u128 * shard as u128 / SHARDS as u128) as u64;
            let hi = (total as u128 * (shard + 1) as u128 / SHARDS as u128) as u64;
            let sample_at = if hi > lo { lo + pseed % (hi - lo) } else { lo };
            for i in lo..hi {
                if i & 0x3FF == 0 && stop.load(Ordering::Relaxed) < shard as usize {
                    break;
                }
                make(i, &mut c);
                x.nontrivial = false;
                let r = one(sub, &c, &mut x);
                o.evals += 1;
                if x.nontrivial {
                    if dup {
                        o.seen.push(c.hash());
                    } else {
                        o.nontrivial += 1;
                    }
                }
                if i == sample_at {
                    o.samples.push(c.render());
                }
                if let Err(msg) = r {
                    o.fail = Some(Fail { shard, case: c.clone(), msg });
                    stop.fetch_min(shard as usize, Ordering::Relaxed);
                    break;
                }
            }
        }
        Source::Rand { quick, thorough: th, make } => {
            let mut total = if thorough { *th } else { *quick };
            if let Some(d) = std::env::var("TEV_DIVIDE").ok().and_then(|d| d.parse::<u64>().ok()) {
                total /= d.max(1); // development only
            }
            let lo = total * shard / SHARDS;
            let hi = total * (shard + 1) / SHARDS;
            for i in lo..hi {
                if i & 0x3F == 0 && stop.load(Ordering::Relaxed) < shard as usize {
                    break;
                }
                let mut s = Src::seeded(mix(pseed ^ i));
                make(&mut s, &mut c);
                x.nontrivial = false;
                let r = one(sub, &c, &mut x);
                o.evals += 1;
                o.len_hist[len_bucket(c.data.len())] += 1;
                if x.nontrivial && o.seen.len() < 12_000_000 {
                    o.seen.push(c.hash());
                    if o.samples.is_empty() && i > lo + 5 {
                        o.samples.push(c.render());
                    }
                }
                if let Err(msg) = r {
                    o.fail = Some(Fail { shard, case: c.clone(), msg });
                    stop.fetch_min(shard as usize, Ordering::Relaxed);
                    break;
                }
            }
        }
    }
    o.calls = x.t.calls;
    o.labels = x.labels;
    o.seen.sort_unstable();
    o.seen.dedup();
    o
}

static PROP: Mutex<String> = Mutex::new(String::new());
static SUB: Mutex<String> = Mutex::new(String::new());

pub fn set_names(p: &str, s: &str) {
    *PROP.lock().unwrap() = p.to_string();
    *SUB.lock().unwrap() = s.to_string();
}

pub fn set_sub(s: &str) {
    *SUB.lock().unwrap() = s.to_string();
}

pub fn write_replay(prop: &str, sub: &str, c: &Case, msg: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = mix(c.hash() ^ hash_bytes(sub.as_bytes(), 3));
    let path = format!("{}/{}-{}-{:08x}.txt", dir, prop, sub, h as u32);
    if let Err(e) = std::fs::write(&path, c.to_replay(prop, sub, msg)) {
        eprintln!("cannot write {}: {}", path, e);
        std::process::exit(2);
    }
    path
}

// ---- fatal signals in the code under test (e.g. a failed unsafe-precondition
// check aborts): the case being run becomes the replay.

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
    fn execv(path: *const u8, args: *const *const u8) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn sigprocmask(how: i32, set: *const [u64; 16], old: *mut [u64; 16]) -> i32;
}
static IN_SIGNAL: AtomicBool = AtomicBool::new(false);

extern "C" fn on_signal(sig: i32) {
    let p = CURRENT.with(|p| p.get());
    let in_target = tev::ctx::IN_TARGET.with(|f| f.get());
    if p.is_null() || !in_target {
        eprintln!("tev: signal {} outside the code under test", sig);
        unsafe { _exit(2) }
    }
    if IN_SIGNAL.swap(true, Ordering::SeqCst) {
        // Another thread is already reporting.
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let c = unsafe { &*p };
    let prop = PROP.lock().map(|g| g.clone()).unwrap_or_default();
    let sub = SUB.lock().map(|g| g.clone()).unwrap_or_default();
    let msg = format!("the call ended in signal {} (abort or memory fault) instead of returning", sig);
    let path = write_replay(&prop, &sub, c, &msg);
    println!("{} {}: {}: {}", prop, sub, c.render(), msg);
    println!("VIOLATION property={} replay={}", prop, path);
    crate::tables::cleanup();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    if !REPLAYING.load(Ordering::SeqCst) {
        // This process is past using; a new one makes the case smaller.
        let args = ["tev\0".into(), "shrink\0".into(), format!("{}\0", path), format!("{}\0", sig)];
        let at = [args[0].as_ptr(), args[1].as_ptr(), args[2].as_ptr(), args[3].as_ptr(), std::ptr::null()];
        unsafe { execv("/proc/self/exe\0".as_ptr(), at.as_ptr()) };
    }
    unsafe { _exit(1) }
}
static REPLAYING: AtomicBool = AtomicBool::new(false);

/// Makes the case of a replay file that ends in a signal smaller, in place.
/// Each attempt is a process of its own.
pub fn shrink_crash(path: &str, sig: i32) -> i32 {
    let none = [0u64; 16];
    unsafe { sigprocmask(2, &none, std::ptr::null_mut()) };
    let read = std::fs::read_to_string(path).ok().and_then(|s| Case::from_replay(&s));
    let all = props();
    if let Some((id, subn, c)) = read {
        if let Some(sub) = all.iter().find(|p| p.id == id).and_then(|p| p.subs.iter().find(|x| x.name == subn)) {
            tev::ctx::install_panic_hook();
            let t0 = Instant::now();
            let mut fails = |k: &Case| {
                if t0.elapsed().as_secs() > 60 {
                    return false;
                }
                unsafe {
                    let pid = fork();
                    if pid == 0 {
                        alarm(20);
                        let mut x = Ctx::new();
                        let _ = one(sub, k, &mut x);
                        _exit(0)
                    }
                    let mut st = 0;
                    pid > 0 && waitpid(pid, &mut st, 0) == pid && st & 0x7F == sig
                }
            };
            if fails(&c) {
                let small = shrink(&c, 20_000, &mut fails);
                let msg = format!("the call ended in signal {} (abort or memory fault) instead of returning", sig);
                let _ = std::fs::write(path, small.to_replay(&id, &subn, &msg));
                println!("  shrunk to: {}", small.render());
            }
        }
    }
    1
}
/// A call that does not return.
fn on_hang(p: *const Case, why: &str) {
    if IN_SIGNAL.swap(true, Ordering::SeqCst) {
        return;
    }
    if p.is_null() {
        eprintln!("tev: {}", why);
        crate::tables::cleanup();
        unsafe { _exit(2) }
    }
    let c = unsafe { &*p };
    let prop = PROP.lock().map(|g| g.clone()).unwrap_or_default();
    let sub = SUB.lock().map(|g| g.clone()).unwrap_or_default();
    let path = write_replay(&prop, &sub, c, why);
    println!("{} {}: {}: {}", prop, sub, c.render(), why);
    println!("VIOLATION property={} replay={}", prop, path);
    crate::tables::cleanup();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}
pub fn install_signals() {
    tev::watch::start(on_hang);
    let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
    for s in [4, 6, 7, 8, 11] {
        unsafe {
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F || (0x80..0xA0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct SubReport {
    pub name: String,
    pub what: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub calls: u64,
    pub complete: bool,
    pub labels: Vec<(String, u64)>,
    pub secs: f64,
}

impl SubReport {
    /// As one line, from the guided process to this one.
    pub fn line(&self) -> String {
        let l: Vec<String> = self.labels.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        format!("GUIDED\t{}\t{}\t{}\t{}\t{}\t{}\t{}", self.name, self.what, self.evals, self.nontrivial, self.calls, self.secs, l.join("\t"))
    }
    pub fn from_line(s: &str) -> Option<SubReport> {
        let f: Vec<&str> = s.strip_prefix("GUIDED\t")?.split('\t').collect();
        Some(SubReport {
            name: f.first()?.to_string(),
            what: f.get(1)?.to_string(),
            evals: f.get(2)?.parse().ok()?,
            nontrivial: f.get(3)?.parse().ok()?,
            calls: f.get(4)?.parse().ok()?,
            complete: false,
            secs: f.get(5)?.parse().ok()?,
            labels: f[6..].iter().filter_map(|x| x.rsplit_once('=')).filter_map(|(k, v)| Some((k.to_string(), v.parse().ok()?))).collect(),
        })
    }
}

/// Runs the guided build's search; what it prints is passed on.
/// Returns its exit code.
fn guided(id: &str, reports: &mut Vec<SubReport>, samples: &mut Vec<String>) -> i32 {
    use std::io::BufRead;
    let bin = match std::env::var("TEV_GUIDED") {
        Ok(b) => b,
        Err(_) => return 0, // run by hand, without run.sh
    };
    let mut ch = match std::process::Command::new(&bin).args(["guided", id]).stdout(std::process::Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}: {}", bin, e);
            return 2;
        }
    };
    for l in std::io::BufReader::new(ch.stdout.take().unwrap()).lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        if let Some(r) = SubReport::from_line(&l) {
            reports.push(r);
        } else if let Some(s) = l.strip_prefix("SAMPLE ") {
            samples.push(s.to_string());
        } else {
            println!("{}", l);
        }
    }
    match ch.wait() {
        Ok(st) => st.code().unwrap_or(2),
        Err(_) => 2,
    }
}

pub fn evidence(prop: &str, tier: &str, seed: u64, rule: &str, subs: &[SubReport], samples: &[String], wall: f64, violations: u64, assumptions: &[&str]) {
    let mut s = String::from("{\n");
    let ev: u64 = subs.iter().map(|x| x.evals).sum();
    let nt: u64 = subs.iter().map(|x| x.nontrivial).sum();
    let calls: u64 = subs.iter().map(|x| x.calls).sum();
    s += &format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", prop, tier, seed);
    s += "  \"coverage\": {\n";
    s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"calls_of_the_code_under_test\": {},\n", ev, nt, calls);
    s += &format!("    \"rule\": {},\n", json_str(&format!("{} Distinct: enumerated cases differ by construction; random cases are counted by a 64-bit hash of the whole case.", rule)));
    s += "    \"sub_checks\": [\n";
    for (i, x) in subs.iter().enumerate() {
        s += &format!(
            "      {{\"name\": {}, \"what\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"calls\": {}, \"complete_enumeration\": {}, \"seconds\": {:.2}, \"labels\": {{{}}}}}{}\n",
            json_str(&x.name),
            json_str(&x.what),
            x.evals,
            x.nontrivial,
            x.calls,
            x.complete,
            x.secs,
            x.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
            if i + 1 < subs.len() { "," } else { "" }
        );
    }
    s += "    ],\n    \"samples\": [\n";
    for (i, x) in samples.iter().enumerate() {
        s += &format!("      {}{}\n", json_str(x), if i + 1 < samples.len() { "," } else { "" });
    }
    s += "    ]\n  },\n";
    s += &format!(
        "  \"assumptions\": [{}],\n",
        assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ")
    );
    s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, violations);
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), s) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
}

/// Properties searched with coverage feedback too.
const GUIDED: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C26", "C30",
];

const ASSUME: [&str; 2] = [
    "The reference models in /verif/harness/src/model.rs and the frozen mapping data in /verif/ref state the intended conversions.",
    "Exploration: what was neither enumerated nor generated is not covered.",
];

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}

pub fn run(id: &str) -> i32 {
    let t0 = Instant::now();
    if crate::tables::handles(id) {
        tev::ctx::install_panic_hook();
        install_signals();
        *PROP.lock().unwrap() = id.to_string();
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        return crate::tables::run(id, env_seed(), thorough);
    }
    let all = props();
    let prop = match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed = env_seed();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let only = std::env::var("TEV_SUB").ok();
    tev::ctx::install_panic_hook();
    install_signals();
    tev::model::refs();
    *PROP.lock().unwrap() = id.to_string();

    let mut reports = vec![];
    let mut samples = vec![];
    let mut violations = 0;
    for sub in &prop.subs {
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        if let Source::Enum { n, .. } | Source::EnumDup { n, .. } = &sub.source {
            if n(thorough) == 0 {
                continue;
            }
        }
        *SUB.lock().unwrap() = sub.name.to_string();
        let ts = Instant::now();
        let stop = AtomicUsize::new(usize::MAX);
        let outs: Vec<ShardOut> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|sh| {
                    let stop = &stop;
                    sc.spawn(move || run_shard(prop, sub, sh, seed, thorough, stop))
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(o) => o,
                    Err(_) => {
                        eprintln!("tev: harness error in {} {}", prop.id, sub.name);
                        std::process::exit(2)
                    }
                })
                .collect()
        });
        let mut rep = SubReport {
            name: sub.name.into(),
            what: sub.what.into(),
            evals: 0,
            nontrivial: 0,
            calls: 0,
            complete: !matches!(sub.source, Source::Rand { .. }),
            labels: vec![],
            secs: 0.0,
        };
        let mut fail: Option<Fail> = None;
        let mut seen: Vec<u64> = Vec::new();
        let mut hist = [0u64; 8];
        for mut o in outs {
            rep.evals += o.evals;
            rep.nontrivial += o.nontrivial;
            rep.calls += o.calls;
            seen.append(&mut o.seen);
            for (k, v) in &o.labels {
                match rep.labels.iter_mut().find(|x| x.0 == *k) {
                    Some(x) => x.1 += v,
                    None => rep.labels.push((k.to_string(), *v)),
                }
            }
            for (h, v) in hist.iter_mut().zip(o.len_hist) {
                *h += v;
            }
            if rep.secs == 0.0 && samples.len() < 40 {
                samples.extend(o.samples.drain(..).map(|s| format!("{}: {}", sub.name, s)));
            }
            if let Some(f) = o.fail {
                if fail.as_ref().map(|g| f.shard < g.shard).unwrap_or(true) {
                    fail = Some(f);
                }
            }
        }
        seen.sort_unstable();
        seen.dedup();
        rep.nontrivial += seen.len() as u64;
        if !rep.complete {
            for (i, h) in hist.iter().enumerate() {
                if *h > 0 {
                    rep.labels.push((format!("input bytes {}", LEN_NAMES[i]), *h));
                }
            }
        }
        if fail.is_some() {
            rep.complete = false;
        }
        rep.secs = ts.elapsed().as_secs_f64();
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {} calls, {:.1} s",
            id, sub.name, rep.evals, rep.nontrivial, rep.calls, rep.secs
        );
        reports.push(rep);
        if let Some(f) = fail {
            report(prop.id, sub, f);
            violations += 1;
            break;
        }
    }
    if violations == 0 && only.is_none() && prop.subs.iter().any(crate::guided::guidable) && GUIDED.contains(&id) {
        match guided(id, &mut reports, &mut samples) {
            0 => {}
            1 => violations = 1,
            n => {
                eprintln!("tev: the guided search ended with {}", n);
                return 2;
            }
        }
    }
    if violations == 0 && crate::builds::handles(id) {
        match crate::builds::run(id, thorough, &mut reports, &mut samples) {
            0 => {}
            1 => violations = 1,
            n => return n,
        }
    }
    evidence(
        id,
        if thorough { "thorough" } else { "quick" },
        seed,
        prop.rule,
        &reports,
        &samples,
        t0.elapsed().as_secs_f64(),
        violations,
        &ASSUME,
    );
    if violations > 0 {
        1
    } else {
        println!("{}: held on everything explored", id);
        0
    }
}

pub fn report(id: &str, sub: &Sub, f: Fail) {
    let mut x = Ctx::new();
    let t0 = Instant::now();
    let mut fails = |c: &Case| t0.elapsed().as_secs() < 120 && one(sub, c, &mut x).is_err();
    // A failure that does not repeat is still shown as found.
    let small = if fails(&f.case) {
        let budget = if f.case.data.len() > 4000 { 1500 } else { 6000 };
        shrink(&f.case, budget, &mut fails)
    } else {
        f.case.clone()
    };
    let msg = match one(sub, &small, &mut x) {
        Err(m) => m,
        Ok(()) => f.msg.clone(),
    };
    let path = write_replay(id, sub.name, &small, &msg);
    println!("{} {}: {}", id, sub.name, msg);
    println!("  case: {}", small.render());
    println!("VIOLATION property={} replay={}", id, path);
}

pub fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let (id, subn, c) = match Case::from_replay(&s) {
        Some(x) => x,
        None => {
            eprintln!("{}: not a replay file", path);
            return 2;
        }
    };
    tev::ctx::install_panic_hook();
    install_signals();
    REPLAYING.store(true, Ordering::SeqCst);
    if crate::tables::handles(&id) {
        *PROP.lock().unwrap() = id.clone();
        *SUB.lock().unwrap() = subn.clone();
        return crate::tables::replay(path, &id, &subn, &c);
    }
    if crate::builds::is_sub(&subn) {
        return crate::builds::replay(path, &id, &subn, &c);
    }
    let all = props();
    let sub = all.iter().find(|p| p.id == id).and_then(|p| p.subs.iter().find(|x| x.name == subn));
    let sub = match sub {
        Some(s) => s,
        None => {
            eprintln!("unknown property or sub-check {} {}", id, subn);
            return 2;
        }
    };
    *PROP.lock().unwrap() = id.clone();
    *SUB.lock().unwrap() = subn.clone();
    let mut x = Ctx::new();
    println!("{} {}: {}", id, subn, c.render());
    match one(sub, &c, &mut x) {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
