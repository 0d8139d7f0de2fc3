//! Coverage-guided search (guided build only): the sub-checks' own predicates
//! over cases mutated from a corpus that grows with the code's feedback.
//! A fixed number of executions, in rounds; after a round the shards exchange
//! what they found, so the search is reproducible from the seed.

use crate::run::{env_seed, one, report, set_names, Fail, SubReport, SHARDS};
use std::time::Instant;
use tev::case::Case;
use tev::cov;
use tev::ctx::Ctx;
use tev::encs::{Kind, ENCS};
use tev::gen;
use tev::model::enc_char;
use tev::props::{props, Source, Sub};
use tev::rng::{hash_bytes, mix, Src};

/// Work units per shard (a case costs 1, a call 1/4), over all sub-checks.
const QUICK: u64 = 1_500_000;
const THOROUGH: u64 = 30_000_000;
const ROUNDS: u64 = 12;
const SEEDS: u64 = 300;
const MAX_DATA: usize = 400;
const MAX_STRETCH: usize = 70_000;

struct Entry {
    case: Case,
    picks: u64,
    /// Features that it was the first to show (some of them).
    first: Vec<u32>,
}

struct State(*mut cov::State);
// Used by one thread at a time.
unsafe impl Send for State {}

struct Shard {
    st: State,
    x: Ctx,
    /// How many cases showed a feature.
    seen: Vec<u32>,
    corpus: Vec<Entry>,
    /// Largest plan number generated.
    plan_max: u32,
    /// How long an input may be made.
    len_ok: usize,
    fresh: Vec<Case>,
    inbox: Vec<Case>,
    evals: u64,
    nontrivial: Vec<u64>,
    features: u64,
    sample: Option<String>,
    fail: Option<Fail>,
}

pub fn guidable(s: &Sub) -> bool {
    matches!(s.source, Source::Rand { .. }) && !matches!(s.name, "large" | "threads" | "noise" | "huge-decode" | "huge-encode")
}

fn push_char(v: &mut Vec<u8>, ch: char) {
    let mut b = [0; 4];
    v.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
}

/// Something the code compared against.
fn operand(s: &mut Src) -> Option<u64> {
    let st = cov::st();
    if s.chance(1, 2) || st.consts.is_empty() {
        let (a, b) = st.site(s.us(1 << 16));
        Some(if s.chance(1, 2) { a } else { b })
    } else {
        let n = st.consts.len();
        Some(st.consts[s.us(n)])
    }
}
fn nudge(s: &mut Src, v: u64) -> u64 {
    match s.us(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        _ => v,
    }
}

/// One unit of data.
fn unit(s: &mut Src, c: &Case, out: &mut Vec<u8>) {
    let k = ENCS[c.enc].kind;
    let st = cov::st();
    if s.chance(1, 8) {
        let (w, n) = st.strs[s.us(st.strs.len())];
        if n > 0 && (c.dec || std::str::from_utf8(&w[..n]).is_ok()) {
            out.extend_from_slice(&w[..n]);
            return;
        }
    }
    let v = if s.chance(3, 5) { operand(s).map(|v| nudge(s, v)) } else { None };
    if !c.dec {
        let ch = match v {
            Some(v) => char::from_u32(v as u32),
            None => None,
        };
        let ch = ch.unwrap_or_else(|| gen::any_char(s, c.enc));
        push_char(out, ch);
        return;
    }
    match v {
        Some(v) => match s.us(5) {
            0 | 1 => out.push(v as u8),
            2 => out.extend_from_slice(&if s.chance(1, 2) { (v as u16).to_be_bytes() } else { (v as u16).to_le_bytes() }),
            3 => out.extend_from_slice(&match k {
                Kind::U32 { be: false } => (v as u32).to_le_bytes(),
                _ => (v as u32).to_be_bytes(),
            }),
            _ => match char::from_u32(v as u32).and_then(|ch| enc_char(k, ch)) {
                Some(b) => out.extend_from_slice(b.s()),
                None => out.push(v as u8),
            },
        },
        None => match s.us(4) {
            0 => out.push(s.range(0, 255) as u8),
            1 => gen::bad_token(s, c.enc, out),
            _ => gen::good_token(s, c.enc, out),
        },
    }
}

/// A position between units.
fn pos(s: &mut Src, c: &Case) -> usize {
    let n = c.data.len();
    let mut p = match s.us(8) {
        0 => 0,
        1 => n,
        _ => s.us(n + 1),
    };
    if !c.dec {
        while p < n && c.data[p] & 0xC0 == 0x80 {
            p += 1;
        }
    }
    p
}
fn span(s: &mut Src, c: &Case) -> (usize, usize) {
    let a = pos(s, c);
    let mut b = (a + 1 + if s.chance(3, 4) { s.us(4) } else { s.us(40) }).min(c.data.len());
    if !c.dec {
        while b < c.data.len() && c.data[b] & 0xC0 == 0x80 {
            b += 1;
        }
    }
    (a, b.max(a))
}

fn mutate(s: &mut Src, c: &mut Case, other: &Case, plan_max: u32, stretch_max: usize) {
    let before = c.data.len().min(2_000);
    let n = 1 + s.us(3) + if s.chance(1, 8) { s.us(6) } else { 0 };
    let mut tmp = Vec::new();
    for _ in 0..n {
        match s.weighted(&[24, 20, 12, 10, 8, 6, 22, 4, 2, 1, 12, 3]) {
            // Insert.
            0 => {
                tmp.clear();
                for _ in 0..1 + s.us(2) {
                    unit(s, c, &mut tmp);
                }
                let p = pos(s, c);
                c.data.splice(p..p, tmp.iter().copied());
            }
            // Overwrite a span.
            1 => {
                let (a, b) = span(s, c);
                tmp.clear();
                unit(s, c, &mut tmp);
                c.data.splice(a..b, tmp.iter().copied());
            }
            // Delete.
            2 => {
                let (a, b) = span(s, c);
                c.data.drain(a..b);
            }
            // Duplicate a span elsewhere.
            3 => {
                let (a, b) = span(s, c);
                tmp.clear();
                tmp.extend_from_slice(&c.data[a..b]);
                let p = pos(s, c);
                let times = if s.chance(1, 6) { 1 + s.us(20) } else { 1 };
                for _ in 0..times {
                    c.data.splice(p..p, tmp.iter().copied());
                }
            }
            // A small change of one unit.
            4 => {
                let (a, _) = span(s, c);
                if a >= c.data.len() {
                    continue;
                }
                if c.dec {
                    match s.us(3) {
                        0 => c.data[a] ^= 1 << s.us(8),
                        1 => c.data[a] = c.data[a].wrapping_add(1),
                        _ => c.data[a] = c.data[a].wrapping_sub(1),
                    }
                } else {
                    let ch = c.text()[a..].chars().next().unwrap();
                    let v = match s.us(3) {
                        0 => ch as u32 ^ 1 << s.us(17),
                        1 => ch as u32 + 1,
                        _ => (ch as u32).wrapping_sub(1),
                    };
                    let v = char::from_u32(v).unwrap_or('\u{FFFD}');
                    tmp.clear();
                    push_char(&mut tmp, v);
                    c.data.splice(a..a + ch.len_utf8(), tmp.iter().copied());
                }
            }
            // Splice from another entry of the same direction and encoding.
            5 => {
                if other.dec == c.dec && (other.enc == c.enc || s.chance(1, 4)) && !other.data.is_empty() {
                    let (a, b) = span(s, other);
                    let b = if s.chance(1, 3) { other.data.len() } else { b };
                    let p = pos(s, c);
                    c.data.splice(p..p, other.data[a..b].iter().copied());
                }
            }
            // The plan.
            6 => {
                if c.plan.is_empty() {
                    continue;
                }
                let i = s.us(c.plan.len());
                let v = c.plan[i];
                let n = c.data.len() as u32;
                c.plan[i] = match s.us(8) {
                    0 | 1 => v.wrapping_add(1),
                    2 | 3 => v.saturating_sub(1),
                    4 => operand(s).map(|v| nudge(s, v) as u32).unwrap_or(v),
                    5 => s.us(n as usize + 8) as u32,
                    6 => s.us(16) as u32,
                    _ => v.wrapping_add(s.us(8) as u32),
                };
                if c.plan[i] > plan_max {
                    c.plan[i] = v;
                }
            }
            7 => c.end = !c.end,
            8 => c.fill = s.range(0, 255) as u8,
            // The length as a magic number.
            9 => {
                let v = match operand(s) {
                    Some(v) => nudge(s, v) as usize,
                    None => continue,
                };
                let lim = if s.chance(1, 40) { stretch_max } else { stretch_max.min(2_000) };
                if v > c.data.len() && v <= lim && !c.data.is_empty() {
                    stretch(s, c, v);
                }
            }
            // All units of a part become the same.
            11 => {
                let (a, b) = match s.us(3) {
                    0 => (0, c.data.len()),
                    1 => (pos(s, c), c.data.len()),
                    _ => span(s, c),
                };
                let n = if c.dec { b - a } else { c.text()[a..b].chars().count() };
                tmp.clear();
                if s.chance(2, 3) {
                    tmp.push(b'a');
                } else {
                    unit(s, c, &mut tmp);
                }
                if tmp.len() * n <= 2_000 {
                    let t = tmp.repeat(n);
                    c.data.splice(a..b, t);
                }
            }
            // Input-to-state: replace where the operand appears.
            _ => {
                let st = cov::st();
                let (mut a, mut b) = st.site(s.us(1 << 16));
                if s.chance(1, 2) {
                    std::mem::swap(&mut a, &mut b);
                }
                let b = nudge(s, b);
                replace(s, c, a, b);
            }
        }
    }
    let keep = if c.data.len() > 2_000 { stretch_max } else { MAX_DATA.max(before) };
    if c.data.len() > keep {
        let mut k = keep;
        if !c.dec {
            while c.data[k] & 0xC0 == 0x80 {
                k -= 1;
            }
        }
        c.data.truncate(k);
    }
}

/// Repeats a span until the data is exactly `want` long (ASCII fills the rest).
fn stretch(s: &mut Src, c: &mut Case, want: usize) {
    let (a, b) = if s.chance(1, 2) { (0, c.data.len()) } else { span(s, c) };
    let block = c.data[a..b].to_vec();
    if block.is_empty() {
        return;
    }
    let room = want - c.data.len();
    let mut ins = Vec::with_capacity(room);
    while ins.len() + block.len() <= room {
        ins.extend_from_slice(&block);
    }
    while ins.len() < room {
        ins.push(b'a');
    }
    c.data.splice(b..b, ins);
}

fn replace(s: &mut Src, c: &mut Case, a: u64, b: u64) {
    if !c.dec {
        let (fa, fb) = match (char::from_u32(a as u32), char::from_u32(b as u32)) {
            (Some(x), Some(y)) => (x, y),
            _ => return,
        };
        let t = c.text();
        let at: Vec<usize> = t.char_indices().filter(|x| x.1 == fa).map(|x| x.0).collect();
        if at.is_empty() {
            return;
        }
        let p = at[s.us(at.len())];
        let mut tmp = Vec::new();
        push_char(&mut tmp, fb);
        c.data.splice(p..p + fa.len_utf8(), tmp);
        return;
    }
    for w in [4usize, 2, 1] {
        for be in [true, false] {
            let (x, y) = ((a as u32).to_be_bytes(), (b as u32).to_be_bytes());
            let (mut x, mut y) = (x[4 - w..].to_vec(), y[4 - w..].to_vec());
            if !be {
                x.reverse();
                y.reverse();
            }
            let at: Vec<usize> = (0..(c.data.len() + 1).saturating_sub(w)).filter(|&i| c.data[i..i + w] == x[..]).collect();
            if !at.is_empty() {
                let p = at[s.us(at.len())];
                c.data[p..p + w].copy_from_slice(&y);
                return;
            }
        }
    }
}

impl Shard {
    fn new() -> Shard {
        Shard {
            st: State(cov::new_state()),
            x: Ctx::new(),
            seen: vec![0; cov::FEATURES],
            corpus: vec![],
            plan_max: 0,
            len_ok: MAX_DATA,
            fresh: vec![],
            inbox: vec![],
            evals: 0,
            nontrivial: vec![],
            features: 0,
            sample: None,
            fail: None,
        }
    }
    /// Runs one case; keeps it when it shows something new.
    fn run(&mut self, sub: &Sub, c: &Case, found: bool) -> bool {
        cov::st().begin();
        self.x.nontrivial = false;
        let r = one(sub, c, &mut self.x);
        let mut new = 0;
        let mut first = Vec::new();
        for &f in cov::st().end() {
            let n = &mut self.seen[f as usize];
            if *n == 0 {
                new += 1;
                if first.len() < 12 {
                    first.push(f);
                }
            }
            *n = n.saturating_add(1);
        }
        self.evals += 1;
        if self.x.nontrivial {
            self.nontrivial.push(c.hash());
        }
        self.features += new;
        if new > 0 {
            if found {
                self.fresh.push(c.clone());
                if self.evals > 1000 && self.sample.is_none() {
                    self.sample = Some(c.render());
                }
            }
            self.corpus.push(Entry { case: c.clone(), picks: 0, first });
        }
        match r {
            Ok(()) => true,
            Err(msg) => {
                self.fail = Some(Fail { shard: 0, case: c.clone(), msg });
                false
            }
        }
    }
    fn round(&mut self, sub: &Sub, s: &mut Src, first: bool, budget: u64, deadline: Instant) {
        cov::attach(self.st.0);
        let mut c = Case::default();
        if first {
            for _ in 0..SEEDS {
                generate(sub, s, &mut c);
                self.plan_max = self.plan_max.max(c.plan.iter().copied().max().unwrap_or(0));
                if !self.run(sub, &c, true) {
                    return;
                }
            }
        }
        for c in std::mem::take(&mut self.inbox) {
            if Instant::now() > deadline {
                return;
            }
            if !self.run(sub, &c, false) {
                return;
            }
        }
        let mut k = 0u64;
        let (calls0, bytes0) = (self.x.t.calls, self.x.t.bytes);
        loop {
            let (calls, bytes) = (self.x.t.calls - calls0, self.x.t.bytes - bytes0);
            let work = k + calls / 4 + bytes / 512;
            if work >= budget || k & 0x3F == 0 && Instant::now() > deadline {
                return;
            }
            k += 1;
            if self.corpus.is_empty() || s.chance(1, 24) {
                generate(sub, s, &mut c);
            } else {
                let e = self.pick(s);
                if self.corpus[e].picks == 0 {
                    self.corpus[e].picks = 1;
                    if !self.operands(sub, s, e) {
                        return;
                    }
                    k += 40;
                    continue;
                }
                let o = self.pick(s);
                c.clone_from(&self.corpus[e].case);
                self.corpus[e].picks += 1;
                let other = &self.corpus[o].case;
                mutate(s, &mut c, other, self.plan_max, self.len_ok);
            }
            let b = self.x.t.bytes;
            if !self.run(sub, &c, true) {
                return;
            }
            // Inputs may grow for as long as a case stays cheap.
            let n = c.data.len();
            if n >= self.len_ok / 2 && self.x.t.bytes - b < 2_000_000 {
                self.len_ok = (2 * n).max(self.len_ok).min(MAX_STRETCH);
            }
        }
    }
    /// The first time an entry is picked: what the code compares is looked for
    /// in the case and replaced by what it is compared with.
    fn operands(&mut self, sub: &Sub, s: &mut Src, e: usize) -> bool {
        let base = self.corpus[e].case.clone();
        if base.data.len() > 1_000 {
            return true;
        }
        cov::st().start_log();
        let ok = self.run(sub, &base, false);
        cov::st().logging = false;
        if !ok {
            return false;
        }
        let mut log = std::mem::take(&mut cov::st().log);
        let mut c = base.clone();
        for _ in 0..60.min(log.len()) {
            let (a, b) = log.swap_remove(s.us(log.len()));
            for (a, b) in [(a, b), (b, a)] {
                c.clone_from(&base);
                let b = nudge(s, b);
                match s.us(3) {
                    0 if c.plan.iter().any(|&p| p as u64 == a) => {
                        let at: Vec<usize> = (0..c.plan.len()).filter(|&i| c.plan[i] as u64 == a).collect();
                        let i = at[s.us(at.len())];
                        if b <= self.plan_max as u64 {
                            c.plan[i] = b as u32;
                        }
                    }
                    1 if c.data.len() as u64 == a && b > a && b <= self.len_ok.min(2_000) as u64 => stretch(s, &mut c, b as usize),
                    _ => replace(s, &mut c, a, b),
                }
                if c != base && !self.run(sub, &c, true) {
                    return false;
                }
            }
        }
        log.clear();
        cov::st().log = log;
        true
    }
    /// Recent, little used and short entries are preferred.
    fn pick(&self, s: &mut Src) -> usize {
        let n = self.corpus.len();
        let long = s.chance(1, 64);
        let draw = |s: &mut Src| {
            if s.chance(1, 2) {
                n - 1 - s.us((n / 4).max(1))
            } else {
                s.us(n)
            }
        };
        // The rarest of its features counts most.
        let cost = |e: usize| {
            let e = &self.corpus[e];
            let n = e.case.data.len() as u64;
            if n > 1_000 && !long {
                return 1 << 40;
            }
            let rare = e.first.iter().map(|&f| self.seen[f as usize]).min();
            (rare.unwrap_or(1) as u64 + e.picks * 4) * (64 + n)
        };
        let mut best = draw(s);
        for _ in 0..5 {
            let b = draw(s);
            if cost(b) < cost(best) {
                best = b;
            }
        }
        best
    }
}

fn generate(sub: &Sub, s: &mut Src, c: &mut Case) {
    match &sub.source {
        Source::Rand { make, .. } => make(s, c),
        Source::Enum { n, make } | Source::EnumDup { n, make } => make(s.below(n(false)), c),
    }
}

pub fn run(id: &str) -> i32 {
    if !cov::instrumented() {
        eprintln!("tev: not the guided build");
        return 2;
    }
    let all = props();
    let prop = match all.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let subs: Vec<&Sub> = prop.subs.iter().filter(|s| guidable(s)).collect();
    tev::ctx::install_panic_hook();
    crate::run::install_signals();
    tev::model::refs();
    let mut budget = if thorough { THOROUGH } else { QUICK };
    if let Some(n) = std::env::var("TEV_EXECS").ok().and_then(|x| x.parse().ok()) {
        budget = n;
    }
    // A guard for slow machines, not the usual end.
    let deadline = Instant::now() + std::time::Duration::from_secs(if thorough { 3_000 } else { 120 });
    for sub in &subs {
        set_names(id, sub.name);
        if !search(id, sub, budget / subs.len() as u64, deadline) {
            return 1;
        }
    }
    0
}

/// False: a violation was found and reported.
fn search(id: &str, sub: &Sub, budget: u64, deadline: Instant) -> bool {
    let t0 = Instant::now();
    let seed = env_seed();
    let mut shards: Vec<Shard> = (0..SHARDS).map(|_| Shard::new()).collect();
    for r in 0..ROUNDS {
        std::thread::scope(|sc| {
            let hs: Vec<_> = shards
                .iter_mut()
                .enumerate()
                .map(|(k, sh)| {
                    let rs = mix(seed ^ hash_bytes(format!("{}/{}/guided/{}/{}", id, sub.name, k, r).as_bytes(), 11));
                    sc.spawn(move || {
                        let mut s = Src::seeded(rs);
                        sh.round(sub, &mut s, r == 0, budget / ROUNDS, deadline);
                    })
                })
                .collect();
            for h in hs {
                if h.join().is_err() {
                    eprintln!("tev: harness error in {} guided {}", id, sub.name);
                    std::process::exit(2);
                }
            }
        });
        if shards.iter().any(|s| s.fail.is_some()) {
            break;
        }
        let fresh: Vec<Vec<Case>> = shards.iter_mut().map(|s| std::mem::take(&mut s.fresh)).collect();
        for (k, f) in fresh.iter().enumerate() {
            for (j, sh) in shards.iter_mut().enumerate() {
                if j != k {
                    sh.inbox.extend(f.iter().cloned());
                }
            }
        }
    }
    let mut e = vec![false; cov::guards() as usize + 1];
    for sh in &shards {
        for (f, &n) in sh.seen.iter().enumerate() {
            if let (true, Some(g)) = (n > 0, cov::edge_of(f)) {
                if g < e.len() {
                    e[g] = true;
                }
            }
        }
    }
    let edges = e.iter().filter(|&&b| b).count() as u64;
    let features = shards.iter().map(|s| s.features).max().unwrap_or(0);
    let mut h: Vec<u64> = shards.iter_mut().flat_map(|s| std::mem::take(&mut s.nontrivial)).collect();
    h.sort_unstable();
    h.dedup();
    let rep = SubReport {
        name: format!("guided {}", sub.name),
        what: "coverage-guided mutation of the cases of that sub-check".into(),
        evals: shards.iter().map(|s| s.evals).sum(),
        nontrivial: h.len() as u64,
        calls: shards.iter().map(|s| s.x.t.calls).sum(),
        complete: false,
        labels: vec![
            ("corpus entries".into(), shards.iter().map(|s| s.corpus.len() as u64).max().unwrap_or(0)),
            ("edges reached".into(), edges),
            ("edges instrumented".into(), cov::guards() as u64),
            ("features".into(), features),
        ],
        secs: t0.elapsed().as_secs_f64(),
    };
    println!("{}", rep.line());
    for s in shards.iter().filter_map(|s| s.sample.as_ref()).take(1) {
        println!("SAMPLE guided {}: {}", sub.name, s);
    }
    println!(
        "{} guided {}: {} cases, {} distinct non-trivial, {} calls, {} edges of {}, {} features, {:.1} s",
        id, sub.name, rep.evals, rep.nontrivial, rep.calls, edges, cov::guards(), features, rep.secs
    );
    for sh in shards {
        if let Some(f) = sh.fail {
            report(id, sub, f);
            return false;
        }
    }
    true
}
