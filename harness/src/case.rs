//! The concrete form of a generated case.  Checks see only this, shrinking
//! works on this, and the replay file is this written out: re-running a replay
//! involves no generator.

use crate::encs::ENCS;
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub enc: usize,
    /// Direction: decode (`data` is any bytes) or encode (`data` is UTF-8).
    pub dec: bool,
    pub data: Vec<u8>,
    pub end: bool,
    /// Buffer lengths, chunk sizes, ...; the meaning is the sub-check's.
    pub plan: Vec<u32>,
    pub fill: u8,
}

impl Case {
    pub fn text(&self) -> &str {
        std::str::from_utf8(&self.data).expect("encoder case holds UTF-8")
    }
    pub fn p(&self, i: usize) -> usize {
        self.plan.get(i).copied().unwrap_or(0) as usize
    }
    pub fn reset(&mut self) {
        self.enc = 0;
        self.dec = false;
        self.data.clear();
        self.end = true;
        self.plan.clear();
        self.fill = 0xA5;
    }
    pub fn hash(&self) -> u64 {
        let mut h = (self.enc as u64) << 3 | (self.dec as u64) << 1 | self.end as u64;
        h = crate::rng::hash_bytes(&self.data, h ^ (self.fill as u64) << 20);
        for &p in &self.plan {
            h = crate::rng::mix(h ^ p as u64).rotate_left(7);
        }
        h
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{} {} end={} plan={:?} fill={:02X} ",
            if self.dec { "decode" } else { "encode" },
            ENCS[self.enc].name,
            self.end,
            &self.plan[..self.plan.len().min(24)],
            self.fill
        );
        let n = self.data.len();
        if !self.dec {
            let t = String::from_utf8_lossy(&self.data);
            let cut: String = t.chars().take(60).collect();
            let _ = write!(s, "text({} bytes)={:?}", n, cut);
        } else {
            let _ = write!(s, "bytes({})=", n);
            for b in &self.data[..n.min(60)] {
                let _ = write!(s, "{:02X}", b);
            }
        }
        if n > 60 {
            s.push_str("...");
        }
        s
    }
    pub fn to_replay(&self, prop: &str, sub: &str, msg: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "tev-case 1");
        let _ = writeln!(s, "property {}", prop);
        let _ = writeln!(s, "sub {}", sub);
        let _ = writeln!(s, "enc {}", ENCS[self.enc].name);
        let _ = writeln!(s, "dir {}", if self.dec { "decode" } else { "encode" });
        let _ = writeln!(s, "end {}", self.end as u8);
        let _ = writeln!(s, "fill {}", self.fill);
        let p: Vec<String> = self.plan.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "plan {}", p.join(","));
        let mut h = String::with_capacity(self.data.len() * 2);
        for b in &self.data {
            let _ = write!(h, "{:02X}", b);
        }
        let _ = writeln!(s, "data {}", h);
        if !self.dec && self.data.len() <= 400 {
            let _ = writeln!(s, "# text {:?}", String::from_utf8_lossy(&self.data));
        }
        for l in msg.lines() {
            let _ = writeln!(s, "# {}", l);
        }
        s
    }
    /// Returns (property, sub, case).
    pub fn from_replay(s: &str) -> Option<(String, String, Case)> {
        let mut c = Case::default();
        let (mut prop, mut sub) = (None, None);
        let mut it = s.lines();
        if it.next()? != "tev-case 1" {
            return None;
        }
        for l in it {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => prop = Some(v.to_string()),
                "sub" => sub = Some(v.to_string()),
                "enc" => c.enc = crate::encs::by_name(v)?,
                "dir" => c.dec = v == "decode",
                "end" => c.end = v == "1",
                "fill" => c.fill = v.parse().ok()?,
                "plan" => {
                    for x in v.split(',').filter(|x| !x.is_empty()) {
                        c.plan.push(x.parse().ok()?);
                    }
                }
                "data" => {
                    let v = v.as_bytes();
                    for p in v.chunks(2) {
                        c.data.push(u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok()?);
                    }
                }
                _ => {}
            }
        }
        Some((prop?, sub?, c))
    }
}

/// Greedy shrinking.  `fails` re-runs the check on a candidate.
pub fn shrink(start: &Case, mut budget: usize, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut best = start.clone();
    loop {
        let before = best.clone();
        // 1. Drop spans of the data.
        let mut span = best.data.len().max(1);
        while span >= 1 {
            let mut at = 0;
            while at < best.data.len() {
                if budget == 0 {
                    return best;
                }
                let mut end = (at + span).min(best.data.len());
                if !best.dec {
                    let t = best.text();
                    while !t.is_char_boundary(at) {
                        at += 1;
                    }
                    while !t.is_char_boundary(end) {
                        end += 1;
                    }
                    if at >= end {
                        break;
                    }
                }
                let mut c = best.clone();
                c.data.drain(at..end);
                budget -= 1;
                if fails(&c) {
                    best = c;
                } else {
                    at = end;
                }
            }
            span /= 2;
        }
        // 2. Simplify units.
        if best.data.len() <= 400 {
            let mut at = 0;
            while at < best.data.len() {
                let w = if best.dec {
                    1
                } else {
                    best.text()[at..].chars().next().unwrap().len_utf8()
                };
                let cur = best.data[at..at + w].to_vec();
                for cand in [&b"a"[..], &b"\0"[..]] {
                    if budget == 0 {
                        return best;
                    }
                    if cur == cand || cur == b"a" {
                        continue;
                    }
                    let mut c = best.clone();
                    c.data.splice(at..at + w, cand.iter().copied());
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                        break;
                    }
                }
                at += if best.dec {
                    1
                } else {
                    best.text()[at..].chars().next().unwrap().len_utf8()
                };
            }
        }
        // 3. The plan.
        let mut i = 0;
        while i < best.plan.len() {
            if budget == 0 {
                return best;
            }
            let mut c = best.clone();
            c.plan.remove(i);
            budget -= 1;
            if fails(&c) {
                best = c;
            } else {
                i += 1;
            }
        }
        for i in 0..best.plan.len() {
            loop {
                let v = best.plan[i];
                let mut done = true;
                for n in [0, v / 2, v.saturating_sub(1)] {
                    if n == v || budget == 0 {
                        continue;
                    }
                    let mut c = best.clone();
                    c.plan[i] = n;
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
        }
        // 4. Flags.
        for (e, f) in [(true, best.fill), (best.end, 0)] {
            if budget == 0 {
                return best;
            }
            let mut c = best.clone();
            c.end = e;
            c.fill = f;
            budget -= 1;
            if c != best && fails(&c) {
                best = c;
            }
        }
        if best == before {
            return best;
        }
    }
}
