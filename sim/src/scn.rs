//! A scenario: everything one simulated run depends on, besides the code.

use crate::geom::*;
use crate::order::Order;
use crate::prng::Fold;
use crate::world::View;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub sets: Vec<Polys>,
    pub order: Order,
    /// Settings of the run.
    pub p: BTreeMap<String, i64>,
    /// The operation and fault trace.
    pub ops: Vec<Vec<i64>>,
}

impl Scn {
    pub fn new(prop: &str, polys: Polys, order: Order) -> Self {
        Scn { prop: prop.into(), sets: vec![polys], order, ..Default::default() }
    }
    pub fn with(mut self, k: &str, v: i64) -> Self {
        self.p.insert(k.into(), v);
        self
    }
    pub fn get(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn polys(&self) -> &Polys {
        &self.sets[0]
    }
    pub fn view(&self) -> View {
        let scale = [self.get("scale") as i32, (self.get("scale") + self.get("stretch")) as i32];
        View { scale, off: [self.get("offx"), self.get("offy")], negzero: self.get("negzero") != 0 }
    }
    pub fn vertices(&self) -> usize {
        self.sets.iter().flatten().map(|p| p.len()).sum()
    }
    pub fn hash(&self) -> u64 {
        let mut f = Fold::default();
        for s in &self.sets {
            f.add(s.len() as u64);
            for p in s {
                f.add(p.len() as u64);
                for q in p {
                    f.add(q.0 as u64);
                    f.add(q.1 as u64);
                }
            }
        }
        for (k, v) in &self.p {
            for b in k.bytes() {
                f.add(b as u64);
            }
            f.add(*v as u64);
        }
        for o in &self.ops {
            f.add(o.len() as u64);
            for v in o {
                f.add(*v as u64);
            }
        }
        f.0
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "property {}", self.prop).unwrap();
        writeln!(s, "order {} {}", self.order.mode, self.order.seed).unwrap();
        if !self.order.words.is_empty() {
            write!(s, "words").unwrap();
            for w in &self.order.words {
                write!(s, " {w:x}").unwrap();
            }
            s.push('\n');
        }
        for (k, v) in &self.p {
            writeln!(s, "set {k} {v}").unwrap();
        }
        for o in &self.ops {
            write!(s, "op").unwrap();
            for v in o {
                write!(s, " {v}").unwrap();
            }
            s.push('\n');
        }
        for set in &self.sets {
            writeln!(s, "polygons").unwrap();
            for p in set {
                write!(s, "polygon").unwrap();
                for q in p {
                    write!(s, " {},{}", q.0, q.1).unwrap();
                }
                s.push('\n');
            }
        }
        s
    }
    pub fn parse(t: &str) -> Option<Scn> {
        let mut s = Scn::default();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("property") => s.prop = w.next()?.into(),
                Some("order") => {
                    s.order.mode = w.next()?.parse().ok()?;
                    s.order.seed = w.next()?.parse().ok()?;
                }
                Some("words") => s.order.words = w.map(|x| u64::from_str_radix(x, 16).ok()).collect::<Option<_>>()?,
                Some("set") => {
                    let k = w.next()?.to_string();
                    s.p.insert(k, w.next()?.parse().ok()?);
                }
                Some("op") => s.ops.push(w.map(|x| x.parse().ok()).collect::<Option<_>>()?),
                Some("polygons") => s.sets.push(vec![]),
                Some("polygon") => {
                    let p = w
                        .map(|x| {
                            let (a, b) = x.split_once(',')?;
                            Some((a.parse().ok()?, b.parse().ok()?))
                        })
                        .collect::<Option<Poly>>()?;
                    s.sets.last_mut()?.push(p);
                }
                _ => {}
            }
        }
        if s.prop.is_empty() || s.sets.is_empty() {
            return None;
        }
        Some(s)
    }
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: &'static str,
    pub msg: String,
    /// Settings that narrow a sweeping scenario to the case that failed.
    pub pin: Vec<(&'static str, i64)>,
}
impl Viol {
    pub fn pin(mut self, k: &'static str, v: i64) -> Self {
        self.pin.push((k, v));
        self
    }
}
pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($c:expr, $($a:tt)*) => { return Err($crate::scn::Viol { class: $c, msg: format!($($a)*), pin: vec![] }) };
}

/// What a run leaves behind: its history digest and what it reached.
#[derive(Default)]
pub struct Cx {
    pub digest: Fold,
    pub stats: BTreeMap<&'static str, u64>,
    pub schedules: HashSet<u64>,
    pub states: HashSet<u64>,
    pub nontrivial: u64,
    /// Keep a printed history (replays only).
    pub verbose: bool,
    pub log: Vec<String>,
}
impl Cx {
    pub fn hist(&mut self, x: u64) {
        self.digest.add(x);
    }
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    /// A schedule (insertion order, interleaving or fault placement) this run took.
    pub fn schedule(&mut self, h: u64) {
        self.digest.add(h);
        self.schedules.insert(h);
    }
    pub fn state(&mut self, h: u64) {
        self.digest.add(h);
        self.states.insert(h);
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.log.push(f());
        }
    }
}

pub struct Limits {
    pub evals: usize,
    pub secs: u64,
}

/// Simplify `s` while `fails` keeps saying the same violation occurs.
pub fn shrink(s: &Scn, valid: &dyn Fn(&Scn) -> bool, fails: &mut dyn FnMut(&Scn) -> bool, best: &mut dyn FnMut(&Scn), lim: Limits) -> Scn {
    let t0 = std::time::Instant::now();
    let mut cur = s.clone();
    let mut evals = 0usize;
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Scn = $c;
            if c != cur && evals < lim.evals && t0.elapsed().as_secs() < lim.secs && valid(&c) {
                evals += 1;
                if fails(&c) {
                    cur = c;
                    best(&cur);
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = cur.clone();
        // whole sets, other than the first
        let mut i = cur.sets.len();
        while i > 1 {
            i -= 1;
            let mut c = cur.clone();
            c.sets[i].truncate(1);
            if c.sets[i].iter().any(|p| p.len() > 3) {
                c.sets[i] = vec![vec![(0, 0), (2, 1), (1, 3)]];
            }
            attempt!(c);
            if i == cur.sets.len() - 1 {
                let mut c = cur.clone();
                c.sets.pop();
                attempt!(c);
            }
        }
        // operations, in halving chunks
        let mut chunk = cur.ops.len().max(1);
        while chunk > 0 {
            let mut i = 0;
            while i < cur.ops.len() {
                let mut c = cur.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if !attempt!(c) {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        // polygons, then vertices
        for si in 0..cur.sets.len() {
            let mut i = cur.sets[si].len();
            while i > 0 {
                i -= 1;
                if cur.sets[si].len() > 1 {
                    let mut c = cur.clone();
                    c.sets[si].remove(i);
                    attempt!(c);
                }
            }
            for pi in 0..cur.sets[si].len() {
                let mut chunk = cur.sets[si][pi].len() / 2;
                while chunk > 0 {
                    let mut i = 0;
                    while i < cur.sets[si][pi].len() {
                        let mut c = cur.clone();
                        let p = &mut c.sets[si][pi];
                        let e = (i + chunk).min(p.len());
                        p.drain(i..e);
                        if p.is_empty() || !attempt!(c) {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
        }
        // smaller coordinates
        for si in 0..cur.sets.len() {
            let plain = |c: i64| c.unsigned_abs() < 1 << 40;
            let mut c = cur.clone();
            let (mx, my) = c.sets[si].iter().flatten().fold((i64::MAX, i64::MAX), |a, q| (a.0.min(q.0), a.1.min(q.1)));
            if plain(mx) && plain(my) {
                for q in c.sets[si].iter_mut().flatten() {
                    if plain(q.0) && plain(q.1) {
                        q.0 -= mx;
                        q.1 -= my;
                    }
                }
                attempt!(c);
            }
            for ax in 0..2 {
                loop {
                    let mut c = cur.clone();
                    for q in c.sets[si].iter_mut().flatten() {
                        let v = if ax == 0 { &mut q.0 } else { &mut q.1 };
                        if plain(*v) {
                            *v = v.div_euclid(2);
                        }
                    }
                    if !attempt!(c) {
                        break;
                    }
                }
            }
        }
        // settings and operation arguments
        let keys: Vec<String> = cur.p.keys().cloned().collect();
        for k in keys {
            let v = cur.p[&k];
            for w in [0, v / 2, v - 1] {
                if w != v && w.abs() <= v.abs() {
                    let mut c = cur.clone();
                    c.p.insert(k.clone(), w);
                    if attempt!(c) {
                        break;
                    }
                }
            }
        }
        for i in 0..cur.ops.len() {
            for j in 0..cur.ops[i].len() {
                let v = cur.ops[i][j];
                for w in [0, v / 2, v - 1] {
                    if w != v && w.abs() <= v.abs() {
                        let mut c = cur.clone();
                        c.ops[i][j] = w;
                        if attempt!(c) {
                            break;
                        }
                    }
                }
            }
        }
        // a simpler insertion order
        for mode in [1, 2] {
            let mut c = cur.clone();
            c.order = Order { mode, seed: 0, words: vec![] };
            if cur.order.words.is_empty() && cur.order.mode != mode && attempt!(c) {
                break;
            }
        }
        if cur == before || evals >= lim.evals || t0.elapsed().as_secs() >= lim.secs {
            break;
        }
    }
    // write the schedule out and clear every choice that does not matter
    if cur.order.words.is_empty() {
        crate::order::record(true);
        let _ = fails(&cur);
        let words = crate::order::last_recorded();
        crate::order::record(false);
        if !words.is_empty() && words.len() <= 400 {
            let mut c = cur.clone();
            c.order = Order { mode: 2, seed: 0, words: words.iter().map(|w| w & !0xFFFF_FFFF).collect() };
            attempt!(c);
        }
    }
    let mut i = cur.order.words.len();
    while i > 0 {
        i -= 1;
        let mut c = cur.clone();
        if i + 1 == c.order.words.len() {
            c.order.words.pop();
            if attempt!(c) {
                continue;
            }
            c = cur.clone();
        }
        c.order.words[i] = 0;
        attempt!(c);
    }
    cur
}
