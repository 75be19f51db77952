//! C06-C10: what reaches the output, under builder faults, crashes and reuse.

use crate::viol;
use super::*;
use crate::bins::*;
use crate::clock;
use std::cell::RefCell;
use std::rc::Rc;
use triangulate::{FanBuilder, FanFormat, ListBuilder, ListFormat, PolygonList, Trapezoidation, TriangleWinding};

const REAL: &str = "the whole triangulate crate (release build): trapezoidation, monotone splitting, all formats and adapters; rand 0.8 except thread_rng, smallvec, zot";
const STUB: &str = "thread_rng and OS entropy (seeded schedule); coordinates, indices, polygon lists, outermost builders and output collections belong to the simulated user and inject the faults";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            quick: 120_000,
            thorough: 1_500_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c06,
            run: run_c06,
            rule: "one run = polygon set x insertion order, the one trapezoidation written through every format x container x {by reference, by value} x {plain, reversed}; non-trivial: at least 4 vertices",
            real: REAL,
            stub: STUB,
            assumptions: &["exact coordinates as in C01"],
        },
        Prop {
            id: "C07",
            level: "exploration",
            quick: 200_000,
            thorough: 1_500_000,
            valid_only: false,
            may_hang: false,
            gen: gen_c07,
            run: run_c07,
            rule: "one run = a history of 2 to 8 calls into one collection (successes by reference or by value, builder errors, undersized input) checked step by step against a model sequence; non-trivial: at least two successful calls",
            real: REAL,
            stub: STUB,
            assumptions: &["user-written collections honour the Fans/List contract"],
        },
        Prop {
            id: "C08",
            level: "fault_enumeration",
            quick: 300_000,
            thorough: 500_000,
            valid_only: false,
            may_hang: true,
            gen: gen_c08,
            run: run_c08,
            rule: "one run = polygon set x insertion order x collection kind and prior content x one cause of failure; for builder errors every callback position (before and after its effect) is injected in turn, for delimiter collisions every vertex is the delimiter in turn; non-trivial: a call failed after a builder existed",
            real: REAL,
            stub: STUB,
            assumptions: &["user-written collections honour the Fans/List contract", "panics in user code are not errors: see C10, C14"],
        },
        Prop {
            id: "C09",
            level: "fault_enumeration",
            quick: 200_000,
            thorough: 500_000,
            valid_only: false,
            may_hang: true,
            gen: gen_c09,
            run: run_c09,
            rule: "one run = polygon set x insertion order x builder configuration; the fault-free call and then every callback position (creation, each new-fan, extend-fan or add-triangle, build) failing in turn, each history checked by a lifecycle automaton; non-trivial: at least one callback failed",
            real: REAL,
            stub: STUB,
            assumptions: &["callbacks are observed in the simulated user's builder"],
        },
        Prop {
            id: "C10",
            level: "exploration",
            quick: 240_000,
            thorough: 1_500_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c10,
            run: run_c10,
            rule: "one run = one trapezoidation and a history of 2 to 9 attempts on it (success, builder error at any callback, crash at any step, delimiter collision) in any formats; non-trivial: a success after a failed or crashed attempt",
            real: REAL,
            stub: STUB,
            assumptions: &["exact coordinates as in C01"],
        },
    ]
}

fn plain<'a>(fault: &'a Fault) -> Call<'a> {
    Call { fault, reversed: false, delim: DELIM, outer: false }
}

/// The triangles of a trapezoidation, by the plainest route.
fn reference(t: &Trapezoidation<'_, SimList>) -> Result<Vec<Tri>, Kind> {
    let mut b = Bin::new(0, 0);
    into_trap(t, &mut b, &plain(&Fault::new(-2, false)))?;
    Ok(fans_tris(&b.content()))
}

fn trap<'p>(list: &'p SimList, n: usize) -> Result<Trapezoidation<'p, SimList>, Viol> {
    must_succeed(guarded(budget(n), u64::MAX, || list.trapezoidize().map_err(|e| tkind(&e))))
}

// ---- C06 -------------------------------------------------------------

fn gen_c06(r: &mut Prng, run: u64) -> Scn {
    let polys = workload_or_large(r, run, 60, if run < 8 { 2 } else { 200 }, 1_200);
    let mut s = Scn::new("C06", polys, any_order(r)).with("fill", r.range(0, 4) * r.range(0, 1));
    dress_view(r, &mut s);
    s
}
fn run_c06(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let n = s.vertices();
    let list = SimList::new(s.polys(), s.view());
    let t = trap(&list, n)?;
    let none = Fault::new(-2, false);
    let mut want: Vec<Tri> = vec![];
    let mut want_fans: Vec<Vec<Id>> = vec![];
    let mut want_rfans: Vec<Vec<Id>> = vec![];
    let fill = s.get("fill") as u32;
    for kind in 0..BINS {
        for rev in [false, true] {
            for val in [false, true] {
                let mut bin = Bin::new(kind, fill);
                let before = bin.content();
                let c = Call { fault: &none, reversed: rev, delim: DELIM, outer: false };
                let what = || format!("{}{}{}", Bin::name(kind), if rev { ", reversed" } else { "" }, if val { ", by value" } else { "" });
                let got = if val {
                    guarded(budget(n), u64::MAX, || by_value(&t, bin, rev, DELIM))
                } else {
                    guarded(budget(n), u64::MAX, || into_trap(&t, &mut bin, &c).map(|_| bin))
                };
                let bin = must_succeed(got)?;
                let after = bin.content();
                let ts = match appended(kind, &before, &after, DELIM) {
                    Ok(ts) => ts,
                    Err(m) => viol!("format", "{}: {m}", what()),
                };
                // de-indexed vertices are the ones the indices denote
                for q in bin.vertices().into_iter().skip(before.iter().map(|e| e.len()).sum::<usize>()) {
                    let v = &list.polys[q.id[0] as usize][q.id[1] as usize];
                    if v.x.0.to_bits() != q.x.0.to_bits() || v.y.0.to_bits() != q.y.0.to_bits() {
                        viol!("vertex", "{}: vertex {:?} was handed out as ({}, {}) instead of ({}, {})", what(), q.id, q.x.0, q.y.0, v.x.0, v.y.0);
                    }
                }
                let set = if rev { canon_set(&ts.iter().map(flip).collect::<Vec<_>>()) } else { canon_set(&ts) };
                if kind == 0 && !rev && !val {
                    want = set;
                } else if set != want {
                    viol!("formats-differ", "{} describes other triangles than {}: {:?} instead of {:?}", what(), Bin::name(0), diff(&set, &want), diff(&want, &set));
                }
                if kind % BINS == 0 {
                    let mut f = after[before.len()..].to_vec();
                    f.sort();
                    if rev {
                        want_rfans = f;
                    } else {
                        want_fans = f;
                    }
                }
                if Bin::is_delim(kind) {
                    let mut f = Bin::split(&after[before.len()..], before.is_empty(), DELIM).unwrap_or_default();
                    f.sort();
                    if f != *(if rev { &want_rfans } else { &want_fans }) {
                        viol!("delimited", "{}: the delimited fans differ from the fans of {}", what(), Bin::name(0));
                    }
                }
                cx.hist(hash_tris(&ts));
                cx.stat("collections written", 1);
            }
        }
    }
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(hash_tris(&want));
    cx.stat("words drawn (insertion choices)", h.taken().1);
    if n >= 4 {
        cx.nontrivial += 1;
    }
    Ok(())
}
fn diff(a: &[Tri], b: &[Tri]) -> Vec<Tri> {
    a.iter().filter(|t| b.binary_search(t).is_err()).take(4).copied().collect()
}

// ---- C07 -------------------------------------------------------------

/// Polygon sets with one polygon of one or two vertices somewhere.
fn undersize(r: &mut Prng, polys: &mut Polys) {
    let k = 1 + r.us(2);
    let p: Poly = (0..k).map(|i| (1_000_000 + i as i64, 1_000_000 - 3 * i as i64)).collect();
    let at = r.us(polys.len() + 1);
    polys.insert(at, p);
}

fn gen_c07(r: &mut Prng, run: u64) -> Scn {
    let polys = workload_or_large(r, run, 24, 250, 900);
    let mut s = Scn::new("C07", polys, any_order(r)).with("bin", r.range(0, BINS as i64 - 1)).with("fill", r.range(0, 7) * r.range(0, 1));
    for _ in 0..r.us(3) {
        let p = workload(r, 24);
        s.sets.push(p);
    }
    for _ in 0..2 + r.us(7) {
        // [what, which set, reversed, position, by value / outer]
        let what = if r.chance(3, 5) { 0 } else { r.range(1, 4) };
        let op = vec![what, r.range(0, s.sets.len() as i64 - 1), r.range(0, 1), r.range(0, 1 << 20), r.range(0, 1)];
        s.ops.push(op);
    }
    s
}
fn run_c07(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let kind_ = s.get("bin") as usize % BINS;
    let lists: Vec<SimList> = s.sets.iter().map(|p| SimList::new(p, s.view())).collect();
    let shorts: Vec<SimList> = s
        .sets
        .iter()
        .map(|p| {
            let mut p = p.clone();
            undersize(&mut Prng::new(p.len() as u64), &mut p);
            SimList::new(&p, s.view())
        })
        .collect();
    let none = Fault::new(-2, false);
    let mut bin = Bin::new(kind_, s.get("fill") as u32);
    let mut model = bin.content();
    let mut traps = vec![];
    for l in &lists {
        if !is_valid_list(l, s) {
            return Ok(());
        }
        traps.push(trap(l, l.polys.iter().map(|p| p.len()).sum())?);
    }
    let wants: Vec<Vec<Tri>> = {
        let mut v = vec![];
        for t in &traps {
            v.push(canon_set(&must_succeed(guarded(budget(400), u64::MAX, || reference(t)))?));
        }
        v
    };
    let mut oks = 0;
    for (k, op) in s.ops.iter().enumerate() {
        let [what, set, rev, pos, alt] = [op[0], op[1], op[2], op[3], op[4]];
        let set = set as usize % lists.len();
        let rev = rev != 0;
        cx.hist(what as u64);
        let mut failed = |r: Out<Result<(), Kind>>, cx: &mut Cx, why: &'static str| -> Res {
            match r {
                Out::Done(Err(_)) => cx.stat(why, 1),
                Out::Done(Ok(())) => viol!("harness", "a call meant to fail succeeded"),
                Out::Panic(m) => viol!("panic", "step {k}: {m}"),
                _ => viol!("no-end", "step {k}: no result"),
            }
            Ok(())
        };
        match what {
            1 | 2 => {
                // a builder error at some callback; late after its effect
                let count = Fault::none();
                let mut scratch = Bin::new(kind_, 0);
                let c = Call { fault: &count, reversed: rev, delim: DELIM, outer: alt != 0 };
                must_succeed(guarded(budget(400), u64::MAX, || into_trap(&traps[set], &mut scratch, &c)))?;
                let f = Fault::new(pos % count.callbacks().max(1), what == 2);
                let c = Call { fault: &f, reversed: rev, delim: DELIM, outer: alt != 0 };
                let r = guarded(budget(400), u64::MAX, || into_trap(&traps[set], &mut bin, &c));
                failed(r, cx, "fault: builder error")?;
            }
            3 => {
                let c = Call { fault: &none, reversed: rev, delim: DELIM, outer: false };
                let r = guarded(budget(400), u64::MAX, || into_list(&shorts[set], &mut bin, &c));
                failed(r, cx, "fault: undersized polygon")?;
            }
            4 if Bin::is_delim(kind_) => {
                let pi = s.sets[set].len().max(1);
                let p = pos as usize % pi;
                let d = [p as u32, (pos as usize / pi % s.sets[set][p].len().max(1)) as u32];
                let c = Call { fault: &none, reversed: rev, delim: d, outer: false };
                let r = guarded(budget(400), u64::MAX, || into_trap(&traps[set], &mut bin, &c));
                failed(r, cx, "fault: delimiter collision")?;
            }
            _ => {
                let c = Call { fault: &none, reversed: rev, delim: DELIM, outer: false };
                let direct = alt == 0 && pos % 2 == 0;
                let before = model.clone();
                if alt != 0 {
                    let b = std::mem::replace(&mut bin, Bin::new(kind_, 0));
                    bin = must_succeed(guarded(budget(400), u64::MAX, || by_value(&traps[set], b, rev, DELIM)))?;
                } else if direct {
                    must_succeed(guarded(budget(400), u64::MAX, || into_list(&lists[set], &mut bin, &c)))?;
                } else {
                    must_succeed(guarded(budget(400), u64::MAX, || into_trap(&traps[set], &mut bin, &c)))?;
                }
                let after = bin.content();
                let ts = match appended(kind_, &before, &after, DELIM) {
                    Ok(t) => t,
                    Err(m) => viol!("not-appended", "step {k} into {}: {m}", Bin::name(kind_)),
                };
                let ts: Vec<Tri> = if rev { ts.iter().map(flip).collect() } else { ts };
                if direct {
                    let reg = region(&s.sets[set]);
                    if let Err(v) = judge_tiling(&s.sets[set], &reg, &ts, false) {
                        viol!("wrong-result", "step {k} into {} appended something else than a triangulation: {}", Bin::name(kind_), v.msg);
                    }
                } else if canon_set(&ts) != wants[set] {
                    viol!("wrong-result", "step {k} into {} appended other triangles than the same call alone", Bin::name(kind_));
                }
                cx.hist(hash_tris(&ts));
                model = after;
                oks += 1;
                cx.stat("successful calls", 1);
            }
        }
        let now = bin.content();
        if now != model {
            viol!("history", "after step {k} ({}) {} holds {} elements instead of the {} accumulated ones, or other ones", what, Bin::name(kind_), now.len(), model.len());
        }
        let flat = matches!(kind_, 2 | 7);
        let want = if flat { model.len() / 3 } else { model.len() };
        if let Some(c) = bin.counts() {
            if c.iter().any(|c| *c != (want, want == 0)) {
                viol!("count", "after step {k} {} holds {want} triangles or fans and says (count, is empty) {c:?}", Bin::name(kind_));
            }
        }
    }
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(s.hash());
    if oks >= 2 {
        cx.nontrivial += 1;
    }
    Ok(())
}
fn is_valid_list(l: &SimList, s: &Scn) -> bool {
    let _ = l;
    s.sets.iter().all(|p| is_valid(p))
}

// ---- C08 -------------------------------------------------------------

pub const CAUSES: [&str; 5] = ["builder error", "delimiter collision", "invalid geometry", "undersized polygon", "no vertices"];

fn gen_c08(r: &mut Prng, run: u64) -> Scn {
    let cause = match r.below(20) {
        0..=8 => 0,
        9..=12 => 1,
        13..=17 => 2,
        18 => 3,
        _ => 4,
    };
    let bin = if cause == 1 { r.range(10, 11) } else { r.range(0, BINS as i64 - 1) };
    let polys = match cause {
        2 => gen::invalid(r, 24),
        3 => {
            let mut p = workload(r, 20);
            undersize(r, &mut p);
            p
        }
        4 => vec![],
        _ => workload_or_large(r, run, 24, 400, 900),
    };
    Scn::new("C08", polys, any_order(r))
        .with("cause", cause)
        .with("bin", bin)
        .with("fill", r.range(0, 7))
        .with("rev", r.range(0, 1))
        .with("outer", r.range(0, 1))
        .with("twice", r.range(0, 1))
        .with("at", -1)
        .with("late", -1)
}
fn run_c08(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let kind_ = s.get("bin") as usize % BINS;
    let list = SimList::new(s.polys(), s.view());
    let fill = s.get("fill") as u32;
    let rev = s.get("rev") != 0;
    let outer = s.get("outer") != 0;
    let cause = s.get("cause");
    let none = Fault::new(-2, false);
    let bud = budget(s.vertices()).min(20_000_000);
    if cause <= 1 && !is_valid(s.polys()) {
        return Ok(());
    }
    // Judge one failing call. `twice`: a second failing call into the same collection.
    let mut failures = 0u64;
    let mut judge = |cx: &mut Cx, bin: &Bin, before: &[Vec<Id>], r: Out<Result<(), Kind>>, must: bool, what: &str| -> Res {
        match r {
            Out::Done(Err(k)) => {
                cx.hist(k.code());
                cx.stat(
                    match cause {
                        0 => "fault: builder error",
                        1 => "fault: delimiter collision",
                        2 => "fault: invalid geometry rejected",
                        3 => "fault: undersized polygon",
                        _ => "fault: no vertices",
                    },
                    1,
                );
                let now = bin.content();
                if now != before {
                    viol!("not-restored", "{what}: {:?}; {} held {} elements before the call and holds {} now: {:?}", k, Bin::name(kind_), before.len(), now.len(), now);
                }
                failures += 1;
                Ok(())
            }
            Out::Done(Ok(())) => {
                if must {
                    viol!("swallowed", "{what}: the call reports success");
                }
                Ok(())
            }
            Out::Panic(m) => viol!("panic", "{what}: panicked: {m}"),
            Out::Budget if cause == 2 => Ok(()),
            _ => viol!("no-end", "{what}: no result"),
        }
    };
    match cause {
        0 => {
            let t = trap(&list, s.vertices())?;
            let count = Fault::none();
            let mut scratch = Bin::new(kind_, fill);
            let c = Call { fault: &count, reversed: rev, delim: DELIM, outer };
            must_succeed(guarded(bud, u64::MAX, || into_trap(&t, &mut scratch, &c)))?;
            let pin = s.get("at");
            let ats = if pin < 0 { positions(count.callbacks(), s.hash()) } else { (pin..=pin).filter(|p| *p < count.callbacks()).collect() };
            for at in ats {
                for late in [0, 1] {
                    if s.get("late") >= 0 && s.get("late") != late {
                        continue;
                    }
                    if at == 0 && late == 1 {
                        continue;
                    }
                    let mut bin = Bin::new(kind_, fill);
                    let before = bin.content();
                    for round in 0..=s.get("twice") {
                        let f = Fault::new(at, late == 1);
                        let c = Call { fault: &f, reversed: rev, delim: DELIM, outer };
                        let r = guarded(bud, u64::MAX, || into_trap(&t, &mut bin, &c));
                        judge(cx, &bin, &before, r, true, &format!("error {} callback {at} of {}, round {round}", if late == 1 { "after" } else { "at" }, count.callbacks()))
                            .map_err(|v| v.pin("at", at).pin("late", late))?;
                    }
                }
            }
        }
        1 => {
            let t = trap(&list, s.vertices())?;
            let ids: Vec<Id> = list.elems.iter().flatten().copied().collect();
            for k in positions(ids.len() as i64, s.hash()) {
                let k = if s.get("at") >= 0 { s.get("at").min(ids.len() as i64 - 1) as usize } else { k as usize };
                let d = &ids[k];
                let mut bin = Bin::new(10, fill);
                let before = bin.content();
                for round in 0..=s.get("twice") {
                    let c = Call { fault: &none, reversed: rev, delim: *d, outer: false };
                    let r = guarded(bud, u64::MAX, || into_trap(&t, &mut bin, &c));
                    judge(cx, &bin, &before, r, true, &format!("delimiter equal to index {d:?}, round {round}")).map_err(|v| v.pin("at", k as i64))?;
                }
            }
        }
        _ => {
            let mut bin = Bin::new(kind_, fill);
            let before = bin.content();
            for round in 0..=s.get("twice") {
                let c = Call { fault: &none, reversed: rev, delim: DELIM, outer: false };
                let r = guarded(bud, u64::MAX, || into_list(&list, &mut bin, &c));
                let stop = !matches!(r, Out::Done(Err(_)));
                judge(cx, &bin, &before, r, cause >= 3, &format!("{}, round {round}", CAUSES[cause as usize % 5]))?;
                if stop {
                    break;
                }
            }
        }
    }
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(s.hash());
    cx.stat("words drawn (insertion choices)", h.taken().1);
    if failures > 0 && cause <= 2 {
        cx.nontrivial += 1;
    }
    Ok(())
}

// ---- C09 -------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Init([Id; 3]),
    ListInit,
    NewFan([Id; 3]),
    Extend(Id),
    Tri([Id; 3]),
    Build,
    Fail(Kind),
    FormatDropped,
    /// The builder went away without build or fail.
    Dropped,
    Failed(u64),
}
pub struct Rec {
    pub ev: RefCell<Vec<Ev>>,
    at: i64,
    seen: Cell<i64>,
}
use std::cell::Cell;
impl Rec {
    pub fn new(at: i64) -> Rc<Rec> {
        Rc::new(Rec { ev: RefCell::new(vec![]), at, seen: Cell::new(0) })
    }
    fn put(&self, e: Ev) -> Result<(), SimErr> {
        tick();
        self.ev.borrow_mut().push(e);
        let n = self.seen.get();
        self.seen.set(n + 1);
        if n == self.at {
            self.ev.borrow_mut().push(Ev::Failed(n as u64));
            return Err(SimErr::Injected(n as u64));
        }
        Ok(())
    }
    pub fn callbacks(&self) -> i64 {
        self.seen.get()
    }
    pub fn events(&self) -> Vec<Ev> {
        self.ev.borrow().clone()
    }
}
/// A recording format; CW is its native winding.
pub struct RecFormat<const CW: bool>(pub Rc<Rec>, bool);
impl<const CW: bool> RecFormat<CW> {
    pub fn new(r: &Rc<Rec>) -> Self {
        RecFormat(r.clone(), false)
    }
}
impl<const CW: bool> Drop for RecFormat<CW> {
    fn drop(&mut self) {
        if !self.1 {
            self.0.ev.borrow_mut().push(Ev::FormatDropped);
        }
    }
}
pub struct RecBuilder<const CW: bool>(Rc<Rec>, bool);
impl<const CW: bool> Drop for RecBuilder<CW> {
    fn drop(&mut self) {
        if !self.1 {
            self.0.ev.borrow_mut().push(Ev::Dropped);
        }
    }
}
const fn winding(cw: bool) -> TriangleWinding {
    if cw {
        TriangleWinding::Clockwise
    } else {
        TriangleWinding::Counterclockwise
    }
}
impl<'p, const CW: bool> FanFormat<'p, SimList> for RecFormat<CW> {
    type Builder = RecBuilder<CW>;
    fn initialize(mut self, _: &'p SimList, a: Ix, b: Ix, c: Ix) -> Result<RecBuilder<CW>, SimErr> {
        self.1 = true;
        self.0.put(Ev::Init([a.id, b.id, c.id]))?;
        Ok(RecBuilder(self.0.clone(), false))
    }
}
impl<'p, const CW: bool> FanBuilder<'p, SimList> for RecBuilder<CW> {
    type Output = Rc<Rec>;
    type Error = SimErr;
    const WINDING: TriangleWinding = winding(CW);
    fn new_fan(&mut self, a: Ix, b: Ix, c: Ix) -> Result<(), SimErr> {
        self.0.put(Ev::NewFan([a.id, b.id, c.id]))
    }
    fn extend_fan(&mut self, v: Ix) -> Result<(), SimErr> {
        self.0.put(Ev::Extend(v.id))
    }
    fn build(mut self) -> Result<Rc<Rec>, SimErr> {
        self.1 = true;
        self.0.put(Ev::Build)?;
        Ok(self.0.clone())
    }
    fn fail(mut self, e: &TriangulationError<SimErr>) {
        self.1 = true;
        tick();
        self.0.ev.borrow_mut().push(Ev::Fail(kind(e)));
    }
}
pub struct RecList<const CW: bool>(Rc<Rec>, bool);
impl<const CW: bool> RecList<CW> {
    pub fn new(r: &Rc<Rec>) -> Self {
        RecList(r.clone(), false)
    }
}
impl<const CW: bool> Drop for RecList<CW> {
    fn drop(&mut self) {
        if !self.1 {
            self.0.ev.borrow_mut().push(Ev::FormatDropped);
        }
    }
}
impl<'p, const CW: bool> ListFormat<'p, SimList> for RecList<CW> {
    type Builder = RecBuilder<CW>;
    fn initialize(mut self, _: &'p SimList) -> Result<RecBuilder<CW>, SimErr> {
        self.1 = true;
        self.0.put(Ev::ListInit)?;
        Ok(RecBuilder(self.0.clone(), false))
    }
}
impl<'p, const CW: bool> ListBuilder<'p, SimList> for RecBuilder<CW> {
    type Output = Rc<Rec>;
    type Error = SimErr;
    const WINDING: TriangleWinding = winding(CW);
    fn add_triangle(&mut self, a: Ix, b: Ix, c: Ix) -> Result<(), SimErr> {
        self.0.put(Ev::Tri([a.id, b.id, c.id]))
    }
    fn build(mut self) -> Result<Rc<Rec>, SimErr> {
        self.1 = true;
        self.0.put(Ev::Build)?;
        Ok(self.0.clone())
    }
    fn fail(mut self, e: &TriangulationError<SimErr>) {
        self.1 = true;
        tick();
        self.0.ev.borrow_mut().push(Ev::Fail(kind(e)));
    }
}

/// Run configuration `cfg` with the recorder: 0-3 fan builders, 4-7 list
/// builders through the adapter; odd: reversed; 2,3,6,7: natively clockwise.
pub fn record_run<'p>(list: &'p SimList, cfg: i64, rec: &Rc<Rec>) -> Result<Rc<Rec>, Kind> {
    macro_rules! k {
        ($e:expr) => {
            $e.map_err(|e| kind(&e))
        };
    }
    match cfg {
        0 => k!(list.triangulate(RecFormat::<false>::new(rec))),
        1 => k!(list.triangulate(RecFormat::<false>::new(rec).reverse_winding())),
        2 => k!(list.triangulate(RecFormat::<true>::new(rec))),
        3 => k!(list.triangulate(RecFormat::<true>::new(rec).reverse_winding().reverse_winding())),
        4 => k!(list.triangulate(RecList::<false>::new(rec).into_fan_format())),
        5 => k!(list.triangulate(RecList::<false>::new(rec).into_fan_format().reverse_winding())),
        6 => k!(list.triangulate(RecList::<true>::new(rec).into_fan_format())),
        _ => list.trapezoidize().map_err(|e| tkind(&e)).and_then(|t| k!(t.triangulate(RecList::<true>::new(rec).into_fan_format().reverse_winding()))),
    }
}

/// The lifecycle automaton over one call's events.
fn lifecycle(ev: &[Ev], list_builder: bool, result: &Result<Rc<Rec>, Kind>, rec: &Rc<Rec>) -> Res {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum S {
        Format,
        Live,
        /// created, no triangle yet (list builders)
        Errored(u64),
        InitFailed(u64),
        Built,
        BuildFailed(u64),
        Failed,
        Unused,
    }
    let mut s = S::Format;
    let mut fail_kind: Option<Kind> = None;
    let mut i = 0;
    while i < ev.len() {
        let err = match ev.get(i + 1) {
            Some(Ev::Failed(n)) => Some(*n),
            _ => None,
        };
        s = match (&ev[i], s) {
            (Ev::Init(_), S::Format) if !list_builder => err.map_or(S::Live, S::InitFailed),
            (Ev::ListInit, S::Format) if list_builder => err.map_or(S::Live, S::InitFailed),
            (Ev::NewFan(_) | Ev::Extend(_), S::Live) if !list_builder => err.map_or(S::Live, S::Errored),
            (Ev::Tri(_), S::Live) if list_builder => err.map_or(S::Live, S::Errored),
            (Ev::Build, S::Live) => err.map_or(S::Built, S::BuildFailed),
            (Ev::Fail(k), S::Live | S::Errored(_)) => {
                if let S::Errored(n) = s {
                    let want = Kind::Builder(SimErr::Injected(n).to_string());
                    if *k != want {
                        viol!("fail-argument", "fail was called with {k:?} after the builder returned {want:?}");
                    }
                }
                fail_kind = Some(k.clone());
                S::Failed
            }
            (Ev::FormatDropped, S::Format) => S::Unused,
            (Ev::Dropped, _) => viol!("abandoned", "the builder was dropped in state {s:?} with neither build nor fail"),
            (e, _) => viol!("lifecycle", "{e:?} in state {s:?} (event {i})"),
        };
        i += 1 + err.is_some() as usize;
    }
    let injected = ev.iter().find_map(|e| if let Ev::Failed(n) = e { Some(Kind::Builder(SimErr::Injected(*n).to_string())) } else { None });
    match (s, result) {
        (S::Built, Ok(o)) => {
            if !Rc::ptr_eq(o, rec) {
                viol!("output", "the call did not return what build returned");
            }
        }
        (S::Built, Err(k)) => viol!("result", "build succeeded but the call returned {k:?}"),
        (S::Live | S::Errored(_), _) => viol!("lifecycle", "the builder saw neither build nor fail"),
        (_, Ok(_)) => viol!("result", "the call returned success in state {s:?}"),
        (S::Failed, Err(k)) => {
            if fail_kind.as_ref() != Some(k) {
                viol!("error", "fail was called with {fail_kind:?} but the call returned {k:?}");
            }
        }
        (S::InitFailed(_) | S::BuildFailed(_), Err(_)) => {}
        (S::Unused | S::Format, Err(k)) => {
            if matches!(k, Kind::Builder(_)) {
                viol!("error", "no callback failed but the call returned {k:?}");
            }
        }
    }
    if let (Some(want), Err(got)) = (&injected, result) {
        if want != got {
            viol!("error", "the builder returned {want:?} but the call returned {got:?}");
        }
    }
    if injected.is_some() && result.is_ok() {
        viol!("result", "a callback failed but the call succeeded");
    }
    Ok(())
}

fn gen_c09(r: &mut Prng, run: u64) -> Scn {
    let cause = [0, 0, 0, 0, 2, 2, 3, 4][r.us(8)];
    let polys = match cause {
        2 => gen::invalid(r, 24),
        3 => {
            let mut p = workload(r, 20);
            undersize(r, &mut p);
            p
        }
        4 => vec![vec![]; r.us(3)],
        _ => workload_or_large(r, run, 28, 400, 900),
    };
    Scn::new("C09", polys, any_order(r)).with("cause", cause).with("cfg", r.range(0, 7)).with("at", -2)
}
fn run_c09(s: &Scn, cx: &mut Cx) -> Res {
    let cfg = s.get("cfg");
    let list = SimList::new(s.polys(), s.view());
    let bud = budget(s.vertices()).min(20_000_000);
    let cause = s.get("cause");
    if cause == 0 && !is_valid(s.polys()) {
        return Ok(());
    }
    let mut failed = 0;
    let mut one = |at: i64, cx: &mut Cx| -> Result<i64, Viol> {
        let h = s.order.install();
        let rec = Rec::new(at);
        let out = guarded(bud, u64::MAX, || record_run(&list, cfg, &rec));
        cx.schedule(sub(h.taken().0 ^ s.hash(), at as u64));
        let res = match out {
            Out::Done(r) => r,
            Out::Panic(m) => viol!("panic", "panicked: {m}"),
            _ if cause == 2 => return Ok(0),
            _ => viol!("no-end", "no result"),
        };
        let ev = rec.events();
        cx.hist(ev.len() as u64);
        if cx.verbose {
            cx.say(|| format!("fault at {at}: {ev:?} -> {:?}", res.as_ref().map(|_| "output")));
        }
        lifecycle(&ev, cfg >= 4, &res, &rec)?;
        if let Err(k) = &res {
            cx.stat(
                match k {
                    Kind::Builder(_) => "fault: callback error",
                    Kind::Internal(_) => "fault: internal error",
                    _ => "fault: rejected input",
                },
                1,
            );
            failed += 1;
        }
        if cause == 0 && at < 0 {
            if let Err(k) = &res {
                viol!("error", "valid input was rejected: {k:?}");
            }
            // what the callbacks described is a triangulation
            let mut ts: Vec<Tri> = vec![];
            let mut fan: Vec<Id> = vec![];
            for e in &ev {
                match e {
                    Ev::Init(t) | Ev::NewFan(t) => {
                        ts.push(*t);
                        fan = vec![t[0], t[2]];
                    }
                    Ev::Extend(v) => {
                        ts.push([fan[0], fan[1], *v]);
                        fan[1] = *v;
                    }
                    Ev::Tri(t) => ts.push(*t),
                    _ => {}
                }
            }
            cx.state(hash_tris(&ts));
            let cw = [false, true, true, true, false, true, true, false][cfg as usize & 7];
            let reg = region(s.polys());
            judge_tiling(s.polys(), &reg, &ts, cw)?;
        }
        if at >= 0 && cause == 0 && res.is_ok() && at < rec.callbacks() {
            viol!("swallowed", "callback {at} failed but the call succeeded");
        }
        if cause >= 3 && ev.iter().any(|e| *e != Ev::FormatDropped) {
            viol!("lifecycle", "rejected input reached the builder: {ev:?}");
        }
        Ok(rec.callbacks())
    };
    let pin = s.get("at");
    let n = if pin == -2 || pin == -1 { one(-1, cx).map_err(|v| v.pin("at", -1))? } else { pin + 1 };
    if cause == 0 {
        for at in if pin >= 0 { vec![pin] } else if pin == -1 { vec![] } else { positions(n, s.hash()) } {
            one(at, cx).map_err(|v| v.pin("at", at))?;
        }
    }
    if failed > 0 {
        cx.nontrivial += 1;
    }
    Ok(())
}

// ---- C10 -------------------------------------------------------------

fn gen_c10(r: &mut Prng, run: u64) -> Scn {
    let polys = workload_or_large(r, run, 40, if run < 8 { 2 } else { 100 }, 1_500);
    let mut s = Scn::new("C10", polys, any_order(r));
    for _ in 0..2 + r.us(7) {
        // [what, collection, reversed, position, fill]
        let op = vec![r.range(0, 4), r.range(0, BINS as i64 - 1), r.range(0, 1), r.range(0, 1 << 30), r.range(0, 5)];
        s.ops.push(op);
    }
    s
}
fn run_c10(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let n = s.vertices();
    let list = SimList::new(s.polys(), s.view());
    let t = trap(&list, n)?;
    let bud = budget(n);
    let none = Fault::new(-2, false);
    let mut want: Option<Vec<Tri>> = None;
    let mut after_failure = 0u64;
    let mut bad = false;
    let total = {
        // how many steps an attempt takes, measured on a twin so that the first attempt below is really the first
        let list = SimList::new(s.polys(), s.view());
        let t = trap(&list, n)?;
        must_succeed(guarded(bud, u64::MAX, || reference(&t)))?;
        clock::ticks()
    };
    let _ = s.order.install();
    let last = vec![0, 0, 0, 0, 0];
    for (k, op) in s.ops.iter().chain(std::iter::once(&last)).enumerate() {
        let [what, rev, pos, fill] = [op[0], op[2], op[3], op[4]];
        let kind_ = op[1] as usize % BINS;
        let rev = rev != 0;
        let mut bin = Bin::new(kind_, fill as u32);
        let before = bin.content();
        let c = Call { fault: &none, reversed: rev, delim: DELIM, outer: false };
        cx.hist(what as u64);
        match what {
            1 => {
                let f = Fault::new(pos % (n as i64 + 1), pos & 1 == 1);
                let c = Call { fault: &f, reversed: rev, delim: DELIM, outer: pos & 2 == 2 };
                match guarded(bud, u64::MAX, || into_trap(&t, &mut bin, &c)) {
                    Out::Done(r) => {
                        if f.fired() {
                            cx.stat("fault: builder error", 1);
                            bad = true;
                        }
                        if r.is_err() != f.fired() {
                            viol!("result", "attempt {k}: fault fired: {}, result: {r:?}", f.fired());
                        }
                    }
                    Out::Panic(m) => viol!("panic", "attempt {k} after earlier attempts: {m}"),
                    _ => viol!("no-end", "attempt {k}: no result"),
                }
            }
            2 => match guarded(bud, 1 + pos as u64 % total.max(1), || into_trap(&t, &mut bin, &c)) {
                Out::Crash => {
                    cx.stat("fault: crash in user code", 1);
                    bad = true;
                }
                Out::Done(Ok(())) => {}
                Out::Done(Err(e)) => viol!("error", "attempt {k}: {e:?}"),
                Out::Panic(m) => viol!("panic", "attempt {k} after earlier attempts: {m}"),
                Out::Budget => viol!("no-end", "attempt {k}: no result"),
            },
            3 => {
                let ids: Vec<Id> = list.elems.iter().flatten().copied().collect();
                let mut bin = Bin::new(10, fill as u32);
                let c = Call { fault: &none, reversed: rev, delim: ids[pos as usize % ids.len()], outer: false };
                match guarded(bud, u64::MAX, || into_trap(&t, &mut bin, &c)) {
                    Out::Done(Err(_)) => {
                        cx.stat("fault: delimiter collision", 1);
                        bad = true;
                    }
                    Out::Done(Ok(())) => viol!("result", "attempt {k}: an index equal to the delimiter was accepted"),
                    Out::Panic(m) => viol!("panic", "attempt {k} after earlier attempts: {m}"),
                    _ => viol!("no-end", "attempt {k}: no result"),
                }
            }
            _ => {
                let r = guarded(bud, u64::MAX, || into_trap(&t, &mut bin, &c));
                if let Err(v) = must_succeed(r) {
                    viol!("attempt-failed", "attempt {k} (after {} earlier ones): {}", k, v.msg);
                }
                let ts = match appended(kind_, &before, &bin.content(), DELIM) {
                    Ok(ts) => ts,
                    Err(m) => viol!("attempt-failed", "attempt {k} into {}: {m}", Bin::name(kind_)),
                };
                let set = if rev { canon_set(&ts.iter().map(flip).collect::<Vec<_>>()) } else { canon_set(&ts) };
                cx.hist(hash_tris(&set));
                match &want {
                    None => {
                        let reg = region(s.polys());
                        if let Err(v) = judge_tiling(s.polys(), &reg, &set, false) {
                            viol!("attempt-differs", "attempt {k}: {}", v.msg);
                        }
                        want = Some(set);
                    }
                    Some(w) => {
                        if *w != set {
                            viol!("attempt-differs", "attempt {k} yields other triangles than an earlier one: {:?} instead of {:?}", diff(&set, w), diff(w, &set));
                        }
                    }
                }
                if bad {
                    after_failure += 1;
                }
            }
        }
    }
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(hash_tris(want.as_ref().map(|v| &v[..]).unwrap_or(&[])));
    if after_failure > 0 {
        cx.nontrivial += 1;
    }
    Ok(())
}
