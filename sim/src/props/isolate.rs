//! C11, C14: calls that overlap, and calls that are torn down.

use crate::viol;
use super::*;
use crate::bins::*;
use crate::clock;
use std::marker::PhantomData;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use triangulate::{PolygonList, Trapezoidation};

const STUB: &str = "thread_rng and OS entropy (seeded schedule); the thread scheduler (tasks are real threads released one at a time by the simulator); user-written lists, indices, coordinates and builders";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            quick: 100_000,
            thorough: 1_000_000,
            valid_only: false,
            may_hang: false,
            gen: gen_c11,
            run: run_c11,
            rule: "one run = 2 to 5 calls on their own threads (some nested inside another call's callbacks, some sharing one trapezoidation, some failing or crashing) interleaved at callback and coordinate-operation granularity by the seeded scheduler; distinct by the sequence of switches; non-trivial: at least two switches between unfinished calls",
            real: "the whole triangulate crate (release build) on real threads; rand 0.8 except thread_rng, smallvec, zot",
            stub: STUB,
            assumptions: &["calls are switched only inside user code (callbacks and coordinate operations), so races confined to library code between two such points are not explored"],
        },
        Prop {
            id: "C14",
            level: "fault_enumeration",
            quick: 60_000,
            thorough: 400_000,
            valid_only: false,
            may_hang: true,
            gen: gen_c14,
            run: run_c14,
            rule: "one run = polygon set x insertion order x collection: the undisturbed call, then the call crashed at steps spread over its whole length (every step for the smallest sets) or failed at every callback; live objects and the allocator balance are compared after each; non-trivial: at least one crash or error",
            real: "the whole triangulate crate (release build); rand 0.8 except thread_rng, smallvec, zot",
            stub: "thread_rng and OS entropy (seeded schedule); the global allocator is the system one behind a counter; indices, vertices and builders count their lives",
            assumptions: &["a one-time cache filled on first use is not a leak: a balance must repeat on a second identical call to count"],
        },
    ]
}

// ---- the scheduler ---------------------------------------------------

struct Inner {
    turn: usize,
    alive: Vec<bool>,
    r: Prng,
    switches: u64,
    limit: u64,
    quantum: u64,
    trace: Fold,
    beat: u64,
    log: Vec<(usize, usize, u64)>,
}
pub struct Sched {
    m: Mutex<Inner>,
    cv: Condvar,
}
impl Sched {
    fn next_slice(i: &mut Inner) -> u64 {
        if i.switches >= i.limit {
            return u64::MAX / 2;
        }
        let q = i.quantum;
        match i.r.below(4) {
            0 => 1 + i.r.below(4),
            1 => 1 + i.r.below(q * 8),
            _ => 1 + i.r.below(q),
        }
    }
    /// Called by the running task at tick `now`: hand over, wait for the turn, and say when to come back.
    fn pause(&self, me: usize, now: u64) -> u64 {
        let mut i = self.m.lock().unwrap_or_else(|e| e.into_inner());
        i.beat += 1;
        let live: Vec<usize> = (0..i.alive.len()).filter(|k| i.alive[*k]).collect();
        let to = if i.switches >= i.limit { me } else { *i.r.pick(&live) };
        if to != me {
            i.switches += 1;
            let f = (me as u64) << 48 ^ (to as u64) << 40 ^ now;
            i.trace.add(f);
            if i.log.len() < 200 {
                i.log.push((me, to, now));
            }
            i.turn = to;
            self.cv.notify_all();
            while i.turn != me {
                i = self.cv.wait(i).unwrap_or_else(|e| e.into_inner());
            }
        }
        now + Self::next_slice(&mut i)
    }
    fn enter(&self, me: usize) -> u64 {
        let mut i = self.m.lock().unwrap_or_else(|e| e.into_inner());
        while i.turn != me {
            i = self.cv.wait(i).unwrap_or_else(|e| e.into_inner());
        }
        Self::next_slice(&mut i)
    }
    fn leave(&self, me: usize) {
        let mut i = self.m.lock().unwrap_or_else(|e| e.into_inner());
        i.beat += 1;
        i.alive[me] = false;
        let live: Vec<usize> = (0..i.alive.len()).filter(|k| i.alive[*k]).collect();
        i.turn = if live.is_empty() { usize::MAX } else { *i.r.pick(&live) };
        let t = i.turn as u64;
        i.trace.add(0xF1 ^ t << 8);
        self.cv.notify_all();
    }
}

struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

type Shared = Share<Trapezoidation<'static, SimList>>;

struct World {
    sets: Vec<Polys>,
    lists: Vec<SimList>,
    shorts: Vec<SimList>,
    regions: Vec<Share<Region>>,
    shared: Vec<&'static Shared>,
    ops: Vec<Vec<i64>>,
}

/// One call, judged. `depth`: how many calls it is nested in.
fn call(w: &Arc<World>, op: &[i64], sched: &Arc<Sched>, me: usize, depth: u32, first: u64) -> Res {
    let [what, set, kind_, pos, nest, rev] = [op[0], op[1], op[2], op[3], op[4], op[5]];
    let set = set as usize % w.lists.len();
    let kind_ = kind_ as usize % BINS;
    let n: usize = w.sets[set].iter().map(|p| p.len()).sum();
    let mut bin = Bin::new(kind_, (pos % 5) as u32);
    let before = bin.content();
    let fault = match what {
        2 => Fault::new(pos % (n as i64), pos & 1 == 1),
        _ => Fault::new(-2, false),
    };
    let c = Call { fault: &fault, reversed: rev != 0, delim: DELIM, outer: pos & 2 == 2 };
    let crash = if what == 3 { 1 + pos as u64 % (60 * n as u64) } else { u64::MAX };
    // the hook: scheduling points, and perhaps one nested call
    let inner: Arc<Mutex<Option<Viol>>> = Arc::new(Mutex::new(None));
    {
        let (w, sched, inner) = (w.clone(), sched.clone(), inner.clone());
        let mut nest_at = if nest > 0 && depth < 2 { pos as u64 % (40 * n as u64 + 1) + 1 } else { u64::MAX };
        let mut slice_at = first;
        clock::set_hook(
            slice_at.min(nest_at),
            Some(Box::new(move |now| {
                if now >= nest_at {
                    nest_at = u64::MAX;
                    if !std::thread::panicking() {
                        let k = nest as usize % w.ops.len();
                        let mut op = w.ops[k].clone();
                        op[4] = if depth == 0 { op[4] } else { 0 };
                        let saved = clock::save();
                        let r = call(&w, &op, &sched, me, depth + 1, 50);
                        clock::set_hook(0, None);
                        clock::restore(saved);
                        if let Err(v) = r {
                            *inner.lock().unwrap_or_else(|e| e.into_inner()) = Some(v);
                        }
                    }
                }
                if now >= slice_at {
                    slice_at = sched.pause(me, now);
                }
                slice_at.min(nest_at)
            })),
        );
    }
    let bud = budget(n) * 2;
    let out = match what {
        1 => {
            let t = &w.shared[set].0;
            guarded(bud, crash, || into_trap(t, &mut bin, &c))
        }
        4 => guarded(bud, crash, || into_list(&w.shorts[set], &mut bin, &c)),
        _ => guarded(bud, crash, || into_list(&w.lists[set], &mut bin, &c)),
    };
    clock::set_hook(0, None);
    if let Some(mut v) = inner.lock().unwrap_or_else(|e| e.into_inner()).take() {
        v.msg = format!("nested call: {}", v.msg);
        return Err(v);
    }
    let name = ["valid call", "call on the shared trapezoidation", "call with a failing builder", "call that crashes", "call with an undersized polygon"][what as usize % 5];
    match out {
        Out::Done(Ok(())) => {
            if what == 4 || (what == 2 && fault.fired()) {
                viol!("isolation", "{name}: reports success");
            }
            let ts = match appended(kind_, &before, &bin.content(), DELIM) {
                Ok(t) => t,
                Err(m) => viol!("isolation", "{name}: {m}"),
            };
            if let Err(v) = judge_tiling(&w.sets[set], &w.regions[set].0, &ts, rev != 0) {
                viol!("isolation", "{name}: {}", v.msg);
            }
        }
        Out::Done(Err(k)) => {
            let good = match (&k, what) {
                (Kind::NotEnough(1), 4) => true,
                (Kind::Builder(m), 2) => fault.fired() && *m == SimErr::Injected(fault.at as u64).to_string(),
                _ => false,
            };
            if !good {
                viol!("isolation", "{name}: fails with {k:?}");
            }
            if bin.content() != before {
                viol!("isolation", "{name}: failed with {k:?} and left its collection changed");
            }
        }
        Out::Crash => {
            if what != 3 {
                viol!("harness", "{name}: unplanned crash");
            }
        }
        Out::Panic(m) => viol!("isolation", "{name}: panics: {m}"),
        Out::Budget => viol!("isolation", "{name}: no result within {bud} steps"),
    }
    Ok(())
}

fn gen_c11(r: &mut Prng, run: u64) -> Scn {
    let polys = workload_or_large(r, run, 14, 250, 400);
    let mut s = Scn::new("C11", polys, Order::random(r.next())).with("sched", r.range(0, 1 << 40)).with("quantum", *r.pick(&[3, 20, 150, 1000])).with("switches", *r.pick(&[4, 40, 4000]));
    for _ in 0..r.us(3) {
        let max = *r.pick(&[6, 14, 30]);
        let p = workload(r, max);
        s.sets.push(p);
    }
    for _ in 0..2 + r.us(4) {
        // [what, set, collection, position, nested op + 1, reversed]
        let what = [0, 0, 0, 1, 1, 2, 3, 4][r.us(8)];
        let nest = if r.chance(1, 3) { r.range(1, 5) } else { 0 };
        let op = vec![what, r.range(0, 2), r.range(0, BINS as i64 - 1), r.range(0, 1 << 30), nest, r.range(0, 1)];
        s.ops.push(op);
    }
    s
}

struct Probe<T>(PhantomData<T>);
trait ProbeNo {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> ProbeNo for &Probe<T> {}
trait ProbeYes {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T: Send + Sync> ProbeYes for Probe<T> {}

fn run_c11(s: &Scn, cx: &mut Cx) -> Res {
    if !s.sets.iter().all(|p| is_valid(p)) || s.ops.is_empty() {
        return Ok(());
    }
    if !(&Probe::<Trapezoidation<'static, SimList>>(PhantomData)).shareable() || !(&Probe::<Trapezoidation<'static, Vec<Vec<[f64; 2]>>>>(PhantomData)).shareable() {
        viol!("not-shareable", "a trapezoidation of thread-safe data is not Send + Sync any more");
    }
    let h = s.order.install();
    // trapezoidations the tasks share: built beforehand, alone
    let mut shared: Vec<&'static Shared> = vec![];
    let mut owned: Vec<(*mut SimList, *mut Shared)> = vec![];
    for p in &s.sets {
        let list: &'static SimList = Box::leak(Box::new(SimList::new(p, s.view())));
        let n = p.iter().map(|p| p.len()).sum();
        let t = must_succeed(guarded(budget(n), u64::MAX, || list.trapezoidize().map_err(|e| tkind(&e))))?;
        let t: &'static mut Shared = Box::leak(Box::new(Share(t)));
        owned.push((list as *const SimList as *mut SimList, t));
        shared.push(unsafe { &*(t as *const Shared) });
    }
    let shorts = s
        .sets
        .iter()
        .enumerate()
        .map(|(k, p)| {
            let mut p = p.clone();
            p.insert(k % (p.len() + 1), vec![(1_000_000, 7)]);
            SimList::new(&p, s.view())
        })
        .collect();
    let w = Arc::new(World {
        sets: s.sets.clone(),
        lists: s.sets.iter().map(|p| SimList::new(p, s.view())).collect(),
        shorts,
        regions: s.sets.iter().map(|p| Share(region(p))).collect(),
        shared,
        ops: s.ops.clone(),
    });
    let n = s.ops.len();
    let mut r = Prng::new(s.get("sched") as u64);
    let first = r.us(n);
    let sched = Arc::new(Sched {
        m: Mutex::new(Inner {
            turn: first,
            alive: vec![true; n],
            r,
            switches: 0,
            limit: s.get("switches").max(0) as u64,
            quantum: s.get("quantum").max(1) as u64,
            trace: Fold::default(),
            beat: 0,
            log: vec![],
        }),
        cv: Condvar::new(),
    });
    let results: Arc<Mutex<Vec<Option<(Res, u64)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let mut joins = vec![];
    for me in 0..n {
        let (w, sched, results) = (w.clone(), sched.clone(), results.clone());
        let order = Order { mode: s.order.mode, seed: sub(s.order.seed, me as u64), words: vec![] };
        joins.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let first = sched.enter(me);
                    crate::entropy(sub(order.seed, 77));
                    let _h = order.install();
                    let r = call(&w, &w.ops[me], &sched, me, 0, first);
                    rand::sim_install(None);
                    results.lock().unwrap()[me] = Some((r, clock::totals().0));
                    sched.leave(me);
                })
                .unwrap(),
        );
    }
    // watch for progress
    let mut beat = (0, Instant::now());
    loop {
        let i = sched.m.lock().unwrap_or_else(|e| e.into_inner());
        let (i, _) = sched.cv.wait_timeout_while(i, Duration::from_millis(500), |i| i.alive.iter().any(|a| *a)).unwrap_or_else(|e| e.into_inner());
        if !i.alive.iter().any(|a| *a) {
            break;
        }
        if i.beat != beat.0 {
            beat = (i.beat, Instant::now());
        } else if beat.1.elapsed() > Duration::from_secs(25) {
            let t = i.turn;
            let who = s.ops.get(t).map(|o| o[0]);
            viol!("blocked", "task {t} (kind {who:?}) stands still while {:?} other calls are suspended in user code", i.alive.iter().filter(|a| **a).count() - 1);
        }
    }
    for j in joins {
        if j.join().is_err() {
            viol!("harness", "a task died");
        }
    }
    for (l, t) in owned {
        unsafe {
            drop(Box::from_raw(t));
            drop(Box::from_raw(l));
        }
    }
    let (switches, trace, log) = {
        let i = sched.m.lock().unwrap_or_else(|e| e.into_inner());
        (i.switches, i.trace.0, i.log.clone())
    };
    cx.schedule(trace ^ s.hash());
    cx.state(h.taken().0);
    cx.stat("switches between calls", switches);
    cx.stat("calls run concurrently", n as u64);
    cx.say(|| format!("switches (from, to, at step): {log:?}"));
    for op in &s.ops {
        match op[0] {
            2 => cx.stat("fault: builder error", 1),
            3 => cx.stat("fault: crash in user code", 1),
            4 => cx.stat("fault: undersized polygon", 1),
            _ => {}
        }
        if op[4] > 0 {
            cx.stat("nested calls", 1);
        }
    }
    if switches >= 2 {
        cx.nontrivial += 1;
    }
    let results = std::mem::take(&mut *results.lock().unwrap());
    for (k, r) in results.into_iter().enumerate() {
        match r {
            Some((r, ticks)) => {
                cx.stat("steps in concurrent calls", ticks);
                cx.hist(ticks);
                if let Err(v) = r {
                    return Err(Viol { msg: format!("task {k}: {}", v.msg), ..v });
                }
            }
            None => viol!("harness", "task {k} left no result"),
        }
    }
    Ok(())
}

// ---- C14 -------------------------------------------------------------

fn gen_c14(r: &mut Prng, run: u64) -> Scn {
    let invalid = r.chance(1, 6);
    let polys = if invalid {
        gen::invalid(r, 16)
    } else if run % 7 == 0 {
        workload(r, 5)
    } else {
        workload_or_large(r, run, 40, 400, 700)
    };
    Scn::new("C14", polys, any_order(r))
        .with("bin", r.range(0, BINS as i64 - 1))
        .with("fill", r.range(0, 4))
        .with("rev", r.range(0, 1))
        .with("how", if invalid { 2 } else { r.range(0, 2) })
        .with("drop", r.range(0, 1))
        .with("at", -1)
        .with("salt", r.range(0, 1 << 20))
}

fn run_c14(s: &Scn, cx: &mut Cx) -> Res {
    let kind_ = s.get("bin") as usize % BINS;
    let polys = s.polys();
    if polys.is_empty() || s.vertices() == 0 {
        return Ok(());
    }
    let valid = polys.iter().flatten().all(|q| q.0.unsigned_abs() < 1 << 40 && q.1.unsigned_abs() < 1 << 40) && is_valid(polys);
    if !valid && s.get("how") != 2 {
        return Ok(());
    }
    let list = SimList::new(polys, s.view());
    let bud = if valid { budget(s.vertices()) } else { 2_000_000 };
    let rev = s.get("rev") != 0;
    let fill = s.get("fill") as u32;
    let outer = s.get("salt") & 1 == 1;
    let byval = s.get("drop") == 1;

    // One call, start to finish, with everything it made dropped again.
    // Returns how it ended and what is left over.
    let one = |fault: &Fault, crash: u64| -> (u8, i64, u64, (i64, i64), u64) {
        let h = s.order.install();
        let (l0, d0, m0) = (live(), damage(), crate::alloc::balance());
        let end;
        {
            let c = Call { fault, reversed: rev, delim: DELIM, outer };
            let o = if byval {
                guarded(bud, crash, || {
                    let t = list.trapezoidize().map_err(|e| tkind(&e))?;
                    let bin = Bin::new(kind_, fill);
                    by_value(&t, bin, rev, DELIM).map(|_| ())
                })
            } else {
                let mut bin = Bin::new(kind_, fill);
                let o = guarded(bud, crash, || into_list(&list, &mut bin, &c));
                drop(bin);
                o
            };
            end = match o {
                Out::Done(Ok(())) => 0,
                Out::Done(Err(_)) => 1,
                Out::Crash => 2,
                Out::Budget => 3,
                Out::Panic(_) => 4,
            };
        }
        let ticks = clock::ticks();
        let m1 = crate::alloc::balance();
        let left = (m1.0 - m0.0, m1.1 - m0.1);
        let (l1, d1) = (live(), damage());
        drop(h);
        (end, l1 - l0, d1 - d0, left, ticks)
    };
    let judge = |fault: &dyn Fn() -> Fault, crash: u64, what: &str, cx: &mut Cx| -> Result<u64, Viol> {
        let (end, lost, hurt, left, ticks) = one(&fault(), crash);
        cx.hist(end as u64);
        match end {
            0 => cx.stat("calls that succeeded", 1),
            1 => cx.stat("fault: error", 1),
            2 => cx.stat("fault: crash in user code", 1),
            3 => {}
            _ => {
                if valid {
                    viol!("panic", "{what}: panicked");
                }
                return Ok(ticks);
            }
        }
        if hurt > 0 {
            viol!("damage", "{what}: an object was used after release or released twice");
        }
        if lost != 0 {
            viol!("leak", "{what}: {lost} indices or vertices are still alive after everything was dropped");
        }
        if left != (0, 0) {
            // something cached once, or really lost?
            let (_, _, _, again, _) = one(&fault(), crash);
            if again != (0, 0) {
                viol!("memory", "{what}: {} bytes in {} blocks are not returned", again.0, again.1);
            }
        }
        Ok(ticks)
    };
    // Fault objects and strings are made outside the measured stretch where possible:
    // their own memory is released before it ends.
    let none = || Fault::new(-2, false);
    let total = judge(&none, u64::MAX, "undisturbed call", cx)?;
    cx.schedule(s.hash() ^ s.order.seed);
    cx.state(total ^ s.hash());
    let pin = s.get("at");
    let mut faults = 0;
    match s.get("how") {
        0 if !byval => {
            let count = Fault::none();
            {
                let _h = s.order.install();
                let mut bin = Bin::new(kind_, 0);
                let c = Call { fault: &count, reversed: rev, delim: DELIM, outer };
                must_succeed(guarded(bud, u64::MAX, || into_list(&list, &mut bin, &c)))?;
            }
            for at in positions(count.callbacks(), s.hash()).into_iter().chain((pin >= 0).then_some(pin / 2)) {
                for late in [false, true] {
                    let key = at * 2 + late as i64;
                    if (pin >= 0 && pin != key) || (at == 0 && late) {
                        continue;
                    }
                    judge(&|| Fault::new(at, late), u64::MAX, &format!("builder error at callback {at}"), cx).map_err(|v| v.pin("at", key))?;
                    faults += 1;
                }
            }
        }
        2 if !valid => {}
        _ => {
            // crash points over the whole call: all of them if few, else a spread with random offsets
            let k = if s.vertices() <= 6 { total } else { 48.min(total) };
            let mut r = Prng::new(s.get("salt") as u64);
            for j in 0..k {
                let lo = 1 + j * total / k;
                let hi = 1 + (j + 1) * total / k;
                let at = lo + r.below((hi - lo).max(1));
                if pin >= 0 && pin as u64 != at {
                    continue;
                }
                judge(&none, at, &format!("crash at step {at} of {total}"), cx).map_err(|v| v.pin("at", at as i64))?;
                cx.schedule(sub(s.hash() ^ s.order.seed, at));
                faults += 1;
            }
            if pin >= 0 {
                judge(&none, pin as u64, &format!("crash at step {pin} of {total}"), cx)?;
            }
        }
    }
    if faults > 0 || s.get("how") == 2 {
        cx.nontrivial += 1;
    }
    Ok(())
}
