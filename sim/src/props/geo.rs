//! C01-C05, C17: geometry and progress under every insertion order.

use crate::viol;
use super::*;
use crate::clock;
use triangulate::{formats, FanBuilder, FanFormat, ListBuilder, ListFormat, PolygonList, TriangleWinding};

pub fn props() -> Vec<Prop> {
    let real = "the whole triangulate crate (release build), rand 0.8.8 except thread_rng, smallvec, zot";
    let stub = "thread_rng and OS entropy (seeded schedule); coordinates, indices, polygon lists and builders are the simulated user's";
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            quick: 480_000,
            thorough: 12_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c01,
            run: run_c01,
            rule: "one run = one generated polygon set x one insertion-order schedule x one output format; distinct by (polygons, words drawn, settings); non-trivial: at least 4 vertices",
            real,
            stub,
            assumptions: &["coordinates are integers below 2^25 times a power of two, so every orientation test is exact; rounding behaviour is not judged"],
        },
        Prop {
            id: "C02",
            level: "exploration",
            quick: 480_000,
            thorough: 12_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c02,
            run: run_c02,
            rule: "one run = one generated polygon set x one insertion-order schedule, the triangle adjacency rebuilt and checked side by side; non-trivial: at least 4 vertices",
            real,
            stub,
            assumptions: &["exact coordinates as in C01"],
        },
        Prop {
            id: "C03",
            level: "exploration",
            quick: 800_000,
            thorough: 10_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c03,
            run: run_c03,
            rule: "one run = polygon set x insertion order x builder configuration (fan or list, native winding, number of reversals, built-in or user builder); non-trivial: at least 4 vertices",
            real,
            stub,
            assumptions: &["exact coordinates as in C01; zero-area triangles have no winding"],
        },
        Prop {
            id: "C04",
            level: "exploration",
            quick: 640_000,
            thorough: 8_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c04,
            run: run_c04,
            rule: "one run = polygon set x insertion order (uniform or adversarial) under a step budget of 600 (n+10)^2; non-trivial: at least 4 vertices",
            real,
            stub,
            assumptions: &["a step is a coordinate operation or a callback; loops that perform neither are caught by the process watchdog"],
        },
        Prop {
            id: "C05",
            level: "exploration",
            quick: 162,
            thorough: 1_200,
            valid_only: false,
            may_hang: false,
            gen: gen_c05,
            run: run_c05,
            rule: "one run = one polygon family measured at two sizes, each averaged over several uniform insertion orders; non-trivial: always",
            real,
            stub,
            assumptions: &["work is coordinate operations, callbacks, index clones, bytes requested and code regions executed (loop bodies, branches, calls; compiled with coverage counters); processor time is not measured, nor loops inside the precompiled standard library"],
        },
        Prop {
            id: "C17",
            level: "exploration",
            quick: 120_000,
            thorough: 3_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c17,
            run: run_c17,
            rule: "one run = polygon set x insertion order in a build with debug assertions and overflow checks, the library's consistency check running after every insertion; non-trivial: at least 4 vertices",
            real: "the whole triangulate crate built with debug assertions and overflow checks",
            stub,
            assumptions: &["exact coordinates as in C01"],
        },
    ]
}

/// Huge sets reach relocation rounds and table sizes the small ones never do.
fn big(r: &mut Prng, lo: usize, hi: usize) -> Polys {
    let n = lo + r.us(hi - lo);
    gen::large(r, n)
}

/// More than 2^16 polygons, with or without one around them.
fn plate(r: &mut Prng, outer: bool) -> Polys {
    let mut ps = gen::plate(r, 270_000, outer);
    // (the library inserts polygons one by one as listed: row by row would be slow)
    r.shuffle(&mut ps);
    ps
}

fn gen_c01(r: &mut Prng, run: u64) -> Scn {
    let polys = match run {
        0..=7 => big(r, 66_000, 72_000),
        8..=39 => big(r, 2_000, 9_000),
        40..=41 => plate(r, run == 40),
        42..=43 => big(r, 140_000, 150_000),
        _ if run % 64 == 0 => big(r, 150, 1_200),
        _ => workload(r, 120),
    };
    let small = polys.iter().map(|p| p.len()).sum::<usize>() < 400;
    let order = if small { any_order(r) } else { Order::random(r.next()) };
    let mut s = Scn::new("C01", polys, order).with("fmt", r.range(0, 3));
    dress_view(r, &mut s);
    s
}

/// Triangulate nested vectors of counting coordinates into one of four outputs.
fn solve(s: &Scn, bud: u64) -> Out<Result<Vec<Tri>, Kind>> {
    let input = s.view().r(s.polys());
    guarded(bud, u64::MAX, || match s.get("fmt") {
        0 => {
            let mut o = Vec::<Vec<[usize; 2]>>::new();
            input.triangulate(formats::IndexedFanFormat::new(&mut o)).map_err(|e| kind(&e))?;
            Ok(o.iter().flat_map(|f| fan_tris(&ids_of(f))).collect())
        }
        1 => {
            let mut o = Vec::<[usize; 2]>::new();
            input.triangulate(formats::IndexedListFormat::new(&mut o).into_fan_format()).map_err(|e| kind(&e))?;
            Ok(ids_of(&o).chunks(3).filter(|c| c.len() == 3).map(|c| [c[0], c[1], c[2]]).collect())
        }
        2 => {
            let t = input.trapezoidize().map_err(|e| tkind(&e))?;
            let o = t.triangulate(formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format()).map_err(|e| kind(&e))?;
            Ok(o.iter().map(|t| t.map(|i| [i[0] as u32, i[1] as u32])).collect())
        }
        _ => {
            let list = SimList::new(s.polys(), s.view());
            let mut o = Vec::<Vec<Ix>>::new();
            list.triangulate(formats::IndexedFanFormat::new(&mut o)).map_err(|e| kind(&e))?;
            let r = o.iter().flat_map(|f| fan_tris(&f.iter().map(|i| i.id).collect::<Vec<_>>())).collect();
            Ok(r)
        }
    })
}

fn note(s: &Scn, cx: &mut Cx, h: &Handle, reg: &Region, ts: &[Tri]) {
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(hash_tris(ts));
    if reg.vertices >= 4 {
        cx.nontrivial += 1;
    }
    cx.stat("words drawn (insertion choices)", h.taken().1);
    cx.stat("vertices", reg.vertices as u64);
    cx.stat("triangles judged", ts.len() as u64);
    if reg.holes > 0 {
        cx.stat("runs with holes", 1);
    }
    if reg.outers > 1 {
        cx.stat("runs with several solids", 1);
    }
    if reg.vertices > 10_000 {
        cx.stat("runs above 10000 vertices", 1);
    }
    match s.order.mode {
        0 => cx.stat("order: uniform", 1),
        1 | 3 => cx.stat("order: near-identity", 1),
        _ => cx.stat("order: first-choice", 1),
    }
    cx.say(|| format!("triangles: {ts:?}"));
}

fn run_c01(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let reg = region(s.polys());
    let ts = must_succeed(solve(s, budget(reg.vertices)))?;
    note(s, cx, &h, &reg, &ts);
    let f = judge_tiling(s.polys(), &reg, &ts, false)?;
    cx.stat("zero-area triangles", f.zero_area as u64);
    Ok(())
}

fn gen_c02(r: &mut Prng, run: u64) -> Scn {
    let mut s = gen_c01(r, if run < 40 { run / 4 + 7 } else { run });
    s.prop = "C02".into();
    s
}
fn run_c02(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let reg = region(s.polys());
    let ts = must_succeed(solve(s, budget(reg.vertices)))?;
    note(s, cx, &h, &reg, &ts);
    judge_mesh(s.polys(), &reg, &ts)
}

// ---- C03 -------------------------------------------------------------

/// A user fan builder with either native winding.
pub struct UserFan<const CW: bool>;
pub struct UserFanB<const CW: bool>(Vec<Vec<Id>>);
impl<'p, const CW: bool> FanFormat<'p, SimList> for UserFan<CW> {
    type Builder = UserFanB<CW>;
    fn initialize(self, _: &'p SimList, a: Ix, b: Ix, c: Ix) -> Result<UserFanB<CW>, std::convert::Infallible> {
        tick();
        Ok(UserFanB(vec![vec![a.id, b.id, c.id]]))
    }
}
impl<'p, const CW: bool> FanBuilder<'p, SimList> for UserFanB<CW> {
    type Output = Vec<Vec<Id>>;
    type Error = std::convert::Infallible;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: Ix, b: Ix, c: Ix) -> Result<(), Self::Error> {
        tick();
        self.0.push(vec![a.id, b.id, c.id]);
        Ok(())
    }
    fn extend_fan(&mut self, v: Ix) -> Result<(), Self::Error> {
        tick();
        self.0.last_mut().unwrap().push(v.id);
        Ok(())
    }
    fn build(self) -> Result<Self::Output, Self::Error> {
        Ok(self.0)
    }
    fn fail(self, _: &TriangulationError<Self::Error>) {}
}
pub struct UserList<const CW: bool>;
pub struct UserListB<const CW: bool>(Vec<Tri>);
impl<'p, const CW: bool> ListFormat<'p, SimList> for UserList<CW> {
    type Builder = UserListB<CW>;
    fn initialize(self, _: &'p SimList) -> Result<UserListB<CW>, std::convert::Infallible> {
        tick();
        Ok(UserListB(vec![]))
    }
}
impl<'p, const CW: bool> ListBuilder<'p, SimList> for UserListB<CW> {
    type Output = Vec<Tri>;
    type Error = std::convert::Infallible;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn add_triangle(&mut self, a: Ix, b: Ix, c: Ix) -> Result<(), Self::Error> {
        tick();
        self.0.push([a.id, b.id, c.id]);
        Ok(())
    }
    fn build(self) -> Result<Self::Output, Self::Error> {
        Ok(self.0)
    }
    fn fail(self, _: &TriangulationError<Self::Error>) {}
}

fn gen_c03(r: &mut Prng, run: u64) -> Scn {
    let polys = if run < 2 { big(r, 66_000, 72_000) } else { workload_or_large(r, run, 100, 200, 1_500) };
    let order = if run < 2 { Order::random(r.next()) } else { any_order(r) };
    let mut s = Scn::new("C03", polys, order).with("builder", r.range(0, 9)).with("reversals", r.range(0, 3));
    dress_view(r, &mut s);
    s
}

/// Run one builder configuration over a trapezoidation, reversed `k` times.
macro_rules! reversed {
    ($t:expr, $k:expr, $f:expr, $get:expr) => {
        match $k {
            0 => $t.triangulate($f).map(|o| $get(&o)).map_err(|e| kind(&e)),
            1 => $t.triangulate($f.reverse_winding()).map(|o| $get(&o)).map_err(|e| kind(&e)),
            2 => $t.triangulate($f.reverse_winding().reverse_winding()).map(|o| $get(&o)).map_err(|e| kind(&e)),
            _ => $t.triangulate($f.reverse_winding().reverse_winding().reverse_winding()).map(|o| $get(&o)).map_err(|e| kind(&e)),
        }
    };
}

fn run_c03(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let reg = region(s.polys());
    let (b, k) = (s.get("builder"), s.get("reversals"));
    let list = SimList::new(s.polys(), s.view());
    let o = guarded(budget(reg.vertices), u64::MAX, || {
        let t = list.trapezoidize().map_err(|e| tkind(&e))?;
        let fans = |o: &Vec<Vec<Id>>| fans_tris(o);
        let list = |o: &Vec<Tri>| o.clone();
        let ixfans = |o: &Vec<Vec<Ix>>| o.iter().flat_map(|f| fan_tris(&f.iter().map(|i| i.id).collect::<Vec<_>>())).collect::<Vec<_>>();
        let ixlist = |o: &Vec<[Ix; 3]>| o.iter().map(|t| [t[0].id, t[1].id, t[2].id]).collect::<Vec<Tri>>();
        let ixflat = |o: &Vec<Ix>| o.chunks(3).filter(|c| c.len() == 3).map(|t| [t[0].id, t[1].id, t[2].id]).collect::<Vec<Tri>>();
        let vxfans = |o: &Vec<Vec<Vx>>| o.iter().flat_map(|f| fan_tris(&f.iter().map(|i| i.id).collect::<Vec<_>>())).collect::<Vec<_>>();
        let vxlist = |o: &Vec<(Vx, Vx, Vx)>| o.iter().map(|t| [t.0.id, t.1.id, t.2.id]).collect::<Vec<Tri>>();
        let split = |o: &Vec<Ix>| {
            o.split(|i| i.id == [u32::MAX, 0]).flat_map(|f| fan_tris(&f.iter().map(|i| i.id).collect::<Vec<_>>())).collect::<Vec<_>>()
        };
        match b {
            0 => reversed!(t, k, UserFan::<false>, fans),
            1 => reversed!(t, k, UserFan::<true>, fans),
            2 => reversed!(t, k, UserList::<false>.into_fan_format(), list),
            3 => reversed!(t, k, UserList::<true>.into_fan_format(), list),
            4 => reversed!(t, k, formats::IndexedFanFormat::new(Vec::<Vec<Ix>>::new()), ixfans),
            5 => reversed!(t, k, formats::IndexedListFormat::new(Vec::<[Ix; 3]>::new()).into_fan_format(), ixlist),
            6 => reversed!(t, k, formats::DeindexedFanFormat::new(Vec::<Vec<Vx>>::new()), vxfans),
            7 => reversed!(t, k, formats::DeindexedListFormat::new(Vec::<(Vx, Vx, Vx)>::new()).into_fan_format(), vxlist),
            _ if b % 2 == 0 => reversed!(t, k, formats::DelimitedFanFormat::new(Vec::<Ix>::new(), Ix::new([u32::MAX, 0])), split),
            _ => reversed!(t, k, formats::IndexedListFormat::new(Vec::<Ix>::new()).into_fan_format(), ixflat),
        }
    });
    let ts = must_succeed(o)?;
    note(s, cx, &h, &reg, &ts);
    let clockwise = (b == 1 || b == 3) ^ (k % 2 == 1);
    cx.stat(if clockwise { "clockwise requested" } else { "counter-clockwise requested" }, 1);
    let p = to_points(s.polys(), &ts)?;
    for (t, id) in p.iter().zip(&ts) {
        let o = orient(t[0], t[1], t[2]);
        if (o < 0 && !clockwise) || (o > 0 && clockwise) {
            viol!("winding", "triangle {id:?} {t:?} is {}clockwise", if o > 0 { "counter-" } else { "" });
        }
    }
    judge_tiling(s.polys(), &reg, &ts, clockwise)?;
    Ok(())
}

// ---- C04 -------------------------------------------------------------

fn gen_c04(r: &mut Prng, run: u64) -> Scn {
    let polys = match run {
        0..=15 => big(r, 700, 1_500),
        _ if run % 50 == 0 => big(r, 100, 500),
        _ => workload(r, 150),
    };
    let order = if run == 0 { Order::random(r.next()) } else { Order::adversarial(r) };
    Scn::new("C04", polys, order).with("fmt", r.range(0, 3))
}
fn run_c04(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let reg = region(s.polys());
    let n = reg.vertices as u64 + 10;
    let ts = must_succeed(solve(s, 600 * n * n))?;
    note(s, cx, &h, &reg, &ts);
    let ratio = ticks() * 1000 / (n * n);
    let e = cx.stats.entry("max steps per (n+10)^2, in thousandths").or_insert(0);
    *e = (*e).max(ratio);
    if ts.is_empty() {
        viol!("nothing", "a valid call returned no triangles");
    }
    Ok(())
}

// ---- C05 -------------------------------------------------------------

fn gen_c05(r: &mut Prng, run: u64) -> Scn {
    // every 17th run looks at all families together, where a slow growth stands out from the noise
    let fam = if run % (gen::LARGE as u64 + 1) == 0 { -1 } else { (run % (gen::LARGE as u64 + 1)) as i64 - 1 };
    let (a, b) = [(256, 8_192), (512, 16_384), (1_024, 32_768)][(run / (gen::LARGE as u64 + 1)) as usize % 3];
    Scn::new("C05", vec![vec![(0, 0), (1, 0), (0, 1)]], Order::random(r.next()))
        .with("family", fam)
        .with("small", a)
        .with("large", b)
        .with("shape", r.range(0, 1 << 40))
}
/// Average work per vertex.
struct Work {
    steps: f64,
    bytes: f64,
    /// Steps of the trapezoidation alone.
    trap: f64,
    /// Code regions executed.
    regions: f64,
}
fn work(s: &Scn, n: usize, reps: u64, cx: &mut Cx) -> Result<Work, Viol> {
    let (mut t, mut by, mut v) = (0u64, 0u64, 0u64);
    let (mut trap, mut reg) = (0u64, 0u64);
    for k in 0..reps {
        let mut r = Prng::new(sub(s.get("shape") as u64, sub(n as u64, k)));
        let polys = vec![gen::family(&mut r, s.get("family") as usize, n)];
        let reg_n: usize = polys[0].len();
        let list = SimList::new(&polys, View::default());
        let o = Order::random(sub(s.order.seed, sub(n as u64, k)));
        let h = o.install();
        let before = crate::alloc::requested();
        let reg0 = crate::clock::regions();
        let out = guarded(400_000 * (n as u64 + 100), u64::MAX, || {
            let tz = list.trapezoidize().map_err(|e| tkind(&e))?;
            let a = clock::ticks();
            tz.triangulate(formats::IndexedFanFormat::new(Vec::<Vec<Ix>>::new())).map(|_| a).map_err(|e| kind(&e))
        });
        trap += must_succeed(out)?;
        by += crate::alloc::requested() - before;
        reg += crate::clock::regions() - reg0;
        t += ticks();
        v += reg_n as u64;
        cx.schedule(h.taken().0);
        cx.stat("words drawn (insertion choices)", h.taken().1);
        cx.stat("vertices", reg_n as u64);
    }
    let per = |x: u64| x as f64 / v as f64;
    cx.stat("code regions executed", reg);
    Ok(Work { steps: per(t), bytes: per(by), trap: per(trap), regions: per(reg) })
}
fn run_c05(s: &Scn, cx: &mut Cx) -> Res {
    let (a, b) = (s.get("small").max(64) as usize, s.get("large").max(64) as usize);
    if !cfg!(vsim_cov) {
        viol!("harness", "this build does not count code regions");
    }
    if s.get("family") < 0 {
        let (mut t, mut z, mut g) = (0.0, 0.0, 0.0);
        for f in 0..gen::LARGE as i64 {
            let mut q = s.clone().with("family", f).with("shape", s.get("shape") ^ f << 33);
            q.order.seed = sub(s.order.seed, f as u64);
            let w1 = work(&q, a, 24, cx)?;
            let w2 = work(&q, b, 2, cx)?;
            t += w2.steps / w1.steps / gen::LARGE as f64;
            z += w2.trap / w1.trap / gen::LARGE as f64;
            g += w2.regions / w1.regions / gen::LARGE as f64;
        }
        cx.nontrivial += 1;
        cx.state((t * 1e6) as u64);
        cx.say(|| format!("all families: steps per vertex grow by {t:.3}, for the trapezoidation alone by {z:.3}, code regions by {g:.3}"));
        if std::env::var("VSIM_C05").is_ok() {
            eprintln!("{a} {b} all: {t:.3} {z:.3} {g:.3}");
        }
        if z > 1.3 || t > 1.3 {
            viol!("growth", "from n={a} to n={b}, steps per vertex grow by a factor {t:.3} averaged over all families ({z:.3} for the trapezoidation alone): like log n, not log* n");
        }
        if g > 1.2 {
            viol!("growth", "from n={a} to n={b}, code regions executed per vertex grow by a factor {g:.3} averaged over all families");
        }
        return Ok(());
    }
    // the order is a random one: other draws, other histories (for an order that is always
    // the same, or one of a few, there is a polygon it is a worst case for)
    let mut r = Prng::new(s.get("shape") as u64);
    let one = SimList::new(&vec![gen::family(&mut r, s.get("family") as usize, 160)], View::default());
    let mut seen = std::collections::HashSet::new();
    const DRAWS: usize = 48;
    for k in 0..DRAWS as u64 {
        let h = Order::random(sub(s.order.seed, 7_000 + k)).install();
        must_succeed(guarded(budget(400), u64::MAX, || one.trapezoidize().map(|_| ()).map_err(|e| tkind(&e))))?;
        seen.insert(ticks());
        cx.schedule(h.taken().0);
    }
    if std::env::var("VSIM_C05").is_ok() {
        eprintln!("distinct {}", seen.len());
    }
    if seen.len() < DRAWS / 2 {
        viol!("order", "{DRAWS} calls with different random numbers had only {} different courses: the insertion order is not random", seen.len());
    }
    let w1 = work(s, a, 24, cx)?;
    let w2 = work(s, b, 4, cx)?;
    cx.nontrivial += 1;
    cx.state((w1.steps * 1000.) as u64 ^ ((w2.steps * 1000.) as u64) << 32);
    let both = |f: fn(&Work) -> f64| format!("{:.1} -> {:.1}", f(&w1), f(&w2));
    cx.say(|| format!("per vertex: steps {} (trapezoidation {}), bytes {}, code regions {}", both(|w| w.steps), both(|w| w.trap), both(|w| w.bytes), both(|w| w.regions)));
    if std::env::var("VSIM_C05").is_ok() {
        eprintln!("{} {} fam {}: {:.3} {:.3} {:.3} {:.3}", a, b, s.get("family"), w2.steps / w1.steps, w2.trap / w1.trap, w2.bytes / w1.bytes, w2.regions / w1.regions);
    }
    if w2.steps > w1.steps * 1.75 {
        viol!("work", "steps per vertex grow from {:.1} at n={a} to {:.1} at n={b}", w1.steps, w2.steps);
    }
    if w2.bytes > w1.bytes * 2.0 {
        viol!("memory", "bytes per vertex grow from {:.1} at n={a} to {:.1} at n={b}", w1.bytes, w2.bytes);
    }
    if w2.regions > w1.regions * 1.5 {
        viol!("regions", "code regions executed per vertex grow from {:.1} at n={a} to {:.1} at n={b}", w1.regions, w2.regions);
    }
    Ok(())
}

// ---- C17 -------------------------------------------------------------

fn gen_c17(r: &mut Prng, run: u64) -> Scn {
    let over = run >= 1 << 40;
    let polys = match run {
        _ if over && run % 16 == 15 => plate(r, run % 32 == 15),
        _ if over && run % 16 == 14 => big(r, 140_000, 150_000),
        _ if over => big(r, 66_000, 72_000),
        0..=7 => big(r, 3_000, 5_000),
        _ if run % 400 == 0 => big(r, 300, 1_500),
        _ if run % 400 == 200 => big(r, 60, 300),
        _ => workload(r, 50),
    };
    let order = if over { Order::random(r.next()) } else { any_order(r) };
    let mut s = Scn::new("C17", polys, order).with("fmt", r.range(0, 3)).with("over", over as i64);
    dress_view(r, &mut s);
    s
}
fn run_c17(s: &Scn, cx: &mut Cx) -> Res {
    // (the largest sets are left to a build which checks for overflow only)
    if !cfg!(debug_assertions) && s.get("over") == 0 {
        viol!("harness", "this build has no debug assertions");
    }
    let h = s.order.install();
    let reg = region(s.polys());
    let ts = must_succeed(solve(s, u64::MAX))?;
    note(s, cx, &h, &reg, &ts);
    judge_tiling(s.polys(), &reg, &ts, false)?;
    Ok(())
}
