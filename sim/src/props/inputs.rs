//! C12, C13, C16: how inputs are presented, and inputs that must be refused.

use crate::viol;
use super::outputs::{record_run, Ev, Rec};
use super::*;
use crate::bins::*;
use crate::real::{Wide, R};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::rc::Rc;
use std::sync::Arc;
use triangulate::{formats, ListFormat, Polygon, PolygonElement, PolygonList};

const REAL: &str = "the whole triangulate crate (release build); rand 0.8 except thread_rng, smallvec, zot";
const STUB: &str = "thread_rng and OS entropy (seeded schedule); user-written lists, indices, coordinates and builders are the simulated user's";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            level: "exploration",
            quick: 600_000,
            thorough: 6_000_000,
            valid_only: true,
            may_hang: false,
            gen: gen_c12,
            run: run_c12,
            rule: "one run = polygon set x insertion order x one of 37 representations (containers, vertex and float types, index substitutions, user-written lists, separator placements) x {indexed, de-indexed}; non-trivial: at least 4 vertices",
            real: REAL,
            stub: STUB,
            assumptions: &["coordinates exact in the float type used"],
        },
        Prop {
            id: "C13",
            level: "exploration",
            quick: 600_000,
            thorough: 3_000_000,
            valid_only: false,
            may_hang: false,
            gen: gen_c13,
            run: run_c13,
            rule: "one run = a set with undersized polygons or no vertices at all, at any place among valid polygons, through user lists with arbitrary separators, nested vectors or a single polygon; non-trivial: the set has at least one vertex",
            real: REAL,
            stub: STUB,
            assumptions: &["the other polygons of the set are valid"],
        },
        Prop {
            id: "C16",
            level: "exploration",
            quick: 500_000,
            thorough: 8_000_000,
            valid_only: false,
            may_hang: true,
            gen: gen_c16,
            run: run_c16,
            rule: "one run = a set that breaks a precondition (crossing edges, duplicate, shared or touching vertices, NaN or infinite coordinates) x insertion order x collection, followed by a valid call; non-trivial: the set is invalid",
            real: REAL,
            stub: STUB,
            assumptions: &["termination is not claimed for invalid geometry: a run over its step budget is stopped and its output not judged"],
        },
    ]
}

// ---- C12 -------------------------------------------------------------

const REPS: i64 = 37;

fn gen_c12(r: &mut Prng, run: u64) -> Scn {
    let rep = (run % REPS as u64) as i64;
    let mut polys = if run < 4 * REPS as u64 && rep == 21 && run / REPS as u64 % 2 == 0 {
        // about as many polygons as a u16 can tell apart
        let mut ps = gen::plate(r, 262_205, run == 21);
        r.shuffle(&mut ps);
        ps
    } else if run < 4 * REPS as u64 && matches!(rep, 13 | 21) {
        // about as many as a u16 can tell apart
        let n = 65_450 + r.us(600);
        gen::large(r, n)
    } else if r.chance(1, 60) {
        // wide enough for narrow index types to overflow
        let n = 240 + r.us(60);
        gen::large(r, n)
    } else {
        workload(r, 60)
    };
    if matches!(rep, 8 | 9 | 13 | 14 | 18 | 32 | 33 | 36) {
        polys.truncate(1);
    }
    let mut s = Scn::new("C12", polys, any_order(r)).with("rep", rep).with("out", r.range(0, 1)).with("aux", r.range(0, 1 << 20));
    if !matches!(rep, 1 | 14) {
        dress_view(r, &mut s);
    }
    s
}

/// A user list whose indices have nothing to do with positions, and whose
/// iterator yields `Option`s.
struct Pool {
    at: Vec<[f64; 2]>,
    order: Vec<Option<u32>>,
}
struct PoolIter<'i>(std::slice::Iter<'i, Option<u32>>);
impl<'i> Iterator for PoolIter<'i> {
    type Item = Option<u32>;
    fn next(&mut self) -> Option<Option<u32>> {
        self.0.next().copied()
    }
}
impl<'p> PolygonList<'p> for Pool {
    type Vertex = [f64; 2];
    type Index = u32;
    type IntoItem = Option<u32>;
    type Iter<'i>
        = PoolIter<'i>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.at.len()
    }
    fn iter_indices<'i>(&'i self) -> PoolIter<'i>
    where
        Self: 'i,
        'p: 'i,
    {
        PoolIter(self.order.iter())
    }
    fn get_vertex<'a>(&'a self, i: u32) -> &'a [f64; 2]
    where
        'p: 'a,
    {
        &self.at[(i ^ 0x5A5A) as usize]
    }
}

/// A user list whose indices are compound values of any shape.
struct Named<K> {
    at: Vec<[f64; 2]>,
    order: Vec<Option<K>>,
    find: HashMap<K, usize>,
}
struct NamedIter<'i, K>(std::slice::Iter<'i, Option<K>>);
impl<'i, K: Clone> Iterator for NamedIter<'i, K> {
    type Item = Option<K>;
    fn next(&mut self) -> Option<Option<K>> {
        self.0.next().cloned()
    }
}
impl<'p, K: Clone + Eq + std::hash::Hash + std::fmt::Debug + 'p> PolygonList<'p> for Named<K> {
    type Vertex = [f64; 2];
    type Index = K;
    type IntoItem = Option<K>;
    type Iter<'i>
        = NamedIter<'i, K>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.at.len()
    }
    fn iter_indices<'i>(&'i self) -> NamedIter<'i, K>
    where
        Self: 'i,
        'p: 'i,
    {
        NamedIter(self.order.iter())
    }
    fn get_vertex<'a>(&'a self, i: K) -> &'a [f64; 2]
    where
        'p: 'a,
    {
        &self.at[self.find[&i]]
    }
}

/// A user polygon over a vertex buffer in any order, which may hold vertices of
/// no polygon; its iterator must not be asked again once it has ended.
struct Loop<K> {
    at: Vec<[f64; 2]>,
    order: Vec<K>,
}
struct LoopIter<'i, K>(std::slice::Iter<'i, K>, bool);
impl<'i, K: Clone> Iterator for LoopIter<'i, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        assert!(!self.1, "asked for an index after the last one");
        let n = self.0.next().cloned();
        self.1 = n.is_none();
        n
    }
}
impl<'p, K: Clone + Eq + std::fmt::Debug + TryInto<usize> + 'p> Polygon<'p> for Loop<K> {
    type Vertex = [f64; 2];
    type Index = K;
    type Iter<'i>
        = LoopIter<'i, K>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.order.len()
    }
    fn iter_indices<'i>(&'i self) -> LoopIter<'i, K>
    where
        Self: 'i,
        'p: 'i,
    {
        LoopIter(self.order.iter(), false)
    }
    fn get_vertex(&self, i: K) -> &[f64; 2] {
        &self.at[i.try_into().ok().unwrap()]
    }
}
/// A list of one polygon that yields its indices as they are.
struct Plain(Loop<u32>);
impl<'p> PolygonList<'p> for Plain {
    type Vertex = [f64; 2];
    type Index = usize;
    type IntoItem = usize;
    type Iter<'i>
        = std::iter::Map<LoopIter<'i, u32>, fn(u32) -> usize>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.0.order.len()
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where
        Self: 'i,
        'p: 'i,
    {
        self.0.iter_indices().map(|i| i as usize)
    }
    fn get_vertex<'a>(&'a self, i: usize) -> &'a [f64; 2]
    where
        'p: 'a,
    {
        self.0.get_vertex(i as u32)
    }
}

/// An index type with one value it cannot hold.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Gap(u64);
thread_local! {
    static FORBIDDEN: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
impl TryFrom<usize> for Gap {
    type Error = ();
    fn try_from(v: usize) -> Result<Gap, ()> {
        if v as u64 == FORBIDDEN.get() {
            Err(())
        } else {
            Ok(Gap(v as u64 * 3 + 7))
        }
    }
}
impl TryFrom<Gap> for usize {
    type Error = ();
    fn try_from(v: Gap) -> Result<usize, ()> {
        if v.0 % 3 != 1 {
            return Err(());
        }
        Ok(((v.0 - 7) / 3) as usize)
    }
}

/// An index type that refuses values above 255, with an error of its own.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Byte(u8);
impl TryFrom<usize> for Byte {
    type Error = String;
    fn try_from(v: usize) -> Result<Byte, String> {
        u8::try_from(v).map(Byte).map_err(|e| e.to_string())
    }
}
impl From<Byte> for usize {
    fn from(v: Byte) -> usize {
        v.0 as usize
    }
}

fn id2(i: [usize; 2]) -> Id {
    [i[0] as u32, i[1] as u32]
}

fn run_c12(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let polys = s.polys().clone();
    let reg = region(&polys);
    let n = reg.vertices;
    let view = s.view();
    let input = view.f64(&polys);
    let deindexed = s.get("out") == 1;
    let aux = s.get("aux") as u64;
    let rep = s.get("rep");
    let maxlen = polys.iter().map(|p| p.len()).max().unwrap_or(0);
    let widest = maxlen.max(polys.len());
    let small = polys.iter().flatten().all(|q| q.0.abs() < 2048 && q.1.abs() < 2048);
    if rep == 1 && !small {
        return Ok(());
    }
    // de-indexed output is mapped back through the coordinates, which are distinct
    let key = |p: [f64; 2]| [(p[0] + 0.0).to_bits(), (p[1] + 0.0).to_bits()];
    let mut back: HashMap<[u64; 2], Id> = HashMap::new();
    for (i, p) in input.iter().enumerate() {
        for (j, q) in p.iter().enumerate() {
            back.insert(key(*q), [i as u32, j as u32]);
        }
    }
    let lost: Id = [u32::MAX, 0];
    let find = |p: [f64; 2]| back.get(&key(p)).copied().unwrap_or(lost);

    macro_rules! go {
        ($l:expr, $V:ty, $I:ty, $tov:expr, $toi:expr) => {{
            if deindexed {
                let mut o = Vec::<[$V; 3]>::new();
                $l.triangulate(formats::DeindexedListFormat::new(&mut o).into_fan_format()).map(|_| ()).map_err(|e| kind(&e))?;
                Ok(o.into_iter().map(|t| t.map(|v| find($tov(v)))).collect::<Vec<Tri>>())
            } else {
                let mut o = Vec::<[$I; 3]>::new();
                $l.triangulate(formats::IndexedListFormat::new(&mut o).into_fan_format()).map(|_| ()).map_err(|e| kind(&e))?;
                Ok(o.into_iter().map(|t| t.map(|i| $toi(i))).collect::<Vec<Tri>>())
            }
        }};
    }
    let pt = |v: [f64; 2]| v;
    let seps = |sep_heavy: bool| {
        // separators at the ends and repeated in between
        let mut r = Prng::new(aux);
        let mut e: Vec<Option<Id>> = vec![];
        for (i, p) in polys.iter().enumerate() {
            let k = if i == 0 { 0 } else { 1 } + if sep_heavy { r.us(4) } else { 0 };
            e.extend((0..k).map(|_| None));
            e.extend((0..p.len()).map(|j| Some([i as u32, j as u32])));
        }
        if sep_heavy {
            e.extend((0..r.us(4)).map(|_| None));
        }
        e
    };
    FORBIDDEN.set(u64::MAX);
    let mut must_panic = false;
    // ticks bound user-written lists; the others are bounded by the process watchdog
    let out: Out<Result<Vec<Tri>, Kind>> = match rep {
        0 => guarded(u64::MAX, u64::MAX, || go!(input, [f64; 2], [usize; 2], pt, id2)),
        1 => {
            let input = View::default().f32(&polys);
            guarded(u64::MAX, u64::MAX, || go!(input, [f32; 2], [usize; 2], |v: [f32; 2]| [v[0] as f64, v[1] as f64], id2))
        }
        2 => {
            let input: Vec<Vec<(f64, f64)>> = input.iter().map(|p| p.iter().map(|q| (q[0], q[1])).collect()).collect();
            guarded(u64::MAX, u64::MAX, || go!(input, (f64, f64), [usize; 2], |v: (f64, f64)| [v.0, v.1], id2))
        }
        3 => {
            let input: Vec<Box<[[f64; 2]]>> = input.iter().map(|p| p.clone().into_boxed_slice()).collect();
            guarded(u64::MAX, u64::MAX, || go!(input, [f64; 2], [usize; 2], pt, id2))
        }
        4 => {
            let input: Box<[Vec<[f64; 2]>]> = input.clone().into_boxed_slice();
            guarded(u64::MAX, u64::MAX, || go!(input, [f64; 2], [usize; 2], pt, id2))
        }
        5 => {
            let input: Arc<[Rc<[[f64; 2]]>]> = input.iter().map(|p| Rc::from(&p[..])).collect::<Vec<_>>().into();
            guarded(u64::MAX, u64::MAX, || go!(input, [f64; 2], [usize; 2], pt, id2))
        }
        6 => {
            let slices: Vec<&[[f64; 2]]> = input.iter().map(|p| &p[..]).collect();
            let input: &[&[[f64; 2]]] = &slices;
            guarded(u64::MAX, u64::MAX, || go!(input, [f64; 2], [usize; 2], pt, id2))
        }
        7 => {
            let input: Rc<[Arc<[(f64, f64)]>]> = input.iter().map(|p| p.iter().map(|q| (q[0], q[1])).collect::<Vec<_>>().into()).collect::<Vec<Arc<[(f64, f64)]>>>().into();
            guarded(u64::MAX, u64::MAX, || go!(input, (f64, f64), [usize; 2], |v: (f64, f64)| [v.0, v.1], id2))
        }
        8 => {
            let one = input[0].clone();
            guarded(u64::MAX, u64::MAX, || go!(one.as_polygon_list(), [f64; 2], usize, pt, |i: usize| [0, i as u32]))
        }
        9 => {
            let one: Box<[[f64; 2]]> = input[0].clone().into_boxed_slice();
            guarded(u64::MAX, u64::MAX, || {
                if deindexed {
                    let o = Polygon::triangulate(&one, formats::DeindexedListFormat::new(Vec::<[[f64; 2]; 3]>::new()).into_fan_format()).map_err(|e| kind(&e))?;
                    Ok(o.into_iter().map(|t| t.map(find)).collect())
                } else {
                    let t = Polygon::trapezoidize(&one).map_err(|e| tkind(&e))?;
                    let o = t.triangulate(formats::IndexedListFormat::new(Vec::<[usize; 3]>::new()).into_fan_format()).map_err(|e| kind(&e))?;
                    Ok(o.into_iter().map(|t| t.map(|i| [0, i as u32])).collect())
                }
            })
        }
        10 => {
            let mut list = SimList::new(&polys, view);
            list.elems = seps(true);
            guarded(budget(n), u64::MAX, || go!(list, Vx, Ix, |v: Vx| [v.x.0, v.y.0], |i: Ix| i.id))
        }
        11 => {
            let list = input.clone().index_with::<usize, u32>();
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [u32; 2], pt, |i: [u32; 2]| i))
        }
        12 => {
            must_panic = widest > 256;
            let list = input.clone().index_with::<usize, u8>();
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [u8; 2], pt, |i: [u8; 2]| [i[0] as u32, i[1] as u32]))
        }
        13 => {
            must_panic = maxlen > 65536;
            let list = input[0].clone().index_with::<u16>();
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], u16, pt, |i: u16| [0, i as u32]))
        }
        14 => {
            must_panic = maxlen > 128;
            let list = view.r(&polys)[0].clone().index_with::<i8>();
            guarded(budget(n), u64::MAX, || go!(list, [R; 2], i8, |v: [R; 2]| [v[0].0, v[1].0], |i: i8| [0, i as u32]))
        }
        15 => {
            // an index type with a hole in its range
            let f = if aux % 2 == 0 { u64::MAX } else { aux / 2 % (widest as u64 + 2) };
            FORBIDDEN.set(f);
            must_panic = f < widest as u64;
            let list = input.clone().index_with::<usize, Gap>();
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [Gap; 2], pt, |i: [Gap; 2]| i.map(|g| usize::try_from(g).unwrap_or(usize::MAX) as u32)))
        }
        16 => {
            let input = view.r(&polys);
            guarded(budget(n), u64::MAX, || go!(input, [R; 2], [usize; 2], |v: [R; 2]| [v[0].0, v[1].0], id2))
        }
        17 | 19 => {
            // a pool of vertices in any order, separators as in a hand-written list
            let mut r = Prng::new(aux ^ 5);
            let mut slots: Vec<u32> = (0..n as u32).collect();
            r.shuffle(&mut slots);
            let mut at = vec![[0.0; 2]; n];
            let mut name: HashMap<u32, Id> = HashMap::new();
            let mut k = 0;
            let mut order = vec![];
            for e in seps(rep == 19) {
                order.push(e.map(|id| {
                    let slot = slots[k];
                    k += 1;
                    at[slot as usize] = input[id[0] as usize][id[1] as usize];
                    name.insert(slot ^ 0x5A5A, id);
                    slot ^ 0x5A5A
                }));
            }
            let list = Pool { at, order };
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], u32, pt, |i: u32| name.get(&i).copied().unwrap_or(lost)))
        }
        18 => {
            // a single borrowed slice, its vertices as references into it
            let one: &[[f64; 2]] = &input[0];
            guarded(u64::MAX, u64::MAX, || go!(one.as_polygon_list(), [f64; 2], usize, pt, |i: usize| [0, i as u32]))
        }
        20 => {
            // empty polygons in between are no polygons
            let mut r = Prng::new(aux);
            let mut v: Vec<Vec<[f64; 2]>> = vec![];
            let mut names = vec![];
            for (i, p) in input.iter().enumerate() {
                for _ in 0..r.us(3) {
                    v.push(vec![]);
                    names.push(u32::MAX);
                }
                v.push(p.clone());
                names.push(i as u32);
            }
            if r.chance(1, 2) {
                v.push(vec![]);
                names.push(u32::MAX);
            }
            guarded(u64::MAX, u64::MAX, || go!(v, [f64; 2], [usize; 2], pt, |i: [usize; 2]| [names.get(i[0]).copied().unwrap_or(u32::MAX), i[1] as u32]))
        }
        30 | 31 => {
            // exact coordinates wider than any float
            // (a shear along x keeps the order of the vertices and the orientation of every three of
            // them, while the two products which decide the latter share ever more leading digits)
            let (k, off) = if aux % 2 == 0 { ((1i128 << 30) + 7, 5i128) } else { (1, 1i128 << (60 + aux / 2 % 50)) };
            let shear = [0, (1i128 << 20) + 3, (1i128 << 34) - 1, -(1i128 << 40) - 5][(aux / 100 % 4) as usize];
            let un = |v: i128, d: i128| ((v - d) / k) as i64;
            let back = |v: [i128; 2]| {
                let y = un(v[1], -off);
                (un(v[0] - shear * (v[1] + off), off), y)
            };
            macro_rules! wide {
                ($F:literal) => {{
                    type W = Wide<$F>;
                    let input: Vec<Vec<[W; 2]>> = polys.iter().map(|p| p.iter().map(|q| [Wide((q.0 as i128 + q.1 as i128 * shear) * k + off), Wide(q.1 as i128 * k - off)]).collect()).collect();
                    guarded(u64::MAX, u64::MAX, || go!(input, [W; 2], [usize; 2], |v: [W; 2]| view.at(back([v[0].0, v[1].0])), id2))
                }};
            }
            if rep == 30 {
                wide!(true)
            } else {
                wide!(false)
            }
        }
        32..=36 => {
            // polygons of the user's own type: a window into a shuffled buffer with unused vertices in it
            let mut r = Prng::new(aux ^ 7);
            let mut names: Vec<Vec<u32>> = vec![];
            macro_rules! own {
                ($i:expr, $K:ty) => {{
                    let p = &input[$i];
                    let mut slots: Vec<usize> = (0..p.len() + r.us(4)).collect();
                    r.shuffle(&mut slots);
                    let mut at = vec![[f64::NAN; 2]; slots.len()];
                    let mut name = vec![u32::MAX; slots.len()];
                    for (j, q) in p.iter().enumerate() {
                        at[slots[j]] = *q;
                        name[slots[j]] = j as u32;
                    }
                    names.push(name);
                    Loop { at, order: slots[..p.len()].iter().map(|v| <$K>::try_from(*v).unwrap()).collect() }
                }};
            }
            match rep {
                32 => {
                    let one = own!(0, u32);
                    let name = |i: u32| names[0].get(i as usize).map_or(lost, |j| [0, *j]);
                    guarded(u64::MAX, u64::MAX, || {
                        if deindexed {
                            let o = Polygon::triangulate(&one, formats::DeindexedListFormat::new(Vec::<[[f64; 2]; 3]>::new()).into_fan_format()).map_err(|e| kind(&e))?;
                            Ok(o.into_iter().map(|t| t.map(find)).collect())
                        } else {
                            let t = Polygon::trapezoidize(&one).map_err(|e| tkind(&e))?;
                            let o = t.triangulate(formats::IndexedListFormat::new(Vec::<[u32; 3]>::new()).into_fan_format()).map_err(|e| kind(&e))?;
                            Ok(o.into_iter().map(|t| t.map(name)).collect())
                        }
                    })
                }
                33 => {
                    let one = own!(0, usize).index_with::<u64>();
                    guarded(u64::MAX, u64::MAX, || go!(one, [f64; 2], u64, pt, |i: u64| names[0].get(i as usize).map_or(lost, |j| [0, *j])))
                }
                34 => {
                    let list: Vec<Loop<usize>> = (0..input.len()).map(|i| own!(i, usize)).collect();
                    guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [usize; 2], pt, |i: [usize; 2]| names.get(i[0]).and_then(|n| n.get(i[1])).map_or(lost, |j| [i[0] as u32, *j])))
                }
                35 => {
                    let list: Rc<[Loop<usize>]> = (0..input.len()).map(|i| own!(i, usize)).collect::<Vec<_>>().into();
                    let list = list.index_with::<usize, u32>();
                    guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [u32; 2], pt, |i: [u32; 2]| names.get(i[0] as usize).and_then(|n| n.get(i[1] as usize)).map_or(lost, |j| [i[0], *j])))
                }
                _ => {
                    let list = Plain(own!(0, u32));
                    guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], usize, pt, |i: usize| names[0].get(i).map_or(lost, |j| [0, *j])))
                }
            }
        }
        22..=29 => {
            // compound indices: every component carries something, all are needed to tell vertices apart
            let mut r = Prng::new(aux ^ 9);
            let salt = r.us(3);
            let heavy = r.chance(1, 2);
            // (polygon, vertex) -> three small numbers
            let code = |id: Id| [id[1] as usize % 16 + salt, id[0] as usize, id[1] as usize / 16];
            let decode = |c: [usize; 3]| [c[1] as u32, (c[2] * 16 + c[0].wrapping_sub(salt)) as u32];
            macro_rules! named {
                ($K:ty, $New:ty, $mk:expr, $un:expr) => {{
                    let mk = $mk;
                    let order: Vec<Option<$K>> = seps(heavy).into_iter().map(|e| e.map(|id| mk(code(id)))).collect();
                    let mut at = vec![];
                    let mut find = HashMap::new();
                    for (i, p) in input.iter().enumerate() {
                        for (j, q) in p.iter().enumerate() {
                            find.insert(mk(code([i as u32, j as u32])), at.len());
                            at.push(*q);
                        }
                    }
                    let list = Named { at, order, find }.index_with::<usize, $New>();
                    let un = $un;
                    guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], _, pt, |i| decode(un(i))))
                }};
            }
            match rep {
                22 => named!((usize, usize, usize), u32, |c: [usize; 3]| (c[0], c[1], c[2]), |i: (u32, u32, u32)| [i.0 as usize, i.1 as usize, i.2 as usize]),
                23 => named!((usize, usize), u64, |c: [usize; 3]| (c[0] + 1000 * c[2], c[1]), |i: (u64, u64)| [i.0 as usize % 1000, i.1 as usize, i.0 as usize / 1000]),
                24 => named!(Vec<usize>, u32, |c: [usize; 3]| c[..2 + (c[2] > 0) as usize].to_vec(), |i: Vec<u32>| [i[0] as usize, i[1] as usize, i.get(2).map_or(0, |v| *v as usize)]),
                25 => named!([usize; 3], u16, |c: [usize; 3]| c, |i: [u16; 3]| i.map(|v| v as usize)),
                26 => {
                    let f = if aux % 2 == 0 { u64::MAX } else { aux / 2 % 18 };
                    let hit = |c: [usize; 3]| c.iter().any(|v| *v as u64 == f);
                    FORBIDDEN.set(f);
                    must_panic = polys.iter().enumerate().any(|(i, p)| (0..p.len()).any(|j| hit(code([i as u32, j as u32]))));
                    named!((usize, usize, usize), Gap, |c: [usize; 3]| (c[0], c[1], c[2]), |i: (Gap, Gap, Gap)| [i.0, i.1, i.2].map(|g| usize::try_from(g).unwrap_or(usize::MAX >> 8)))
                }
                27 => {
                    let second = |c: [usize; 3]| c[1] * 64 + c[2];
                    must_panic = polys.iter().enumerate().any(|(i, p)| (0..p.len()).any(|j| second(code([i as u32, j as u32])) > 255));
                    named!((usize, usize), Byte, |c: [usize; 3]| (c[0], second(c)), |i: (Byte, Byte)| [i.0 .0 as usize, i.1 .0 as usize / 64, i.1 .0 as usize % 64])
                }
                28 => named!(Vec<usize>, i64, |c: [usize; 3]| vec![c[2], c[0], 7, c[1]], |i: Vec<i64>| [i[1] as usize, i[3] as usize, i[0] as usize]),
                _ => named!([usize; 1], u32, |c: [usize; 3]| [c[0] + 32 * (c[1] + 1000 * c[2])], |i: [u32; 1]| [i[0] as usize % 32, i[0] as usize / 32 % 1000, i[0] as usize / 32000]),
            }
        }
        _ => {
            // substituting twice
            must_panic = widest > 65536;
            let list = input.clone().index_with::<usize, u64>().index_with::<u64, u16>();
            guarded(u64::MAX, u64::MAX, || go!(list, [f64; 2], [u16; 2], pt, |i: [u16; 2]| [i[0] as u32, i[1] as u32]))
        }
    };
    cx.schedule(h.taken().0 ^ s.hash());
    if must_panic {
        cx.stat("fault: index does not fit", 1);
        match out {
            Out::Panic(m) => {
                cx.hist(m.len() as u64);
                cx.nontrivial += 1;
                return Ok(());
            }
            Out::Done(r) => viol!("index-overflow", "representation {rep}: an index that does not fit the substituted type was accepted; the call returned {:?}", r.map(|t| t.len())),
            _ => viol!("no-end", "representation {rep}: no result"),
        }
    }
    let ts = match must_succeed(out) {
        Ok(t) => t,
        Err(v) => viol!(v.class, "representation {rep}: {}", v.msg),
    };
    cx.state(hash_tris(&ts));
    if n >= 4 {
        cx.nontrivial += 1;
    }
    match judge_tiling(&polys, &reg, &ts, false) {
        Ok(_) => Ok(()),
        Err(v) => viol!(v.class, "representation {rep}, {}: {}", if deindexed { "de-indexed" } else { "indexed" }, v.msg),
    }
}

// ---- C13 -------------------------------------------------------------

fn gen_c13(r: &mut Prng, run: u64) -> Scn {
    let mut polys: Polys = if r.chance(1, 5) { vec![] } else { workload(r, if run % 500 == 0 { 400 } else { 30 }) };
    let k = if polys.is_empty() && r.chance(1, 2) { 0 } else { 1 + r.us(3) };
    for j in 0..k {
        let m = 1 + r.us(2);
        let q: Poly = (0..m).map(|i| (900_000 + 10 * j as i64 + i as i64, 900_000 - 7 * i as i64)).collect();
        let at = r.us(polys.len() + 1);
        polys.insert(at, q);
    }
    for _ in 0..r.us(3) {
        let at = r.us(polys.len() + 1);
        polys.insert(at, vec![]);
    }
    if r.chance(1, 10) {
        polys = (0..r.us(4)).map(|_| vec![]).collect();
    }
    Scn::new("C13", polys, any_order(r)).with("how", r.range(0, 6)).with("cfg", r.range(0, 7)).with("bin", r.range(0, BINS as i64 - 1)).with("fill", r.range(0, 6)).with("aux", r.range(0, 1 << 20))
}
fn run_c13(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let polys = s.polys();
    let sizes: Vec<usize> = polys.iter().map(|p| p.len()).filter(|n| *n == 1 || *n == 2).collect();
    let empty = polys.iter().all(|p| p.is_empty());
    if sizes.is_empty() && !empty {
        return Ok(());
    }
    if !is_valid(&polys.iter().filter(|p| p.len() > 2).cloned().collect::<Vec<_>>()) {
        return Ok(());
    }
    let view = s.view();
    let mut list = SimList::new(polys, view);
    let mut r = Prng::new(s.get("aux") as u64);
    if r.chance(1, 2) {
        // arbitrary separators
        list.elems.clear();
        for (i, p) in polys.iter().enumerate() {
            let k = r.us(3) + (i > 0) as usize;
            list.elems.extend((0..k).map(|_| None));
            list.elems.extend((0..p.len()).map(|j| Some([i as u32, j as u32])));
        }
        list.elems.extend((0..r.us(3)).map(|_| None));
    }
    let bud = budget(s.vertices());
    let judge = |k: Kind, how: &str| -> Res {
        let good = if empty { k == Kind::NoVertices } else { matches!(k, Kind::NotEnough(n) if sizes.contains(&n)) };
        if !good {
            viol!("wrong-error", "{how}: {k:?} for polygons of sizes {:?}", polys.iter().map(|p| p.len()).collect::<Vec<_>>());
        }
        Ok(())
    };
    macro_rules! refused {
        ($o:expr, $how:expr) => {
            match $o {
                Out::Done(Err(k)) => {
                    cx.hist(k.code());
                    cx.stat(if empty { "fault: no vertices" } else { "fault: undersized polygon" }, 1);
                    judge(k, $how)?
                }
                Out::Done(Ok(_)) => viol!("accepted", "{}: polygons of sizes {:?} were accepted", $how, polys.iter().map(|p| p.len()).collect::<Vec<_>>()),
                Out::Panic(m) => viol!("panic", "{}: {m}", $how),
                _ => viol!("no-end", "{}: no result", $how),
            }
        };
    }
    match s.get("how") {
        0 | 1 => {
            let rec = Rec::new(-1);
            let o = guarded(bud, u64::MAX, || record_run(&list, s.get("cfg"), &rec));
            refused!(o, "user list");
            if rec.events().iter().any(|e| *e != Ev::FormatDropped) {
                viol!("builder-created", "a builder was created for refused input: {:?}", rec.events());
            }
        }
        2 | 3 => {
            let kind_ = s.get("bin") as usize % BINS;
            let mut bin = Bin::new(kind_, s.get("fill") as u32);
            let before = bin.content();
            let none = Fault::new(-2, false);
            let c = Call { fault: &none, reversed: s.get("cfg") % 2 == 1, delim: DELIM, outer: false };
            let o = guarded(bud, u64::MAX, || into_list(&list, &mut bin, &c));
            refused!(o, "user list");
            if bin.content() != before {
                viol!("output-touched", "{} changed although the input was refused", Bin::name(kind_));
            }
        }
        4 => {
            let input = view.r(polys);
            let mut o = vec![vec![[7usize, 7]; 3]; s.get("fill") as usize];
            let res = guarded(bud, u64::MAX, || input.triangulate(formats::IndexedFanFormat::new(&mut o)).map(|_| ()).map_err(|e| kind(&e)));
            refused!(res, "nested vectors");
            if o != vec![vec![[7usize, 7]; 3]; s.get("fill") as usize] {
                viol!("output-touched", "the output changed although the input was refused");
            }
        }
        5 => {
            if !empty {
                let o = guarded(bud, u64::MAX, || list.trapezoidize().map(|_| ()).map_err(|e| tkind(&e)));
                refused!(o, "trapezoidize");
            }
        }
        _ => {
            // the smallest offender alone, as a single polygon
            let one: Vec<[R; 2]> = match polys.iter().filter(|p| p.len() == 1 || p.len() == 2).next() {
                Some(p) => p.iter().map(|q| view.at(*q).map(R)).collect(),
                None => vec![],
            };
            let mut o = vec![[5usize; 3]; s.get("fill") as usize];
            let res = guarded(bud, u64::MAX, || Polygon::triangulate(&one, formats::IndexedListFormat::new(&mut o).into_fan_format()).map(|_| ()).map_err(|e| kind(&e)));
            match res {
                Out::Done(Err(k)) => {
                    let good = if one.is_empty() { k == Kind::NoVertices } else { k == Kind::NotEnough(one.len()) };
                    cx.stat("fault: undersized polygon", 1);
                    if !good {
                        viol!("wrong-error", "single polygon of {} vertices: {k:?}", one.len());
                    }
                }
                Out::Done(Ok(_)) => viol!("accepted", "a single polygon of {} vertices was accepted", one.len()),
                Out::Panic(m) => viol!("panic", "single polygon: {m}"),
                _ => viol!("no-end", "single polygon: no result"),
            }
            if o.len() != s.get("fill") as usize {
                viol!("output-touched", "the output changed although the input was refused");
            }
        }
    }
    cx.schedule(h.taken().0 ^ s.hash());
    cx.state(s.hash());
    if !empty {
        cx.nontrivial += 1;
    }
    let _ = PolygonElement::<u8>::NewPolygon;
    Ok(())
}

// ---- C16 -------------------------------------------------------------

fn gen_c16(r: &mut Prng, run: u64) -> Scn {
    let max = match run % 40 {
        0 => 200,
        1..=9 => 60,
        _ => 16,
    };
    let polys = gen::invalid(r, max);
    let mut s = Scn::new("C16", polys, any_order(r)).with("bin", r.range(0, BINS as i64 - 1)).with("fill", r.range(0, 5)).with("rev", r.range(0, 1));
    s.sets.push(workload(r, 10));
    dress_view(r, &mut s);
    s
}
fn run_c16(s: &Scn, cx: &mut Cx) -> Res {
    let h = s.order.install();
    let kind_ = s.get("bin") as usize % BINS;
    let polys = s.polys();
    if polys.iter().any(|p| p.len() < 3) || polys.is_empty() {
        return Ok(());
    }
    let list = SimList::new(polys, s.view());
    let mut bin = Bin::new(kind_, s.get("fill") as u32);
    let before = bin.content();
    let none = Fault::new(-2, false);
    let c = Call { fault: &none, reversed: s.get("rev") != 0, delim: DELIM, outer: false };
    let hurt = damage();
    let out = guarded(2_000_000, u64::MAX, || into_list(&list, &mut bin, &c));
    match out {
        Out::Done(Ok(())) => {
            cx.stat("invalid input accepted", 1);
            let ts = match appended(kind_, &before, &bin.content(), DELIM) {
                Ok(ts) => ts,
                Err(m) => viol!("format", "{}: {m}", Bin::name(kind_)),
            };
            to_points(polys, &ts)?;
            cx.state(hash_tris(&ts));
        }
        Out::Done(Err(k)) => {
            cx.stat("fault: invalid geometry rejected", 1);
            cx.hist(k.code());
            if matches!(k, Kind::Builder(_) | Kind::NotEnough(_)) {
                viol!("wrong-error", "invalid geometry was reported as {k:?}");
            }
            if bin.content() != before {
                viol!("not-restored", "{} changed although the call failed with {k:?}", Bin::name(kind_));
            }
        }
        Out::Panic(m) => {
            if !cfg!(debug_assertions) {
                viol!("panic", "panicked on invalid geometry: {m}");
            }
        }
        Out::Budget => cx.stat("stopped after 2000000 steps (not judged)", 1),
        Out::Crash => viol!("harness", "unplanned crash"),
    }
    if damage() != hurt {
        viol!("damage", "an index or vertex was used after release, or released twice");
    }
    cx.schedule(h.taken().0 ^ s.hash());
    if !(polys.iter().flatten().all(|q| q.0.unsigned_abs() < 1 << 40 && q.1.unsigned_abs() < 1 << 40) && is_valid(polys)) {
        cx.nontrivial += 1;
    }
    // a later valid call is not disturbed
    if let Some(v) = s.sets.get(1).filter(|v| is_valid(v)) {
        let list = SimList::new(v, View::default());
        let mut bin = Bin::new(0, 0);
        let c = Call { fault: &none, reversed: false, delim: DELIM, outer: false };
        let n = v.iter().map(|p| p.len()).sum();
        if let Err(e) = must_succeed(guarded(budget(n), u64::MAX, || into_list(&list, &mut bin, &c))) {
            viol!("disturbed", "a valid call after the invalid one: {}", e.msg);
        }
        let reg = region(v);
        if let Err(e) = judge_tiling(v, &reg, &fans_tris(&bin.content()), false) {
            viol!("disturbed", "a valid call after the invalid one: {}", e.msg);
        }
    }
    Ok(())
}
