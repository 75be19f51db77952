//! The properties: for each, how runs are generated and how they are judged.

pub mod geo;
pub mod inputs;
pub mod isolate;
pub mod outputs;
#[cfg(feature = "svg")]
pub mod trace;

use crate::viol;
use crate::clock::*;
use crate::gen;
use crate::geom::*;
use crate::order::*;
use crate::prng::*;
use crate::scn::*;
use crate::world::*;
use triangulate::{TrapezoidationError, TriangulationError};

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// Simulated runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// Scenarios must hold only valid polygon sets (kept while minimising).
    pub valid_only: bool,
    /// A run that never returns is not judged (the property does not claim termination).
    pub may_hang: bool,
    pub gen: fn(&mut Prng, u64) -> Scn,
    pub run: fn(&Scn, &mut Cx) -> Res,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(geo::props());
    v.extend(outputs::props());
    v.extend(isolate::props());
    v.extend(inputs::props());
    #[cfg(feature = "svg")]
    v.extend(trace::props());
    v
}

/// An error reduced to what the caller can tell apart.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind {
    NotEnough(usize),
    Internal(String),
    NoVertices,
    Builder(String),
    Other(String),
}
pub fn tkind(e: &TrapezoidationError) -> Kind {
    match e {
        TrapezoidationError::NotEnoughVertices(n) if !e.to_string().contains(&n.to_string()) => Kind::Other(format!("a polygon of {n} vertices is reported as: {e}")),
        TrapezoidationError::NotEnoughVertices(n) => Kind::NotEnough(*n),
        TrapezoidationError::InternalError(i) => Kind::Internal(i.msg.clone()),
        _ => Kind::Other("trapezoidation error".into()),
    }
}
pub fn kind<E: std::error::Error>(e: &TriangulationError<E>) -> Kind {
    match e {
        TriangulationError::TrapezoidationError(t @ TrapezoidationError::NotEnoughVertices(_)) if !e.to_string().contains(&t.to_string()) => Kind::Other(format!("'{t}' is reported as '{e}'")),
        TriangulationError::TrapezoidationError(t) => tkind(t),
        TriangulationError::NoVertices if e.to_string().is_empty() => Kind::Other("an error without words".into()),
        TriangulationError::NoVertices => Kind::NoVertices,
        TriangulationError::InternalError(i) => Kind::Internal(i.msg.clone()),
        TriangulationError::FanBuilder(b) => {
            // shown with its own words, and with its cause
            let own = b.to_string();
            if !e.to_string().contains(&own) {
                return Kind::Other(format!("the builder's error '{own}' is reported as '{e}'"));
            }
            if let Some(c) = b.source() {
                let c = c.to_string();
                let chain = std::iter::successors(std::error::Error::source(e), |e| e.source()).take(8);
                if !chain.into_iter().any(|s| s.to_string() == c) {
                    return Kind::Other(format!("the builder's error '{own}' lost its cause '{c}'"));
                }
            }
            Kind::Builder(own)
        }
        _ => Kind::Other("triangulation error".into()),
    }
}
impl Kind {
    pub fn code(&self) -> u64 {
        match self {
            Kind::NotEnough(n) => 10 + *n as u64,
            Kind::Internal(_) => 1,
            Kind::NoVertices => 2,
            Kind::Builder(_) => 3,
            Kind::Other(_) => 4,
        }
    }
}

/// Steps a valid call may take: far above what any insertion order needs.
pub fn budget(n: usize) -> u64 {
    let n = n as u64 + 10;
    (600 * n * n).min(400_000 * n).max(1_000_000)
}

/// A usual workload: mostly small sets, some medium ones.
pub fn workload(r: &mut Prng, max: usize) -> Polys {
    let n = gen::size(r, max);
    gen::polygons(r, n).0
}

/// As `workload`, but one run in `every` has a far larger set (long fans, deep stacks).
pub fn workload_or_large(r: &mut Prng, run: u64, max: usize, every: u64, hi: usize) -> Polys {
    if run % every == every / 2 {
        let n = 120 + r.us(hi - 120);
        gen::large(r, n)
    } else {
        workload(r, max)
    }
}

/// All positions of a short execution; of a long one the ends and a sample between.
pub fn positions(n: i64, salt: u64) -> Vec<i64> {
    if n <= 400 {
        return (0..n).collect();
    }
    let mut r = Prng::new(salt);
    let mut v: Vec<i64> = (0..10).chain(n - 10..n).collect();
    v.extend((0..40).map(|_| r.range(10, n - 11)));
    v.sort_unstable();
    v.dedup();
    v
}

pub fn ids_of(v: &[[usize; 2]]) -> Vec<Id> {
    v.iter().map(|i| [i[0] as u32, i[1] as u32]).collect()
}

pub fn hash_tris(ts: &[Tri]) -> u64 {
    let mut f = Fold::default();
    for t in ts {
        for i in t {
            f.add((i[0] as u64) << 32 | i[1] as u64);
        }
    }
    f.0
}

/// Turn index triples into points, or say which index denotes nothing.
pub fn to_points(polys: &[Poly], ts: &[Tri]) -> Result<Vec<[Pt; 3]>, Viol> {
    let mut v = Vec::with_capacity(ts.len());
    for t in ts {
        match pts(polys, t) {
            Some(p) => v.push(p),
            None => viol!("foreign-index", "triangle {t:?} names a vertex that is not in the input"),
        }
    }
    Ok(v)
}

/// The exact-tiling oracle, as a violation.
pub fn judge_tiling(polys: &[Poly], reg: &Region, ts: &[Tri], clockwise: bool) -> Result<TilingFacts, Viol> {
    let mut p = to_points(polys, ts)?;
    if clockwise {
        for t in p.iter_mut() {
            t.swap(1, 2);
        }
    }
    match check_tiling(reg, &p, true) {
        Ok(f) => Ok(f),
        Err(m) => viol!("tiling", "{m}"),
    }
}

/// The conforming-mesh oracle.
pub fn judge_mesh(polys: &[Poly], reg: &Region, ts: &[Tri]) -> Res {
    let p = to_points(polys, ts)?;
    if ts.len() != reg.triangles {
        viol!("count", "{} triangles instead of {}", ts.len(), reg.triangles);
    }
    let mut es: Vec<(Pt, Pt)> = Vec::with_capacity(ts.len() * 3);
    let mut used: Vec<Pt> = Vec::with_capacity(ts.len() * 3);
    for (t, id) in p.iter().zip(ts) {
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            viol!("repeated-corner", "triangle {id:?} names a vertex twice");
        }
        for k in 0..3 {
            es.push((t[k], t[(k + 1) % 3]));
            used.push(t[k]);
        }
    }
    es.sort_unstable();
    for w in es.windows(2) {
        if w[0] == w[1] {
            viol!("edge-twice", "directed side {:?} -> {:?} belongs to two triangles", w[0].0, w[0].1);
        }
    }
    let mut bs = reg.boundary.clone();
    bs.sort_unstable();
    for &(a, b) in &bs {
        if es.binary_search(&(a, b)).is_err() {
            viol!("polygon-edge", "polygon edge {a:?} - {b:?} is not a side of a triangle on its inner side");
        }
        if es.binary_search(&(b, a)).is_ok() {
            viol!("polygon-edge", "polygon edge {a:?} - {b:?} has a triangle on its outer side");
        }
    }
    for &(a, b) in &es {
        if bs.binary_search(&(a, b)).is_err() && es.binary_search(&(b, a)).is_err() {
            viol!("open-side", "side {a:?} - {b:?} is neither a polygon edge nor shared with a second triangle");
        }
    }
    used.sort_unstable();
    used.dedup();
    if used.len() != reg.vertices {
        viol!("vertex-unused", "only {} of {} input vertices are used", used.len(), reg.vertices);
    }
    Ok(())
}

/// A valid call that did not simply succeed.
pub fn must_succeed<T>(o: Out<Result<T, Kind>>) -> Result<T, Viol> {
    match o {
        Out::Done(Ok(t)) => Ok(t),
        Out::Done(Err(k)) => viol!("error", "valid input was rejected: {k:?}"),
        Out::Panic(m) => viol!("panic", "panicked on valid input: {m}"),
        Out::Budget => viol!("no-end", "no result within {} steps", ticks()),
        Out::Crash => viol!("harness", "unplanned crash"),
    }
}

/// Random settings that change how numbers are written, never which polygon is meant.
pub fn dress_view(r: &mut Prng, s: &mut Scn) {
    if r.chance(1, 4) {
        s.p.insert("scale".into(), r.range(-300, 300));
        if r.chance(1, 2) {
            s.p.insert("stretch".into(), r.range(-100, 100));
        }
    }
    if r.chance(1, 5) {
        for k in ["offx", "offy"] {
            let m = 1i64 << r.range(20, 52);
            let near = if r.chance(1, 2) { 0 } else { r.range(-m / 2, 0) };
            s.p.insert(k.into(), *r.pick(&[m, -m, 0]) + near * r.range(0, 1));
        }
    }
    if r.chance(1, 4) {
        s.p.insert("negzero".into(), 1);
    }
}

pub fn any_order(r: &mut Prng) -> Order {
    Order::any(r)
}
