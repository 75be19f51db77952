//! The user side of the library, owned by the simulator: polygon lists,
//! vertices and indices whose every operation is a tick, and which are
//! counted while they live.

use crate::clock::tick;
use crate::geom::*;
use crate::real::R;
use std::cell::Cell;
use triangulate::{PolygonElement, PolygonList, Vertex};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DAMAGE: Cell<u64> = const { Cell::new(0) };
}
const ALIVE: u32 = 0xA11E_5EED;
const DEAD: u32 = 0xDEAD_DEAD;

/// Counts live objects and notices a second release, or use after release.
pub struct Token(u32);
impl Token {
    pub fn new() -> Self {
        LIVE.set(LIVE.get() + 1);
        Token(ALIVE)
    }
    pub fn check(&self) {
        // volatile: the point is to notice states the optimiser may assume away
        if unsafe { std::ptr::read_volatile(&self.0) } != ALIVE {
            DAMAGE.set(DAMAGE.get() + 1);
        }
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.check();
        LIVE.set(LIVE.get() - 1);
        unsafe { std::ptr::write_volatile(&mut self.0, DEAD) };
    }
}
pub fn live() -> i64 {
    LIVE.get()
}
pub fn damage() -> u64 {
    DAMAGE.get()
}

pub type Id = [u32; 2];

/// An index of the simulated user: identifies vertex `id[1]` of polygon `id[0]`.
pub struct Ix {
    pub id: Id,
    t: Token,
}
impl Ix {
    pub fn new(id: Id) -> Self {
        Ix { id, t: Token::new() }
    }
}
impl Clone for Ix {
    fn clone(&self) -> Self {
        tick();
        self.t.check();
        Ix::new(self.id)
    }
}
impl PartialEq for Ix {
    fn eq(&self, o: &Ix) -> bool {
        tick();
        self.t.check();
        o.t.check();
        self.id == o.id
    }
}
impl Eq for Ix {}
impl std::fmt::Debug for Ix {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}.{}", self.id[0], self.id[1])
    }
}

/// A vertex of the simulated user; carries its identity along.
pub struct Vx {
    pub x: R,
    pub y: R,
    pub id: Id,
    t: Token,
}
impl Vx {
    pub fn new(x: f64, y: f64, id: Id) -> Self {
        Vx { x: R(x), y: R(y), id, t: Token::new() }
    }
}
impl Clone for Vx {
    fn clone(&self) -> Self {
        tick();
        self.t.check();
        Vx { x: self.x, y: self.y, id: self.id, t: Token::new() }
    }
}
impl Vertex for Vx {
    type Coordinate = R;
    fn x(&self) -> R {
        tick();
        self.t.check();
        self.x
    }
    fn y(&self) -> R {
        tick();
        self.t.check();
        self.y
    }
}

/// How integer coordinates become the numbers the library sees.
#[derive(Clone, Copy, Debug, Default)]
pub struct View {
    /// multiply x and y by a power of two: exact
    pub scale: [i32; 2],
    /// move the whole set far from the origin: exact, |coordinate| < 2^53
    pub off: [i64; 2],
    /// write zero as negative zero where the parity of the other coordinate says so
    pub negzero: bool,
}
pub const NAN: i64 = i64::MAX;
pub const INF: i64 = i64::MAX - 1;
pub const NINF: i64 = i64::MIN + 1;
impl View {
    fn num(&self, axis: usize, c: i64, other: i64) -> f64 {
        match c {
            NAN => f64::NAN,
            INF => f64::INFINITY,
            NINF => f64::NEG_INFINITY,
            c => match c.saturating_add(self.off[axis]) {
                0 if self.negzero && other & 1 == 1 => -0.0,
                c => c as f64 * 2f64.powi(self.scale[axis]),
            },
        }
    }
    pub fn at(&self, p: Pt) -> [f64; 2] {
        [self.num(0, p.0, p.1), self.num(1, p.1, p.0)]
    }
    pub fn r(&self, polys: &[Poly]) -> Vec<Vec<[R; 2]>> {
        polys.iter().map(|p| p.iter().map(|&q| self.at(q).map(R)).collect()).collect()
    }
    pub fn f64(&self, polys: &[Poly]) -> Vec<Vec<[f64; 2]>> {
        polys.iter().map(|p| p.iter().map(|&q| self.at(q)).collect()).collect()
    }
    pub fn f32(&self, polys: &[Poly]) -> Vec<Vec<[f32; 2]>> {
        polys.iter().map(|p| p.iter().map(|&q| self.at(q).map(|c| c as f32)).collect()).collect()
    }
}

/// A user-written polygon list.
pub struct SimList {
    pub polys: Vec<Vec<Vx>>,
    /// The element sequence the iterator yields; `None` separates polygons.
    pub elems: Vec<Option<Id>>,
}
impl SimList {
    pub fn new(polys: &[Poly], view: View) -> Self {
        let vs = polys
            .iter()
            .enumerate()
            .map(|(pi, p)| {
                p.iter()
                    .enumerate()
                    .map(|(i, &q)| {
                        let c = view.at(q);
                        Vx::new(c[0], c[1], [pi as u32, i as u32])
                    })
                    .collect()
            })
            .collect();
        let mut elems = vec![];
        for (pi, p) in polys.iter().enumerate() {
            if pi > 0 {
                elems.push(None);
            }
            elems.extend((0..p.len()).map(|i| Some([pi as u32, i as u32])));
        }
        SimList { polys: vs, elems }
    }
}
pub struct SimIter<'i>(std::slice::Iter<'i, Option<Id>>);
impl<'i> Iterator for SimIter<'i> {
    type Item = PolygonElement<Ix>;
    fn next(&mut self) -> Option<Self::Item> {
        tick();
        self.0.next().map(|e| match e {
            Some(id) => PolygonElement::ContinuePolygon(Ix::new(*id)),
            None => PolygonElement::NewPolygon,
        })
    }
}
impl<'p> PolygonList<'p> for SimList {
    type Vertex = Vx;
    type Index = Ix;
    type IntoItem = PolygonElement<Ix>;
    type Iter<'i>
        = SimIter<'i>
    where
        Self: 'i,
        Vx: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        tick();
        self.elems.iter().filter(|e| e.is_some()).count()
    }
    fn iter_indices<'i>(&'i self) -> SimIter<'i>
    where
        Self: 'i,
        Vx: 'i,
        'p: 'i,
    {
        tick();
        SimIter(self.elems.iter())
    }
    fn get_vertex<'a>(&'a self, index: Ix) -> &'a Vx
    where
        'p: 'a,
    {
        tick();
        index.t.check();
        &self.polys[index.id[0] as usize][index.id[1] as usize]
    }
}

pub type Tri = [Id; 3];

pub fn pts(polys: &[Poly], t: &Tri) -> Option<[Pt; 3]> {
    let mut o = [(0, 0); 3];
    for k in 0..3 {
        o[k] = *polys.get(t[k][0] as usize)?.get(t[k][1] as usize)?;
    }
    Some(o)
}

/// Rotate so that the smallest corner comes first: the winding is kept.
pub fn canon(t: &Tri) -> Tri {
    let m = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[m], t[(m + 1) % 3], t[(m + 2) % 3]]
}
pub fn canon_set(ts: &[Tri]) -> Vec<Tri> {
    let mut v: Vec<Tri> = ts.iter().map(canon).collect();
    v.sort();
    v
}
pub fn flip(t: &Tri) -> Tri {
    [t[0], t[2], t[1]]
}

pub fn fan_tris(f: &[Id]) -> Vec<Tri> {
    (1..f.len().saturating_sub(1)).map(|i| [f[0], f[i], f[i + 1]]).collect()
}
pub fn fans_tris(fs: &[Vec<Id>]) -> Vec<Tri> {
    fs.iter().flat_map(|f| fan_tris(f)).collect()
}
