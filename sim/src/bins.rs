//! Output collections of every supported type, and builders that inject faults.

use crate::clock::tick;
use crate::props::{kind, Kind};
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;
use triangulate::{formats, Fan, FanBuilder, FanFormat, Fans, List, ListBuilder, ListFormat, PolygonList, Trapezoidation, TriangleWinding, TriangulationError};

/// The error of a simulated builder; every injected error has its own number.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SimErr {
    Injected(u64),
    Inner(String),
}
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SimErr::Injected(n) => write!(f, "injected {n}"),
            SimErr::Inner(s) => write!(f, "{s}"),
        }
    }
}
/// What lies behind an injected error.
#[derive(Debug)]
pub struct Cause;
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("a simulated cause")
    }
}
impl std::error::Error for Cause {}
impl std::error::Error for SimErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        matches!(self, SimErr::Injected(_)).then_some(&Cause)
    }
}

/// Where the builder fails: at callback number `at` (0 is creation), before or
/// after the callback has had its effect.
#[derive(Clone)]
pub struct Fault {
    pub at: i64,
    pub late: bool,
    seen: Rc<Cell<i64>>,
    fired: Rc<Cell<bool>>,
}
impl Fault {
    pub fn new(at: i64, late: bool) -> Self {
        Fault { at, late, seen: Rc::new(Cell::new(0)), fired: Rc::new(Cell::new(false)) }
    }
    pub fn none() -> Self {
        Fault::new(-1, false)
    }
    pub fn callbacks(&self) -> i64 {
        self.seen.get()
    }
    pub fn fired(&self) -> bool {
        self.fired.get()
    }
    fn around<T>(&self, f: impl FnOnce() -> Result<T, SimErr>) -> Result<T, SimErr> {
        tick();
        let n = self.seen.get();
        self.seen.set(n + 1);
        if n == self.at {
            self.fired.set(true);
            if self.late && n > 0 {
                let _ = f();
            }
            return Err(SimErr::Injected(n as u64));
        }
        f()
    }
}

pub struct FaultFan<F>(pub F, pub Fault);
pub struct FaultFanB<B>(B, Fault);
impl<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for FaultFan<F> {
    type Builder = FaultFanB<F::Builder>;
    fn initialize(self, l: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, SimErr> {
        let FaultFan(f, fault) = self;
        let b = fault.around(|| f.initialize(l, a, b, c).map_err(|e| SimErr::Inner(e.to_string())))?;
        Ok(FaultFanB(b, fault))
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: FanBuilder<'p, P>> FanBuilder<'p, P> for FaultFanB<B> {
    type Output = B::Output;
    type Error = SimErr;
    const WINDING: TriangleWinding = B::WINDING;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), SimErr> {
        let i = &mut self.0;
        self.1.around(|| i.new_fan(a, b, c).map_err(|e| SimErr::Inner(e.to_string())))
    }
    fn extend_fan(&mut self, v: P::Index) -> Result<(), SimErr> {
        let i = &mut self.0;
        self.1.around(|| i.extend_fan(v).map_err(|e| SimErr::Inner(e.to_string())))
    }
    fn build(self) -> Result<Self::Output, SimErr> {
        self.0.build().map_err(|e| SimErr::Inner(e.to_string()))
    }
    fn fail(self, _: &TriangulationError<SimErr>) {
        tick();
        self.0.fail(&TriangulationError::NoVertices)
    }
}

pub struct FaultList<L>(pub L, pub Fault);
pub struct FaultListB<B>(B, Fault);
impl<'p, P: PolygonList<'p> + ?Sized, L: ListFormat<'p, P>> ListFormat<'p, P> for FaultList<L> {
    type Builder = FaultListB<L::Builder>;
    fn initialize(self, l: &'p P) -> Result<Self::Builder, SimErr> {
        let FaultList(f, fault) = self;
        let b = fault.around(|| f.initialize(l).map_err(|e| SimErr::Inner(e.to_string())))?;
        Ok(FaultListB(b, fault))
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: ListBuilder<'p, P>> ListBuilder<'p, P> for FaultListB<B> {
    type Output = B::Output;
    type Error = SimErr;
    const WINDING: TriangleWinding = B::WINDING;
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), SimErr> {
        let i = &mut self.0;
        self.1.around(|| i.add_triangle(a, b, c).map_err(|e| SimErr::Inner(e.to_string())))
    }
    fn build(self) -> Result<Self::Output, SimErr> {
        self.0.build().map_err(|e| SimErr::Inner(e.to_string()))
    }
    fn fail(self, _: &TriangulationError<SimErr>) {
        tick();
        self.0.fail(&TriangulationError::NoVertices)
    }
}

/// A user's own fan and collection of fans: newest first.
pub struct MyFan(pub Vec<Ix>);
impl Fan<Ix> for MyFan {
    fn new(a: Ix, b: Ix, c: Ix) -> Self {
        tick();
        MyFan(vec![a, b, c])
    }
    fn push(&mut self, v: Ix) {
        tick();
        self.0.push(v)
    }
}
#[derive(Default)]
pub struct MyFans(pub std::collections::VecDeque<MyFan>);
impl Fans for MyFans {
    type Fan = MyFan;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn truncate(&mut self, len: usize) {
        tick();
        while self.0.len() > len {
            self.0.pop_front();
        }
    }
    fn push(&mut self, f: MyFan) {
        tick();
        self.0.push_front(f)
    }
}
/// A user's own triangle list: one array per corner.
#[derive(Default)]
pub struct MyList(pub [Vec<Ix>; 3]);
impl List<Ix> for MyList {
    fn push(&mut self, a: Ix, b: Ix, c: Ix) {
        tick();
        self.0[0].push(a);
        self.0[1].push(b);
        self.0[2].push(c);
    }
    fn len(&self) -> usize {
        self.0[0].len()
    }
    fn truncate(&mut self, len: usize) {
        tick();
        for v in self.0.iter_mut() {
            v.truncate(len);
        }
    }
}

/// A user's own delimited list, newest first.
#[derive(Default)]
pub struct MyDelim(pub std::collections::VecDeque<Ix>);
impl Fans for MyDelim {
    type Fan = Ix;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn truncate(&mut self, len: usize) {
        tick();
        while self.0.len() > len {
            self.0.pop_front();
        }
    }
    fn push(&mut self, i: Ix) {
        tick();
        self.0.push_front(i)
    }
}
/// A user's own fans of vertices: the root apart, the rest as a chain.
pub struct MyVFan(pub Vx, pub std::collections::LinkedList<Vx>);
impl Fan<Vx> for MyVFan {
    fn new(a: Vx, b: Vx, c: Vx) -> Self {
        tick();
        MyVFan(a, [b, c].into())
    }
    fn push(&mut self, v: Vx) {
        tick();
        self.1.push_back(v)
    }
}
#[derive(Default)]
pub struct MyVFans(pub std::collections::BTreeMap<usize, MyVFan>);
impl Fans for MyVFans {
    type Fan = MyVFan;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn truncate(&mut self, len: usize) {
        tick();
        self.0.retain(|k, _| *k < len);
    }
    fn push(&mut self, f: MyVFan) {
        tick();
        self.0.insert(self.0.len(), f);
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

/// One output collection of each supported kind.
pub enum Bin {
    Fans(Vec<Vec<Ix>>),
    MyFans(MyFans),
    Flat(Vec<Ix>),
    Arr(Vec<[Ix; 3]>),
    Tup(Vec<(Ix, Ix, Ix)>),
    MyList(MyList),
    VFans(Vec<Vec<Vx>>),
    VFlat(Vec<Vx>),
    VArr(Vec<[Vx; 3]>),
    VTup(Vec<(Vx, Vx, Vx)>),
    Delim(Vec<Ix>),
    MyDelim(MyDelim),
    MyVFans(MyVFans),
}
pub const BINS: usize = 13;
pub const DELIM: Id = [u32::MAX, u32::MAX];

fn old(k: u32) -> Id {
    [u32::MAX - 1, k]
}
fn oldv(k: u32) -> Vx {
    Vx::new(k as f64, -1.0, old(k))
}

impl Bin {
    /// A collection that already holds `k` elements of an earlier result.
    pub fn new(kind: usize, k: u32) -> Bin {
        let ix = |j| Ix::new(old(j));
        match kind % BINS {
            0 => Bin::Fans((0..k).map(|j| (0..3 + j % 3).map(|i| ix(10 * j + i)).collect()).collect()),
            1 => Bin::MyFans(MyFans((0..k).rev().map(|j| MyFan((0..3 + j % 3).map(|i| ix(10 * j + i)).collect())).collect())),
            2 => Bin::Flat((0..k).map(ix).collect()),
            3 => Bin::Arr((0..k).map(|j| [ix(3 * j), ix(3 * j + 1), ix(3 * j + 2)]).collect()),
            4 => Bin::Tup((0..k).map(|j| (ix(3 * j), ix(3 * j + 1), ix(3 * j + 2))).collect()),
            5 => Bin::MyList(MyList([0, 1, 2].map(|c| (0..k).map(|j| ix(3 * j + c)).collect()))),
            6 => Bin::VFans((0..k).map(|j| (0..3 + j % 3).map(|i| oldv(10 * j + i)).collect()).collect()),
            7 => Bin::VFlat((0..k).map(oldv).collect()),
            8 => Bin::VArr((0..k).map(|j| [oldv(3 * j), oldv(3 * j + 1), oldv(3 * j + 2)]).collect()),
            9 => Bin::VTup((0..k).map(|j| (oldv(3 * j), oldv(3 * j + 1), oldv(3 * j + 2))).collect()),
            12 => Bin::MyVFans(MyVFans((0..k).map(|j| (j as usize, MyVFan(oldv(10 * j), (1..3 + j % 3).map(|i| oldv(10 * j + i)).collect()))).collect())),
            kind => {
                let v = (0..k).map(|j| if k > 6 && j % 4 == 3 && j + 3 < k { Ix::new(DELIM) } else { ix(j) });
                if kind == 10 {
                    Bin::Delim(v.collect())
                } else {
                    Bin::MyDelim(MyDelim(v.rev().collect()))
                }
            }
        }
    }
    pub fn name(kind: usize) -> &'static str {
        [
            "IndexedFan/Vec<Vec>",
            "IndexedFan/user collection",
            "IndexedList/Vec",
            "IndexedList/Vec<[;3]>",
            "IndexedList/Vec<(,,)>",
            "IndexedList/user list",
            "DeindexedFan/Vec<Vec>",
            "DeindexedList/Vec",
            "DeindexedList/Vec<[;3]>",
            "DeindexedList/Vec<(,,)>",
            "DelimitedFan/Vec",
            "DelimitedFan/user collection",
            "DeindexedFan/user collection",
        ][kind % BINS]
    }
    pub fn is_list(kind: usize) -> bool {
        matches!(kind % BINS, 2..=5 | 7..=9)
    }
    pub fn is_delim(kind: usize) -> bool {
        matches!(kind % BINS, 10 | 11)
    }
    /// The content, element by element, oldest first.
    pub fn content(&self) -> Vec<Vec<Id>> {
        let i = |v: &[Ix]| v.iter().map(|x| x.id).collect::<Vec<_>>();
        let x = |v: &[Vx]| v.iter().map(|x| x.id).collect::<Vec<_>>();
        match self {
            Bin::Fans(v) => v.iter().map(|f| i(f)).collect(),
            Bin::MyFans(v) => v.0.iter().rev().map(|f| i(&f.0)).collect(),
            Bin::Flat(v) | Bin::Delim(v) => v.iter().map(|f| vec![f.id]).collect(),
            Bin::Arr(v) => v.iter().map(|f| i(f)).collect(),
            Bin::Tup(v) => v.iter().map(|f| vec![f.0.id, f.1.id, f.2.id]).collect(),
            Bin::MyList(v) => {
                // an uneven list is visible as short elements
                let n = v.0.iter().map(|c| c.len()).max().unwrap();
                (0..n).map(|k| v.0.iter().filter_map(|c| c.get(k).map(|q| q.id)).collect()).collect()
            }
            Bin::VFans(v) => v.iter().map(|f| x(f)).collect(),
            Bin::VFlat(v) => v.iter().map(|f| vec![f.id]).collect(),
            Bin::VArr(v) => v.iter().map(|f| x(f)).collect(),
            Bin::VTup(v) => v.iter().map(|f| vec![f.0.id, f.1.id, f.2.id]).collect(),
            Bin::MyDelim(v) => v.0.iter().rev().map(|f| vec![f.id]).collect(),
            Bin::MyVFans(v) => v.0.values().map(|f| std::iter::once(&f.0).chain(&f.1).map(|x| x.id).collect()).collect(),
        }
    }
    /// What the collection says of its own size, asked directly and through a
    /// reference: the number of triangles or fans, and whether there are none.
    pub fn counts(&mut self) -> Option<[(usize, bool); 2]> {
        fn list<V, L: List<V>>(mut l: &mut L) -> Option<[(usize, bool); 2]> {
            let direct = (List::<V>::len(l), List::<V>::is_empty(l));
            Some([direct, (<&mut L as List<V>>::len(&l), <&mut L as List<V>>::is_empty(&mut l))])
        }
        fn fans<F: Fans>(mut l: &mut F) -> Option<[(usize, bool); 2]> {
            let direct = (Fans::len(l), Fans::is_empty(l));
            Some([direct, (<&mut F as Fans>::len(&l), <&mut F as Fans>::is_empty(&mut l))])
        }
        match self {
            Bin::Fans(v) => fans(v),
            Bin::MyFans(v) => fans(v),
            Bin::Flat(v) => list::<Ix, _>(v),
            Bin::Arr(v) => list::<Ix, _>(v),
            Bin::Tup(v) => list::<Ix, _>(v),
            Bin::MyList(v) => list::<Ix, _>(v),
            Bin::VFans(v) => fans(v),
            Bin::VFlat(v) => list::<Vx, _>(v),
            Bin::VArr(v) => list::<Vx, _>(v),
            Bin::VTup(v) => list::<Vx, _>(v),
            Bin::MyVFans(v) => fans(v),
            Bin::Delim(_) | Bin::MyDelim(_) => None,
        }
    }
    /// The vertices of de-indexed collections, in order.
    pub fn vertices(&self) -> Vec<&Vx> {
        match self {
            Bin::VFans(v) => v.iter().flatten().collect(),
            Bin::VFlat(v) => v.iter().collect(),
            Bin::VArr(v) => v.iter().flatten().collect(),
            Bin::VTup(v) => v.iter().flat_map(|t| [&t.0, &t.1, &t.2]).collect(),
            Bin::MyVFans(v) => v.0.values().flat_map(|f| std::iter::once(&f.0).chain(&f.1)).collect(),
            _ => vec![],
        }
    }
    /// The triangles described by `elements`, a stretch of this collection's content.
    pub fn triangles(kind: usize, elements: &[Vec<Id>]) -> Result<Vec<Tri>, String> {
        match kind % BINS {
            0 | 1 | 6 | 12 => {
                if let Some(f) = elements.iter().find(|f| f.len() < 3) {
                    return Err(format!("a fan of {} vertices", f.len()));
                }
                Ok(fans_tris(elements))
            }
            3 | 4 | 5 | 8 | 9 => {
                if let Some(f) = elements.iter().find(|f| f.len() != 3) {
                    return Err(format!("an element of {} corners", f.len()));
                }
                Ok(elements.iter().map(|e| [e[0], e[1], e[2]]).collect())
            }
            2 | 7 => {
                if elements.len() % 3 != 0 {
                    return Err(format!("{} corners appended, not a multiple of three", elements.len()));
                }
                Ok(elements.chunks(3).map(|c| [c[0][0], c[1][0], c[2][0]]).collect())
            }
            _ => unreachable!("delimited output is split by its own rule"),
        }
    }
    /// The fans a delimited stretch describes; the stretch starts with a
    /// delimiter exactly if something stood before it.
    pub fn split(elements: &[Vec<Id>], first: bool, delim: Id) -> Result<Vec<Vec<Id>>, String> {
        let mut e: Vec<Id> = elements.iter().map(|v| v[0]).collect();
        if e.is_empty() {
            return Ok(vec![]);
        }
        if !first {
            if e[0] != delim {
                return Err("no delimiter between the earlier content and the first new fan".into());
            }
            e.remove(0);
        }
        let fans: Vec<Vec<Id>> = e.split(|i| *i == delim).map(|f| f.to_vec()).collect();
        if let Some(f) = fans.iter().find(|f| f.len() < 3) {
            return Err(format!("{} vertices between two delimiters", f.len()));
        }
        Ok(fans)
    }
}

/// Checks that `after` is `before` followed by new elements, and returns the
/// triangles they describe.
pub fn appended(kind: usize, before: &[Vec<Id>], after: &[Vec<Id>], delim: Id) -> Result<Vec<Tri>, String> {
    if after.len() < before.len() || after[..before.len()] != *before {
        return Err(format!("earlier content changed: {before:?} became {:?}", &after[..before.len().min(after.len())]));
    }
    let new = &after[before.len()..];
    if Bin::is_delim(kind) {
        return Ok(fans_tris(&Bin::split(new, before.is_empty(), delim)?));
    }
    Bin::triangles(kind, new)
}

/// How a call is made.
pub struct Call<'a> {
    pub fault: &'a Fault,
    pub reversed: bool,
    pub delim: Id,
    /// List formats: the fault sits outside the list-to-fan adapter.
    pub outer: bool,
}

macro_rules! go {
    ($on:expr, $f:expr, $c:expr) => {
        if $c.reversed {
            $on.triangulate($f.reverse_winding()).map(|_| ()).map_err(|e| kind(&e))
        } else {
            $on.triangulate($f).map(|_| ()).map_err(|e| kind(&e))
        }
    };
}
macro_rules! fan {
    ($on:expr, $f:expr, $c:expr) => {
        if $c.fault.at == -2 {
            go!($on, $f, $c)
        } else {
            go!($on, FaultFan($f, $c.fault.clone()), $c)
        }
    };
}
macro_rules! list {
    ($on:expr, $f:expr, $c:expr) => {
        if $c.fault.at == -2 {
            go!($on, $f.into_fan_format(), $c)
        } else if !$c.outer {
            go!($on, FaultList($f, $c.fault.clone()).into_fan_format(), $c)
        } else {
            // the fault sits outside the adapter
            go!($on, FaultFan($f.into_fan_format(), $c.fault.clone()), $c)
        }
    };
}
macro_rules! into_bin {
    ($on:expr, $bin:expr, $c:expr) => {
        match $bin {
            Bin::Fans(v) => fan!($on, formats::IndexedFanFormat::new(v), $c),
            Bin::MyFans(v) => fan!($on, formats::IndexedFanFormat::new(v), $c),
            Bin::Flat(v) => list!($on, formats::IndexedListFormat::new(v), $c),
            Bin::Arr(v) => list!($on, formats::IndexedListFormat::new(v), $c),
            Bin::Tup(v) => list!($on, formats::IndexedListFormat::new(v), $c),
            Bin::MyList(v) => list!($on, formats::IndexedListFormat::new(v), $c),
            Bin::VFans(v) => fan!($on, formats::DeindexedFanFormat::new(v), $c),
            Bin::VFlat(v) => list!($on, formats::DeindexedListFormat::new(v), $c),
            Bin::VArr(v) => list!($on, formats::DeindexedListFormat::new(v), $c),
            Bin::VTup(v) => list!($on, formats::DeindexedListFormat::new(v), $c),
            Bin::Delim(v) => fan!($on, formats::DelimitedFanFormat::new(v, Ix::new($c.delim)), $c),
            Bin::MyDelim(v) => fan!($on, formats::DelimitedFanFormat::new(v, Ix::new($c.delim)), $c),
            Bin::MyVFans(v) => fan!($on, formats::DeindexedFanFormat::new(v), $c),
        }
    };
}

/// Triangulate into a collection passed by mutable reference.
pub fn into_list<'p>(list: &'p SimList, bin: &mut Bin, c: &Call) -> Result<(), Kind> {
    into_bin!(list, bin, c)
}
pub fn into_trap<'p>(t: &Trapezoidation<'p, SimList>, bin: &mut Bin, c: &Call) -> Result<(), Kind> {
    into_bin!(t, bin, c)
}
/// Triangulate into a collection passed by value, and take it back from the result.
pub fn by_value<'p>(t: &Trapezoidation<'p, SimList>, bin: Bin, reversed: bool, delim: Id) -> Result<Bin, Kind> {
    macro_rules! val {
        ($f:expr, $w:path) => {
            if reversed {
                t.triangulate($f.reverse_winding()).map($w).map_err(|e| kind(&e))
            } else {
                t.triangulate($f).map($w).map_err(|e| kind(&e))
            }
        };
    }
    match bin {
        Bin::Fans(v) => val!(formats::IndexedFanFormat::new(v), Bin::Fans),
        Bin::MyFans(v) => val!(formats::IndexedFanFormat::new(v), Bin::MyFans),
        Bin::Flat(v) => val!(formats::IndexedListFormat::new(v).into_fan_format(), Bin::Flat),
        Bin::Arr(v) => val!(formats::IndexedListFormat::new(v).into_fan_format(), Bin::Arr),
        Bin::Tup(v) => val!(formats::IndexedListFormat::new(v).into_fan_format(), Bin::Tup),
        Bin::MyList(v) => val!(formats::IndexedListFormat::new(v).into_fan_format(), Bin::MyList),
        Bin::VFans(v) => val!(formats::DeindexedFanFormat::new(v), Bin::VFans),
        Bin::VFlat(v) => val!(formats::DeindexedListFormat::new(v).into_fan_format(), Bin::VFlat),
        Bin::VArr(v) => val!(formats::DeindexedListFormat::new(v).into_fan_format(), Bin::VArr),
        Bin::VTup(v) => val!(formats::DeindexedListFormat::new(v).into_fan_format(), Bin::VTup),
        Bin::Delim(v) => val!(formats::DelimitedFanFormat::new(v, Ix::new(delim)), Bin::Delim),
        Bin::MyDelim(v) => val!(formats::DelimitedFanFormat::new(v, Ix::new(delim)), Bin::MyDelim),
        Bin::MyVFans(v) => val!(formats::DeindexedFanFormat::new(v), Bin::MyVFans),
    }
}
