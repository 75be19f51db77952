//! Exact integer geometry: the reference model of what a triangulation is.

use std::collections::BTreeMap as HashMap;

pub type Pt = (i64, i64);
pub type Poly = Vec<Pt>;
pub type Polys = Vec<Poly>;

/// Coordinates stay below 2^25 in magnitude, so differences fit 26 bits and
/// cross products 53 bits: exact in i64 and in an f64.
pub const MAX_COORD: i64 = 1 << 25;

pub fn orient(a: Pt, b: Pt, c: Pt) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

fn sgn(x: i64) -> i32 {
    (x > 0) as i32 - (x < 0) as i32
}

/// `p` lies on the closed segment `ab`.
pub fn on_segment(a: Pt, b: Pt, p: Pt) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// The closed segments share at least one point.
pub fn segments_touch(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    if a.0.max(b.0) < c.0.min(d.0)
        || c.0.max(d.0) < a.0.min(b.0)
        || a.1.max(b.1) < c.1.min(d.1)
        || c.1.max(d.1) < a.1.min(b.1)
    {
        return false;
    }
    let (o1, o2) = (sgn(orient(a, b, c)), sgn(orient(a, b, d)));
    let (o3, o4) = (sgn(orient(c, d, a)), sgn(orient(c, d, b)));
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

/// The documented preconditions, read strictly: at least 3 vertices each, all
/// vertices distinct, and two edges meet only where consecutive edges share
/// their vertex.
pub fn is_valid(polys: &[Poly]) -> bool {
    struct E {
        a: Pt,
        b: Pt,
        p: usize,
        i: usize,
    }
    let mut es = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for (pi, p) in polys.iter().enumerate() {
        if p.len() < 3 {
            return false;
        }
        for i in 0..p.len() {
            if p[i].0.abs() >= MAX_COORD || p[i].1.abs() >= MAX_COORD || !seen.insert(p[i]) {
                return false;
            }
            es.push(E { a: p[i], b: p[(i + 1) % p.len()], p: pi, i });
        }
    }
    es.sort_by_key(|e| (e.a.1.min(e.b.1), e.p, e.i));
    let mut active: Vec<usize> = Vec::new();
    for k in 0..es.len() {
        let e = &es[k];
        let lo = e.a.1.min(e.b.1);
        active.retain(|&j| es[j].a.1.max(es[j].b.1) >= lo);
        for &j in &active {
            let f = &es[j];
            if f.p == e.p {
                let n = polys[e.p].len();
                // consecutive edges: share exactly one vertex and do not fold back
                let (first, second) = if (f.i + 1) % n == e.i {
                    (f, e)
                } else if (e.i + 1) % n == f.i {
                    (e, f)
                } else {
                    if segments_touch(e.a, e.b, f.a, f.b) {
                        return false;
                    }
                    continue;
                };
                if on_segment(first.a, first.b, second.b) || on_segment(second.a, second.b, first.a) {
                    return false;
                }
                continue;
            }
            if segments_touch(e.a, e.b, f.a, f.b) {
                return false;
            }
        }
        active.push(k);
    }
    true
}

pub fn area2(p: &[Pt]) -> i128 {
    let n = p.len();
    (0..n)
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % n]);
            a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128
        })
        .sum()
}

/// Even-odd test; `q` must not lie on the boundary.
pub fn inside(p: &[Pt], q: Pt) -> bool {
    let n = p.len();
    let mut r = false;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if (a.1 > q.1) != (b.1 > q.1) {
            let o = orient(a, b, q);
            if (o > 0) == (b.1 > a.1) {
                r = !r;
            }
        }
    }
    r
}

/// Static facts about a valid polygon set.
pub struct Region {
    /// Every boundary edge, directed with the solid on its left.
    pub boundary: Vec<(Pt, Pt)>,
    pub area2: i128,
    /// Triangles of a conforming triangulation: sum over solid components of n + 2h - 2.
    pub triangles: usize,
    pub vertices: usize,
    pub holes: usize,
    pub outers: usize,
}

pub fn region(polys: &[Poly]) -> Region {
    let mut boundary = Vec::new();
    let mut area = 0i128;
    let (mut n, mut outers, mut holes) = (0usize, 0usize, 0usize);
    let boxes: Vec<(i64, i64, i64, i64)> = polys
        .iter()
        .map(|p| p.iter().fold((i64::MAX, i64::MAX, i64::MIN, i64::MIN), |b, q| (b.0.min(q.0), b.1.min(q.1), b.2.max(q.0), b.3.max(q.1))))
        .collect();
    // the boxes, sorted into strips along x
    let (lo, hi) = boxes.iter().filter(|b| b.0 <= b.2).fold((i64::MAX, i64::MIN), |(lo, hi), b| (lo.min(b.0), hi.max(b.2)));
    let strips = (polys.len() / 32 + 1).min(1024);
    let strip = |x: i64| ((x as i128 - lo as i128) * strips as i128 / (hi as i128 - lo as i128 + 1)) as usize;
    let mut at = vec![vec![]; strips];
    for (j, b) in boxes.iter().enumerate().filter(|(_, b)| b.0 <= b.2) {
        at[strip(b.0)..=strip(b.2)].iter_mut().for_each(|s| s.push(j));
    }
    for (i, p) in polys.iter().enumerate() {
        if p.is_empty() {
            continue;
        }
        let q = p[0];
        let depth = at[strip(q.0)]
            .iter()
            .map(|j| (*j, &boxes[*j]))
            .filter(|(j, b)| *j != i && b.0 < q.0 && q.0 < b.2 && b.1 < q.1 && q.1 < b.3 && inside(&polys[*j], q))
            .count();
        let solid = depth % 2 == 0;
        let a = area2(p);
        let ccw = a > 0;
        n += p.len();
        if solid {
            outers += 1;
            area += a.abs();
        } else {
            holes += 1;
            area -= a.abs();
        }
        for k in 0..p.len() {
            let (s, t) = (p[k], p[(k + 1) % p.len()]);
            boundary.push(if ccw == solid { (s, t) } else { (t, s) });
        }
    }
    Region { boundary, area2: area, triangles: (n + 2 * holes).saturating_sub(2 * outers), vertices: n, holes, outers }
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

#[derive(Debug, Default, Clone, Copy)]
pub struct TilingFacts {
    pub zero_area: usize,
    pub negative: usize,
    pub positive: usize,
}

/// Decides whether `tris` (each listed with the winding the caller expects to
/// be counter-clockwise) tile the solid exactly: no triangle is turned the
/// other way, and the boundary of their sum is the polygon boundary. With all
/// triangles non-negative this is equivalent to covering every point of the
/// solid exactly once and nothing outside it.
pub fn check_tiling(r: &Region, tris: &[[Pt; 3]], allow_zero: bool) -> Result<TilingFacts, String> {
    let mut f = TilingFacts::default();
    let mut net: HashMap<(Pt, Pt), i64> = HashMap::new();
    let mut put = |a: Pt, b: Pt, w: i64| {
        if a < b {
            *net.entry((a, b)).or_insert(0) += w;
        } else {
            *net.entry((b, a)).or_insert(0) -= w;
        }
    };
    let mut sum = 0i128;
    for t in tris {
        let o = orient(t[0], t[1], t[2]);
        sum += o as i128;
        if o > 0 {
            f.positive += 1
        } else if o == 0 {
            f.zero_area += 1
        } else {
            f.negative += 1
        }
        put(t[0], t[1], 1);
        put(t[1], t[2], 1);
        put(t[2], t[0], 1);
    }
    if f.negative > 0 {
        return Err(format!("{} of {} triangles have the opposite winding", f.negative, tris.len()));
    }
    if !allow_zero && f.zero_area > 0 {
        return Err(format!("{} of {} triangles have no area", f.zero_area, tris.len()));
    }
    for &(a, b) in &r.boundary {
        put(a, b, -1);
    }
    // What does not cancel edge by edge may still cancel along a line (a long
    // edge against two short ones): compare signed coverage per line.
    let mut lines: HashMap<(i64, i64, i64), Vec<(Pt, i64)>> = HashMap::new();
    for (&(a, b), &w) in net.iter() {
        if w == 0 {
            continue;
        }
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        let g = gcd(dx, dy).max(1);
        let (ux, uy) = (dx / g, dy / g);
        let c = ux * a.1 - uy * a.0;
        let e = lines.entry((ux, uy, c)).or_default();
        e.push((a, w));
        e.push((b, -w));
    }
    for (_, mut ev) in lines {
        ev.sort();
        let mut acc = 0;
        let mut i = 0;
        while i < ev.len() {
            let p = ev[i].0;
            while i < ev.len() && ev[i].0 == p {
                acc += ev[i].1;
                i += 1;
            }
            if acc != 0 {
                let q = ev[i].0;
                return Err(format!(
                    "boundary of the triangles differs from the polygon boundary between {:?} and {:?} (net {}); doubled area {} instead of {}",
                    p, q, acc, sum, r.area2
                ));
            }
        }
    }
    if sum != r.area2 {
        return Err(format!("doubled area {} instead of {}", sum, r.area2));
    }
    Ok(f)
}

/// No three input vertices on a line, and no two at the same height.
pub fn some_three_collinear(polys: &[Poly]) -> bool {
    let v: Vec<Pt> = polys.iter().flatten().copied().collect();
    for i in 0..v.len() {
        let mut dirs = std::collections::HashSet::new();
        for j in 0..v.len() {
            if i == j {
                continue;
            }
            let (mut dx, mut dy) = (v[j].0 - v[i].0, v[j].1 - v[i].1);
            let g = gcd(dx, dy);
            dx /= g;
            dy /= g;
            if dx < 0 || (dx == 0 && dy < 0) {
                dx = -dx;
                dy = -dy;
            }
            if !dirs.insert((dx, dy)) {
                return true;
            }
        }
    }
    false
}
