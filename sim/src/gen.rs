//! Seeded generation of valid polygon sets on an integer grid.

use crate::geom::*;
use crate::prng::Prng;

pub const KINDS: &[&str] = &[
    "two_opt", "star", "convex", "ortho", "comb", "spiral", "mountain", "growth", "zigzag", "multi", "nested",
    "tiny", "staircase", "slivers", "rings", "thorn",
];

fn star(r: &mut Prng, n: usize, rad: i64) -> Poly {
    let mut ang: Vec<f64> = (0..n).map(|_| r.f01() * std::f64::consts::TAU).collect();
    ang.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let spiky = r.chance(1, 2);
    ang.iter()
        .enumerate()
        .map(|(i, a)| {
            let q = if spiky && i % 2 == 0 { 0.2 + 0.2 * r.f01() } else { 0.5 + 0.5 * r.f01() };
            ((a.cos() * q * rad as f64).round() as i64, (a.sin() * q * rad as f64).round() as i64)
        })
        .collect()
}

fn convex(r: &mut Prng, n: usize, rad: i64) -> Poly {
    // sort integer vectors that sum to zero by angle
    let m = (rad / n.max(1) as i64).max(2);
    let mut v: Vec<Pt> = Vec::new();
    for _ in 0..n / 2 {
        let d = (r.range(-m, m), r.range(-m, m));
        if d != (0, 0) {
            v.push(d);
            v.push((-d.0, -d.1));
        }
    }
    if v.len() < 3 {
        return vec![(0, 0), (m, 1), (1, m)];
    }
    let half = |d: &Pt| (d.1 < 0 || (d.1 == 0 && d.0 < 0)) as i32;
    v.sort_by(|a, b| half(a).cmp(&half(b)).then(0.cmp(&(a.0 * b.1 - a.1 * b.0))));
    let keep_collinear = r.chance(1, 3);
    let mut p = vec![];
    let mut c = (0, 0);
    for (i, d) in v.iter().enumerate() {
        let prev = v[(i + v.len() - 1) % v.len()];
        if keep_collinear || prev.0 * d.1 - prev.1 * d.0 != 0 {
            p.push(c);
        }
        c = (c.0 + d.0, c.1 + d.1);
    }
    p
}

fn two_opt(r: &mut Prng, n: usize, w: i64, h: i64) -> Poly {
    let mut s = std::collections::BTreeSet::new();
    let mut tries = 0;
    while s.len() < n && tries < n * 20 {
        s.insert((r.range(0, w), r.range(0, h)));
        tries += 1;
    }
    let mut p: Poly = s.into_iter().collect();
    r.shuffle(&mut p);
    let n = p.len();
    let mut rounds = 0;
    'outer: loop {
        rounds += 1;
        if rounds > 40 * n {
            break;
        }
        for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if segments_touch(p[i], p[i + 1], p[j], p[(j + 1) % n]) {
                    p[i + 1..=j].reverse();
                    continue 'outer;
                }
            }
        }
        break;
    }
    p
}

fn growth(r: &mut Prng, n: usize, w: i64) -> Poly {
    let mut p: Poly = vec![(0, 0), (w, r.range(0, w / 4)), (r.range(0, w), w)];
    let mut tries = 0;
    while p.len() < n && tries < 12 * n {
        tries += 1;
        let i = r.us(p.len());
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let d = ((a.0 - b.0).abs() + (a.1 - b.1).abs()).max(2);
        let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
        let c = (m.0 + r.range(-d, d), m.1 + r.range(-d, d));
        if p.contains(&c) || c.0.abs() > 4 * w || c.1.abs() > 4 * w {
            continue;
        }
        let np = p.len();
        let mut ok = orient(a, b, c) != 0 || (c != a && c != b && on_segment(a, b, c));
        for k in 0..np {
            if !ok {
                break;
            }
            if k == i {
                continue;
            }
            let (s, t) = (p[k], p[(k + 1) % np]);
            // new edges a-c and c-b
            if t == a {
                ok &= !on_segment(s, t, c) && !on_segment(a, c, s) && !segments_touch(s, t, c, b);
            } else if s == b {
                ok &= !on_segment(s, t, c) && !on_segment(c, b, t) && !segments_touch(s, t, a, c);
            } else {
                ok &= !segments_touch(s, t, a, c) && !segments_touch(s, t, c, b);
            }
        }
        if ok {
            p.insert(i + 1, c);
        }
    }
    p
}

/// Boundaries of a random set of grid cells without corner contacts.
fn ortho(r: &mut Prng, w: usize, h: usize, keep_collinear: bool) -> Polys {
    let fill = r.range(30, 75) as u64;
    let mut c = vec![vec![false; w + 2]; h + 2];
    for y in 1..=h {
        for x in 1..=w {
            c[y][x] = r.chance(fill, 100);
        }
    }
    // remove diagonal-only contacts
    loop {
        let mut changed = false;
        for y in 0..=h {
            for x in 0..=w {
                let (a, b, d, e) = (c[y][x], c[y][x + 1], c[y + 1][x], c[y + 1][x + 1]);
                if a == e && b == d && a != b {
                    if a {
                        c[y][x] = false;
                    } else {
                        c[y][x + 1] = false;
                    }
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    let step = if r.chance(1, 2) { 1 } else { 7 };
    let xs: Vec<i64> = (0..=w as i64 + 2).scan(0, |s, _| { *s += r.range(1, step); Some(*s) }).collect();
    let ys: Vec<i64> = (0..=h as i64 + 2).scan(0, |s, _| { *s += r.range(1, step); Some(*s) }).collect();
    // next[corner] = following corner with the filled cell on the left
    let mut next = std::collections::BTreeMap::new();
    for y in 1..=h {
        for x in 1..=w {
            if !c[y][x] {
                continue;
            }
            if !c[y - 1][x] {
                next.insert((x, y), (x + 1, y));
            }
            if !c[y][x + 1] {
                next.insert((x + 1, y), (x + 1, y + 1));
            }
            if !c[y + 1][x] {
                next.insert((x + 1, y + 1), (x, y + 1));
            }
            if !c[y][x - 1] {
                next.insert((x, y + 1), (x, y));
            }
        }
    }
    let mut out = vec![];
    while let Some((&s, _)) = next.iter().next() {
        let mut loopv = vec![];
        let mut q = s;
        while let Some(t) = next.remove(&q) {
            loopv.push(q);
            q = t;
        }
        let n = loopv.len();
        let p: Poly = (0..n)
            .filter(|&i| {
                let (a, b, d) = (loopv[(i + n - 1) % n], loopv[i], loopv[(i + 1) % n]);
                keep_collinear || !((a.0 == b.0 && b.0 == d.0) || (a.1 == b.1 && b.1 == d.1))
            })
            .map(|i| (xs[loopv[i].0], ys[loopv[i].1]))
            .collect();
        out.push(p);
    }
    out
}

fn comb(r: &mut Prng, teeth: usize) -> Poly {
    let (lo, hi) = (r.range(1, 5), r.range(6, 40));
    let jitter = r.range(0, 3);
    let mut p = vec![(0, 0)];
    let end = 4 * teeth as i64;
    p.push((end, 0));
    for i in (0..teeth as i64).rev() {
        p.push((4 * i + 3, hi + r.range(0, jitter)));
        p.push((4 * i + 1, lo + r.range(0, jitter.min(1))));
    }
    if r.chance(1, 2) {
        let h = p.len();
        p.insert(h, (-1, hi + 4));
    }
    p
}

fn zigzag(r: &mut Prng, n: usize) -> Poly {
    // a thick zigzag: chain out, chain back shifted
    let m = (n / 2).max(2) as i64;
    let amp = r.range(2, 30);
    let sh = r.range(1, 6);
    let f = |i: i64| if i % 2 == 0 { 0 } else { amp };
    let mut p: Poly = (0..m).map(|i| (3 * i, f(i))).collect();
    p.extend((0..m).rev().map(|i| (3 * i, f(i) + sh)));
    p
}

fn staircase(r: &mut Prng, n: usize) -> Poly {
    let m = (n / 2).max(1) as i64;
    let mut p = vec![];
    let (mut x, mut y) = (0, 0);
    for _ in 0..m {
        p.push((x, y));
        x += r.range(1, 4);
        p.push((x, y));
        y += r.range(1, 4);
    }
    p.push((x, y));
    p.push((0 - r.range(0, 2), y));
    if p.last().unwrap().0 == 0 && r.chance(1, 2) {
        p.pop();
        p.push((-1, y));
    }
    p
}

fn spiral(r: &mut Prng, turns: usize) -> Poly {
    // rectangular spiral corridor of width 1, pitch 2..
    let pitch = r.range(2, 4);
    let mut outer = vec![];
    let mut inner = vec![];
    let (mut x0, mut y0) = (0i64, 0i64);
    let size = pitch * (turns as i64 + 2) * 2;
    let (mut x1, mut y1) = (size, size);
    let mut first = true;
    for _ in 0..turns {
        if first {
            outer.push((x0, y0));
            inner.push((x0, y0 + 1));
            first = false;
        } else {
            outer.push((x0 - pitch, y0));
            inner.push((x0 - pitch + 1, y0 + 1));
        }
        outer.push((x1, y0));
        inner.push((x1 - 1, y0 + 1));
        outer.push((x1, y1));
        inner.push((x1 - 1, y1 - 1));
        outer.push((x0, y1));
        inner.push((x0 + 1, y1 - 1));
        x0 += pitch;
        y0 += pitch;
        x1 -= pitch;
        y1 -= pitch;
        // next leg comes down the left side to y0 (inside)
    }
    // end cap: come down left side
    outer.push((x0 - pitch, y0));
    inner.push((x0 - pitch + 1, y0));
    inner.reverse();
    outer.extend(inner);
    outer
}

fn mountain(r: &mut Prng, n: usize) -> Poly {
    // a chain monotone in y on one side of a single long edge
    let right = r.chance(1, 2);
    let w = *r.pick(&[2i64, 5, 40, 1000]);
    let flat = r.chance(1, 2);
    let mut y = 0;
    let mut p = vec![(0, 0)];
    for _ in 0..n.saturating_sub(2).max(1) {
        y += r.range(if flat { 0 } else { 1 }, 3);
        let x = r.range(1, w);
        p.push((if right { x } else { -x }, y));
    }
    let last = p.last().unwrap().1;
    p.push((0, last + r.range(1, 3)));
    if r.chance(1, 3) {
        // slanted base edge
        let k = p.len() as i64;
        let l = p.last_mut().unwrap();
        l.0 = if right { -r.range(0, k) } else { r.range(0, k) };
    }
    p
}

/// A chain over a single edge again, but with distances of very different magnitude,
/// or as a thorn: two sides that approach each other geometrically, so that the only
/// triangulation alternates between them.
fn thorn(r: &mut Prng, n: usize) -> Poly {
    let mut p = vec![];
    if r.chance(1, 3) {
        let mut y = 0;
        for i in 0..n.clamp(3, 60) {
            let x = if i == 0 { 0 } else { (1i64 << r.range(0, 20)) + r.range(0, 9) };
            p.push((x, y));
            y += 1 << r.range(0, 13);
        }
        p.last_mut().unwrap().0 = 0;
    } else {
        let l = (n / 2).clamp(2, 12) as u32;
        let (g, h) = (r.range(2, 3), r.range(2, 3));
        let (sn, sd) = (r.range(10, 30), r.range(10, 12));
        let t = r.range(3, 5);
        let mut q = vec![];
        for k in 0..=l {
            let x = if k == 0 { 0 } else { g.pow(k) * 4 };
            p.push((x, -4 * h.pow(l - k)));
            q.push((x * sn / sd, t * h.pow(l - k)));
        }
        q.reverse();
        p.extend(q);
    }
    p
}

fn slivers(r: &mut Prng, n: usize) -> Poly {
    // long thin shapes with far-apart coordinates
    let big = *r.pick(&[1i64 << 12, 1 << 18, 1 << 22]);
    let m = (n / 2).max(2) as i64;
    let mut p = vec![];
    for i in 0..m {
        p.push((big + r.range(0, 3), i * r.range(1, 1) + i));
        p.push((if i + 1 < m { r.range(2, 9) } else { 0 }, 2 * i + 1));
    }
    p.push((-r.range(1, 5), 2 * m));
    p.push((-r.range(1, big / 2), 0));
    p
}

fn bbox(ps: &[Poly]) -> (i64, i64, i64, i64) {
    let mut b = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
    for p in ps.iter().flatten() {
        b = (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1));
    }
    b
}

fn base(r: &mut Prng, kind: &str, n: usize) -> Polys {
    let n = n.max(3);
    match kind {
        "two_opt" => {
            let w = *r.pick(&[2i64, 3, 4, 6, 10, 30, 1000, 100000]);
            let h = *r.pick(&[2i64, 3, 4, 6, 10, 30, 1000, 100000]);
            let n = n.min(40).min(((w + 1) * (h + 1) / 2).max(3) as usize);
            vec![two_opt(r, n, w, h)]
        }
        "star" => vec![star(r, n, *Prng::pick(&mut Prng::new(n as u64), &[10i64, 60, 1000, 1 << 20]))],
        "convex" => {
            let rad = *r.pick(&[20i64, 500, 1 << 20]);
            vec![convex(r, n, rad)]
        }
        "ortho" => {
            let w = 1 + r.us(((n as f64).sqrt() as usize).clamp(2, 14));
            let h = 1 + r.us(((n as f64).sqrt() as usize).clamp(2, 14));
            let k = r.chance(1, 2);
            ortho(r, w, h, k)
        }
        "comb" => vec![comb(r, (n / 2).max(1))],
        "spiral" => vec![spiral(r, (n / 8).max(1))],
        "mountain" => vec![mountain(r, n)],
        "growth" => {
            let w = *r.pick(&[12i64, 100, 1 << 18]);
            vec![growth(r, n.min(200), w)]
        }
        "zigzag" => vec![zigzag(r, n)],
        "staircase" => vec![staircase(r, n)],
        "slivers" => vec![slivers(r, n.min(60))],
        "thorn" => vec![thorn(r, n)],
        "rings" => {
            let k = 1 + r.us((n / 6).clamp(1, 6));
            (0..k as i64)
                .map(|i| {
                    let s = 10 * (k as i64 - i);
                    let mut p = vec![];
                    let m = r.range(0, 2);
                    let cs = [(-s, -s), (s, -s), (s, s), (-s, s)];
                    for q in 0..4 {
                        let (a, b) = (cs[q], cs[(q + 1) % 4]);
                        p.push(a);
                        for t in 1..=m {
                            p.push((a.0 + (b.0 - a.0) * t / (m + 1), a.1 + (b.1 - a.1) * t / (m + 1)));
                        }
                    }
                    p
                })
                .collect()
        }
        _ => {
            // "tiny": a triangle or quad on a very small grid
            let g = r.range(1, 4);
            let k = 3 + r.us(3);
            vec![two_opt(r, k, g, g)]
        }
    }
}

fn shift(ps: &mut [Poly], dx: i64, dy: i64) {
    for p in ps.iter_mut().flatten() {
        p.0 += dx;
        p.1 += dy;
    }
}

fn basic_kind(r: &mut Prng) -> &'static str {
    let basics: Vec<&&str> = KINDS.iter().filter(|k| **k != "multi" && **k != "nested").collect();
    **r.pick(&basics)
}

/// A candidate set; may turn out invalid.
fn candidate(r: &mut Prng, kind: &str, n: usize) -> Polys {
    match kind {
        "multi" => {
            let parts = 2 + r.us(5);
            let mut out: Polys = vec![];
            let mut x = 0;
            let mut row_h = 0;
            let mut y = 0;
            for i in 0..parts {
                let k = basic_kind(r);
                let mut q = valid_basic(r, k, (n / parts).max(3));
                let b = bbox(&q);
                shift(&mut q, x - b.0, y - b.1);
                x += b.2 - b.0 + 1;
                row_h = row_h.max(b.3 - b.1);
                if i % 3 == 2 {
                    x = r.range(0, 5);
                    y += row_h + 1;
                    row_h = 0;
                }
                out.extend(q);
            }
            out
        }
        "nested" => {
            // small shapes dropped at random into a big one, exact rejection
            let k = basic_kind(r);
            let mut out = valid_basic(r, k, (n / 2).max(4));
            let s = *r.pick(&[4i64, 16, 64]);
            for p in out.iter_mut().flatten() {
                p.0 *= s;
                p.1 *= s;
            }
            let tries = 4 + r.us(16);
            for _ in 0..tries {
                if out.iter().map(|p| p.len()).sum::<usize>() >= n.max(8) {
                    break;
                }
                let k = if r.chance(1, 2) { "tiny" } else { basic_kind(r) };
                let m = 3 + r.us(8);
                let mut q = valid_basic(r, k, m);
                let b = bbox(&out);
                let c = bbox(&q);
                let (dx, dy) = (r.range(b.0, b.2) - c.0, r.range(b.1, b.3) - c.1);
                shift(&mut q, dx, dy);
                let mut t = out.clone();
                t.extend(q);
                if is_valid(&t) {
                    out = t;
                }
            }
            out
        }
        k => base(r, k, n),
    }
}

fn valid_basic(r: &mut Prng, kind: &str, n: usize) -> Polys {
    for _ in 0..6 {
        let p = base(r, kind, n);
        if !p.is_empty() && is_valid(&p) {
            return p;
        }
    }
    vec![vec![(0, 0), (r.range(1, 4), 0), (0, r.range(1, 4))]]
}

/// Choices that must not matter: where each polygon starts, its direction, the
/// order of polygons, and the symmetries of the plane.
fn dress(r: &mut Prng, ps: &mut Polys) {
    let (t, fx, fy) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    for p in ps.iter_mut().flatten() {
        if t {
            *p = (p.1, p.0);
        }
        if fx {
            p.0 = -p.0;
        }
        if fy {
            p.1 = -p.1;
        }
    }
    // sometimes a shear, which leaves no horizontal edge horizontal
    if r.chance(1, 4) {
        let b = bbox(ps);
        let k = r.range(1, 3);
        if (b.2 - b.0).max(b.3 - b.1) < MAX_COORD / 16 {
            let ax = r.chance(1, 2);
            for p in ps.iter_mut().flatten() {
                if ax {
                    p.1 += k * p.0;
                } else {
                    p.0 += k * p.1;
                }
            }
        }
    }
    for p in ps.iter_mut() {
        let n = p.len();
        p.rotate_left(r.us(n));
        if r.chance(1, 2) {
            p.reverse();
        }
    }
    r.shuffle(ps);
}

/// A valid polygon set of roughly `n` vertices.
pub fn polygons(r: &mut Prng, n: usize) -> (Polys, &'static str) {
    for _ in 0..20 {
        let kind = *r.pick(KINDS);
        let mut p = candidate(r, kind, n);
        if p.is_empty() || p.iter().any(|q| q.len() < 3) {
            continue;
        }
        dress(r, &mut p);
        // bring it near the origin if it drifted
        let b = bbox(&p);
        if b.0.abs().max(b.2.abs()).max(b.1.abs()).max(b.3.abs()) >= MAX_COORD {
            shift(&mut p, -(b.0 + b.2) / 2, -(b.1 + b.3) / 2);
        }
        if is_valid(&p) {
            return (p, kind);
        }
    }
    (vec![vec![(0, 0), (5, 1), (2, 7), (1, 3)]], "fallback")
}

/// A size drawn from a skewed distribution up to `max`.
pub fn size(r: &mut Prng, max: usize) -> usize {
    match r.us(10) {
        0..=2 => 3 + r.us(4),
        3..=5 => 5 + r.us(10),
        6..=7 => 10 + r.us(30),
        8 => 20 + r.us(80),
        _ => 3 + r.us(max.max(4)),
    }
    .min(max)
}

/// Families of large polygons, valid by construction.
pub const LARGE: usize = 17;

fn maze(r: &mut Prng, n: usize) -> Poly {
    // the outline of a random spanning tree of a grid: irregular and simply connected
    let k = (((n as f64) / 3.0).sqrt() as usize).max(2);
    let (w, h) = (2 * k - 1, 2 * k - 1);
    let mut on = vec![false; w * h];
    let mut seen = vec![false; k * k];
    let mut stack = vec![r.us(k * k)];
    seen[stack[0]] = true;
    on[(stack[0] / k * 2) * w + stack[0] % k * 2] = true;
    while let Some(&c) = stack.last() {
        let (x, y) = (c % k, c / k);
        let mut opts = vec![];
        if x > 0 && !seen[c - 1] {
            opts.push(c - 1);
        }
        if x + 1 < k && !seen[c + 1] {
            opts.push(c + 1);
        }
        if y > 0 && !seen[c - k] {
            opts.push(c - k);
        }
        if y + 1 < k && !seen[c + k] {
            opts.push(c + k);
        }
        if opts.is_empty() {
            stack.pop();
            continue;
        }
        let d = *r.pick(&opts);
        seen[d] = true;
        let (dx, dy) = (d % k, d / k);
        on[dy * 2 * w + dx * 2] = true;
        on[(y + dy) * w + x + dx] = true;
        stack.push(d);
    }
    let at = |x: i64, y: i64| x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h && on[y as usize * w + x as usize];
    // walk the outline with the solid on the left
    let sx = (0..w as i64).find(|&x| at(x, 0)).unwrap();
    let (mut x, mut y) = (sx, 0i64);
    let (mut dx, mut dy) = (1i64, 0i64);
    let mut p = vec![(x, y)];
    loop {
        x += dx;
        y += dy;
        if (x, y) == (sx, 0) {
            break;
        }
        // cells ahead on the left and on the right of the direction of travel
        let cell = |side: i64| {
            // side 1: left, -1: right
            let (lx, ly) = (-dy * side, dx * side);
            let cx = if dx + lx > 0 { x } else { x - 1 };
            let cy = if dy + ly > 0 { y } else { y - 1 };
            at(cx, cy)
        };
        let (l, rr) = (cell(1), cell(-1));
        if rr {
            p.push((x, y));
            let t = dx;
            dx = dy;
            dy = -t;
        } else if !l {
            p.push((x, y));
            let t = dx;
            dx = -dy;
            dy = t;
        }
    }
    p
}

/// One large polygon of about `n` vertices.
pub fn family(r: &mut Prng, f: usize, n: usize) -> Poly {
    let n = n.max(8);
    let m = n as i64;
    let tall = 1 << 12;
    match f % LARGE {
        // a range of random heights over a base line
        0 => {
            let mut p: Poly = vec![(m, 0), (0, 0)];
            p.extend((1..m - 1).map(|i| (i, r.range(1, tall))));
            p
        }
        // the same lying on its side
        1 => {
            let mut p: Poly = vec![(0, m), (0, 0)];
            p.extend((1..m - 1).map(|i| (r.range(1, tall), i)));
            p
        }
        // deep regular teeth
        2 => {
            let mut p: Poly = vec![(m, 0), (0, 0)];
            p.extend((1..m - 1).map(|i| (i, if i % 2 == 0 { 1 } else { tall })));
            p
        }
        // a spiral corridor
        3 => spiral(r, n / 8 + 1),
        // a staircase
        4 => {
            let mut p = vec![(0, 0)];
            let (mut x, mut y) = (0, 0);
            while p.len() < n {
                x += r.range(1, 4);
                p.push((x, y));
                y += r.range(1, 4);
                p.push((x, y));
            }
            p.push((-1, y + 1));
            p
        }
        // monotone in x, ragged on both sides
        5 => {
            let mut p: Poly = (0..m / 2).map(|i| (i, -r.range(1, tall))).collect();
            p.extend((0..m / 2).rev().map(|i| (i, r.range(1, tall))));
            p
        }
        // monotone in y, ragged on both sides
        6 => {
            let mut p: Poly = (0..m / 2).map(|i| (-r.range(1, tall), i)).collect();
            p.extend((0..m / 2).rev().map(|i| (r.range(1, tall), i)));
            p
        }
        // a thick zigzag
        7 => {
            let q = |i: i64| if i % 2 == 0 { 0 } else { 900 };
            let mut p: Poly = (0..m / 2).map(|i| (3 * i, q(i))).collect();
            p.extend((0..m / 2).rev().map(|i| (3 * i, q(i) + 5)));
            p
        }
        8 => maze(r, n),
        // teeth whose tips rise steadily: every tip opens a branch before the earlier ones close
        10 => {
            let k = m / 2;
            let mut p: Poly = vec![(0, 0), (4 * k, 0)];
            for i in (0..k).rev() {
                p.push((4 * i + 2, 60 + 3 * i + r.range(0, 4)));
                if i > 0 {
                    p.push((4 * i, r.range(1, 50)));
                }
            }
            p
        }
        // peaks (or valleys) nested like the marks of a ruler
        11 => {
            let deep = r.chance(1, 2);
            let mut p: Poly = vec![(m, 0), (0, 0)];
            p.extend((1..m - 1).map(|i| {
                let h = 64 * i.trailing_zeros() as i64 + r.range(1, 3);
                (i, if deep { tall - h } else { h })
            }));
            p
        }
        // a plate with many vertices along straight sides
        12 => {
            let (a, b) = ((m / 2 - r.range(0, m / 4)).max(1), (m / 4).max(1));
            let mut p: Poly = (0..a).map(|i| (i, 0)).collect();
            p.extend((0..b).map(|i| (a, i)));
            p.extend((0..a).map(|i| (a - i, b)));
            p.extend((0..b).map(|i| (0, b - i)));
            p
        }
        // a long strip with very few different heights
        13 => {
            let lv = r.range(1, 3);
            let mut p: Poly = (0..m / 2).map(|i| (i, 0)).collect();
            p.extend((0..m - m / 2).rev().map(|i| (i, r.range(1, lv))));
            p
        }
        // radial spikes
        14 => {
            let rad = 64.0 * n as f64;
            let spiky = r.chance(1, 2);
            (0..n)
                .map(|i| {
                    let a = std::f64::consts::TAU * i as f64 / n as f64;
                    let q = if spiky && i % 2 == 0 { 0.15 } else { 0.2 + 0.8 * r.f01() };
                    ((a.cos() * q * rad).round() as i64, (a.sin() * q * rad).round() as i64)
                })
                .collect()
        }
        // convex, from all the directions of a small grid
        15 => {
            let k = ((n as f64 / 2.43).sqrt().ceil() as i64).max(1);
            let gcd = |mut a: i64, mut b: i64| {
                while b != 0 {
                    (a, b) = (b, a % b);
                }
                a.abs()
            };
            let mut v: Vec<Pt> = vec![];
            for a in -k..=k {
                for b in -k..=k {
                    if gcd(a, b) == 1 {
                        v.push((a, b));
                    }
                }
            }
            let half = |d: &Pt| (d.1 < 0 || (d.1 == 0 && d.0 < 0)) as i32;
            v.sort_by(|a, b| half(a).cmp(&half(b)).then(0.cmp(&(a.0 * b.1 - a.1 * b.0))));
            let mut c = (0, 0);
            v.iter()
                .map(|d| {
                    c = (c.0 + d.0, c.1 + d.1);
                    c
                })
                .collect()
        }
        // one long edge against a chain in random order of distance
        16 => {
            let mut p: Poly = vec![(0, m), (0, 0)];
            let f = r.range(1, 9);
            p.extend((1..m).map(|i| (1 + (i * (m / 2 + f) % m) * 7 + r.range(0, 3), i)));
            p
        }
        // a thorn: two inward-curving sides meeting in a point
        _ => {
            let up = m / 2 + r.range(-2, 2);
            let mut d = 0;
            let mut slope = 0;
            let mut p: Poly = vec![];
            for i in 0..up {
                p.push((d, i));
                slope += r.range(1, 2);
                d += slope;
            }
            let (mut d, mut slope) = (0, 0);
            let mut q: Poly = vec![];
            for i in 0..m - up {
                q.push((d, m - 1 - i));
                slope += r.range(1, 2);
                d += slope;
            }
            q.reverse();
            p.extend(q);
            // seen from the left or the right
            if r.chance(1, 2) {
                p.iter_mut().for_each(|v| v.0 = -v.0);
            }
            p
        }
    }
}

/// A plate of about `n` vertices with a grid of small holes, some holding an
/// island; or, without the plate, a sea of small islands.
pub fn plate(r: &mut Prng, n: usize, outer: bool) -> Polys {
    let k = ((n as f64 / 5.0).sqrt() as i64).max(1);
    let mut ps = vec![];
    if outer {
        ps.push(vec![(-1, -1), (20 * k, -2), (20 * k + 3, 20 * k), (-2, 20 * k + 1)]);
    }
    for i in 0..k {
        for j in 0..k {
            let (x, y) = (20 * i + r.range(0, 3), 20 * j + r.range(0, 3));
            ps.push(match r.us(3) {
                0 => vec![(x, y), (x + 14, y + 1), (x + 5, y + 13)],
                1 => vec![(x, y), (x + 14, y), (x + 14, y + 14), (x, y + 14)],
                _ => vec![(x, y), (x + 8, y + 5), (x + 15, y), (x + 9, y + 9), (x + 7, y + 15), (x + 4, y + 8)],
            });
            if r.chance(1, 4) {
                ps.push(vec![(x + 5, y + 5), (x + 7, y + 6), (x + 6, y + 7)]);
            }
        }
    }
    ps
}

/// A large set of about `n` vertices, with the usual symmetries, some with many holes or islands.
pub fn large(r: &mut Prng, n: usize) -> Polys {
    let f = r.us(LARGE + 2);
    let mut ps: Polys = if f < LARGE {
        vec![family(r, f, n)]
    } else if f == LARGE {
        plate(r, n, true)
    } else {
        // several large ones side by side
        let mut ps: Polys = vec![];
        let mut x = 0;
        for _ in 0..4 {
            let f = r.us(LARGE);
            let mut q = vec![family(r, f, n / 4)];
            let b = bbox(&q);
            shift(&mut q, x - b.0, -b.1);
            x += b.2 - b.0 + 1;
            ps.extend(q);
        }
        ps
    };
    dress(r, &mut ps);
    let b = bbox(&ps);
    shift(&mut ps, -(b.0 + b.2) / 2, -(b.1 + b.3) / 2);
    ps
}

/// Polygon sets that break a precondition (or nearly always do): crossing
/// edges, repeated or shared vertices, touching edges, numbers that are not.
pub fn invalid(r: &mut Prng, max: usize) -> Polys {
    use crate::world::{INF, NAN, NINF};
    let mut ps: Polys = if r.chance(1, 2) {
        let w = *r.pick(&[2i64, 3, 5, 12, 1000]);
        (0..1 + r.us(3)).map(|_| (0..3 + r.us(max)).map(|_| (r.range(0, w), r.range(0, w))).collect()).collect()
    } else {
        let n = 4 + r.us(max);
        polygons(r, n).0
    };
    let b = bbox(&ps);
    let any = |r: &mut Prng, ps: &Polys| {
        let i = r.us(ps.len());
        let j = r.us(ps[i].len());
        (i, j)
    };
    for _ in 0..1 + r.us(3) {
        let (i, j) = any(r, &ps);
        match r.us(9) {
            0 => ps[i][j] = (r.range(b.0, b.2.max(b.0 + 1)), r.range(b.1, b.3.max(b.1 + 1))),
            1 => {
                // share or repeat a vertex
                let (k, l) = any(r, &ps);
                ps[i][j] = ps[k][l];
            }
            2 => {
                let (k, l) = any(r, &ps);
                let (p, q) = (ps[i][j], ps[k][l]);
                ps[i][j] = q;
                ps[k][l] = p;
            }
            3 => {
                let p = ps[i][j];
                ps[i].insert(j, p);
            }
            4 => {
                // fold back along an edge
                let n = ps[i].len();
                let (p, q) = (ps[i][j], ps[i][(j + 1) % n]);
                if [p.0, p.1, q.0, q.1].iter().all(|c| c.unsigned_abs() < 1 << 40) {
                    ps[i].insert(j, ((p.0 + q.0) / 2, (p.1 + q.1) / 2));
                }
            }
            5 => {
                let v = *r.pick(&[NAN, INF, NINF]);
                if r.chance(1, 2) {
                    ps[i][j].0 = v;
                } else {
                    ps[i][j].1 = v;
                }
            }
            6 => {
                // a second copy of a polygon, shifted a little
                let mut q = ps[i].clone();
                let d = (r.range(-2, 2), r.range(-2, 2));
                for p in q.iter_mut().filter(|p| p.0.unsigned_abs() < 1 << 40 && p.1.unsigned_abs() < 1 << 40) {
                    p.0 += d.0;
                    p.1 += d.1;
                }
                ps.push(q);
            }
            7 => {
                // all on a line
                for p in ps[i].iter_mut() {
                    p.1 = if r.chance(1, 2) { 0 } else { p.0 };
                }
            }
            _ => {
                let n = ps[i].len();
                ps[i].swap(j, (j + 1 + r.us(2)) % n);
            }
        }
    }
    ps
}

/// Are the generators' sets what they claim to be?
pub fn selfcheck(runs: u64) -> i32 {
    let mut bad = 0;
    for i in 0..runs {
        let mut r = Prng::new(i);
        let n = size(&mut r, 150);
        let (p, k) = polygons(&mut r, n);
        if !is_valid(&p) {
            println!("polygons kind {k} seed {i}: invalid");
            bad += 1;
        }
        let n = 20 + r.us(600);
        let p = large(&mut r, n);
        if !is_valid(&p) {
            println!("large seed {i}: invalid ({} polygons, {} vertices)", p.len(), p.iter().map(|q| q.len()).sum::<usize>());
            bad += 1;
        }
        for f in 0..LARGE {
            let p = vec![family(&mut r, f, n)];
            if !is_valid(&p) {
                println!("family {f} n {n} seed {i}: invalid");
                bad += 1;
            }
        }
    }
    println!("{bad} invalid");
    (bad > 0) as i32
}
