//! Reference geometry in f64, written independently of the library: plain, quadratic, no
//! acceleration structures. Verdicts are three-valued: clearly yes / clearly no / too close to call.
pub type P = (f64, f64);
pub type Poly = Vec<P>;

pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn cross(a: P, b: P) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
pub fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn orient(a: P, b: P, c: P) -> f64 {
    cross(sub(b, a), sub(c, a))
}
pub fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
pub fn pt_seg(p: P, a: P, b: P) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    if l == 0.0 {
        return dist(p, a);
    }
    let t = (dot(sub(p, a), d) / l).clamp(0.0, 1.0);
    dist(p, (a.0 + t * d.0, a.1 + t * d.1))
}
/// Closed segment intersection, exact on small integers (and multiples of 1/2^k).
pub fn seg_intersect(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if ((o1 > 0.0 && o2 < 0.0) || (o1 < 0.0 && o2 > 0.0))
        && ((o3 > 0.0 && o4 < 0.0) || (o3 < 0.0 && o4 > 0.0))
    {
        return true;
    }
    let on = |a: P, b: P, c: P, o: f64| {
        o == 0.0
            && c.0 >= a.0.min(b.0)
            && c.0 <= a.0.max(b.0)
            && c.1 >= a.1.min(b.1)
            && c.1 <= a.1.max(b.1)
    };
    on(a, b, c, o1) || on(a, b, d, o2) || on(c, d, a, o3) || on(c, d, b, o4)
}
pub fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    if seg_intersect(a, b, c, d) {
        return 0.0;
    }
    pt_seg(a, c, d)
        .min(pt_seg(b, c, d))
        .min(pt_seg(c, a, b))
        .min(pt_seg(d, a, b))
}
pub fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()]))
}
pub fn area2(p: &[P]) -> f64 {
    edges(p).map(|(a, b)| cross(a, b)).sum()
}
pub fn area(p: &[P]) -> f64 {
    area2(p).abs() / 2.0
}
pub fn centroid(p: &[P]) -> P {
    let o = p[0];
    let (mut x, mut y, mut s) = (0.0, 0.0, 0.0);
    for (a, b) in edges(p) {
        let (a, b) = (sub(a, o), sub(b, o));
        let c = cross(a, b);
        x += (a.0 + b.0) * c;
        y += (a.1 + b.1) * c;
        s += c;
    }
    (o.0 + x / (3.0 * s), o.1 + y / (3.0 * s))
}
pub fn bbox(p: &[P]) -> (f64, f64, f64, f64) {
    p.iter().fold(
        (f64::MAX, f64::MAX, f64::MIN, f64::MIN),
        |b, q| (b.0.min(q.0), b.1.min(q.1), b.2.max(q.0), b.3.max(q.1)),
    )
}
pub fn diameter(p: &[P]) -> f64 {
    let mut d = 0.0f64;
    for i in 0..p.len() {
        for j in 0..i {
            d = d.max(dist(p[i], p[j]));
        }
    }
    d
}
pub fn dist_border(q: P, p: &[P]) -> f64 {
    edges(p).map(|(a, b)| pt_seg(q, a, b)).fold(f64::MAX, f64::min)
}
/// Even-odd rule; only meaningful away from the boundary.
pub fn inside(q: P, p: &[P]) -> bool {
    let mut r = false;
    for (a, b) in edges(p) {
        if (a.1 > q.1) != (b.1 > q.1) {
            // compare q.x with the crossing's x without dividing
            let o = orient(a, b, q);
            if (o > 0.0) == (b.1 > a.1) && o != 0.0 {
                r = !r;
            }
        }
    }
    r
}
/// Simple polygon test: no two non-adjacent edges touch, adjacent edges only share the vertex.
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if a == b {
            return false;
        }
        // next edge must not fold back
        let c = p[(i + 2) % n];
        if orient(a, b, c) == 0.0 && dot(sub(b, a), sub(c, b)) < 0.0 {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n == i {
                continue;
            }
            if seg_intersect(a, b, p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    area2(p) != 0.0
}
pub fn is_convex_vertex(p: &[P], i: usize) -> f64 {
    let n = p.len();
    orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n])
}
/// An interior point, far from the border (coarse search).
pub fn interior_point(p: &[P]) -> P {
    let (x0, y0, x1, y1) = bbox(p);
    let n = 24;
    let mut best = (centroid(p), -1.0);
    let mut tryp = |q: P| {
        if inside(q, p) {
            let d = dist_border(q, p);
            if d > best.1 {
                best = (q, d);
            }
        }
    };
    tryp(centroid(p));
    for i in 0..n {
        for j in 0..n {
            tryp((
                x0 + (x1 - x0) * (i as f64 + 0.5) / n as f64,
                y0 + (y1 - y0) * (j as f64 + 0.5) / n as f64,
            ));
        }
    }
    for k in 0..p.len() {
        for j in 0..k {
            for i in 0..j {
                tryp((
                    (p[i].0 + p[j].0 + p[k].0) / 3.0,
                    (p[i].1 + p[j].1 + p[k].1) / 3.0,
                ));
            }
        }
    }
    best.0
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    Yes,
    No,
    Amb,
}
impl V {
    pub fn b(self) -> Option<bool> {
        match self {
            V::Yes => Some(true),
            V::No => Some(false),
            V::Amb => None,
        }
    }
    /// three-valued OR
    pub fn or(self, o: V) -> V {
        match (self, o) {
            (V::Yes, _) | (_, V::Yes) => V::Yes,
            (V::No, V::No) => V::No,
            _ => V::Amb,
        }
    }
    pub fn not(self) -> V {
        match self {
            V::Yes => V::No,
            V::No => V::Yes,
            V::Amb => V::Amb,
        }
    }
}

pub fn border_gap(a: &[P], b: &[P]) -> f64 {
    let mut d = f64::MAX;
    for (p, q) in edges(a) {
        for (r, s) in edges(b) {
            d = d.min(seg_seg(p, q, r, s));
            if d == 0.0 {
                return 0.0;
            }
        }
    }
    d
}

/// Breaks a's boundary at all crossings with b's boundary; returns midpoints of the pieces.
pub fn piece_midpoints(a: &[P], b: &[P]) -> Vec<P> {
    let mut out = vec![];
    for (p, q) in edges(a) {
        let d = sub(q, p);
        let l = dot(d, d);
        let mut ts = vec![0.0, 1.0];
        for (r, s) in edges(b) {
            let e = sub(s, r);
            let den = cross(d, e);
            if den != 0.0 {
                let t = cross(sub(r, p), e) / den;
                let u = cross(sub(r, p), d) / den;
                if (-1e-9..=1.0 + 1e-9).contains(&t) && (-1e-9..=1.0 + 1e-9).contains(&u) {
                    ts.push(t.clamp(0.0, 1.0));
                }
            }
            for w in [r, s] {
                let t = dot(sub(w, p), d) / l;
                if (0.0..=1.0).contains(&t) {
                    ts.push(t);
                }
            }
        }
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for w in ts.windows(2) {
            if w[1] - w[0] > 1e-9 {
                let t = (w[0] + w[1]) / 2.0;
                out.push((p.0 + t * d.0, p.1 + t * d.1));
            }
        }
        out.push(p);
    }
    out
}

/// Do the interiors of two simple polygons overlap? Yes only when some witness point lies deeper
/// than `m` inside both; No only when the borders are farther than `m` apart and neither contains the other.
pub fn overlap(a: &[P], ia: P, b: &[P], ib: P, m: f64) -> V {
    let (ab, bb) = (bbox(a), bbox(b));
    if ab.0 > bb.2 + m || bb.0 > ab.2 + m || ab.1 > bb.3 + m || bb.1 > ab.3 + m {
        return V::No;
    }
    let gap = border_gap(a, b);
    if gap > m {
        return if inside(a[0], b) || inside(b[0], a) { V::Yes } else { V::No };
    }
    let deep = |q: P, p: &[P]| inside(q, p) && dist_border(q, p) > m;
    if piece_midpoints(a, b).into_iter().any(|q| deep(q, b))
        || piece_midpoints(b, a).into_iter().any(|q| deep(q, a))
        || deep(ia, b)
        || deep(ib, a)
    {
        return V::Yes;
    }
    V::Amb
}

/// Does polygon q stick out of the container c? Yes / No (strictly inside with clearance m) / Amb.
pub fn protrudes(q: &[P], c: &[P], m: f64) -> V {
    let (qb, cb) = (bbox(q), bbox(c));
    if qb.0 < cb.0 - m || qb.1 < cb.1 - m || qb.2 > cb.2 + m || qb.3 > cb.3 + m {
        return V::Yes;
    }
    let gap = border_gap(q, c);
    if gap > m {
        return if inside(q[0], c) { V::No } else { V::Yes };
    }
    let out_deep = |p: P| !inside(p, c) && dist_border(p, c) > m;
    let in_deep = |p: P| inside(p, q) && dist_border(p, q) > m;
    if piece_midpoints(q, c).into_iter().any(out_deep)
        || piece_midpoints(c, q).into_iter().any(in_deep)
    {
        return V::Yes;
    }
    V::Amb
}

/// Does segment (a,b) touch the closed polygon region p? Yes also when it lies fully inside.
pub fn seg_region(a: P, b: P, p: &[P], m: f64) -> V {
    let gap = edges(p).map(|(r, s)| seg_seg(a, b, r, s)).fold(f64::MAX, f64::min);
    if gap > m {
        return if inside(a, p) { V::Yes } else { V::No };
    }
    // touching: clearly yes when some point of the segment is deeper than m, or it properly crosses
    let n = 64;
    for i in 0..=n {
        let t = i as f64 / n as f64;
        let q = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
        if inside(q, p) && dist_border(q, p) > m {
            return V::Yes;
        }
    }
    V::Amb
}
pub fn circle_region(c: P, r: f64, p: &[P], m: f64) -> V {
    let d = dist_border(c, p);
    if inside(c, p) && d > m {
        return V::Yes;
    }
    if d < r - m {
        V::Yes
    } else if d > r + m && !inside(c, p) {
        V::No
    } else {
        V::Amb
    }
}

pub fn hull(pts: &[P]) -> Vec<P> {
    // strict hull (no collinear points), gift wrapping by definition: a point is a hull vertex
    // iff it is not in the closed convex hull of the others; computed by monotone chain on (x, y)
    let mut v: Vec<P> = pts.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for p in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0.0 {
                h.pop();
            }
            h.push(p);
        }
        h
    };
    let mut lo = half(&mut v.iter().cloned());
    let mut up = half(&mut v.iter().rev().cloned());
    lo.pop();
    up.pop();
    lo.extend(up);
    lo
}

pub fn rot(p: P, a: f64) -> P {
    let (s, c) = a.sin_cos();
    (p.0 * c - p.1 * s, p.0 * s + p.1 * c)
}
pub fn place(p: &[P], a: f64, t: P) -> Poly {
    p.iter()
        .map(|&q| {
            let r = if a == 0.0 { q } else { rot(q, a) };
            (r.0 + t.0, r.1 + t.1)
        })
        .collect()
}
