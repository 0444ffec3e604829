//! Enumerated shape alphabets and conversion to library types.
use crate::geo::{self, Poly, P};
use jagua_rs::fsize;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

pub fn pts(p: &[P]) -> Vec<Point> {
    p.iter().map(|q| Point(q.0 as fsize, q.1 as fsize)).collect()
}
pub fn sp(p: &[P]) -> SimplePolygon {
    SimplePolygon::new(pts(p))
}
pub fn from_sp(s: &SimplePolygon) -> Poly {
    s.points.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()
}
pub fn scaled(p: &[P], k: f64) -> Poly {
    p.iter().map(|q| (q.0 * k, q.1 * k)).collect()
}
pub fn shifted(p: &[P], t: P) -> Poly {
    p.iter().map(|q| (q.0 + t.0, q.1 + t.1)).collect()
}
pub fn ip(p: &[(i32, i32)]) -> Poly {
    p.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()
}
pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Poly {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

/// All simple polygons with exactly k vertices on the w x h lattice, counter-clockwise, starting at
/// the lowest-index vertex, touching x=0 and y=0 (i.e. up to translation).
/// `collinear`: also allow 180-degree vertices.
pub fn lattice_polys(w: usize, h: usize, k: usize, collinear: bool) -> Vec<Poly> {
    let pts: Vec<P> = (0..w * h).map(|i| ((i % w) as f64, (i / w) as f64)).collect();
    let mut out = vec![];
    let mut cur: Vec<usize> = vec![];
    fn ok_prefix(c: &[P]) -> bool {
        // open chain must not self-touch
        let n = c.len();
        if n < 3 {
            return true;
        }
        let (a, b) = (c[n - 2], c[n - 1]);
        if geo::orient(c[n - 3], a, b) == 0.0 && geo::dot(geo::sub(a, c[n - 3]), geo::sub(b, a)) < 0.0 {
            return false;
        }
        for i in 0..n - 3 {
            if geo::seg_intersect(a, b, c[i], c[i + 1]) {
                return false;
            }
        }
        true
    }
    fn rec(
        pts: &[P],
        k: usize,
        collinear: bool,
        cur: &mut Vec<usize>,
        chain: &mut Vec<P>,
        out: &mut Vec<Poly>,
    ) {
        if cur.len() == k {
            let p = chain.clone();
            if geo::area2(&p) <= 0.0 || !geo::is_simple(&p) {
                return;
            }
            if !collinear && (0..k).any(|i| geo::is_convex_vertex(&p, i) == 0.0) {
                return;
            }
            let b = geo::bbox(&p);
            if b.0 != 0.0 || b.1 != 0.0 {
                return;
            }
            out.push(p);
            return;
        }
        for i in cur[0] + 1..pts.len() {
            if cur.contains(&i) {
                continue;
            }
            cur.push(i);
            chain.push(pts[i]);
            if ok_prefix(chain) {
                rec(pts, k, collinear, cur, chain, out);
            }
            chain.pop();
            cur.pop();
        }
    }
    for s in 0..pts.len() {
        cur.push(s);
        let mut chain = vec![pts[s]];
        rec(&pts, k, collinear, &mut cur, &mut chain, &mut out);
        cur.pop();
    }
    out
}

/// Hand-picked shapes, one per shortcut in the code: convex, concave, thin, many edges (>= 10, which
/// switches the edge lists of quadtree nodes to a bounding box pre-check), spiral, comb, cross, C.
pub fn zoo() -> Vec<(&'static str, Poly)> {
    let star: Poly = (0..14)
        .map(|i| {
            let a = i as f64 * std::f64::consts::PI / 7.0;
            let r = if i % 2 == 0 { 3.0 } else { 1.5 };
            let q = (r * a.cos(), r * a.sin());
            ((q.0 * 64.0).round() / 64.0, (q.1 * 64.0).round() / 64.0)
        })
        .collect();
    let ngon: Poly = (0..12)
        .map(|i| {
            let a = (i as f64 + 0.5) * std::f64::consts::PI / 6.0;
            (((3.0 * a.cos()) * 64.0).round() / 64.0, ((3.0 * a.sin()) * 64.0).round() / 64.0)
        })
        .collect();
    vec![
        ("square2", rect(0.0, 0.0, 2.0, 2.0)),
        ("square1", rect(0.0, 0.0, 1.0, 1.0)),
        ("tri", ip(&[(0, 0), (3, 0), (0, 3)])),
        ("sliver", ip(&[(0, 0), (6, 1), (6, 2)])),
        ("bar", rect(0.0, 0.0, 7.0, 1.0)),
        ("diamond", ip(&[(2, 0), (4, 2), (2, 4), (0, 2)])),
        ("L", ip(&[(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)])),
        ("C", ip(&[(0, 0), (5, 0), (5, 1), (1, 1), (1, 4), (5, 4), (5, 5), (0, 5)])),
        (
            "cross",
            ip(&[
                (2, 0), (4, 0), (4, 2), (6, 2), (6, 4), (4, 4), (4, 6), (2, 6), (2, 4), (0, 4), (0, 2), (2, 2),
            ]),
        ),
        (
            "comb",
            ip(&[
                (0, 0), (7, 0), (7, 4), (6, 4), (6, 1), (4, 1), (4, 4), (3, 4), (3, 1), (1, 1), (1, 4), (0, 4),
            ]),
        ),
        (
            "spiral",
            ip(&[
                (0, 0), (7, 0), (7, 7), (1, 7), (1, 2), (5, 2), (5, 5), (3, 5), (3, 4), (4, 4), (4, 3), (2, 3),
                (2, 6), (6, 6), (6, 1), (0, 1),
            ]),
        ),
        ("star", star),
        ("ngon", ngon),
        ("arrow", ip(&[(0, 0), (4, 2), (0, 4), (1, 2)])),
        ("kite", ip(&[(0, 0), (3, 1), (4, 4), (1, 3)])),
    ]
}
