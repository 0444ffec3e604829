//! C13 (primitive predicates and distances) and C14 (transformations).
use crate::core::{Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, dist, orient, pt_seg, seg_intersect, seg_seg, sub, P};
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::{GeoPosition, GeoRelation};
use jagua_rs::geometry::geo_traits::{
    AlmostCollidesWith, CollidesWith, DistanceFrom, Shape, Transformable, TransformableFrom,
};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::transformation::Transformation;

/// A lattice of coordinates as the library sees them.
#[derive(Clone, Copy)]
struct Lat {
    name: &'static str,
    k: f64,
    o: P,
    /// all coordinates, products and squares are exact in single precision
    exact: bool,
}

const LATS: [Lat; 5] = [
    Lat { name: "", k: 1.0, o: (-2.0, -2.0), exact: true },
    Lat { name: "@far", k: 1.0, o: (300.0, -77.0), exact: true },
    Lat { name: "@x0.37", k: 0.37, o: (0.123, -0.71), exact: false },
    Lat { name: "@x41.3", k: 41.3, o: (-1234.5, 321.7), exact: false },
    Lat { name: "@x0.0011", k: 0.0011, o: (0.00213, -0.00171), exact: false },
];

impl Lat {
    fn p(&self, x: f64, y: f64) -> P {
        (((x * self.k + self.o.0) as f32) as f64, ((y * self.k + self.o.1) as f32) as f64)
    }
    fn r(&self, r: f64) -> f64 {
        ((r * self.k) as f32) as f64
    }
    fn mag(&self) -> f64 {
        self.o.0.abs().max(self.o.1.abs()) + 8.0 * self.k
    }
    /// width of the band around tangency that is left open
    fn m(&self) -> f64 {
        2e-6 * self.mag() * 8.0
    }
    /// numerical tolerance on lengths
    fn tol(&self) -> f64 {
        4e-6 * self.mag() * 8.0
    }
    fn points(&self, n: usize) -> Vec<P> {
        (0..n).flat_map(|i| (0..n).map(move |j| self.p(i as f64, j as f64))).collect()
    }
    fn fine(&self, n: usize) -> Vec<P> {
        (0..2 * n + 3)
            .flat_map(|i| (0..2 * n + 3).map(move |j| self.p(i as f64 / 2.0 - 1.0, j as f64 / 2.0 - 1.0)))
            .collect()
    }
    fn segs(&self, n: usize) -> Vec<(P, P)> {
        let p = self.points(n);
        let mut v = vec![];
        for a in &p {
            for b in &p {
                if a != b {
                    v.push((*a, *b));
                }
            }
        }
        v
    }
    fn rects(&self, n: usize) -> Vec<[f64; 4]> {
        let mut v = vec![];
        for a in 0..n {
            for b in a + 1..n {
                for c in 0..n {
                    for d in c + 1..n {
                        let (p, q) = (self.p(a as f64, c as f64), self.p(b as f64, d as f64));
                        v.push([p.0, p.1, q.0, q.1]);
                    }
                }
            }
        }
        v
    }
    fn circles(&self, n: usize) -> Vec<(P, f64)> {
        let mut v = vec![];
        for c in self.points(n) {
            for r in [0.5, 1.0, 1.5, 2.5, 4.0] {
                v.push((c, self.r(r)));
            }
        }
        v
    }
}

fn pt(p: P) -> Point {
    Point(p.0 as fsize, p.1 as fsize)
}
fn ed(s: &(P, P)) -> Edge {
    Edge::new(pt(s.0), pt(s.1))
}
fn re(r: &[f64; 4]) -> AARectangle {
    AARectangle::new(r[0] as fsize, r[1] as fsize, r[2] as fsize, r[3] as fsize)
}
fn ci(c: &(P, f64)) -> Circle {
    Circle::new(pt(c.0), c.1 as fsize)
}
fn fp(p: Point) -> P {
    (p.0 as f64, p.1 as f64)
}
fn frect(r: &AARectangle) -> [f64; 4] {
    [r.x_min as f64, r.y_min as f64, r.x_max as f64, r.y_max as f64]
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol && a.is_finite()
}

/// All four distances of a point (or primitive) agree with the reference signed distance
/// (negative inside).
fn dists(
    what: &dyn Fn() -> String,
    sq: fsize,
    d: fsize,
    b: (GeoPosition, fsize),
    sqb: (GeoPosition, fsize),
    signed: f64,
    m: f64,
    tol: f64,
) -> Result<(), String> {
    let out = signed.max(0.0);
    ensure!(near(d as f64, out, tol), "distance {d}, expected {out}: {}", what());
    let sqt = tol * (2.0 * out + tol);
    ensure!(near(sq as f64, out * out, sqt), "squared distance {sq}, expected {}: {}", out * out, what());
    let bd = signed.abs();
    ensure!(near(b.1 as f64, bd, tol), "distance to the border {}, expected {bd}: {}", b.1, what());
    ensure!(near(sqb.1 as f64, bd * bd, tol * (2.0 * bd + tol)), "squared distance to the border {}, expected {}: {}", sqb.1, bd * bd, what());
    if bd > m {
        let w = if signed < 0.0 { GeoPosition::Interior } else { GeoPosition::Exterior };
        ensure!(b.0 == w && sqb.0 == w, "position {:?}/{:?}, expected {w:?}: {}", b.0, sqb.0, what());
    }
    Ok(())
}

fn rect_signed(p: P, r: &[f64; 4]) -> f64 {
    let dx = (r[0] - p.0).max(p.0 - r[2]);
    let dy = (r[1] - p.1).max(p.1 - r[3]);
    if dx <= 0.0 && dy <= 0.0 {
        dx.max(dy)
    } else {
        dx.max(0.0).hypot(dy.max(0.0))
    }
}

fn verdict(l: &mut Local, got: bool, gap: f64, depth: f64, lat: &Lat, touch_ok: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    // gap: distance between the sets (0 when they meet); depth: how far they would have to move to
    // stop meeting (lower bound)
    l.transitions += 1;
    if gap > if lat.exact { 0.0 } else { lat.m() } {
        ensure!(!got, "reported to meet, but they are {gap} apart: {}", what());
        l.out("apart");
    } else if depth > lat.m() || (lat.exact && touch_ok) {
        ensure!(got, "reported apart, but they meet: {}", what());
        l.out("meet");
    } else {
        l.out("touch (unspecified)");
    }
    Ok(())
}

fn rect_poly(r: &[f64; 4]) -> Vec<P> {
    vec![(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3])]
}

/// Lattice primitives moved by a hair, so that everything that touched is now clearly (for single
/// precision) apart or clearly meeting.
fn near_misses(ctx: &Ctx) {
    let hair = 1.0 / 8192.0;
    let band = 2e-5;
    let lat = |k: f64| Lat { name: "", k, o: (-2.0 * k, -2.0 * k), exact: false };
    for k in [1.0, 64.0, 1.0 / 1024.0] {
        let lt = lat(k);
        let segs = lt.segs(4);
        let rects = lt.rects(4);
        let circles: Vec<(P, f64)> = lt.points(4).into_iter().flat_map(|p| [1.0, 2.0].map(|r| (p, lt.r(r)))).collect();
        let moves: Vec<P> = (0..9).filter(|m| *m != 4).map(|m| ((m % 3) as f64 - 1.0, (m / 3) as f64 - 1.0)).map(|d| (d.0 * hair * k, d.1 * hair * k)).collect();
        let (m, tol) = (band * k, 2.0 * band * k);
        let cl = |sd: f64| if sd > m { Some(false) } else if sd < -m { Some(true) } else { None };
        let judge = |l: &mut Local, want: Option<bool>, got: bool, what: &dyn Fn() -> String| -> Result<(), String> {
            l.transitions += 1;
            match want {
                None => l.out("too close to call"),
                Some(w) => {
                    l.out(if w { "meet" } else { "apart" });
                    ensure!(w == got, "reported {}, but they {}: {}", if got { "to meet" } else { "apart" }, if w { "meet" } else { "do not" }, what());
                }
            }
            Ok(())
        };
        let mv = |p: P, d: P| ((p.0 + d.0) as f32 as f64, (p.1 + d.1) as f32 as f64);
        ctx.family(&format!("near misses x{k}"), (segs.len() * moves.len()) as u64, |i, l| {
            let mut d = Dec(i);
            let by = moves[d.take(moves.len())];
            let s0 = segs[d.0 as usize];
            l.states += 1;
            for whole in [true, false] {
                // the whole segment, or one of its ends only
                let s = (mv(s0.0, by), if whole { mv(s0.1, by) } else { s0.1 });
                let e = ed(&s);
                for o in &segs {
                    let eo = ed(o);
                    let what = || format!("segments {s:?} and {o:?}");
                    let meet = seg_intersect(s.0, s.1, o.0, o.1);
                    let gap = if meet { 0.0 } else { seg_seg(s.0, s.1, o.0, o.1) };
                    let depth = [pt_seg(s.0, o.0, o.1), pt_seg(s.1, o.0, o.1), pt_seg(o.0, s.0, s.1), pt_seg(o.1, s.0, s.1)].into_iter().fold(f64::MAX, f64::min);
                    // almost parallel segments have no well-conditioned point
                    let par = geo::cross(sub(s.1, s.0), sub(o.1, o.0)).abs() < 1e-2 * k * k;
                    let want = if par { None } else { cl(if meet { -depth } else { gap }) };
                    let got = e.collides_with(&eo);
                    judge(l, want, got, &what)?;
                    judge(l, want, eo.collides_with(&e), &what)?;
                    if let (Some(p), false) = (e.collides_at(&eo), par) {
                        ensure!(pt_seg(fp(p), s.0, s.1) < tol && pt_seg(fp(p), o.0, o.1) < tol, "intersection at {p:?} lies off them: {}", what());
                    }
                }
                for r in &rects {
                    let what = || format!("rectangle {r:?} and segment {s:?}");
                    let rp = rect_poly(r);
                    let ends_in = [s.0, s.1].iter().map(|p| -rect_signed(*p, r)).fold(f64::MIN, f64::max);
                    let hit = ends_in >= 0.0 || geo::edges(&rp).any(|(a, b)| seg_intersect(a, b, s.0, s.1));
                    let sd = if !hit {
                        geo::edges(&rp).map(|(a, b)| seg_seg(a, b, s.0, s.1)).fold(f64::MAX, f64::min)
                    } else {
                        // corners on both sides of the line, well away from it: it cuts through
                        let len = dist(s.0, s.1);
                        let side: Vec<f64> = rp.iter().map(|c| geo::cross(sub(s.1, s.0), sub(*c, s.0)) / len).collect();
                        let (lo, hi) = side.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(*x), a.1.max(*x)));
                        let through = hi.min(-lo);
                        let reach = (0..=64).map(|q| {
                            let t = q as f64 / 64.0;
                            -rect_signed((s.0 .0 + t * (s.1 .0 - s.0 .0), s.0 .1 + t * (s.1 .1 - s.0 .1)), r)
                        }).fold(f64::MIN, f64::max);
                        -(if reach > 0.0 { through.max(ends_in).max(reach) } else { ends_in.max(0.0) })
                    };
                    judge(l, cl(sd), re(r).collides_with(&e), &what)?;
                }
                for c in &circles {
                    let what = || format!("circle {c:?} and segment {s:?}");
                    judge(l, cl(pt_seg(c.0, s.0, s.1) - c.1), ci(c).collides_with(&e), &what)?;
                }
            }
            // the end of the segment as a point, and as the centre of a circle
            let p = mv(s0.0, by);
            for r in &rects {
                let what = || format!("rectangle {r:?} and point {p:?}");
                judge(l, cl(rect_signed(p, r)), re(r).collides_with(&pt(p)), &what)?;
                for rad in [lt.r(1.0), lt.r(2.0)] {
                    let what = || format!("rectangle {r:?} and circle {p:?} {rad}");
                    judge(l, cl(rect_signed(p, r).max(0.0) - rad), ci(&(p, rad)).collides_with(&re(r)), &what)?;
                }
            }
            for c in &circles {
                let what = || format!("circle {c:?} and point {p:?}");
                judge(l, cl(dist(p, c.0) - c.1), ci(c).collides_with(&pt(p)), &what)?;
                let what = || format!("circle {c:?} and circle around {p:?} of radius {}", k);
                judge(l, cl(dist(p, c.0) - c.1 - k), ci(c).collides_with(&ci(&(p, k))), &what)?;
            }
            Ok(())
        });
    }
}

pub fn c13(ctx: &Ctx) {
    for lat in LATS {
        let n = ctx.pick(5, 6);
        let nf = |s: &str| format!("{s}{}", lat.name);
        let segs = lat.segs(n);
        let rects = lat.rects(n);
        let circles = lat.circles(n);
        let fine = lat.fine(n);
        let big = lat.points(n + 2).iter().map(|p| (p.0 - lat.k, p.1 - lat.k)).map(|p| (p.0 as f32 as f64, p.1 as f32 as f64)).collect::<Vec<P>>();
        let (m, tol) = (lat.m(), lat.tol());
        let _ = &big;

        // ---- segments against segments
        ctx.family(&nf("segment-segment"), segs.len() as u64, |i, l| {
            let a = &segs[i as usize];
            let ea = ed(a);
            l.states += 1;
            for b in &segs {
                let eb = ed(b);
                let what = || format!("segments {a:?} and {b:?}");
                let got = ea.collides_with(&eb);
                let at = ea.collides_at(&eb);
                ensure!(at.is_some() == got, "intersection point and verdict disagree: {}", what());
                let par = geo::cross(sub(a.1, a.0), sub(b.1, b.0)).abs() < 1e-9 * lat.k * lat.k + if lat.exact { 0.0 } else { m * lat.k };
                let gap = if seg_intersect(a.0, a.1, b.0, b.1) { 0.0 } else { seg_seg(a.0, a.1, b.0, b.1) };
                let depth = if gap > 0.0 || par {
                    0.0
                } else {
                    [pt_seg(a.0, b.0, b.1), pt_seg(a.1, b.0, b.1), pt_seg(b.0, a.0, a.1), pt_seg(b.1, a.0, a.1)]
                        .into_iter()
                        .fold(f64::MAX, f64::min)
                };
                verdict(l, got, gap, depth, &lat, !par, &what)?;
                // near-collinear pairs have no well-conditioned point
                if let (Some(p), false) = (at, par) {
                    let p = fp(p);
                    ensure!(pt_seg(p, a.0, a.1) < tol && pt_seg(p, b.0, b.1) < tol, "intersection at {p:?} lies off them: {}", what());
                }
            }
            Ok(())
        });

        // ---- measures and edits of segments
        ctx.family(&nf("segment measures"), segs.len() as u64, |i, l| {
            let a = &segs[i as usize];
            let e = ed(a);
            let what = || format!("segment {a:?}");
            let len = dist(a.0, a.1);
            l.states += 1;
            ensure!(near(e.diameter() as f64, len, tol), "length {}: {}", e.diameter(), what());
            ensure!(dist(fp(e.centroid()), ((a.0 .0 + a.1 .0) / 2.0, (a.0 .1 + a.1 .1) / 2.0)) < tol, "centre {:?}: {}", e.centroid(), what());
            ensure!(e.area() == 0.0, "area {}: {}", e.area(), what());
            let bx = [e.x_min() as f64, e.y_min() as f64, e.x_max() as f64, e.y_max() as f64];
            let want = [a.0 .0.min(a.1 .0), a.0 .1.min(a.1 .1), a.0 .0.max(a.1 .0), a.0 .1.max(a.1 .1)];
            ensure!(bx == want, "extent {bx:?}: {}", what());
            if want[0] < want[2] && want[1] < want[3] {
                ensure!(frect(&e.bbox()) == want, "bounding box {:?}: {}", e.bbox(), what());
            }
            let rv = e.clone().reverse();
            ensure!(fp(rv.start) == a.1 && fp(rv.end) == a.0, "reversed into {rv:?}: {}", what());
            let u = ((a.1 .0 - a.0 .0) / len, (a.1 .1 - a.0 .1) / len);
            for d in [0.5, 1.0, 3.25] {
                let dd = (d * lat.k) as f32 as f64;
                let f = e.clone().extend_at_front(dd as fsize);
                ensure!(dist(fp(f.start), (a.0 .0 - dd * u.0, a.0 .1 - dd * u.1)) < tol && fp(f.end) == a.1, "extended at the front by {dd} into {f:?}: {}", what());
                let b = e.clone().extend_at_back(dd as fsize);
                ensure!(dist(fp(b.end), (a.1 .0 + dd * u.0, a.1 .1 + dd * u.1)) < tol && fp(b.start) == a.0, "extended at the back by {dd} into {b:?}: {}", what());
                let s = e.clone().scale(d as fsize);
                let c = ((a.0 .0 + a.1 .0) / 2.0, (a.0 .1 + a.1 .1) / 2.0);
                let w = |p: P| (c.0 + d * (p.0 - c.0), c.1 + d * (p.1 - c.1));
                ensure!(dist(fp(s.start), w(a.0)) < tol && dist(fp(s.end), w(a.1)) < tol, "scaled by {d} into {s:?}: {}", what());
                l.transitions += 3;
            }
            for p in &fine {
                let q = pt(*p);
                let what = || format!("point {p:?} and segment {a:?}");
                let cp = fp(e.closest_point_on_edge(&q));
                let d = pt_seg(*p, a.0, a.1);
                ensure!(pt_seg(cp, a.0, a.1) < tol && near(dist(cp, *p), d, tol), "closest point {cp:?}: {}", what());
                dists(&what, e.sq_distance(&q), e.distance(&q), e.distance_from_border(&q), e.sq_distance_from_border(&q), d, m, tol)?;
                l.transitions += 1;
            }
            Ok(())
        });

        // ---- rectangles against segments and points
        ctx.family(&nf("rectangle-segment"), rects.len() as u64, |i, l| {
            let r = &rects[i as usize];
            let rr = re(r);
            let rp = rect_poly(r);
            l.states += 1;
            let long: Vec<(P, P)> = lat.segs(n + 2).into_iter().map(|s| {
                let f = |p: P| ((p.0 - lat.k) as f32 as f64, (p.1 - lat.k) as f32 as f64);
                (f(s.0), f(s.1))
            }).collect();
            for s in &long {
                let what = || format!("rectangle {r:?} and segment {s:?}");
                let got = rr.collides_with(&ed(s));
                ensure!(ed(s).collides_with(&rr) == got, "asymmetric: {}", what());
                let ends_in = [s.0, s.1].iter().map(|p| -rect_signed(*p, r)).fold(f64::MIN, f64::max);
                let hit = ends_in >= 0.0 || geo::edges(&rp).any(|(a, b)| seg_intersect(a, b, s.0, s.1));
                let gap = if hit { 0.0 } else { geo::edges(&rp).map(|(a, b)| seg_seg(a, b, s.0, s.1)).fold(f64::MAX, f64::min) };
                // depth: an end inside, or the closest approach of the segment to a corner it passes
                let depth = if !hit { 0.0 } else {
                    let across = (0..=64).map(|k| {
                        let t = k as f64 / 64.0;
                        -rect_signed((s.0 .0 + t * (s.1 .0 - s.0 .0), s.0 .1 + t * (s.1 .1 - s.0 .1)), r)
                    }).fold(f64::MIN, f64::max);
                    ends_in.max(across).max(0.0)
                };
                verdict(l, got, gap, depth, &lat, true, &what)?;
            }
            for p in &fine {
                let q = pt(*p);
                let what = || format!("point {p:?} and rectangle {r:?}");
                let sd = rect_signed(*p, r);
                verdict(l, rr.collides_with(&q), sd.max(0.0), -sd, &lat, true, &what)?;
                ensure!(q.collides_with(&rr) == rr.collides_with(&q), "asymmetric: {}", what());
                let al = rr.almost_collides_with(&q);
                ensure!(al || sd > 0.0, "not even almost inside, but it is inside: {}", what());
                ensure!(!al || sd < 2e-3 * lat.mag(), "almost inside, but {sd} away: {}", what());
                dists(&what, rr.sq_distance(&q), rr.distance(&q), rr.distance_from_border(&q), rr.sq_distance_from_border(&q), sd, m, tol)?;
            }
            Ok(())
        });

        // ---- rectangles
        ctx.family(&nf("rectangle-rectangle"), rects.len() as u64, |i, l| {
            let r = &rects[i as usize];
            let rr = re(r);
            l.states += 1;
            let what = || format!("rectangle {r:?}");
            let (w, h) = (r[2] - r[0], r[3] - r[1]);
            ensure!(near(rr.width() as f64, w, tol) && near(rr.height() as f64, h, tol), "size: {}", what());
            ensure!(near(rr.area() as f64, w * h, tol * (w + h)), "area {}: {}", rr.area(), what());
            ensure!(near(rr.diameter() as f64, w.hypot(h), tol), "diameter {}: {}", rr.diameter(), what());
            let c = ((r[0] + r[2]) / 2.0, (r[1] + r[3]) / 2.0);
            ensure!(dist(fp(rr.centroid()), c) < tol, "centre {:?}: {}", rr.centroid(), what());
            ensure!(frect(&rr.bbox()) == *r, "bounding box {:?}: {}", rr.bbox(), what());
            // corners, edges and quadrants, in the order of the quadrants of the plane
            let cs = rr.corners().map(fp);
            let wc = [(r[2], r[3]), (r[0], r[3]), (r[0], r[1]), (r[2], r[1])];
            ensure!(cs == wc, "corners {cs:?}: {}", what());
            let es = rr.edges();
            for k in 0..4 {
                ensure!(fp(es[k].start) == wc[k] && fp(es[k].end) == wc[(k + 1) % 4], "edges {es:?}: {}", what());
            }
            let qs = rr.quadrants();
            for k in 0..4 {
                let want = [wc[k].0.min(c.0), wc[k].1.min(c.1), wc[k].0.max(c.0), wc[k].1.max(c.1)];
                let g = frect(&qs[k]);
                ensure!((0..4).all(|j| near(g[j], want[j], tol)), "quadrant {k} is {g:?}: {}", what());
                // they tile the rectangle without gaps
                ensure!(g[0] == r[0] || g[2] == r[2], "quadrant {k} leaves a gap: {}", what());
                ensure!(g[1] == r[1] || g[3] == r[3], "quadrant {k} leaves a gap: {}", what());
            }
            for (a, b, v) in [(0, 1, false), (2, 3, false), (0, 3, true), (1, 2, true)] {
                let (x, y) = (frect(&qs[a]), frect(&qs[b]));
                let ok = if v { x[1] == y[3] || y[1] == x[3] } else { x[0] == y[2] || y[0] == x[2] };
                ensure!(ok, "quadrants {a} and {b} do not share a border: {}", what());
            }
            let sq = frect(&rr.inflate_to_square());
            let s = w.max(h) / 2.0;
            let want = [c.0 - s, c.1 - s, c.0 + s, c.1 + s];
            ensure!((0..4).all(|j| near(sq[j], want[j], tol)), "inflated to {sq:?}: {}", what());
            for f in [0.5, 1.0, 2.5] {
                let g = frect(&rr.clone().scale(f as fsize));
                let want = [c.0 - w / 2.0 * f, c.1 - h / 2.0 * f, c.0 + w / 2.0 * f, c.1 + h / 2.0 * f];
                ensure!((0..4).all(|j| near(g[j], want[j], tol)), "scaled by {f} to {g:?}: {}", what());
            }
            for o in &rects {
                let oo = re(o);
                let what = || format!("rectangles {r:?} and {o:?}");
                let gx = (r[0].max(o[0])) - (r[2].min(o[2]));
                let gy = (r[1].max(o[1])) - (r[3].min(o[3]));
                let gap = gx.max(0.0).hypot(gy.max(0.0));
                let depth = (-gx).min(-gy).max(0.0);
                let got = rr.collides_with(&oo);
                verdict(l, got, gap, depth, &lat, true, &what)?;
                let al = rr.almost_collides_with(&oo);
                ensure!(al || !got, "meet, but not even almost: {}", what());
                ensure!(!al || gap < 2e-3 * lat.mag(), "almost meet, but {gap} apart: {}", what());
                let inside = |a: &[f64; 4], b: &[f64; 4]| a[0] >= b[0] && a[1] >= b[1] && a[2] <= b[2] && a[3] <= b[3];
                for (rel, approx) in [(rr.relation_to(&oo), false), (rr.almost_relation_to(&oo), true)] {
                    let clear = !approx || lat.name != "@far" && lat.name != "@x41.3";
                    let ok = match rel {
                        GeoRelation::Disjoint => gap > 0.0,
                        GeoRelation::Surrounding => inside(o, r) || (approx && !clear && gap == 0.0),
                        GeoRelation::Enclosed => inside(r, o) || (approx && !clear && gap == 0.0),
                        GeoRelation::Intersecting => gap <= if clear { 0.0 } else { 2e-3 * lat.mag() } && !inside(o, r) && !inside(r, o),
                    };
                    ensure!(ok, "relation {rel:?}: {}", what());
                }
                let bound = frect(&AARectangle::bounding_rectangle(&rr, &oo));
                ensure!(bound == [r[0].min(o[0]), r[1].min(o[1]), r[2].max(o[2]), r[3].max(o[3])], "joint bounding box {bound:?}: {}", what());
                match AARectangle::from_intersection(&rr, &oo) {
                    None => ensure!(depth <= 0.0, "no intersection: {}", what()),
                    Some(x) => ensure!(depth > 0.0 && frect(&x) == [r[0].max(o[0]), r[1].max(o[1]), r[2].min(o[2]), r[3].min(o[3])], "intersection {x:?}: {}", what()),
                }
            }
            Ok(())
        });

        // ---- circles
        ctx.family(&nf("circle"), circles.len() as u64, |i, l| {
            let c = &circles[i as usize];
            let cc = ci(c);
            l.states += 1;
            let what = || format!("circle {c:?}");
            ensure!(near(cc.area() as f64, std::f64::consts::PI * c.1 * c.1, tol * c.1), "area {}: {}", cc.area(), what());
            ensure!(near(cc.diameter() as f64, 2.0 * c.1, tol) && fp(cc.centroid()) == c.0, "measures: {}", what());
            let b = frect(&cc.bbox());
            let want = [c.0 .0 - c.1, c.0 .1 - c.1, c.0 .0 + c.1, c.0 .1 + c.1];
            ensure!((0..4).all(|j| near(b[j], want[j], tol)), "bounding box {b:?}: {}", what());
            for p in &fine {
                let q = pt(*p);
                let what = || format!("point {p:?} and circle {c:?}");
                let sd = dist(*p, c.0) - c.1;
                // points whose distance is a whole number are exact as well, but keep the band
                verdict(l, cc.collides_with(&q), if sd > m { sd } else { 0.0 }, if sd < -m { 1.0 } else { 0.0 }, &lat, sd < -m, &what)?;
                ensure!(q.collides_with(&cc) == cc.collides_with(&q), "asymmetric: {}", what());
                dists(&what, cc.sq_distance(&q), cc.distance(&q), cc.distance_from_border(&q), cc.sq_distance_from_border(&q), sd, m, tol)?;
            }
            for s in &segs {
                let e = ed(s);
                let what = || format!("circle {c:?} and segment {s:?}");
                let sd = pt_seg(c.0, s.0, s.1) - c.1;
                verdict(l, cc.collides_with(&e), if sd > m { sd } else { 0.0 }, if sd < -m { 1.0 } else { 0.0 }, &lat, sd < -m, &what)?;
                dists(&what, cc.sq_distance(&e), cc.distance(&e), cc.distance_from_border(&e), cc.sq_distance_from_border(&e), sd, m, tol)?;
            }
            for r in &rects {
                let rr = re(r);
                let what = || format!("circle {c:?} and rectangle {r:?}");
                let sd = rect_signed(c.0, r).max(0.0) - c.1;
                verdict(l, cc.collides_with(&rr), if sd > m { sd } else { 0.0 }, if sd < -m { 1.0 } else { 0.0 }, &lat, sd < -m, &what)?;
            }
            for o in &circles {
                let oc = ci(o);
                let what = || format!("circles {c:?} and {o:?}");
                let sd = dist(c.0, o.0) - c.1 - o.1;
                verdict(l, cc.collides_with(&oc), if sd > m { sd } else { 0.0 }, if sd < -m { 1.0 } else { 0.0 }, &lat, sd < -m, &what)?;
                dists(&what, cc.sq_distance(&oc), cc.distance(&oc), cc.distance_from_border(&oc), cc.sq_distance_from_border(&oc), sd, m, tol)?;
                let b = Circle::bounding_circle([&cc, &oc]);
                let d = dist(c.0, o.0);
                let want = c.1.max(o.1).max((d + c.1 + o.1) / 2.0);
                ensure!(near(b.radius as f64, want, tol), "joint bounding circle has radius {}, the smallest is {want}: {}", b.radius, what());
                for x in [c, o] {
                    ensure!(dist(fp(b.center), x.0) + x.1 <= b.radius as f64 + tol, "joint bounding circle {b:?} does not contain {x:?}: {}", what());
                }
            }
            Ok(())
        });

        // ---- bounding circles of three and four circles
        let cs: Vec<(P, f64)> = lat.points(3).into_iter().flat_map(|p| [0.5, 1.5, 3.0].map(|r| (p, lat.r(r)))).collect();
        let k = ctx.pick(3u32, 4);
        let nc = cs.len();
        ctx.family(&nf("bounding circle"), (nc as u64).pow(k), |i, l| {
            let mut d = Dec(i);
            let v: Vec<&(P, f64)> = (0..k).map(|_| &cs[d.take(nc)]).collect();
            let cv: Vec<Circle> = v.iter().map(|c| ci(c)).collect();
            let b = Circle::bounding_circle(&cv);
            l.states += 1;
            l.transitions += 1;
            for x in &v {
                ensure!(dist(fp(b.center), x.0) + x.1 <= b.radius as f64 + tol, "bounding circle {b:?} of {v:?} does not contain {x:?}");
            }
            // never larger than circles around the hull of all of them
            let ext = v.iter().flat_map(|a| v.iter().map(move |b| dist(a.0, b.0) + a.1 + b.1)).fold(0.0, f64::max);
            ensure!(b.radius as f64 <= ext + tol, "bounding circle {b:?} of {v:?} is far too large");
            let one = Circle::bounding_circle([&cv[0]]);
            ensure!(one == cv[0], "bounding circle of one circle is {one:?}");
            Ok(())
        });
    }
    // ---- bounding circles of long lists: every length, every place of the one that sticks out
    near_misses(ctx);
    ctx.family("bounding circle of a long list", 40 * 40 * 8, |i, l| {
        let mut d = Dec(i);
        let (n, at, dir) = (d.take(40) + 1, d.take(40), d.take(8));
        if at >= n {
            return Ok(());
        }
        let a = dir as f64 * 0.785;
        let v: Vec<(P, f64)> = (0..n)
            .map(|k| if k == at { ((9.0 * a.cos(), 9.0 * a.sin()), 0.7) } else { ((0.3 * (k % 7) as f64, 0.2 * (k % 5) as f64), 0.2 + 0.1 * (k % 3) as f64) })
            .collect();
        let cv: Vec<Circle> = v.iter().map(ci).collect();
        let b = Circle::bounding_circle(&cv);
        l.states += 1;
        l.transitions += n as u64;
        for x in &v {
            ensure!(dist(fp(b.center), x.0) + x.1 <= b.radius as f64 + 1e-3, "bounding circle {b:?} of {n} circles, the {at}th far off, does not contain {x:?}");
        }
        Ok(())
    });
    // points
    let lat = LATS[2];
    let f = lat.fine(4);
    ctx.family("point-point", f.len() as u64, |i, l| {
        let a = f[i as usize];
        l.states += 1;
        for b in &f {
            let d = dist(a, *b);
            ensure!(near(pt(a).distance(pt(*b)) as f64, d, lat.tol()), "distance of {a:?} and {b:?}");
            ensure!(near(pt(a).sq_distance(pt(*b)) as f64, d * d, lat.tol() * (1.0 + d)), "squared distance of {a:?} and {b:?}");
            ensure!((pt(a) == pt(*b)) == (a == *b), "equality of {a:?} and {b:?}");
            l.transitions += 1;
        }
        ensure!(pt(a).x() as f64 == a.0 && pt(a).y() as f64 == a.1, "coordinates of {a:?}");
        Ok(())
    });
    let _ = orient;
}

// ------------------------------------------------------------------------------------------ C14

/// x' = c x - s y + t
#[derive(Clone, Copy, Debug)]
struct Aff {
    c: f64,
    s: f64,
    t: P,
}

impl Aff {
    const ID: Aff = Aff { c: 1.0, s: 0.0, t: (0.0, 0.0) };
    fn rot(a: f64) -> Aff {
        Aff { c: a.cos(), s: a.sin(), t: (0.0, 0.0) }
    }
    fn tr(t: P) -> Aff {
        Aff { t, ..Aff::ID }
    }
    fn ap(&self, p: P) -> P {
        (self.c * p.0 - self.s * p.1 + self.t.0, self.s * p.0 + self.c * p.1 + self.t.1)
    }
    /// self first, then o
    fn then(&self, o: &Aff) -> Aff {
        let t = o.ap(self.t);
        Aff { c: o.c * self.c - o.s * self.s, s: o.s * self.c + o.c * self.s, t }
    }
    fn inv(&self) -> Aff {
        let r = Aff { c: self.c, s: -self.s, t: (0.0, 0.0) };
        let t = r.ap(self.t);
        Aff { t: (-t.0, -t.1), ..r }
    }
}

const ANG: [f64; 7] = [0.0, 0.3, 1.5707963267948966, 3.141592653589793, 4.71238898038469, -2.5, 7.0];
const TRA: [P; 4] = [(0.0, 0.0), (3.0, -1.5), (-0.25, 40.0), (-7.0, 0.0)];

#[derive(Clone, Copy, Debug)]
enum TOp {
    Rotate(usize),
    Translate(usize),
    RotTra(usize, usize),
    TraRot(usize, usize),
    Then(usize, usize),
    ThenDecomposed(usize, usize),
    ThenSelf,
    Inverse,
    Recompose,
    ViaInto,
}

fn t_apply(t: Transformation, r: Aff, o: TOp) -> (Transformation, Aff) {
    let an = |i: usize| ANG[i] as f32 as f64;
    let fa = |i: usize| ANG[i] as fsize;
    let ft = |i: usize| (TRA[i].0 as fsize, TRA[i].1 as fsize);
    match o {
        TOp::Rotate(a) => (t.rotate(fa(a)), r.then(&Aff::rot(an(a)))),
        TOp::Translate(a) => (t.translate(ft(a)), r.then(&Aff::tr(TRA[a]))),
        TOp::RotTra(a, b) => (t.rotate_translate(fa(a), ft(b)), r.then(&Aff::rot(an(a))).then(&Aff::tr(TRA[b]))),
        TOp::TraRot(a, b) => (t.translate_rotate(ft(b), fa(a)), r.then(&Aff::tr(TRA[b])).then(&Aff::rot(an(a)))),
        TOp::Then(a, b) => {
            let o = Transformation::from_rotation(fa(a)).transform(&Transformation::from_translation(ft(b)));
            (t.transform(&o), r.then(&Aff::rot(an(a))).then(&Aff::tr(TRA[b])))
        }
        TOp::ThenDecomposed(a, b) => {
            let o = DTransformation::new(fa(a), ft(b));
            (t.transform_from_decomposed(&o), r.then(&Aff::rot(an(a))).then(&Aff::tr(TRA[b])))
        }
        TOp::ThenSelf => {
            let o = t.clone();
            (t.transform(&o), r.then(&r))
        }
        TOp::Inverse => (t.inverse(), r.inv()),
        TOp::Recompose => (t.decompose().compose(), r),
        TOp::ViaInto => (Transformation::from(DTransformation::from(&t)), r),
    }
}

fn t_check(t: &Transformation, r: &Aff, l: &mut Local) -> Result<(), String> {
    const PTS: [P; 4] = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-5.0, 11.0)];
    let mag = 20.0 + r.t.0.abs().max(r.t.1.abs());
    let tol = 2e-5 * mag;
    for p in PTS {
        let w = r.ap(p);
        let g = fp(pt(p).transform_clone(t));
        ensure!(dist(g, w) < tol, "{p:?} goes to {g:?}, expected {w:?}");
        let mut q = pt((99.0, 99.0));
        q.transform_from(&pt(p), t);
        ensure!(dist(fp(q), g) < tol, "transforming {p:?} from a reference gives {q:?}, in place {g:?}");
        let mut q = pt(p);
        q.transform(t);
        ensure!(dist(fp(q), g) < tol, "transforming a copy of {p:?} and in place differ");
    }
    let (a, b) = (PTS[1], PTS[3]);
    let mut e = Edge::new(pt(b), pt(a));
    e.transform_from(&Edge::new(pt(a), pt(b)), t);
    let e2 = Edge::new(pt(a), pt(b)).transform_clone(t);
    ensure!([&e, &e2].iter().all(|e| dist(fp(e.start), r.ap(a)) < tol && dist(fp(e.end), r.ap(b)) < tol), "segment goes to {e:?} or {e2:?}");
    let mut c = Circle::new(pt((0.0, 0.0)), 2.5);
    c.transform_from(&Circle::new(pt(b), 2.5), t);
    let c2 = Circle::new(pt(b), 2.5).transform_clone(t);
    ensure!([&c, &c2].iter().all(|c| dist(fp(c.center), r.ap(b)) < tol && (c.radius - 2.5).abs() < 1e-5), "circle goes to {c:?} or {c2:?}");
    // decomposition: rotation first, then translation
    let d = t.decompose();
    let rd = Aff::rot(d.rotation() as f64).then(&Aff::tr((d.translation().0 as f64, d.translation().1 as f64)));
    for p in PTS {
        ensure!(dist(rd.ap(p), r.ap(p)) < tol, "decomposed as {d}: {p:?} goes to {:?}, expected {:?}", rd.ap(p), r.ap(p));
    }
    let moved = (r.c - 1.0).abs() > 1e-3 || r.s.abs() > 1e-3 || r.t.0.abs() > 1e-3 || r.t.1.abs() > 1e-3;
    ensure!(!(moved && t.is_empty()), "claims to be empty");
    l.out(if t.is_empty() { "identity" } else { "moving" });
    Ok(())
}

fn t_dfs(t: &Transformation, r: Aff, ops: &[TOp], h: &mut Vec<TOp>, depth: usize, l: &mut Local) -> Result<(), String> {
    l.states += 1;
    t_check(t, &r, l).map_err(|m| format!("after {h:?}: {m}"))?;
    if depth == 0 {
        return Ok(());
    }
    for o in ops {
        let (t2, r2) = t_apply(t.clone(), r, *o);
        l.transitions += 1;
        h.push(*o);
        t_dfs(&t2, r2, ops, h, depth - 1, l)?;
        h.pop();
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    let mut small = vec![TOp::ThenSelf, TOp::Inverse, TOp::Recompose, TOp::ViaInto];
    for a in [1, 2, 5] {
        small.push(TOp::Rotate(a));
    }
    for t in [1, 2] {
        small.push(TOp::Translate(t));
    }
    small.extend([TOp::RotTra(1, 2), TOp::TraRot(2, 1), TOp::Then(5, 2), TOp::ThenDecomposed(4, 1)]);
    let mut full = vec![TOp::ThenSelf, TOp::Inverse, TOp::Recompose, TOp::ViaInto];
    for a in 0..ANG.len() {
        full.push(TOp::Rotate(a));
        for b in 0..TRA.len() {
            full.extend([TOp::RotTra(a, b), TOp::TraRot(a, b), TOp::Then(a, b), TOp::ThenDecomposed(a, b)]);
        }
    }
    for b in 0..TRA.len() {
        full.push(TOp::Translate(b));
    }
    for (name, ops, depth) in [("all operations", &full, ctx.pick(2, 3)), ("long sequences", &small, ctx.pick(5, 6))] {
        let n = ops.len();
        ctx.family(name, (n * n) as u64, |i, l| {
            let mut d = Dec(i);
            let (o1, o2) = (ops[d.take(n)], ops[d.take(n)]);
            let (t, r) = (Transformation::empty(), Aff::ID);
            let mut h = vec![];
            if i == 0 {
                ensure!(t.is_empty(), "the empty transformation is not empty");
                ensure!(DTransformation::empty().compose().is_empty(), "the empty decomposed transformation is not empty");
                ensure!(Transformation::empty().decompose() == DTransformation::empty(), "decomposed empty transformation");
                t_check(&t, &r, l)?;
            }
            let (t, r) = t_apply(t, r, o1);
            h.push(o1);
            t_check(&t, &r, l).map_err(|m| format!("after {h:?}: {m}"))?;
            let (t, r) = t_apply(t, r, o2);
            h.push(o2);
            l.transitions += 2;
            t_dfs(&t, r, ops, &mut h, depth - 1, l)
        });
    }
    // constructors
    ctx.family("constructors", (ANG.len() * TRA.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (a, b) = (d.take(ANG.len()), d.take(TRA.len()));
        let (fa, ft) = (ANG[a] as fsize, (TRA[b].0 as fsize, TRA[b].1 as fsize));
        let want = Aff::rot(fa as f64).then(&Aff::tr(TRA[b]));
        let dt = DTransformation::new(fa, ft);
        ensure!(dt.rotation() == fa && dt.translation() == ft, "stored as {dt}");
        l.states += 1;
        for t in [
            Transformation::from_dt(&dt),
            Transformation::from(&dt),
            Transformation::from(dt),
            dt.compose(),
            Transformation::from_rotation(fa).translate(ft),
        ] {
            l.transitions += 1;
            t_check(&t, &want, l).map_err(|m| format!("{dt}: {m}"))?;
        }
        t_check(&Transformation::from_rotation(fa), &Aff::rot(fa as f64), l)?;
        t_check(&Transformation::from_translation(ft), &Aff::tr(TRA[b]), l)
    });
}
