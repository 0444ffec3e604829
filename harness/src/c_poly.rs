//! C08 (fail-fast surrogates), C09 (polygon measures and transforms), C10 (simplification): every
//! lattice polygon up to a size, plus hand-picked larger shapes.
use crate::core::{guarded, Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, dist, Poly, P, V};
use crate::scene::*;
use crate::shapes::*;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::placed_item::PlacedItem;
use jagua_rs::fsize;
use jagua_rs::geometry::convex_hull::{convex_hull_from_points, convex_hull_from_shapes, convex_hull_indices};
use jagua_rs::geometry::geo_enums::GeoPosition;
use jagua_rs::geometry::geo_traits::{CollidesWith, DistanceFrom, Shape, Transformable, TransformableFrom};
use jagua_rs::geometry::fail_fast::sp_surrogate::SPSurrogate;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::polygon_simplification::{simplify_shape, PolySimplMode};

fn f32r(p: &[P]) -> Poly {
    p.iter().map(|q| (q.0 as f32 as f64, q.1 as f32 as f64)).collect()
}
fn fp(p: Point) -> P {
    (p.0 as f64, p.1 as f64)
}
fn pt(p: P) -> Point {
    Point(p.0 as fsize, p.1 as fsize)
}

/// the lattice polygons and the hand-picked shapes
fn lattice(ctx: &Ctx, collinear: bool, deep: bool) -> Vec<Poly> {
    let mut v = vec![];
    for k in 3..=ctx.pick(if deep { 7 } else { 6 }, 9) {
        v.extend(lattice_polys(3, 3, k, collinear));
    }
    for k in 3..=ctx.pick(if deep { 5 } else { 4 }, if deep { 6 } else { 5 }) {
        let all = lattice_polys(4, 4, k, false);
        v.extend(all.into_iter().filter(|p| {
            let b = geo::bbox(p);
            b.2 > 2.5 || b.3 > 2.5
        }));
    }
    v.extend(zoo().into_iter().map(|z| z.1));
    v
}

/// n teeth on a back: a line through the teeth crosses the border 2n times
fn teeth(n: usize) -> Poly {
    let mut p: Poly = vec![(0.0, 0.0), (2.0 * n as f64 - 1.0, 0.0)];
    for i in (0..n).rev() {
        let x = 2.0 * i as f64;
        p.extend([(x + 1.0, 9.0), (x, 9.0)]);
        if i > 0 {
            p.extend([(x, 2.0), (x - 1.0, 2.0)]);
        }
    }
    p
}

/// polygons with 40 to 600 vertices
fn large() -> Vec<(&'static str, Poly)> {
    let turned = |p: Poly| -> Poly { p.into_iter().map(|q| (-q.1, q.0)).collect() };
    // one smooth half, one half with teeth: the hull has many corners and the indices of most are high
    let mut half = gear(150, 40.0, 37.0);
    for (i, q) in half.iter_mut().enumerate() {
        if i > 150 {
            let a = (i as f64 + 0.25) * std::f64::consts::PI / 150.0;
            *q = ((40.0 * a.cos() * 256.0).round() / 256.0, (40.0 * a.sin() * 256.0).round() / 256.0);
        }
    }
    vec![
        ("gear 40", gear(20, 8.0, 6.0)),
        ("gear 66", gear(33, 9.0, 8.0)),
        ("gear 140", gear(70, 20.0, 12.0)),
        ("gear 300", gear(150, 40.0, 37.0)),
        ("gear 520", gear(260, 70.0, 60.0)),
        ("half gear", half),
        ("gon 40", dense_gon(40, 10.0)),
        ("gon 70", dense_gon(70, 20.0)),
        ("gon 130", dense_gon(130, 60.0)),
        ("gon 300", dense_gon(300, 300.0)),
        ("teeth 12", teeth(12)),
        ("teeth 40", teeth(40)),
        ("teeth 140", teeth(140)),
        ("teeth 12 turned", turned(teeth(12))),
        ("teeth 140 turned", turned(teeth(140))),
    ]
}

/// coordinates: (scale, offset)
const FRAMES: [(f64, P); 5] = [(1.0, (0.0, 0.0)), (1.0, (-1.0, -1.0)), (0.37, (-0.71, 5.3)), (63.1, (410.0, -950.0)), (16.0, (2000.0, 9000.0))];

fn framed(p: &[P], f: (f64, P)) -> Poly {
    f32r(&shifted(&scaled(p, f.0), f.1))
}

fn mag(p: &[P]) -> f64 {
    p.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()))
}

fn size(p: &[P]) -> f64 {
    let b = geo::bbox(p);
    (b.2 - b.0).max(b.3 - b.1)
}

fn same_cycle(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (0..a.len()).any(|s| (0..a.len()).all(|i| a[i] == b[(i + s) % b.len()]))
}

/// equal up to rounding
fn near_circle(a: &Circle, b: &Circle, tol: f64) -> bool {
    dist(fp(a.center), fp(b.center)) <= tol && (a.radius - b.radius).abs() as f64 <= tol
}
fn near_points(a: &[Point], b: &[Point], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| dist(fp(*x), fp(*y)) <= tol)
}
fn near_surrogate(a: &SPSurrogate, b: &SPSurrogate, tol: f64) -> bool {
    a.poles.len() == b.poles.len()
        && a.poles.iter().zip(&b.poles).all(|(x, y)| near_circle(x, y, tol))
        && near_circle(&a.poles_bounding_circle, &b.poles_bounding_circle, tol)
        && a.piers.len() == b.piers.len()
        && a.piers.iter().zip(&b.piers).all(|(x, y)| near_points(&[x.start, x.end], &[y.start, y.end], tol))
}

/// largest inscribed circle radius (within 1e-4 of the size)
fn inscribed(p: &[P]) -> f64 {
    let b = geo::bbox(p);
    let s = size(p);
    let sd = |q: P| {
        let d = geo::dist_border(q, p);
        if geo::inside(q, p) { d } else { -d }
    };
    let c = ((b.0 + b.2) / 2.0, (b.1 + b.3) / 2.0);
    let mut best: f64 = 0.0;
    let mut q = vec![(c, s / 2.0)];
    while let Some((c, h)) = q.pop() {
        let d = sd(c);
        best = best.max(d);
        if d + h * std::f64::consts::SQRT_2 > best + 1e-4 * s {
            for (i, j) in [(-0.5, -0.5), (-0.5, 0.5), (0.5, -0.5), (0.5, 0.5)] {
                q.push(((c.0 + i * h, c.1 + j * h), h / 2.0));
            }
        }
    }
    best
}

// ------------------------------------------------------------------------------------------ C09

fn measures(p: &Poly, s: &SimplePolygon, tol: f64) -> Result<(), String> {
    let sz = size(p);
    let got: Poly = s.points.iter().map(|q| fp(*q)).collect();
    let a = geo::area(p);
    ensure!((s.area() as f64 - a).abs() <= tol * sz, "area {}, expected {a}", s.area());
    ensure!((SimplePolygon::calculate_area(&s.points) as f64 - a).abs() <= tol * sz, "signed area {}", SimplePolygon::calculate_area(&s.points));
    let b = geo::bbox(p);
    ensure!(bbox_of(s) == b && bbox_of(&SimplePolygon::generate_bounding_box(&s.points)) == b, "bounding box {:?}, expected {b:?}", s.bbox());
    let d = geo::diameter(p);
    ensure!((s.diameter() as f64 - d).abs() <= tol, "diameter {}, expected {d}", s.diameter());
    let c = geo::centroid(p);
    // the area, relative to which it is known, has an error that grows with the distance from the origin
    let ctol = tol + 2e-6 * (mag(p) + sz) * sz * sz / a.max(1e-9) * (p.len() as f64).sqrt();
    ensure!(dist(fp(s.centroid()), c) <= ctol, "centroid {:?}, expected {c:?}", s.centroid());
    ensure!(s.number_of_points() == p.len(), "{} points", s.number_of_points());
    for (i, (x, y)) in geo::edges(&got).enumerate() {
        let e = s.get_edge(i);
        ensure!(fp(e.start) == x && fp(e.end) == y && fp(s.get_point(i)) == x, "edge {i} is {e:?}");
    }
    ensure!(s.edge_iter().count() == p.len(), "{} edges", s.edge_iter().count());
    ensure!(s.edge_iter().zip(geo::edges(&got)).all(|(e, (x, y))| fp(e.start) == x && fp(e.end) == y), "edge iteration");
    Ok(())
}

fn hull_ok(pts: &[P], got: &[P], tol: f64) -> Result<(), String> {
    let h = geo::hull(pts);
    for q in &h {
        // corners that stick out only by a rounding error may be dropped
        let rest: Vec<P> = h.iter().filter(|x| *x != q).cloned().collect();
        let sticks = rest.len() < 3 || geo::dist_border(*q, &rest) > tol;
        ensure!(!sticks || got.contains(q), "hull misses {q:?}: {got:?}, expected {h:?}");
    }
    for q in got {
        ensure!(pts.contains(q), "hull has {q:?} which is no input point");
        ensure!(geo::dist_border(*q, &h) <= tol, "hull has {q:?} which is inside: expected {h:?}");
    }
    for i in 0..got.len() {
        ensure!(!got[..i].contains(&got[i]), "hull repeats {:?}", got[i]);
    }
    let a = geo::area2(got) / 2.0;
    ensure!((a - geo::area(&h)).abs() <= tol * size(pts), "hull is not in counter-clockwise order: {got:?}");
    Ok(())
}

fn transforms() -> Vec<(f64, P)> {
    vec![(0.0, (0.0, 0.0)), (0.0, (13.5, -4.25)), (1.5707963, (0.0, 0.0)), (3.1415927, (-2.0, 1.0)), (0.4, (1.0, 7.0)), (-2.2, (-30.0, 11.0))]
}

fn c09_poly(p0: &Poly, heavy: bool, frame: (f64, P), l: &mut Local) -> Result<(), String> {
    let p = framed(p0, frame);
    let sz = size(&p);
    let tol = 1e-5 * (mag(&p) + sz) * 4.0;
    let s = SimplePolygon::new(pts(&p));
    let got: Poly = s.points.iter().map(|q| fp(*q)).collect();
    l.states += 1;
    ensure!(same_cycle(&got, &p), "stored as {got:?}");
    measures(&p, &s, tol)?;
    // convex hull
    let hp: Poly = convex_hull_from_points(s.points.clone()).into_iter().map(fp).collect();
    hull_ok(&p, &hp, tol)?;
    let hi = convex_hull_indices(&s);
    let hip: Poly = hi.iter().map(|i| got[*i]).collect();
    hull_ok(&p, &hip, tol).map_err(|m| format!("indices: {m}"))?;
    l.transitions += 3;
    // pole of inaccessibility
    let opt = inscribed(&p);
    let (pc, pr) = (fp(s.poi.center), s.poi.radius as f64);
    ensure!(geo::inside(pc, &p) && geo::dist_border(pc, &p) >= pr - tol, "inner circle {:?} sticks out", s.poi);
    ensure!(pr >= opt - 0.002 * sz - tol, "inner circle {:?}, but one of radius {opt} fits", s.poi);
    // membership and distance
    let b = geo::bbox(&p);
    let g = if p.len() > 30 { 27 } else if heavy { 13 } else { 9 };
    // long and thin: as many points across as along
    let (sx, sy) = (b.2 - b.0, b.3 - b.1);
    let (sx, sy) = if sx.max(sy) > 3.0 * sx.min(sy) { (sx, sy) } else { (sz, sz) };
    for i in 0..g {
        for j in 0..g {
            // every other column and row lies on the lattice, hence level with vertices
            let q = (b.0 + sx * (i as f64 - 1.0) / (g - 3) as f64, b.1 + sy * (j as f64 - 1.0) / (g - 3) as f64);
            let q = (q.0 as f32 as f64, q.1 as f32 as f64);
            let d = geo::dist_border(q, &p);
            l.transitions += 1;
            let (pos, db) = s.distance_from_border(&pt(q));
            let (sqpos, sqdb) = s.sq_distance_from_border(&pt(q));
            ensure!((db as f64 - d).abs() <= tol && (sqdb as f64 - d * d).abs() <= tol * (2.0 * d + tol), "border of {q:?} is {db} (squared {sqdb}) away, expected {d}");
            if d < 2e-6 * (sz + mag(&p)) {
                l.out("point on the border (unspecified)");
                continue;
            }
            let inn = geo::inside(q, &p);
            l.out(if inn { "point inside" } else { "point outside" });
            let pq = pt(q);
            ensure!(s.collides_with(&pq) == inn && pq.collides_with(&s) == inn, "{q:?} inside: expected {inn}");
            ensure!((pos == GeoPosition::Interior) == inn && (sqpos == GeoPosition::Interior) == inn, "{q:?} position {pos:?}");
            let out = if inn { 0.0 } else { d };
            ensure!((s.distance(&pq) as f64 - out).abs() <= tol, "distance of {q:?} is {}, expected {out}", s.distance(&pq));
            ensure!((s.sq_distance(&pq) as f64 - out * out).abs() <= tol * (2.0 * out + tol), "squared distance of {q:?} is {}", s.sq_distance(&pq));
        }
    }
    // transformations
    let mut withs = s.clone();
    if heavy {
        withs.generate_surrogate(surr(3, 2, 0));
    }
    let mut buf = withs.transform_clone(&Transformation::from_translation((91.0, 17.0)));
    for (a, t) in transforms() {
        let tr = dt(a, t).compose();
        let want = geo::place(&got, f32a(a), t);
        let m2 = 1e-5 * (mag(&want) + mag(&p));
        let c = withs.transform_clone(&tr);
        let cp: Poly = c.points.iter().map(|q| fp(*q)).collect();
        let what = || format!("rotated by {a}, moved by {t:?}");
        l.transitions += 1;
        for (x, y) in cp.iter().zip(&want) {
            ensure!(dist(*x, *y) <= m2, "{}: {x:?}, expected {y:?}", what());
        }
        measures(&cp, &c, tol + m2 * 4.0).map_err(|m| format!("{}: {m}", what()))?;
        ensure!(dist(fp(c.poi.center), geo::place(&[pc], f32a(a), t)[0]) <= m2 && (c.poi.radius as f64 - pr).abs() <= m2, "{}: inner circle {:?}", what(), c.poi);
        buf.transform_from(&withs, &tr);
        let mut ip = withs.clone();
        ip.transform(&tr);
        for (o, how) in [(&buf, "into a buffer"), (&ip, "in place")] {
            let (ob, cb) = (bbox_of(o), bbox_of(&c));
            ensure!(near_points(&o.points, &c.points, m2) && near_circle(&o.poi, &c.poi, m2)
                && [ob.0 - cb.0, ob.1 - cb.1, ob.2 - cb.2, ob.3 - cb.3].iter().all(|d| d.abs() <= m2)
                && ((o.area - c.area) as f64).abs() <= m2 * sz && ((o.diameter - c.diameter) as f64).abs() <= m2,
                "{}: {how} gives {o:?}, a copy {c:?}", what());
            if heavy {
                let (x, y) = (o.surrogate(), c.surrogate());
                ensure!(near_surrogate(x, y, m2), "{}: surrogate {how} differs", what());
            }
        }
    }
    let (centred, tr) = s.clone().center_around_centroid();
    let ctol = 4.0 * tol + 4e-6 * (mag(&p) + sz) * sz * sz / geo::area(&p) * (p.len() as f64).sqrt();
    let cp: Poly = centred.points.iter().map(|q| fp(*q)).collect();
    ensure!(dist(geo::centroid(&cp), (0.0, 0.0)) <= ctol, "centred around {:?}", geo::centroid(&cp));
    let again = s.transform_clone(&tr);
    ensure!(near_points(&again.points, &centred.points, tol), "centring reports {tr:?}, which does not give the centred shape");
    // the same shape entered from another vertex or the other way round
    let k = p.len();
    for v in 1..(2 * k) {
        if !heavy && v != 1 && v != k && v != k + 1 {
            continue;
        }
        let mut w: Poly = (0..k).map(|i| p[(i + v) % k]).collect();
        if v >= k {
            w.reverse();
        }
        let o = SimplePolygon::new(pts(&w));
        let op: Poly = o.points.iter().map(|q| fp(*q)).collect();
        l.transitions += 1;
        let what = || format!("entered as {w:?}");
        ensure!(same_cycle(&op, &p), "{}: stored as {op:?}", what());
        measures(&p, &o, tol).map_err(|m| format!("{}: {m}", what()))?;
        ensure!((o.poi.radius as f64 - pr).abs() <= 0.002 * sz + tol, "{}: inner circle {:?}", what(), o.poi);
        let hp: Poly = convex_hull_from_points(o.points.clone()).into_iter().map(fp).collect();
        hull_ok(&p, &hp, tol).map_err(|m| format!("{}: {m}", what()))?;
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    let shapes = lattice(ctx, true, false);
    let n = shapes.len();
    ctx.note(format!("{n} polygons"));
    for (fi, f) in FRAMES.iter().enumerate() {
        let step = if fi == 0 { 1 } else { ctx.pick(5, 1) };
        ctx.family(&format!("polygons x{} at {:?}", f.0, f.1), n.div_ceil(step) as u64, |i, l| {
            let i = i as usize * step;
            let heavy = i % 7 == 0 || !ctx.quick();
            c09_poly(&shapes[i], heavy, *f, l).map_err(|m| format!("polygon {:?} x{} at {:?}: {m}", shapes[i], f.0, f.1))
        });
    }
    let big = large();
    ctx.family("large polygons", (big.len() * FRAMES.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let f = FRAMES[d.take(FRAMES.len())];
        let (name, p) = &big[d.take(big.len())];
        for start in [0, p.len() / 3, p.len() - 1] {
            let mut q = p.clone();
            q.rotate_left(start);
            c09_poly(&q, false, f, l).map_err(|m| format!("{name} from vertex {start} x{} at {:?}: {m}", f.0, f.1))?;
        }
        Ok(())
    });
    // hulls of all small point sets, in every input order of a few of them
    let k = ctx.pick(5, 6);
    let lat: Vec<P> = (0..9).map(|i| ((i % 3) as f64, (i / 3) as f64)).collect();
    ctx.family("hulls of point sequences", 9u64.pow(k), |i, l| {
        let mut d = Dec(i);
        let mut v: Vec<P> = vec![];
        for _ in 0..k {
            let q = lat[d.take(9)];
            if !v.contains(&q) {
                v.push(q);
            }
        }
        if v.len() < 3 || geo::area(&geo::hull(&v)) == 0.0 {
            return Ok(());
        }
        l.states += 1;
        l.transitions += 1;
        let h: Poly = convex_hull_from_points(pts(&v)).into_iter().map(fp).collect();
        hull_ok(&v, &h, 1e-6).map_err(|m| format!("points {v:?}: {m}"))
    });
    // joint hull of two shapes
    let some: Vec<Poly> = lattice_polys(3, 3, 3, false).into_iter().chain(lattice_polys(3, 3, 5, true).into_iter().step_by(9)).collect();
    let Some(sps) = ctx.setup("joint hulls", || {
        some.iter().enumerate().map(|(i, p)| {
            let mut s = sp(p);
            if i % 2 == 0 {
                s.generate_surrogate(surr(1, 1, 0));
            }
            s
        }).collect::<Vec<_>>()
    }) else { return };
    ctx.family("joint hulls", (some.len() * some.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (a, b) = (d.take(some.len()), d.take(some.len()));
        let t = (1.0 + (i % 3) as f64, (i % 5) as f64 - 2.0);
        let o = sps[b].transform_clone(&Transformation::from_translation((t.0 as fsize, t.1 as fsize)));
        let all: Vec<P> = some[a].iter().cloned().chain(shifted(&some[b], t)).collect();
        let mut uniq: Vec<P> = vec![];
        for q in all {
            if !uniq.contains(&q) { uniq.push(q); }
        }
        let h: Poly = convex_hull_from_shapes([&sps[a], &o]).into_iter().map(fp).collect();
        let mut hd: Poly = vec![];
        for q in h { if !hd.contains(&q) { hd.push(q); } }
        l.states += 1;
        l.transitions += 1;
        hull_ok(&uniq, &hd, 1e-6).map_err(|m| format!("{:?} and {:?} moved by {t:?}: {m}", some[a], some[b]))
    });
    // rectangles as polygons
    ctx.family("rectangles", 81, |i, l| {
        let mut d = Dec(i);
        let (x, y) = (d.take(3) as f64 * 1.7 - 2.0, d.take(3) as f64 * 0.9 - 1.0);
        let (w, h) = (0.3 + d.take(3) as f64, 0.6 + d.take(3) as f64 * 2.5);
        let r = AARectangle::new(x as fsize, y as fsize, (x + w) as fsize, (y + h) as fsize);
        let p = f32r(&rect(x, y, x + w, y + h));
        l.states += 1;
        for s in [SimplePolygon::from(r.clone()), SimplePolygon::from(&r)] {
            l.transitions += 1;
            let got: Poly = s.points.iter().map(|q| fp(*q)).collect();
            ensure!(same_cycle(&got, &p), "rectangle {p:?} as polygon: {got:?}");
            measures(&p, &s, 1e-4)?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C08

/// every pole and pier lies in the polygon
fn surrogate_ok(p: &[P], s: &SimplePolygon, c: (usize, f64, usize, usize), tol: f64) -> Result<(), String> {
    let su = s.surrogate();
    let (maxp, goal, nff, npier) = c;
    for q in &su.poles {
        let (qc, r) = (fp(q.center), q.radius as f64);
        ensure!(r > 0.0 && geo::inside(qc, p) && geo::dist_border(qc, p) >= r - tol, "pole {q:?} sticks out");
        let b = &su.poles_bounding_circle;
        ensure!(dist(fp(b.center), qc) + r <= b.radius as f64 + tol, "bounding circle {b:?} misses pole {q:?}");
    }
    for i in 0..su.poles.len() {
        for j in 0..i {
            let (a, b) = (&su.poles[i], &su.poles[j]);
            ensure!(dist(fp(a.center), fp(b.center)) >= a.radius as f64 + b.radius as f64 - tol, "poles {a:?} and {b:?} overlap");
        }
    }
    let maxp = maxp.max(1);
    ensure!(!su.poles.is_empty() && su.poles.len() <= maxp, "{} poles, at most {maxp} allowed", su.poles.len());
    let cover: f64 = su.poles.iter().map(|c| std::f64::consts::PI * (c.radius as f64).powi(2)).sum();
    ensure!(su.poles.len() == maxp || cover > geo::area(p) * goal * 0.999, "stopped at {} of {maxp} poles covering {cover} of {}", su.poles.len(), geo::area(p));
    // the largest inner circle leads
    ensure!(near_circle(&su.poles[0], &s.poi, tol), "first pole {:?} is not the inner circle {:?}", su.poles[0], s.poi);
    ensure!(su.ff_poles().len() == nff.min(su.poles.len()), "{} poles to check, configured {nff}", su.ff_poles().len());
    ensure!(su.ff_poles().iter().all(|f| su.poles.contains(f)), "poles to check {:?} are no poles", su.ff_poles());
    ensure!(su.ff_piers().len() == npier, "{} piers to check, configured {npier}", su.ff_piers().len());
    for e in su.ff_piers() {
        let (a, b) = (fp(e.start), fp(e.end));
        ensure!(dist(a, b) > 0.0, "empty pier");
        // all along the segment: inside, or on the border
        for t in 0..=400 {
            let t = t as f64 / 400.0;
            let q = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
            ensure!(geo::inside(q, p) || geo::dist_border(q, p) <= tol, "pier {a:?}-{b:?} sticks out at {q:?}");
        }
    }
    let h = geo::hull(p);
    ensure!((su.convex_hull_area as f64 - geo::area(&h)).abs() <= tol * 4.0 * size(p), "hull area {}, expected {}", su.convex_hull_area, geo::area(&h));
    let hp: Poly = su.convex_hull_indices.iter().map(|i| fp(s.points[*i])).collect();
    hull_ok(p, &hp, tol)
}

fn surr_goal(poles: usize, goal: f64, ff: usize, piers: usize) -> jagua_rs::util::config::SPSurrogateConfig {
    let mut c = surr(poles, ff, piers);
    c.pole_coverage_goal = goal as fsize;
    c
}

pub fn c08(ctx: &Ctx) {
    let shapes = lattice(ctx, false, false);
    let cfgs: Vec<(usize, f64, usize, usize)> = vec![(1, 0.9, 1, 0), (4, 0.9, 2, 0), (0, 0.9, 3, 0), (8, 0.5, 4, 0), (12, 0.95, 20, 0), (3, 0.0, 0, 0)];
    let n = shapes.len();
    ctx.note(format!("{n} polygons"));
    for (fi, f) in FRAMES.iter().enumerate() {
        let step = if fi == 0 { ctx.pick(2, 1) } else { ctx.pick(11, 1) };
        ctx.family(&format!("poles x{} at {:?}", f.0, f.1), (n.div_ceil(step) * cfgs.len()) as u64, |i, l| {
            let mut d = Dec(i);
            let c = cfgs[d.take(cfgs.len())];
            let p = framed(&shapes[d.take(n) * step], *f);
            let mut s = sp(&p);
            let tol = 2e-5 * (mag(&p) + size(&p));
            s.generate_surrogate(surr_goal(c.0, c.1, c.2, c.3));
            l.states += 1;
            l.transitions += s.surrogate().poles.len() as u64;
            let what = |m: String| format!("polygon {p:?}, configuration {c:?}: {m}");
            surrogate_ok(&p, &s, c, tol).map_err(what)?;
            for (a, t) in transforms() {
                let tr = dt(a, t).compose();
                let moved = s.transform_clone(&tr);
                let mp: Poly = moved.points.iter().map(|q| fp(*q)).collect();
                surrogate_ok(&mp, &moved, c, tol * 2.0 + 2e-5 * mag(&mp)).map_err(|m| what(format!("rotated by {a}, moved by {t:?}: {m}")))?;
                let mut su = s.surrogate().clone();
                su.transform_from(s.surrogate(), &tr);
                ensure!(near_surrogate(&su, moved.surrogate(), tol + 2e-5 * mag(&mp)), "polygon {p:?}: surrogate transformed from a reference differs");
                l.transitions += 1;
            }
            Ok(())
        });
    }
    // large polygons, and many poles
    let mut big = large();
    big.extend(zoo());
    let many = [(30usize, 0.99, 20usize, 0usize), (20, 0.9, 30, 0), (48, 0.95, 17, 0)];
    ctx.family("large polygons, many poles", (big.len() * many.len() * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let c = many[d.take(many.len())];
        let f = FRAMES[[0, 3][d.take(2)]];
        let (name, p0) = &big[d.take(big.len())];
        if p0.len() > 150 && c.0 > 20 && ctx.quick() {
            return Ok(());
        }
        let p = framed(p0, f);
        let tol = 2e-5 * (mag(&p) + size(&p));
        let mut s = sp(&p);
        s.generate_surrogate(surr_goal(c.0, c.1, c.2, c.3));
        l.states += 1;
        l.transitions += s.surrogate().poles.len() as u64;
        let what = |m: String| format!("{name} x{} at {:?}, configuration {c:?}: {m}", f.0, f.1);
        surrogate_ok(&p, &s, c, tol).map_err(what)?;
        let mut buf = s.clone();
        for (a, t) in transforms() {
            let tr = dt(a, t).compose();
            let moved = s.transform_clone(&tr);
            let mp: Poly = moved.points.iter().map(|q| fp(*q)).collect();
            surrogate_ok(&mp, &moved, c, tol * 2.0 + 2e-5 * mag(&mp)).map_err(|m| what(format!("rotated by {a}, moved by {t:?}: {m}")))?;
            buf.transform_from(&s, &tr);
            let (x, y) = (buf.surrogate(), moved.surrogate());
            ensure!(near_points(&buf.points, &moved.points, tol + 2e-5 * mag(&mp)) && near_surrogate(x, y, tol + 2e-5 * mag(&mp)), "{}", what("transformed from a reference differs".into()));
            l.transitions += 1;
        }
        Ok(())
    });
    // piers are expensive to generate
    let mut few: Vec<Poly> = zoo().into_iter().map(|z| z.1).filter(|p| p.len() <= 16).collect();
    few.extend(lattice_polys(3, 3, 4, false).into_iter().step_by(ctx.pick(13, 3)));
    few.extend(lattice_polys(3, 3, 6, false).into_iter().step_by(ctx.pick(61, 11)));
    few.extend(lattice_polys(3, 3, 8, false).into_iter().step_by(ctx.pick(31, 7)));
    for (fi, f) in FRAMES.iter().enumerate() {
        let step = if fi == 0 { 1 } else { ctx.pick(4, 1) };
        ctx.family(&format!("piers x{} at {:?}", f.0, f.1), few.len().div_ceil(step) as u64, |i, l| {
            let p = framed(&few[i as usize * step], *f);
            let c = (3, 0.9, 2, ctx.pick(2, 4));
            let mut s = sp(&p);
            s.generate_surrogate(surr_goal(c.0, c.1, c.2, c.3));
            l.states += 1;
            l.transitions += c.3 as u64;
            let tol = 1e-4 * (mag(&p) + size(&p));
            surrogate_ok(&p, &s, c, tol).map_err(|m| format!("polygon {p:?}: {m}"))?;
            let tr = dt(0.7, (3.0, -2.0)).compose();
            let m = s.transform_clone(&tr);
            let mp: Poly = m.points.iter().map(|q| fp(*q)).collect();
            let mut b = s.clone();
            b.transform_from(&s, &tr);
            ensure!(near_surrogate(b.surrogate(), m.surrogate(), tol * 3.0), "piers transformed from a reference differ");
            surrogate_ok(&mp, &m, c, tol * 3.0).map_err(|e| format!("polygon {p:?} moved: {e}"))
        });
    }
    // a hit of the surrogate is a hit of the shape
    let hz: Vec<Poly> = lattice_polys(3, 3, 4, false).into_iter().step_by(ctx.pick(5, 2)).chain(lattice_polys(3, 3, 6, false).into_iter().step_by(ctx.pick(67, 23))).collect();
    let qs: Vec<Poly> = lattice_polys(3, 3, 5, false).into_iter().step_by(ctx.pick(9, 4)).chain(lattice_polys(3, 3, 7, false).into_iter().step_by(ctx.pick(97, 31))).collect();
    let np = ctx.pick(10, 40).min(qs.len());
    let Some((hi, qi)) = ctx.setup("surrogate hits", || {
        use rayon::prelude::*;
        let hi: Vec<_> = hz.par_iter().enumerate().map(|(i, p)| mk_item(i, p, None, surr(4, 2, 0))).collect();
        let qi: Vec<_> = qs.par_iter().enumerate().map(|(i, p)| mk_item(i, p, None, surr(6, 6, if i < np { 2 } else { 0 }))).collect();
        (hi, qi)
    }) else { return };
    let qips: Vec<P> = qs.iter().map(|p| geo::interior_point(p)).collect();
    let bin = bins()[0].build(0, cfg(4, 0, surr(4, 2, 0)));
    ctx.family("surrogate hits", hz.len() as u64, |i, l| {
        let h = i as usize;
        let at = (5.0 + (h % 7) as f64 * 0.5, 6.0 + (h % 5) as f64 * 0.75);
        let pi = PlacedItem::new(&hi[h], dt(0.0, at));
        let mut e = bin.base_cde.as_ref().clone();
        e.register_hazard(Hazard::new(HazardEntity::from(&pi), pi.shape.clone()));
        let hp = shifted(&hz[h], at);
        let hip = geo::interior_point(&hp);
        l.states += 1;
        for q in 0..qs.len() {
            for a in [0.0, 0.6, 2.0] {
                for o in 0..81 {
                    let t = (at.0 - 2.25 + 0.5 * (o % 9) as f64, at.1 - 2.125 + 0.5 * (o / 9) as f64);
                    let tr = dt(a, t);
                    let got = e.surrogate_collides(qi[q].shape.surrogate(), &tr.compose(), &[]);
                    l.transitions += 1;
                    if !got {
                        l.out("no surrogate hit");
                        continue;
                    }
                    let qp = geo::place(&qs[q], f32a(a), t);
                    let qip = geo::place(&[qips[q]], f32a(a), t)[0];
                    let v = geo::overlap(&qp, qip, &hp, hip, 1e-3);
                    ensure!(v != V::No, "surrogate of {:?} rotated by {a}, at {t:?} hits {hp:?}, but the shape does not", qs[q]);
                    l.out("surrogate hit");
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C10

fn c10_case(p: &Poly, mode: PolySimplMode, tolerance: f64, exact: bool, l: &mut Local) -> Result<(), String> {
    let s = sp(p);
    let r = guarded(|| simplify_shape(&s, mode, tolerance as fsize))?;
    l.states += 1;
    l.transitions += 1;
    let q: Poly = r.points.iter().map(|x| fp(*x)).collect();
    let sz = size(p);
    let m = if exact { 1e-5 } else { 2e-5 } * (sz + mag(p));
    ensure!(q.len() >= 3 && q.len() <= p.len(), "{} vertices: {q:?}", q.len());
    ensure!(geo::is_simple(&q), "not simple: {q:?}");
    let (a, b) = (geo::area(p), geo::area(&q));
    let am = m * sz * 4.0;
    ensure!((b - a).abs() <= tolerance * a + am, "area {a} became {b}: {q:?}");
    match mode {
        PolySimplMode::Inflate => {
            ensure!(b >= a - am, "shrank from {a} to {b}: {q:?}");
            ensure!(geo::protrudes(p, &q, m) != V::Yes, "sticks out of its inflated version {q:?}");
        }
        PolySimplMode::Deflate => {
            ensure!(b <= a + am, "grew from {a} to {b}: {q:?}");
            ensure!(geo::protrudes(&q, p, m) != V::Yes, "its deflated version {q:?} sticks out");
        }
    }
    ensure!((r.area() as f64 - b).abs() <= am && (SimplePolygon::calculate_area(&r.points) as f64 - b).abs() <= am, "area reported as {}, is {b}", r.area());
    ensure!(s.points == sp(p).points, "the input was changed");
    if exact && q.len() > 3 {
        // integer coordinates as long as vertices are only removed: collinearity is exact
        let kept = q.iter().all(|v| p.contains(v));
        ensure!(!kept || (0..q.len()).all(|i| geo::is_convex_vertex(&q, i) != 0.0), "a vertex on a straight line is left: {q:?}");
    }
    l.out(if q.len() < p.len() { "simplified" } else { "unchanged" });
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    let shapes = lattice(ctx, true, true);
    let n = shapes.len();
    ctx.note(format!("{n} polygons"));
    let tols = [0.0, 0.02, 0.1, 0.2, 0.3, 0.5, 0.8, 1.5, 20.0];
    for (fi, f) in FRAMES.iter().enumerate() {
        let step = if fi == 0 { 1 } else { ctx.pick(9, 1) };
        ctx.family(&format!("simplification x{} at {:?}", f.0, f.1), (n.div_ceil(step) * 2) as u64, |i, l| {
            let mut d = Dec(i);
            let mode = [PolySimplMode::Inflate, PolySimplMode::Deflate][d.take(2)];
            let mut p = framed(&shapes[d.take(n) * step], *f);
            // other frames, other starting vertices
            let k = (fi * 2 + i as usize / 2 % 3) % p.len();
            p.rotate_left(if fi == 0 { 0 } else { k });
            for (k, t) in tols.iter().enumerate() {
                if ctx.quick() && (i as usize / 2 + k) % 3 != 0 && fi == 0 {
                    continue;
                }
                c10_case(&p, mode, *t, fi == 0, l).map_err(|m| format!("{mode:?} by {t}, polygon {p:?}: {m}"))?;
            }
            Ok(())
        });
    }
    let intr = intruders(ctx);
    ctx.note(format!("{} polygons with a part that reaches into a corner", intr.len()));
    ctx.family("parts reaching into corners", (intr.len() * 2 * 4) as u64, |i, l| {
        let mut d = Dec(i);
        let mode = [PolySimplMode::Inflate, PolySimplMode::Deflate][d.take(2)];
        let rot = d.take(4);
        let p: Poly = intr[d.0 as usize].iter().map(|q| match rot { 0 => *q, 1 => (-q.1, q.0), 2 => (-q.0, -q.1), _ => (q.1, -q.0) }).collect();
        for t in [0.02, 0.1, 3.0] {
            c10_case(&p, mode, t, false, l).map_err(|m| format!("{mode:?} by {t}, polygon {p:?}: {m}"))?;
        }
        Ok(())
    });
    let tong = tongues(ctx);
    ctx.note(format!("{} polygons with a tongue in a notch", tong.len()));
    // scales far below and above one: no threshold is absolute
    for (sc, off) in [(1.0, (0.0, 0.0)), (0.001953125, (0.0, 0.0)), (0.0137, (0.01, -0.02)), (512.0, (-40.0, 12.0))] {
        let step = if sc == 1.0 { 1 } else { ctx.pick(5, 1) };
        ctx.family(&format!("tongues in notches x{sc}"), (tong.len().div_ceil(step) * 2) as u64, |i, l| {
            let mut d = Dec(i);
            let mode = [PolySimplMode::Inflate, PolySimplMode::Deflate][d.take(2)];
            let mut p = framed(&tong[d.0 as usize * step], (sc, off));
            for r in 0..p.len() {
                p.rotate_left(1);
                for t in [0.03, 0.4] {
                    c10_case(&p, mode, t, false, l).map_err(|m| format!("{mode:?} by {t}, polygon {p:?}, turn {r}: {m}"))?;
                }
            }
            Ok(())
        });
    }
    let small: Vec<Poly> = shapes.iter().step_by(ctx.pick(17, 3)).cloned().collect();
    for (sc, off) in [(0.001953125, (0.0, 0.0)), (0.0137, (0.01, -0.02)), (2048.0, (0.0, -900.0))] {
        ctx.family(&format!("simplification x{sc}"), (small.len() * 2) as u64, |i, l| {
            let mut d = Dec(i);
            let mode = [PolySimplMode::Inflate, PolySimplMode::Deflate][d.take(2)];
            let p = framed(&small[d.0 as usize], (sc, off));
            for t in [0.0, 0.01, 0.1, 0.3, 0.8] {
                c10_case(&p, mode, t, false, l).map_err(|m| format!("{mode:?} by {t}, polygon {p:?}: {m}"))?;
            }
            Ok(())
        });
    }
    let big = large();
    let bt = [0.0, 0.004, 0.02, 0.06, 0.3, 2.0];
    ctx.family("large polygons", (big.len() * 2 * bt.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = bt[d.take(bt.len())];
        let mode = [PolySimplMode::Inflate, PolySimplMode::Deflate][d.take(2)];
        let (name, p0) = &big[d.take(big.len())];
        for f in [FRAMES[0], FRAMES[2]] {
            for start in [0, p0.len() / 3] {
                let mut p = framed(p0, f);
                p.rotate_left(start);
                c10_case(&p, mode, t, false, l).map_err(|m| format!("{mode:?} by {t}, {name} from vertex {start} x{} at {:?}: {m}", f.0, f.1))?;
            }
        }
        Ok(())
    });
    crate::c_io::c10_import(ctx);
}

/// Blocks with a notch into which another part of the outline reaches: a spike from the opposite arm that
/// ends below, on or above the chord of the notch, or a tongue that starts at the end of the chord; as
/// they are (the notch is closed by inflating) and as holes of the same form in a frame.
fn tongues(ctx: &Ctx) -> Vec<Poly> {
    let mut out: Vec<Poly> = vec![];
    let mut add = |p: Poly| {
        if !geo::is_simple(&p) || geo::area2(&p) < 0.0 {
            return;
        }
        // the complement: a frame, cut open, around the shape
        let mut f: Poly = vec![(-6.0, -6.0), (20.0, -6.0), (20.0, 20.0), (-6.0, 20.0)];
        let k = (0..p.len()).min_by(|a, b| (p[*a].0 + p[*a].1).total_cmp(&(p[*b].0 + p[*b].1))).unwrap();
        f.extend((0..p.len()).map(|i| p[(k + p.len() - i) % p.len()]));
        if geo::is_simple(&f) {
            out.push(f);
        }
        out.push(p);
    };
    let half: Vec<f64> = ctx.pick(vec![4.0, 5.0, 5.5, 6.0, 6.5, 7.0, 7.5], (0..17).map(|i| 4.0 + 0.25 * i as f64).collect());
    for &ty in &half {
        for tx in [4.0, 5.0, 6.0, 6.5, 8.0] {
            for (ax, ay) in [(6.0, 8.0), (5.0, 7.0), (6.0, 6.5)] {
                for w in [0.5, 2.0] {
                    for lip in [0.0, 0.5] {
                        add(vec![
                            (0.0, 0.0), (12.0, 0.0), (12.0, 2.0), (tx + w, 2.0), (tx, ty), (tx - w, 2.0), (2.0, 2.0), (2.0, 6.0),
                            (4.0, 6.0), (ax, ay), (8.0, 6.0 - lip), (12.0, 6.0), (12.0, 10.0), (0.0, 10.0),
                        ]);
                    }
                }
            }
        }
    }
    for c1 in [(6.0, 7.0), (8.0, 5.0), (9.0, 9.0)] {
        for c2 in [(11.0, 9.0), (10.0, 8.0), (12.0, 9.0)] {
            for px in 0..ctx.pick(6, 13) {
                for py in 0..ctx.pick(5, 11) {
                    for q in [(13.0, 7.0), (13.0, 5.0), (11.5, 8.0), (14.0, 9.0)] {
                        let st = ctx.pick(1.0, 0.5);
                        let pp = (7.0 + st * px as f64, 5.0 + st * py as f64);
                        add(vec![(0.0, 0.0), (12.0, 0.0), (12.0, 4.0), c1, c2, pp, q, (15.0, 12.0), (0.0, 12.0)]);
                    }
                }
            }
        }
    }
    out
}

/// C-shaped outlines whose upper arm ends in a chamfer and whose lower arm reaches up beside or into the
/// corner the chamfer cuts off, and the same as a notch in a block.
fn intruders(ctx: &Ctx) -> Vec<Poly> {
    let mut out = vec![];
    let cs = ctx.pick(vec![5.0, 11.0, 16.0], vec![3.0, 5.0, 8.0, 11.0, 13.0, 16.0]);
    for &cx in &cs {
        for &cy in &cs {
            for tx in ctx.pick(vec![86.0, 92.0, 97.0, 100.0, 104.0], vec![84.0, 86.0, 88.0, 90.0, 92.0, 94.0, 97.0, 99.0, 100.0, 102.0, 104.0]) {
                for ty in ctx.pick(vec![55.0, 61.0, 64.0, 70.0], vec![50.0, 55.0, 59.0, 61.0, 62.0, 64.0, 67.0, 70.0, 74.0]) {
                    for (dw, flat) in [(1.5, true), (6.0, true), (4.0, false)] {
                        let mut chain: Poly = vec![(0.0, 0.0), (tx, 0.0)];
                        if flat {
                            chain.extend([(tx, ty), (tx - dw, ty - 0.25)]);
                        } else {
                            chain.push((tx - dw / 2.0, ty));
                        }
                        chain.extend([(tx - dw - 1.0, 5.0), (5.0, 5.0), (5.0, 60.0), (101.0 - cx, 60.0), (101.0, 60.0 + cy), (101.0, 90.0), (0.0, 90.0)]);
                        if !geo::is_simple(&chain) {
                            continue;
                        }
                        let mut notch: Poly = vec![(0.0, -30.0), (140.0, -30.0), (140.0, 120.0), (0.0, 120.0)];
                        notch.extend(chain.iter().rev());
                        out.push(chain);
                        if geo::is_simple(&notch) {
                            out.push(notch);
                        }
                    }
                }
            }
        }
    }
    out
}
