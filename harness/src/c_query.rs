//! C01 (boolean verdict), C02 (collected sets), C15 (three-valued shortcuts).
use crate::core::{Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, Poly, P, V};
use crate::scene::*;
use crate::shapes::{lattice_polys, rect, scaled, shifted};
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::placed_item::PlacedItem;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::TransformableFrom;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use std::f64::consts::PI;
use tribool::Tribool;

/// The worlds explored by the query checks.
pub fn worlds(ctx: &Ctx, salt: &str) -> Vec<(String, World)> {
    let mut out = vec![];
    let variants: Vec<(&str, f64, P, Vec<f64>, f64)> = if ctx.quick() {
        vec![
            ("", 1.0, (0.0, 0.0), vec![0.0, 0.6, -PI / 2.0], 0.75),
            ("@x50", 50.0, (-310.0, 470.0), vec![PI / 2.0, 2.5], 1.5),
            ("@far", 16.0, (2000.0, 9000.0), vec![0.0, 1.1], 1.5),
            ("@micro", 1.0 / 1024.0, (0.0011, -0.0023), vec![0.4], 1.5),
        ]
    } else {
        vec![
            ("", 1.0, (0.0, 0.0), vec![0.0, PI / 2.0, 0.6, 2.5, -2.0], 0.5),
            ("@x50", 50.0, (-310.0, 470.0), vec![0.0, PI, 1.1], 1.25),
            ("@far", 16.0, (2000.0, 9000.0), vec![0.0, 1.1, -PI / 2.0], 1.0),
            ("@tiny", 0.0625, (1.5, -2.0), vec![0.0, 0.6], 1.0),
            ("@micro", 1.0 / 1024.0, (0.0011, -0.0023), vec![0.4, PI / 2.0], 1.0),
        ]
    };
    for (vn, scale, offset, angles, step) in variants {
        for b in 0..bins().len() {
            let o = WorldOpts {
                surr: surr(6, 3, 0),
                scale,
                offset,
                qshapes: default_qshapes(),
                angles: angles.clone(),
                step,
            };
            let name = format!("{salt}{}{vn}", bins()[b].name);
            if let Some(w) = ctx.setup(&name, || World::new(b, &o)) {
                out.push((name, w));
            }
        }
    }
    out
}

pub fn engine(w: &World, depth: u8, subset: M, reverse: bool) -> CDEngine {
    let mut e = w.base(cfg(depth, 0, surr(6, 3, 0)));
    let n = w.placed.len();
    let idx: Vec<usize> = if reverse { (0..n).rev().collect() } else { (0..n).collect() };
    for i in idx {
        if subset >> i & 1 == 1 {
            e.register_hazard(w.hazard(i));
        }
    }
    e
}

fn ignore_masks(w: &World, active: M) -> Vec<M> {
    let mut v = vec![0 as M];
    for h in 0..w.haz.len() {
        if active >> h & 1 == 1 {
            v.push(1 << h);
            if w.haz.len() > 30 {
                // long lists
                v.push(active & !(1 << h));
                v.push(active & ((1 << h) - 1));
            }
        }
    }
    let ns = w.n_static();
    v.push((1 << ns) - 1); // everything that belongs to the bin
    v.push(active & !((1 << ns) - 1)); // all items
    v.push(active & 0x5555_5555_5555_5555_5555_5555_5555_5555);
    v.push(active & 0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA);
    v.push(active & !1);
    v.push(active); // everything
    v.sort();
    v.dedup();
    v
}

pub fn c01(ctx: &Ctx) {
    pairs(ctx);
    coinciding(ctx, false);
    interlocked(ctx, false);
    crowded(ctx, false);
    for (name, w) in worlds(ctx, "scene:") {
        let depths: &[u8] =
            if !ctx.quick() { &[0, 1, 2, 3, 4, 5, 6, 8] } else if name.contains('@') { &[1, 4] } else { &[0, 2, 3, 5] };
        let np = w.placed.len();
        let subsets: Vec<M> = if ctx.quick() {
            (0..1 << np).filter(|s: &M| [0, 1, 2, np as u32].contains(&s.count_ones())).collect()
        } else {
            (0..1 << np).collect()
        };
        let n = (subsets.len() * depths.len() * 2) as u64;
        ctx.family(&name, n, |i, l| {
            let mut d = Dec(i);
            let depth = depths[d.take(depths.len())];
            let rev = d.take(2) == 1;
            let subset = subsets[d.take(subsets.len())];
            scene_case(&w, depth, subset, rev, l)
        });
    }
}

fn scene_case(w: &World, depth: u8, subset: M, rev: bool, l: &mut Local) -> Result<(), String> {
    let e = engine(w, depth, subset, rev);
    let active = w.mask(subset);
    let igs: Vec<(M, Vec<HazardEntity>)> =
        ignore_masks(w, active).into_iter().map(|m| (m, w.entities(m))).collect();
    let mut bufs: Vec<_> = w.qitems.iter().map(|q| q.1.shape.as_ref().clone()).collect();
    let mut buf2 = bufs.clone();
    for q in 0..w.queries.len() {
        let qq = &w.queries[q];
        let item = &w.qitems[qq.shape].1;
        let shape = &mut bufs[qq.shape];
        shape.transform_from(&item.shape, &qq.t);
        // every query without filter; filters cycle so that each filter meets each query shape
        for (k, (im, ig)) in igs.iter().enumerate() {
            if k != 0 && (q + k + depth as usize) % every(w, 4) != 0 {
                continue;
            }
            let want = w.verdict(q, active, *im);
            let got = e.poly_collides(shape, ig);
            let got2 = e.surrogate_or_poly_collides(&item.shape, &qq.t, &mut buf2[qq.shape], ig);
            l.states += 1;
            l.transitions += 2;
            match want.b() {
                None => l.out("too close to call"),
                Some(b) => {
                    l.out(if b { "collides" } else { "free" });
                    ensure!(
                        got == b && got2 == b,
                        "{}: expected collision={b}, poly_collides={got}, surrogate_or_poly_collides={got2}; \
                         bin {}, quadtree depth {depth}, hazards [{}], ignored [{}]",
                        w.qname(q), w.bin.name, w.names(active), w.names(*im)
                    );
                }
            }
        }
    }
    if l.sample.is_none() {
        l.sample = Some(format!(
            "bin {}, depth {depth}, hazards [{}], {} queries",
            w.bin.name, w.names(active), w.queries.len()
        ));
    }
    Ok(())
}

/// Every pair of small lattice polygons at every relative offset on a half-lattice.
fn pairs(ctx: &Ctx) {
    // off the lattice, on the lattice (vertices meet edges and vertices), and on the lattice with
    // coordinates that are not exact in single precision
    pairs_at(ctx, "pairs:lattice polygons", 1.0, (-2.25, -2.125));
    pairs_at(ctx, "pairs:aligned", 1.0, (-2.0, -2.0));
    pairs_at(ctx, "pairs:aligned, inexact", 0.37, (-2.0, -2.0));
    pairs_at(ctx, "pairs:aligned, large", 41.3, (-2.0, -2.0));
    pairs_at(ctx, "pairs:aligned, micro", 0.0007, (-2.0, -2.0));
}

fn pairs_at(ctx: &Ctx, name: &str, k: f64, from: P) {
    let mut shapes: Vec<Poly> = lattice_polys(3, 3, 3, false);
    let quads = lattice_polys(3, 3, 4, false);
    let pent = lattice_polys(3, 3, 5, false);
    let (sq, spn) = ctx.pick((3, 23), (1, 4));
    shapes.extend(quads.into_iter().step_by(sq));
    shapes.extend(pent.into_iter().step_by(spn));
    let f32r = |p: Poly| -> Poly { p.into_iter().map(|q| (q.0 as f32 as f64, q.1 as f32 as f64)).collect() };
    let shapes: Vec<Poly> = shapes.into_iter().map(|p| f32r(scaled(&p, k))).collect();
    let s = surr(3, 2, 0);
    let Some(items) = ctx.setup(name, || {
        shapes.iter().enumerate().map(|(i, p)| mk_item(i, p, None, s)).collect::<Vec<_>>()
    }) else {
        return;
    };
    let ips: Vec<P> = shapes.iter().map(|p| geo::interior_point(p)).collect();
    let off: Vec<P> = (0..9)
        .flat_map(|i| (0..9).map(move |j| (k * (from.0 + 0.5 * i as f64), k * (from.1 + 0.5 * j as f64))))
        .collect();
    let n = shapes.len() as u64;
    let depths: &[u8] = ctx.pick(&[0, 4], &[0, 1, 2, 3, 4, 5]);
    // 16x16 square
    let bin_by_depth: Vec<_> = depths.iter().map(|d| bins()[0].map(k, (0.0, 0.0)).build(0, cfg(*d, 0, s))).collect();
    ctx.family(name, n * depths.len() as u64, |i, l| {
        let mut d = Dec(i);
        let di = d.take(depths.len());
        let h = d.take(shapes.len());
        // hazard sits at an irregular spot so that its edges meet quadtree borders in many ways
        let at = (k * (5.0 + (h % 7) as f64 * 0.5), k * (6.0 + (h % 5) as f64 * 0.75));
        let pi = PlacedItem::new(&items[h], dt(0.0, at));
        let mut e = bin_by_depth[di].base_cde.as_ref().clone();
        e.register_hazard(Hazard::new(HazardEntity::from(&pi), pi.shape.clone()));
        let hp = shifted(&shapes[h], at);
        let hip = (ips[h].0 + at.0, ips[h].1 + at.1);
        for q in 0..shapes.len() {
            let mut buf = items[q].shape.as_ref().clone();
            for o in &off {
                let t = (at.0 + o.0, at.1 + o.1);
                let qp = shifted(&shapes[q], t);
                let want = geo::overlap(&qp, (ips[q].0 + t.0, ips[q].1 + t.1), &hp, hip, 1e-3 * k);
                let got = e.surrogate_or_poly_collides(&items[q].shape, &dt(0.0, t).compose(), &mut buf, &[]);
                buf.transform_from(&items[q].shape, &dt(0.0, t).compose());
                let got2 = e.poly_collides(&buf, &[]);
                l.states += 1;
                l.transitions += 2;
                match want.b() {
                    None => l.out("too close to call"),
                    Some(b) => {
                        l.out(if b { "collides" } else { "free" });
                        ensure!(
                            got == b && got2 == b,
                            "shape {:?} at {t:?} vs hazard {hp:?}, depth {}: expected {b}, got {got} (without surrogate {got2})",
                            shapes[q], depths[di]
                        );
                    }
                }
            }
        }
        Ok(())
    });
}

/// Rectangles that share sides with a placed rectangle (or a hole) up to the last bits of their
/// coordinates, as rows and grids of equal rectangles do: they overlap, so they have to be found.
fn coinciding(ctx: &Ctx, collect: bool) {
    // (x0, y0, x1, y1) in units of the hazard's width and height
    let forms: [(&str, [f64; 4]); 9] = [
        ("the same", [0.0, 0.0, 1.0, 1.0]),
        ("lower half", [0.0, 0.0, 1.0, 0.5]),
        ("corner", [0.5, 0.5, 1.0, 1.0]),
        ("cross strip", [0.25, 0.0, 0.75, 1.0]),
        ("shifted along", [0.375, 0.0, 1.375, 1.0]),
        ("shifted up", [0.0, -0.5, 1.0, 0.5]),
        ("around", [-0.5, -0.25, 1.5, 1.0]),
        ("wider", [-0.25, 0.0, 1.5, 1.0]),
        ("tall", [0.25, -0.5, 1.0, 1.5]),
    ];
    let frames: Vec<(P, P)> = vec![
        // position and size of the hazard
        ((5.0, 6.0), (4.0, 3.0)),
        ((5.1, 6.7), (3.3, 2.9)),
        ((8.0, 4.0), (4.0, 4.0)),
        ((7.77, 3.33), (0.9, 4.1)),
    ];
    let depths: &[u8] = &[0, 3, 6];
    let ulp = |x: f64, k: i32| -> f64 {
        let mut y = x as f32;
        for _ in 0..k.abs() {
            y = if k > 0 { y.next_up() } else { y.next_down() };
        }
        y as f64
    };
    // every combination of moving each of the 8 coordinates by so many last bits
    let jit: [i32; 3] = [0, 1, -2];
    let n = 3usize.pow(8);
    let s = surr(3, 2, 0);
    ctx.family("coinciding sides", (forms.len() * frames.len() * depths.len() * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let depth = depths[d.take(depths.len())];
        let (at, size) = frames[d.take(frames.len())];
        let (fname, f) = &forms[d.take(forms.len())];
        let hole = d.take(2) == 1;
        let r32 = |p: P| (p.0 as f32 as f64, p.1 as f32 as f64);
        let hp: Poly = rect(at.0, at.1, at.0 + size.0, at.1 + size.1).into_iter().map(r32).collect();
        let mut def = bins()[0].clone();
        if hole {
            def.holes.push(hp.clone());
        }
        let b = def.build(0, cfg(depth, 0, s));
        let mut e = b.base_cde.as_ref().clone();
        let ent = if hole {
            e.static_hazards().iter().map(|h| h.entity).find(|x| matches!(x, HazardEntity::BinHole { .. })).unwrap()
        } else {
            let pi = PlacedItem::new(&mk_item(0, &hp, None, s), dt(0.0, (0.0, 0.0)));
            let ent = HazardEntity::from(&pi);
            e.register_hazard(Hazard::new(ent, pi.shape.clone()));
            ent
        };
        let q: Poly = rect(at.0 + f[0] * size.0, at.1 + f[1] * size.1, at.0 + f[2] * size.0, at.1 + f[3] * size.1).into_iter().map(r32).collect();
        let mut shape = crate::shapes::sp(&q);
        let base: Vec<P> = shape.points.iter().map(|p| (p.0 as f64, p.1 as f64)).collect();
        for j in 0..n {
            let mut d = Dec(j as u64);
            for (k, p) in base.iter().enumerate() {
                let x = ulp(p.0, jit[d.take(3)]);
                let y = ulp(p.1, jit[d.take(3)]);
                shape.points[k] = Point(x as fsize, y as fsize);
            }
            shape.bbox = jagua_rs::geometry::primitives::simple_polygon::SimplePolygon::generate_bounding_box(&shape.points);
            l.states += 1;
            l.transitions += 1;
            let what = || format!("{fname}: rectangle {:?} over {} {hp:?}, quadtree depth {depth}", shape.points, if hole { "hole" } else { "item" });
            if collect {
                let mut det = vec![];
                e.collect_poly_collisions(&shape, &[], &mut det);
                ensure!(det == [ent], "collected {det:?}: {}", what());
            } else {
                ensure!(e.poly_collides(&shape, &[]), "reported free, but it overlaps: {}", what());
            }
        }
        l.out(fname);
        Ok(())
    });
}

/// Concave shapes of very different size nested in, around and next to each other without touching: which
/// of the two is inside the other is decided by a single point of one of them.
pub fn hooks() -> Vec<(&'static str, Poly)> {
    let p = |v: &[(i32, i32)]| -> Poly { v.iter().map(|q| (q.0 as f64, q.1 as f64)).collect() };
    let mut v = vec![
        ("U", p(&[(0, 0), (6, 0), (6, 6), (4, 6), (4, 1), (2, 1), (2, 6), (0, 6)])),
        ("C", zshape("C")),
        ("E", p(&[(0, 0), (5, 0), (5, 1), (2, 1), (2, 3), (4, 3), (4, 4), (2, 4), (2, 6), (5, 6), (5, 7), (0, 7)])),
        ("S", p(&[(0, 0), (5, 0), (5, 4), (1, 4), (1, 6), (5, 6), (5, 7), (0, 7), (0, 3), (4, 3), (4, 1), (0, 1)])),
        ("H", p(&[(0, 0), (1, 0), (1, 3), (5, 3), (5, 0), (6, 0), (6, 7), (5, 7), (5, 4), (1, 4), (1, 7), (0, 7)])),
        ("L", zshape("L")),
        ("spiral", zshape("spiral")),
        ("comb", zshape("comb")),
        ("hook", p(&[(0, 0), (7, 0), (7, 5), (5, 5), (5, 1), (0, 1)])),
        // bulges at one end: the centroid and the widest place are far apart
        ("spoon", p(&[(0, 0), (3, 0), (3, 1), (6, 1), (6, -2), (5, -2), (5, -3), (7, -3), (7, 2), (3, 2), (3, 3), (0, 3)])),
        ("square", rect(0.0, 0.0, 2.0, 2.0)),
        ("tri", zshape("tri")),
    ];
    for s in v.iter_mut() {
        let b = geo::bbox(&s.1);
        s.1 = shifted(&s.1, (-(b.0 + b.2) / 2.0, -(b.1 + b.3) / 2.0));
    }
    v
}

fn interlocked(ctx: &Ctx, collect: bool) {
    let hs = hooks();
    let s = surr(4, 2, 0);
    // scale of the hazard, scale of the query; the hazard as item, as hole, as outline of the bin
    let scales: &[(f64, f64)] = &[(3.0, 0.35), (0.35, 3.0), (3.0, 1.0), (1.0, 3.0)];
    let rots: Vec<f64> = ctx.pick(vec![0.0, PI / 2.0, PI, -PI / 2.0], vec![0.0, PI / 2.0, PI, -PI / 2.0, 0.4, 2.2]);
    let steps = if collect { ctx.pick(13i64, 31) } else { ctx.pick(19i64, 41) };
    let n = hs.len() as u64 * scales.len() as u64 * 3;
    let depths: &[u8] = ctx.pick(&[3], &[0, 2, 3, 5]);
    ctx.family("interlocked concave shapes", n * depths.len() as u64, |i, l| {
        let mut d = Dec(i);
        let role = d.take(3);
        let (sh, sq) = scales[d.take(scales.len())];
        let hz = d.take(hs.len());
        let depth = depths[d.take(depths.len())];
        if role == 2 && sh < 1.0 {
            return Ok(());
        }
        let hp: Poly = shifted(&scaled(&hs[hz].1, sh), (1.5, -2.25));
        let bin = BinDef {
            name: "interlocked",
            outer: if role == 2 { hp.clone() } else { rect(-34.0, -37.0, 37.0, 33.0) },
            holes: if role == 1 { vec![hp.clone()] } else { vec![] },
            zones: vec![],
        };
        let mut e = bin.build(0, cfg(depth, 0, s)).base_cde.as_ref().clone();
        if role == 0 {
            let it = mk_item(0, &hp, None, s);
            let pi = PlacedItem::new(&it, dt(0.0, (0.0, 0.0)));
            e.register_hazard(Hazard::new(HazardEntity::from(&pi), pi.shape.clone()));
        }
        let hip = geo::interior_point(&hp);
        let hb = geo::bbox(&hp);
        let bin_box = {
            let b = geo::bbox(&bin.outer);
            let half = (b.2 - b.0).max(b.3 - b.1) / 2.0;
            let c = ((b.0 + b.2) / 2.0, (b.1 + b.3) / 2.0);
            (c.0 - half, c.1 - half, c.0 + half, c.1 + half)
        };
        for (qn, qs) in &hs {
            let q0 = scaled(qs, sq);
            let item = mk_item(1, &q0, None, s);
            let ip0 = geo::interior_point(&q0);
            let qb = geo::bbox(&q0);
            let mut buf = item.shape.as_ref().clone();
            let mut buf2 = buf.clone();
            let ext = ((hb.2 - hb.0).max(hb.3 - hb.1) + (qb.2 - qb.0).max(qb.3 - qb.1)) / 2.0 + 0.4;
            for &a in &rots {
                for ix in 0..steps {
                    for iy in 0..steps {
                        let f = |k: i64, off: f64| ext * (2.0 * (k as f64 + off) / steps as f64 - 1.0);
                        let t = ((hb.0 + hb.2) / 2.0 + f(ix, 0.43), (hb.1 + hb.3) / 2.0 + f(iy, 0.61));
                        let qp = geo::place(&q0, f32a(a), t);
                        let b = geo::bbox(&qp);
                        if role != 2 && (b.0 < -33.5 || b.1 < -36.5 || b.2 > 36.5 || b.3 > 32.5) {
                            continue;
                        }
                        let r = geo::rot(ip0, f32a(a));
                        let want = if role == 2 {
                            geo::protrudes(&qp, &hp, 2e-3)
                        } else {
                            geo::overlap(&qp, (r.0 + t.0, r.1 + t.1), &hp, hip, 2e-3)
                        };
                        let Some(want) = want.b() else {
                            l.out("too close to call");
                            continue;
                        };
                        let tr = dt(a, t).compose();
                        if collect {
                            buf.transform_from(&item.shape, &tr);
                            let mut det = vec![];
                            e.collect_poly_collisions(&buf, &[], &mut det);
                            l.states += 1;
                            l.transitions += 1;
                            l.out(if want { "one" } else { "none" });
                            let at = bin_box.0 < b.0 && bin_box.1 < b.1 && b.2 < bin_box.2 && b.3 < bin_box.3;
                            ensure!(
                                det.len() == want as usize || (!at && det.len() <= 1),
                                "{qn} (x{sq}) rotated {a} at {t:?} vs {} (x{sh}) as {}, depth {depth}: collected {det:?}, expected {}",
                                hs[hz].0, ["item", "hole", "bin"][role], if want { "the hazard" } else { "nothing" }
                            );
                            continue;
                        }
                        let got = e.surrogate_or_poly_collides(&item.shape, &tr, &mut buf2, &[]);
                        buf.transform_from(&item.shape, &tr);
                        let got2 = e.poly_collides(&buf, &[]);
                        l.states += 1;
                        l.transitions += 2;
                        l.out(if want { "collides" } else { "free" });
                        ensure!(
                            got == want && got2 == want,
                            "{qn} (x{sq}) rotated {a} at {t:?} vs {} (x{sh}) as {}, depth {depth}: expected {want}, got {got} (without surrogate {got2})",
                            hs[hz].0, ["item", "hole", "bin"][role]
                        );
                    }
                }
            }
        }
        if l.sample.is_none() {
            l.sample = Some(format!("hazard {} x{sh} as {}", hs[hz].0, ["item", "hole", "bin"][role]));
        }
        Ok(())
    });
}

/// hazards that stay inside the engine's box
fn contained(w: &World) -> Vec<bool> {
    let bb = geo::bbox(&w.bin.outer);
    let (cx, cy) = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
    let half = (bb.2 - bb.0).max(bb.3 - bb.1) / 2.0;
    w.haz
        .iter()
        .map(|h| {
            let b = geo::bbox(&h.poly);
            h.exterior || (b.0 >= cx - half && b.2 <= cx + half && b.1 >= cy - half && b.3 <= cy + half)
        })
        .collect()
}

/// filters cycle over the queries: every k-th
fn every(w: &World, k: usize) -> usize {
    if w.haz.len() > 30 { 8 * k } else { k }
}

/// many hazards, many of them in the same place, and shapes with hundreds of vertices
fn crowded(ctx: &Ctx, collect: bool) {
    let name = if collect { "collect:crowd" } else { "scene:crowd" };
    let depths: &[u8] = ctx.pick(&[1, 4], &[0, 1, 2, 3, 4, 5, 6, 7]);
    let Some(w) = ctx.setup(name, || crowd_world(ctx.pick(4.3, 1.3), ctx.pick(vec![0.0, 0.6], vec![0.0, 0.6, -PI / 2.0, 2.5]), surr(6, 3, 0))) else {
        return;
    };
    let np = w.placed.len();
    let all: M = (1 << np) - 1;
    let mut subsets = vec![all, 0];
    for i in 0..np {
        if !ctx.quick() || i % 3 == 0 {
            subsets.extend([all & !(1 << i), 1 << i]);
        }
        if i % ctx.pick(6, 1) == 5 % ctx.pick(6, 1) {
            subsets.extend([(1 << i) - 1, all & !((1 << i) - 1)]);
        }
    }
    subsets.sort();
    subsets.dedup();
    let cont = contained(&w);
    ctx.family(name, (subsets.len() * depths.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let depth = depths[d.take(depths.len())];
        let subset = subsets[d.take(subsets.len())];
        if collect {
            collect_case(&w, &cont, depth, subset, i % 4 > 1, l)
        } else {
            scene_case(&w, depth, subset, i % 4 > 1, l)
        }
    });
}

fn collect_case(w: &World, contained: &[bool], depth: u8, subset: M, rev: bool, l: &mut Local) -> Result<(), String> {
    let e = engine(w, depth, subset, rev);
    let active = w.mask(subset);
    let igs: Vec<(M, Vec<HazardEntity>)> =
        ignore_masks(w, active).into_iter().map(|m| (m, w.entities(m))).collect();
    let foreign = HazardEntity::BinHole { id: 77 };
    let mut bufs: Vec<_> = w.qitems.iter().map(|q| q.1.shape.as_ref().clone()).collect();
    for q in 0..w.queries.len() {
        let qq = &w.queries[q];
        let item = &w.qitems[qq.shape].1;
        let shape = &mut bufs[qq.shape];
        shape.transform_from(&item.shape, &qq.t);
        for (k, (im, ig)) in igs.iter().enumerate() {
            if k != 0 && (q + k + depth as usize) % every(w, 5) != 0 {
                continue;
            }
            // the buffer may hold entries already: they stay, and are not reported again
            let pre: Vec<HazardEntity> = match (q + k) % 3 {
                0 => vec![],
                1 => vec![foreign],
                _ => vec![foreign, w.haz[(q / 7) % w.haz.len()].entity],
            };
            let premask = pre.iter().filter_map(|p| w.index_of(p)).fold(0 as M, |m, h| m | 1 << h);
            let mut det = pre.clone();
            e.collect_poly_collisions(shape, ig, &mut det);
            let hit = e.poly_collides(shape, ig);
            l.states += 1;
            l.transitions += 2;
            let ctxs = || {
                format!(
                    "{}; bin {}, depth {depth}, hazards [{}], ignored [{}], buffer held {:?}, got {:?}",
                    w.qname(q), w.bin.name, w.names(active), w.names(*im), pre,
                    det.iter().map(|x| w.index_of(x).map(|h| w.haz[h].name.clone()).unwrap_or_else(|| format!("{x:?}"))).collect::<Vec<_>>()
                )
            };
            ensure!(det.len() >= pre.len() && det[..pre.len()] == pre[..], "buffer contents changed: {}", ctxs());
            let new = &det[pre.len()..];
            let mut m = 0 as M;
            for x in new {
                let Some(h) = w.index_of(x) else {
                    return Err(format!("reported a hazard that does not exist: {}", ctxs()));
                };
                ensure!(active >> h & 1 == 1, "reported a hazard that is not present: {}", ctxs());
                ensure!(im >> h & 1 == 0, "reported an ignored hazard: {}", ctxs());
                ensure!(premask >> h & 1 == 0, "reported a hazard again: {}", ctxs());
                ensure!(m >> h & 1 == 0, "reported a hazard twice: {}", ctxs());
                ensure!(w.tab[q][h] != V::No, "reported {} although they do not overlap: {}", w.haz[h].name, ctxs());
                m |= 1 << h;
            }
            let mut clear = true;
            for h in 0..w.haz.len() {
                if active >> h & 1 == 0 || im >> h & 1 == 1 || premask >> h & 1 == 1 {
                    continue;
                }
                match w.tab[q][h] {
                    V::Yes => {
                        if w.in_box[q] || contained[h] {
                            ensure!(m >> h & 1 == 1, "missed {}: {}", w.haz[h].name, ctxs());
                        }
                    }
                    V::Amb => clear = false,
                    V::No => {}
                }
            }
            if clear && premask == 0 && (w.in_box[q] || im & 1 == 0) {
                ensure!(hit == (m != 0), "boolean query says {hit} but collected set is {}: {}", if m != 0 { "non-empty" } else { "empty" }, ctxs());
            }
            l.out(match m.count_ones() {
                0 => "none",
                1 => "one",
                2 => "two",
                _ => "three or more",
            });
        }
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    let depths: &[u8] = ctx.pick(&[0, 3, 5], &[0, 1, 2, 3, 4, 5, 6]);
    for (name, w) in worlds(ctx, "collect:") {
        let np = w.placed.len() as u32;
        let subsets: Vec<M> = (0..(1 as M) << np)
            .filter(|s| !ctx.quick() || [0, 2, 3, np].contains(&s.count_ones()))
            .collect();
        let contained = contained(&w);
        let n = (subsets.len() * depths.len()) as u64;
        ctx.family(&name, n, |i, l| {
            let mut d = Dec(i);
            let depth = depths[d.take(depths.len())];
            let subset = subsets[d.take(subsets.len())];
            collect_case(&w, &contained, depth, subset, i % 2 == 1, l)
        });
    }
    crowded(ctx, true);
    coinciding(ctx, true);
    interlocked(ctx, true);
    surrogates(ctx);
    primitives(ctx, false);
}

/// Collecting with the fail-fast surrogate of a shape instead of the shape itself: everything reported is
/// touched by one of its poles or piers, and every hazard whose border one of them crosses is reported.
fn surrogates(ctx: &Ctx) {
    use rayon::prelude::*;
    let depths: &[u8] = ctx.pick(&[0, 2, 4], &[0, 1, 2, 3, 4, 5, 6]);
    // generating piers is slow: once per shape
    let Some(items) = ctx.setup("surrogates", || {
        let q = default_qshapes();
        q.par_iter().enumerate().map(|(i, s)| mk_item(i, &s.1, None, surr(4, 3, 2))).collect::<Vec<_>>()
    }) else {
        return;
    };
    for b in 0..bins().len() {
        let o = WorldOpts {
            surr: surr(4, 3, 0),
            scale: 1.0,
            offset: (0.0, 0.0),
            qshapes: default_qshapes(),
            angles: ctx.pick(vec![0.0, 0.6], vec![0.0, 0.6, PI / 2.0, -2.0]),
            step: ctx.pick(2.0, 1.0),
        };
        let name = format!("surrogate:{}", bins()[b].name);
        let Some(w) = ctx.setup(&name, || World::new(b, &o)) else { continue };
        let bb = geo::bbox(&w.bin.outer);
        let (cx, cy) = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
        let half = (bb.2 - bb.0).max(bb.3 - bb.1) / 2.0 - w.margin;
        let inb = |p: P| (p.0 - cx).abs() < half && (p.1 - cy).abs() < half;
        // per query and hazard: (touched by a pole or pier, border crossed by one that lies in the box)
        let tab: Vec<Vec<(V, bool)>> = w
            .queries
            .par_iter()
            .map(|q| {
                let sg = items[q.shape].shape.surrogate();
                let at = |p: &Point| {
                    let r = geo::rot((p.0 as f64, p.1 as f64), f32a(q.angle));
                    (r.0 + q.at.0, r.1 + q.at.1)
                };
                let mut ps: Vec<Prim> = sg.ff_poles().iter().map(|c| Prim::C(at(&c.center), c.radius as f64)).collect();
                ps.extend(sg.ff_piers().iter().map(|e| Prim::E(at(&e.start), at(&e.end))));
                w.haz
                    .iter()
                    .map(|h| {
                        ps.iter().fold((V::No, false), |acc, p| {
                            let (region, border) = prim_ref(p, h, w.margin);
                            let whole = match p {
                                Prim::C(c, r) => inb((c.0 + r, c.1 + r)) && inb((c.0 - r, c.1 - r)),
                                Prim::E(a, b) => inb(*a) && inb(*b),
                                Prim::R(..) => false,
                            };
                            (acc.0.or(region), acc.1 || (whole && border == V::Yes))
                        })
                    })
                    .collect()
            })
            .collect();
        let np = w.placed.len() as u32;
        let subsets: Vec<M> = (0..(1 as M) << np).filter(|s| !ctx.quick() || [0, 2, np - 1, np].contains(&s.count_ones())).collect();
        ctx.family(&name, (subsets.len() * depths.len()) as u64, |i, l| {
            let mut d = Dec(i);
            let depth = depths[d.take(depths.len())];
            let subset = subsets[d.take(subsets.len())];
            let e = engine(&w, depth, subset, i % 2 == 1);
            let active = w.mask(subset);
            let igs: Vec<(M, Vec<HazardEntity>)> =
                ignore_masks(&w, active).into_iter().map(|m| (m, w.entities(m))).collect();
            for (q, qq) in w.queries.iter().enumerate() {
                let sg = items[qq.shape].shape.surrogate();
                let (im, ig) = &igs[if (q + i as usize) % 2 == 0 { 0 } else { (q / 2) % igs.len() }];
                let rel = active & !im;
                let pre: Vec<HazardEntity> = match q % 3 {
                    0 => vec![],
                    1 => vec![HazardEntity::BinHole { id: 77 }],
                    _ => vec![HazardEntity::BinHole { id: 77 }, w.haz[(q / 3) % w.haz.len()].entity],
                };
                let premask = pre.iter().filter_map(|p| w.index_of(p)).fold(0 as M, |m, h| m | 1 << h);
                let mut det = pre.clone();
                e.collect_surrogate_collisions(sg, &qq.t, ig, &mut det);
                let hit = e.surrogate_collides(sg, &qq.t, ig);
                l.states += 1;
                l.transitions += 2;
                let desc = || {
                    format!(
                        "surrogate of {}; bin {}, depth {depth}, hazards [{}], ignored [{}], buffer held {pre:?}, got {det:?}",
                        w.qname(q), w.bin.name, w.names(active), w.names(*im)
                    )
                };
                ensure!(det.len() >= pre.len() && det[..pre.len()] == pre[..], "buffer contents changed: {}", desc());
                let mut m = premask;
                for x in &det[pre.len()..] {
                    let h = w.index_of(x).ok_or_else(|| format!("unknown hazard {x:?}: {}", desc()))?;
                    ensure!(rel >> h & 1 == 1, "reported absent or ignored {}: {}", w.haz[h].name, desc());
                    ensure!(m >> h & 1 == 0, "reported {} twice: {}", w.haz[h].name, desc());
                    ensure!(tab[q][h].0 != V::No, "reported {} which no pole or pier touches: {}", w.haz[h].name, desc());
                    m |= 1 << h;
                }
                for h in 0..w.haz.len() {
                    if rel >> h & 1 == 1 && tab[q][h].1 {
                        ensure!(m >> h & 1 == 1, "missed {}: {}", w.haz[h].name, desc());
                        ensure!(hit, "the boolean surrogate query reports no collision with {}: {}", w.haz[h].name, desc());
                    }
                }
                let free = (0..w.haz.len()).all(|h| rel >> h & 1 == 0 || tab[q][h].0 == V::No);
                ensure!(!(hit && free), "the boolean surrogate query reports a collision, there is none: {}", desc());
                l.out(match (m & !premask).count_ones() { 0 => "none", 1 => "one", _ => "several" });
            }
            Ok(())
        });
    }
}

pub enum Prim {
    E(P, P),
    C(P, f64),
    R(f64, f64, f64, f64),
}

/// reference: (touches the hazardous region, touches the hazard's border)
fn prim_ref(p: &Prim, h: &Haz, m: f64) -> (V, V) {
    let flip = |v: V, x: bool| if x { v.not() } else { v };
    match p {
        Prim::E(a, b) => {
            let gap = geo::edges(&h.poly).map(|(r, s)| geo::seg_seg(*a, *b, r, s)).fold(f64::MAX, f64::min);
            if gap > m {
                let ins = geo::inside(*a, &h.poly);
                let v = if ins { V::Yes } else { V::No };
                return (flip(v, h.exterior), V::No);
            }
            let (mut deep_in, mut deep_out) = (false, false);
            for i in 0..=96 {
                let t = i as f64 / 96.0;
                let q = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
                if geo::dist_border(q, &h.poly) > m {
                    if geo::inside(q, &h.poly) {
                        deep_in = true
                    } else {
                        deep_out = true
                    }
                }
            }
            let region = if h.exterior { deep_out } else { deep_in };
            (
                if region { V::Yes } else { V::Amb },
                if deep_in && deep_out { V::Yes } else { V::Amb },
            )
        }
        Prim::C(c, r) => {
            let d = geo::dist_border(*c, &h.poly);
            let border = if d < r - m { V::Yes } else if d > r + m { V::No } else { V::Amb };
            let ins = geo::inside(*c, &h.poly) != h.exterior;
            let region = if border == V::Yes || (ins && d > m) {
                V::Yes
            } else if border == V::No {
                if ins { V::Yes } else { V::No }
            } else {
                V::Amb
            };
            (region, border)
        }
        Prim::R(x0, y0, x1, y1) => {
            let rp = rect(*x0, *y0, *x1, *y1);
            let c = ((x0 + x1) / 2.0, (y0 + y1) / 2.0);
            let region = if h.exterior {
                geo::protrudes(&rp, &h.poly, m)
            } else {
                geo::overlap(&rp, c, &h.poly, h.ip, m)
            };
            let gap = geo::border_gap(&rp, &h.poly);
            let border = if gap > m {
                if geo::inside(h.poly[0], &rp) { V::Yes } else { V::No }
            } else if geo::piece_midpoints(&h.poly, &rp)
                .into_iter()
                .any(|q| geo::inside(q, &rp) && geo::dist_border(q, &rp) > m)
            {
                V::Yes
            } else {
                V::Amb
            };
            (region, border)
        }
    }
}

fn prims(w: &World, n: usize) -> Vec<Prim> {
    let b = geo::bbox(&w.bin.outer);
    let s = (b.2 - b.0).max(b.3 - b.1);
    let (cx, cy) = ((b.0 + b.2) / 2.0, (b.1 + b.3) / 2.0);
    let g: Vec<P> = (0..n)
        .flat_map(|i| {
            (0..n).map(move |j| {
                // slightly irregular grid, partly outside the box
                let f = |k: usize, e: f64| -0.55 + 1.1 * (k as f64 + 0.5 * e) / (n as f64 - 0.5);
                (cx + s * f(i, 0.37), cy + s * f(j, 0.71))
            })
        })
        .collect();
    let mut v = vec![];
    for (i, a) in g.iter().enumerate() {
        for b in g.iter().skip(i + 1) {
            v.push(Prim::E(*a, *b));
        }
    }
    for a in &g {
        for r in [0.01, 0.06, 0.2, 0.45] {
            v.push(Prim::C(*a, r * s));
        }
        // tiny edges stay in one quadtree node
        v.push(Prim::E(*a, (a.0 + 0.02 * s, a.1 + 0.013 * s)));
        v.push(Prim::E(*a, (a.0 + 0.06 * s, a.1)));
        v.push(Prim::E(*a, (a.0, a.1 - 0.06 * s)));
    }
    for (i, a) in g.iter().enumerate() {
        for b in g.iter().skip(i + 1) {
            if b.0 > a.0 + 1e-3 * s && b.1 > a.1 + 1e-3 * s {
                v.push(Prim::R(a.0, a.1, b.0, b.1));
            }
        }
    }
    // small rectangles, also far outside
    for a in &g {
        for f in [1.0, 1.6] {
            let c = (cx + f * (a.0 - cx), cy + f * (a.1 - cy));
            v.push(Prim::R(c.0 - 0.011 * s, c.1 - 0.007 * s, c.0 + 0.011 * s, c.1 + 0.007 * s));
        }
    }
    v
}

fn pdesc(p: &Prim) -> String {
    match p {
        Prim::E(a, b) => format!("segment {a:?}-{b:?}"),
        Prim::C(c, r) => format!("circle {c:?} r={r}"),
        Prim::R(a, b, c, d) => format!("rectangle ({a},{b})-({c},{d})"),
    }
}

fn pt(p: P) -> Point {
    Point(p.0 as fsize, p.1 as fsize)
}

/// tri = false: hazards_within (C02); tri = true: "definitely" queries (C15)
fn primitives(ctx: &Ctx, tri: bool) {
    let depths: &[u8] = ctx.pick(&[0, 2, 4, 6], &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    let grid = ctx.pick(8, 12);
    for b in 0..bins().len() {
        for (vn, scale, offset) in [("", 1.0, (0.0, 0.0)), ("@x50", 50.0, (-310.0, 470.0)), ("@far", 16.0, (2000.0, 9000.0)), ("@micro", 1.0 / 1024.0, (0.0011, -0.0023))] {
            if ctx.quick() && scale != 1.0 && b % 2 == (scale != 50.0) as usize {
                continue;
            }
            let o = WorldOpts { surr: surr(4, 2, 0), scale, offset, qshapes: vec![], angles: vec![], step: 1.0 };
            let name = format!("{}:{}{vn}", if tri { "definite" } else { "within" }, bins()[b].name);
            let Some(w) = ctx.setup(&name, || World::new(b, &o)) else { continue };
            let ps = prims(&w, grid);
            use rayon::prelude::*;
            let tab: Vec<Vec<(V, V)>> = ps
                .par_iter()
                .map(|p| w.haz.iter().map(|h| prim_ref(p, h, w.margin)).collect())
                .collect();
            let bb = geo::bbox(&w.bin.outer);
            let (cx, cy) = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
            let half = (bb.2 - bb.0).max(bb.3 - bb.1) / 2.0 - w.margin;
            let inb = |p: P| (p.0 - cx).abs() < half && (p.1 - cy).abs() < half;
            let outb = |p: P| (p.0 - cx).abs() > half + 2.0 * w.margin || (p.1 - cy).abs() > half + 2.0 * w.margin;
            let np = w.placed.len();
            let n = ((1usize << np) * depths.len() * 2) as u64;
            ctx.family(&name, n, |i, l| {
                let mut d = Dec(i);
                let depth = depths[d.take(depths.len())];
                let subset = d.take(1 << np) as M;
                // second half: all items were registered, those not in the subset are removed but not committed
                let e = if d.0 == 0 {
                    engine(&w, depth, subset, false)
                } else {
                    let mut e = engine(&w, depth, (1 << np) - 1, false);
                    for h in 0..np {
                        if subset >> h & 1 == 0 {
                            e.deregister_hazard(w.hazard(h).entity, false);
                        }
                    }
                    e
                };
                let active = w.mask(subset);
                let igm = ignore_masks(&w, active);
                let igs: Vec<_> = igm.iter().map(|m| (*m, w.entities(*m))).collect();
                for (pi, p) in ps.iter().enumerate() {
                    let (im, ig) = &igs[if (pi + i as usize) % 3 == 0 { (pi / 3) % igs.len() } else { 0 }];
                    let rel = active & !im;
                    let desc = || {
                        format!("{}; bin {}, depth {depth}, hazards [{}], ignored [{}]{}", pdesc(p), w.bin.name, w.names(active), w.names(*im), if d.0 == 1 { ", the other items removed without committing" } else { "" })
                    };
                    l.states += 1;
                    l.transitions += 1;
                    if !tri {
                        let pre: Vec<HazardEntity> = match pi % 4 {
                            0 => vec![HazardEntity::BinHole { id: 77 }],
                            1 => vec![HazardEntity::BinHole { id: 77 }, w.haz[(pi / 4) % w.haz.len()].entity],
                            _ => vec![],
                        };
                        let premask = pre.iter().filter_map(|p| w.index_of(p)).fold(0 as M, |m, h| m | 1 << h);
                        let mut det = pre.clone();
                        match p {
                            Prim::E(a, b) => e.hazards_within(&Edge::new(pt(*a), pt(*b)), ig, &mut det),
                            Prim::C(c, r) => e.hazards_within(&Circle::new(pt(*c), *r as fsize), ig, &mut det),
                            Prim::R(a, b, c, d) => e.hazards_within(
                                &AARectangle::new(*a as fsize, *b as fsize, *c as fsize, *d as fsize), ig, &mut det),
                        }
                        let desc = || format!("{}, buffer held {pre:?}, got {det:?}", desc());
                        ensure!(det.len() >= pre.len() && det[..pre.len()] == pre[..], "buffer contents changed: {}", desc());
                        let mut m = premask;
                        for x in &det[pre.len()..] {
                            let h = w.index_of(x).ok_or_else(|| format!("unknown hazard {x:?}: {}", desc()))?;
                            ensure!(rel >> h & 1 == 1, "reported absent or ignored {}: {}", w.haz[h].name, desc());
                            ensure!(m >> h & 1 == 0, "reported {} twice: {}", w.haz[h].name, desc());
                            ensure!(tab[pi][h].0 != V::No, "reported {} which it does not touch: {}", w.haz[h].name, desc());
                            m |= 1 << h;
                        }
                        // a border crossing inside the engine's box must be found
                        let whole = match p {
                            Prim::E(a, b) => inb(*a) && inb(*b),
                            Prim::C(c, r) => inb((c.0 + r, c.1 + r)) && inb((c.0 - r, c.1 - r)),
                            Prim::R(a, b, c, d) => inb((*a, *b)) && inb((*c, *d)),
                        };
                        for h in 0..w.haz.len() {
                            if rel >> h & 1 == 1 && tab[pi][h].1 == V::Yes && whole {
                                ensure!(m >> h & 1 == 1, "missed {}: {}", w.haz[h].name, desc());
                            }
                        }
                        l.out(match m.count_ones() { 0 => "none", 1 => "one", _ => "several" });
                    } else {
                        let any = (0..w.haz.len())
                            .filter(|h| rel >> h & 1 == 1)
                            .fold(V::No, |v, h| v.or(tab[pi][h].0));
                        let (got, specified) = match p {
                            Prim::E(a, b) => (e.edge_definitely_collides(&Edge::new(pt(*a), pt(*b)), ig),
                                (inb(*a) && inb(*b)) || rel & 1 == 1),
                            Prim::C(c, r) => (e.circle_definitely_collides(&Circle::new(pt(*c), *r as fsize), ig),
                                // the circle query only looks inside the box
                                inb((c.0 + r, c.1 + r)) && inb((c.0 - r, c.1 - r)) || outb(*c) && rel & 1 == 1),
                            Prim::R(a, b, c, d) => {
                                // used as point queries: the rectangle's corner against single hazards
                                let q = ((*a + *c) / 2.0, (*b + *d) / 2.0);
                                for h in 0..w.haz.len() {
                                    let r = e.point_definitely_collides_with(&pt(q), w.haz[h].entity);
                                    if active >> h & 1 == 0 {
                                        ensure!(!matches!(r, Tribool::True), "point {q:?} definitely collides with absent {}: {}", w.haz[h].name, desc());
                                        continue;
                                    }
                                    if geo::dist_border(q, &w.haz[h].poly) < w.margin { continue; }
                                    let real = geo::inside(q, &w.haz[h].poly) != w.haz[h].exterior;
                                    if inb(q) || !outb(q) {
                                        ensure!(!(matches!(r, Tribool::True) && !real), "point {q:?} reported definitely in {}: {}", w.haz[h].name, desc());
                                        ensure!(!(matches!(r, Tribool::False) && real && inb(q)), "point {q:?} reported definitely not in {}: {}", w.haz[h].name, desc());
                                    } else {
                                        ensure!(!matches!((r, real), (Tribool::False, true) | (Tribool::True, false)), "point {q:?} outside the engine's box answered {r:?} for {}: {}", w.haz[h].name, desc());
                                    }
                                    l.out(match r { Tribool::True => "point true", Tribool::False => "point false", _ => "point indeterminate" });
                                }
                                continue;
                            }
                        };
                        l.out(match got { Tribool::True => "true", Tribool::False => "false", _ => "indeterminate" });
                        if specified {
                            ensure!(!(matches!(got, Tribool::True) && any == V::No), "reported a definite collision, there is none: {}", desc());
                            ensure!(!(matches!(got, Tribool::False) && any == V::Yes), "reported definitely free, but it collides: {}", desc());
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

pub fn c15(ctx: &Ctx) {
    primitives(ctx, true);
}
