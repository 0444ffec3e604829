//! C16: quality zones and hazard filters.
use crate::core::{Ctx, Dec};
use crate::ensure;
use crate::geo::{self, Poly, P, V};
use crate::scene::{cfg, dt, mk_item, surr, zshape};
use crate::shapes::{rect, scaled, shifted, sp};
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::collision_detection::hazard_filter::{
    generate_irrelevant_hazards, BinHazardFilter, CombinedHazardFilter, EntityHazardFilter, HazardFilter, QZHazardFilter,
};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::quality_zone::{InferiorQualityZone, N_QUALITIES};
use jagua_rs::geometry::geo_enums::GeoPosition;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::transformation::Transformation;
use std::sync::Arc;

/// A filter as described by the property, next to the real one.
#[derive(Clone, Debug)]
enum F {
    Bin,
    Q(usize),
    E(Vec<HazardEntity>),
}
impl F {
    fn ignores(&self, e: &HazardEntity) -> bool {
        match self {
            F::Bin => !matches!(e, HazardEntity::PlacedItem { .. }),
            F::Q(q) => matches!(e, HazardEntity::InferiorQualityZone { quality, .. } if quality >= q),
            F::E(v) => v.contains(e),
        }
    }
    fn real(&self) -> Box<dyn HazardFilter> {
        match self {
            F::Bin => Box::new(BinHazardFilter),
            F::Q(q) => Box::new(QZHazardFilter(*q)),
            F::E(v) => Box::new(EntityHazardFilter(v.clone())),
        }
    }
}
struct Dyn<'a>(&'a dyn HazardFilter);
impl HazardFilter for Dyn<'_> {
    fn is_irrelevant(&self, e: &HazardEntity) -> bool {
        self.0.is_irrelevant(e)
    }
}

fn same(mut a: Vec<HazardEntity>, b: &[HazardEntity]) -> bool {
    // b has no duplicates
    if a.len() != b.len() {
        return false;
    }
    a.retain(|x| !b.contains(x));
    a.is_empty()
}

const ZONES: [(f64, f64, f64, f64); 3] = [(2.0, 2.0, 6.0, 5.0), (10.0, 3.0, 13.0, 9.0), (16.0, 1.0, 22.0, 4.0)];

fn bin_of(q: &[usize], depth: u8) -> (Bin, Vec<(HazardEntity, Poly, bool)>) {
    let outer = rect(0.0, 0.0, 24.0, 12.0);
    let hole = rect(17.0, 7.0, 19.0, 10.0);
    let mut per: Vec<(usize, Vec<Poly>)> = vec![];
    let mut haz = vec![(HazardEntity::BinExterior, outer.clone(), true), (HazardEntity::BinHole { id: 0 }, hole.clone(), false)];
    for (k, z) in ZONES.iter().enumerate() {
        let p = rect(z.0, z.1, z.2, z.3);
        match per.iter_mut().find(|x| x.0 == q[k]) {
            Some(x) => {
                haz.push((HazardEntity::InferiorQualityZone { quality: q[k], id: x.1.len() }, p.clone(), false));
                x.1.push(p);
            }
            None => {
                haz.push((HazardEntity::InferiorQualityZone { quality: q[k], id: 0 }, p.clone(), false));
                per.push((q[k], vec![p]));
            }
        }
    }
    let b = Bin::new(
        0,
        sp(&outer),
        1,
        Transformation::empty(),
        vec![sp(&hole)],
        per.iter().map(|(q, z)| InferiorQualityZone::new(*q, z.iter().map(|p| sp(p)).collect())).collect(),
        cfg(depth, 60, surr(4, 2, 0)),
    );
    (b, haz)
}

pub fn c16(ctx: &Ctx) {
    // ---- predicates, for every kind of hazard and every combination of filters
    let pi = |id: usize, a: f64| HazardEntity::PlacedItem { id, dt: dt(a, (1.0, 2.0)) };
    let mut ents = vec![pi(0, 0.0), pi(0, 1.0), pi(1, 0.0), HazardEntity::BinExterior, HazardEntity::BinHole { id: 0 }, HazardEntity::BinHole { id: 1 }];
    for quality in 0..N_QUALITIES {
        for id in 0..2 {
            ents.push(HazardEntity::InferiorQualityZone { quality, id });
        }
    }
    let shape = Arc::new(sp(&rect(0.0, 0.0, 1.0, 1.0)));
    let hazards: Vec<Hazard> = ents.iter().map(|e| Hazard::new(*e, shape.clone())).collect();
    let mut single: Vec<F> = (0..=N_QUALITIES + 2).map(F::Q).collect();
    single.push(F::Bin);
    let pickable: Vec<HazardEntity> = [0usize, 1, 3, 4, 6, 7, 15].iter().map(|i| ents[*i]).collect();
    for s in 0..1usize << pickable.len() {
        single.push(F::E((0..pickable.len()).filter(|b| s >> b & 1 == 1).map(|b| pickable[b]).collect()));
    }
    let n1 = single.len();
    ctx.family("single filters", n1 as u64, |i, l| {
        let f = &single[i as usize];
        let r = f.real();
        for e in &ents {
            ensure!(r.is_irrelevant(e) == f.ignores(e), "{f:?} says {} for {e:?}", r.is_irrelevant(e));
            l.transitions += 1;
        }
        let want: Vec<HazardEntity> = ents.iter().filter(|e| f.ignores(e)).copied().collect();
        let got = generate_irrelevant_hazards(&Dyn(r.as_ref()), hazards.iter());
        ensure!(same(got.clone(), &want), "{f:?} makes {got:?} irrelevant, expected {want:?}");
        l.states += 1;
        Ok(())
    });
    let parts: Vec<F> = vec![F::Q(0), F::Q(1), F::Q(4), F::Q(9), F::Q(10), F::Bin, F::E(vec![ents[0]]), F::E(vec![ents[3], ents[9]]), F::E(vec![])];
    let k = parts.len();
    let orders = ctx.pick(1, 3);
    ctx.family("combined filters", ((k * k * k + k * k + k + 1) * orders) as u64, |i, l| {
        let mut i = i as usize / orders;
        let mut idx = vec![];
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        for _ in 0..len {
            idx.push(i % k);
            i /= k;
        }
        let real: Vec<Box<dyn HazardFilter>> = idx.iter().map(|x| parts[*x].real()).collect();
        let refs: Vec<&dyn HazardFilter> = real.iter().map(|b| b.as_ref()).collect();
        let f = CombinedHazardFilter { filters: refs.iter().map(|r| Box::new(*r)).collect() };
        let desc = || idx.iter().map(|x| format!("{:?}", parts[*x])).collect::<Vec<_>>().join(" + ");
        let ign = |e: &HazardEntity| idx.iter().any(|x| parts[*x].ignores(e));
        for e in &ents {
            ensure!(f.is_irrelevant(e) == ign(e), "{} says {} for {e:?}", desc(), f.is_irrelevant(e));
            l.transitions += 1;
        }
        let want: Vec<HazardEntity> = ents.iter().filter(|e| ign(e)).copied().collect();
        let got = generate_irrelevant_hazards(&f, hazards.iter());
        ensure!(same(got.clone(), &want), "{} makes {got:?} irrelevant, expected {want:?}", desc());
        l.states += 1;
        Ok(())
    });
    // ---- long lists: the hazard asked for at every place of a list of every length
    let mut crowd: Vec<HazardEntity> = ents.clone();
    crowd.extend((2..30).map(|i| pi(i, 0.1 * i as f64)));
    crowd.extend((2..14).map(|id| HazardEntity::BinHole { id }));
    let nc = crowd.len();
    let chz: Vec<Hazard> = crowd.iter().map(|e| Hazard::new(*e, shape.clone())).collect();
    ctx.family("long lists of entities", (nc * nc) as u64, |i, l| {
        let mut d = Dec(i);
        let (from, len) = (d.take(nc), d.take(nc) + 1);
        let f = F::E((0..len).map(|k| crowd[(from + k) % nc]).collect());
        let r = f.real();
        for e in &crowd {
            ensure!(r.is_irrelevant(e) == f.ignores(e), "{f:?} says {} for {e:?}", r.is_irrelevant(e));
            l.transitions += 1;
        }
        let want: Vec<HazardEntity> = crowd.iter().filter(|e| f.ignores(e)).copied().collect();
        let got = generate_irrelevant_hazards(&Dyn(r.as_ref()), chz.iter());
        ensure!(same(got.clone(), &want), "{f:?} makes {got:?} irrelevant, expected {want:?}");
        l.states += 1;
        Ok(())
    });
    ctx.family("many combined filters", (nc * 24) as u64, |i, l| {
        let mut d = Dec(i);
        let (from, len) = (d.take(nc), d.take(24) + 1);
        let fs: Vec<F> = (0..len).map(|k| if k % 6 == 5 { F::Q(10 - k / 3) } else { F::E(vec![crowd[(from + k) % nc]]) }).collect();
        let real: Vec<Box<dyn HazardFilter>> = fs.iter().map(|x| x.real()).collect();
        let refs: Vec<&dyn HazardFilter> = real.iter().map(|b| b.as_ref()).collect();
        let f = CombinedHazardFilter { filters: refs.iter().map(|r| Box::new(*r)).collect() };
        let want: Vec<HazardEntity> = crowd.iter().filter(|e| fs.iter().any(|x| x.ignores(e))).copied().collect();
        for e in &crowd {
            ensure!(f.is_irrelevant(e) == want.contains(e), "{fs:?} says {} for {e:?}", f.is_irrelevant(e));
            l.transitions += 1;
        }
        let got = generate_irrelevant_hazards(&f, chz.iter());
        ensure!(same(got.clone(), &want), "{fs:?} makes {got:?} irrelevant, expected {want:?}");
        l.states += 1;
        Ok(())
    });
    ctx.family("kinds of hazards", ents.len() as u64, |i, l| {
        let e = &ents[i as usize];
        l.states += 1;
        l.transitions += 1;
        let item = matches!(e, HazardEntity::PlacedItem { .. });
        let zone = matches!(e, HazardEntity::InferiorQualityZone { .. });
        let ext = matches!(e, HazardEntity::BinExterior);
        ensure!(e.is_dynamic() == item, "{e:?} is_dynamic: {}", e.is_dynamic());
        ensure!(e.is_universal() != zone, "{e:?} is_universal: {}", e.is_universal());
        ensure!((e.position() == GeoPosition::Exterior) == ext, "{e:?} position {:?}", e.position());
        Ok(())
    });

    // ---- the engine with zones of every assignment of qualities
    let quals: &[usize] = ctx.pick(&[0, 1, 2, 9][..], &[0, 1, 2, 5, 8, 9][..]);
    let nq = quals.len();
    let reqs: Vec<Option<usize>> = std::iter::once(None).chain((0..=N_QUALITIES).map(Some)).collect();
    let s = surr(4, 2, 0);
    let placed: Vec<(usize, Poly, P)> = vec![(50, rect(-1.0, -1.0, 1.0, 1.0), (8.0, 10.0)), (51, rect(-1.5, -0.5, 1.5, 0.5), (4.0, 3.5))];
    let pitems: Vec<Item> = placed.iter().map(|p| mk_item(p.0, &p.1, None, s)).collect();
    let probes: Vec<Poly> = vec![rect(-0.6, -0.6, 0.6, 0.6), shifted(&scaled(&zshape("bar"), 1.2), (-4.2, -0.6)), scaled(&zshape("star"), 0.7)];
    let pos: Vec<P> = (0..13).flat_map(|x| (0..7).map(move |y| (0.33 + x as f64 * 1.95, 0.41 + y as f64 * 1.87))).collect();
    let depths = [0u8, 2, 4];
    // verdict tables: independent of the qualities
    let (_, geom) = bin_of(&[0, 1, 2], 0);
    let mut hz: Vec<(Poly, bool)> = geom.iter().map(|g| (g.1.clone(), g.2)).collect();
    for p in &placed {
        hz.push((shifted(&p.1, p.2), false));
    }
    let tab: Vec<Vec<Vec<V>>> = probes
        .iter()
        .map(|p| {
            let ip = geo::interior_point(p);
            pos.iter()
                .map(|t| {
                    let q = shifted(p, *t);
                    hz.iter()
                        .map(|(h, ext)| if *ext { geo::protrudes(&q, h, 2e-3) } else { geo::overlap(&q, (ip.0 + t.0, ip.1 + t.1), h, geo::interior_point(h), 2e-3) })
                        .collect()
                })
                .collect()
        })
        .collect();
    ctx.family("items in bins with zones", (nq * nq * nq * depths.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let depth = depths[d.take(depths.len())];
        let q = [quals[d.take(nq)], quals[d.take(nq)], quals[d.take(nq)]];
        let (bin, haz) = bin_of(&q, depth);
        let mut lay = Layout::new(0, bin);
        for (k, p) in placed.iter().enumerate() {
            lay.place_item(&pitems[k], dt(0.0, p.2));
        }
        lay.flush_changes();
        let mut ents: Vec<HazardEntity> = haz.iter().map(|h| h.0).collect();
        for p in &placed {
            ents.push(HazardEntity::PlacedItem { id: p.0, dt: dt(0.0, p.2) });
        }
        let all: Vec<HazardEntity> = lay.cde().all_hazards().map(|h| h.entity).collect();
        ensure!(same(all.clone(), &ents), "qualities {q:?}: hazards {all:?}, expected {ents:?}");
        // the grid, per required quality
        let grid = lay.cde().haz_prox_grid().map_err(|_| "grid is dirty after flushing")?;
        for c in grid.grid.cells.iter().flatten() {
            let at = (c.centroid.0 as f64, c.centroid.1 as f64);
            for r in &reqs {
                let mut w = c.uni_prox.0 as f64;
                for (e, p, _) in &haz {
                    if let HazardEntity::InferiorQualityZone { quality, .. } = e {
                        if r.is_none_or(|r| *quality < r) {
                            w = w.min(if geo::inside(at, p) { 0.0 } else { geo::dist_border(at, p) });
                        }
                    }
                }
                let g = c.hazard_proximity(*r) as f64;
                ensure!((g - w).abs() < 1e-3, "qualities {q:?}: proximity {g} at {at:?} for an item requiring {r:?}, expected {w}");
                l.transitions += 1;
            }
        }
        for (pi, poly) in probes.iter().enumerate() {
            for r in &reqs {
                let item = mk_item(7, poly, *r, s);
                let base: Vec<HazardEntity> = match &item.hazard_filter {
                    Some(f) => generate_irrelevant_hazards(f, lay.cde().all_hazards()),
                    None => vec![],
                };
                let want: Vec<HazardEntity> = ents.iter().filter(|e| matches!((e, r), (HazardEntity::InferiorQualityZone { quality, .. }, Some(r)) if quality >= r)).copied().collect();
                ensure!(same(base.clone(), &want), "qualities {q:?}: an item requiring {r:?} ignores {base:?}, expected {want:?}");
                // with further filters on top: none, the bin, one placed item
                for extra in [None, Some(F::Bin), Some(F::E(vec![ents[5]]))] {
                    let mut fs: Vec<Box<dyn HazardFilter>> = vec![];
                    if let Some(f) = &item.hazard_filter {
                        fs.push(Box::new(f.clone()));
                    }
                    if let Some(x) = &extra {
                        fs.push(x.real());
                    }
                    let refs: Vec<&dyn HazardFilter> = fs.iter().map(|b| b.as_ref()).collect();
                    let comb = CombinedHazardFilter { filters: refs.iter().map(|r| Box::new(*r)).collect() };
                    let irr = generate_irrelevant_hazards(&comb, lay.cde().all_hazards());
                    let ign: Vec<bool> = ents.iter().map(|e| want.contains(e) || extra.as_ref().is_some_and(|x| x.ignores(e))).collect();
                    for (ti, t) in pos.iter().enumerate() {
                        let tf = dt(0.0, *t).compose();
                        let shape = item.shape.transform_clone(&tf);
                        let v = (0..ents.len()).filter(|h| !ign[*h]).fold(V::No, |a, h| a.or(tab[pi][ti][h]));
                        if ign[0] && tab[pi][ti][0] != V::No {
                            continue; // outside the engine's box with the exterior ignored: unspecified
                        }
                        let desc = || format!("zones of qualities {q:?}, depth {depth}, shape {pi} requiring {r:?} at {t:?}, also ignoring {extra:?}");
                        l.transitions += 1;
                        let Some(b) = v.b() else {
                            l.out("touching, not compared");
                            continue;
                        };
                        l.out(if b { "collides" } else { "free" });
                        let g = lay.cde().poly_collides(&shape, &irr);
                        ensure!(g == b, "{}: collides {g}, expected {b}", desc());
                        let mut buf = item.shape.as_ref().clone();
                        let g = lay.cde().surrogate_or_poly_collides(&item.shape, &tf, &mut buf, &irr);
                        ensure!(g == b, "{}: surrogate or polygon collides {g}, expected {b}", desc());
                        let mut got = vec![];
                        lay.cde().collect_poly_collisions(&shape, &irr, &mut got);
                        for (h, e) in ents.iter().enumerate() {
                            let has = got.contains(e);
                            match tab[pi][ti][h] {
                                V::Yes => ensure!(has == !ign[h], "{}: {e:?} reported {has}", desc()),
                                V::No => ensure!(!has, "{}: {e:?} reported", desc()),
                                V::Amb => ensure!(!(has && ign[h]), "{}: {e:?} reported although ignored", desc()),
                            }
                        }
                    }
                    l.states += 1;
                }
            }
        }
        Ok(())
    });
}
