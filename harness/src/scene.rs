//! Scenes: a bin (outline, holes, quality zones), a pool of item placements, and a set of query
//! placements, with a precomputed reference verdict for every (query, hazard) pair.
use crate::geo::{self, Poly, P, V};
use crate::shapes::{self, ip, rect, scaled, shifted, sp, zoo};
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::placed_item::PlacedItem;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use rayon::prelude::*;

/// set of hazards, one bit each
pub type M = u128;

pub fn surr(poles: usize, ff: usize, piers: usize) -> SPSurrogateConfig {
    SPSurrogateConfig {
        pole_coverage_goal: 0.9,
        max_poles: poles,
        n_ff_poles: ff,
        n_ff_piers: piers,
    }
}
pub fn cfg(depth: u8, hpg: usize, s: SPSurrogateConfig) -> CDEConfig {
    CDEConfig {
        quadtree_depth: depth,
        hpg_n_cells: hpg,
        item_surrogate_config: s,
    }
}
pub fn dt(a: f64, t: P) -> DTransformation {
    DTransformation::new(a as fsize, (t.0 as fsize, t.1 as fsize))
}
pub fn mk_item(id: usize, p: &[P], q: Option<usize>, s: SPSurrogateConfig) -> Item {
    Item::new(
        id,
        sp(p),
        AllowedRotation::Continuous,
        q,
        0,
        Transformation::empty(),
        s,
    )
}

#[derive(Clone)]
pub struct BinDef {
    pub name: &'static str,
    pub outer: Poly,
    pub holes: Vec<Poly>,
    pub zones: Vec<(usize, Vec<Poly>)>,
}
impl BinDef {
    pub fn build(&self, id: usize, c: CDEConfig) -> Bin {
        Bin::new(
            id,
            sp(&self.outer),
            1,
            Transformation::empty(),
            self.holes.iter().map(|h| sp(h)).collect(),
            self.zones
                .iter()
                .map(|(q, z)| InferiorQualityZone::new(*q, z.iter().map(|p| sp(p)).collect()))
                .collect(),
            c,
        )
    }
    pub fn area(&self) -> f64 {
        geo::area(&self.outer) - self.holes.iter().map(|h| geo::area(h)).sum::<f64>()
    }
    /// maps every polygon with p -> k*p + t
    pub fn map(&self, k: f64, t: P) -> BinDef {
        let f = |p: &Poly| shifted(&scaled(p, k), t);
        BinDef {
            name: self.name,
            outer: f(&self.outer),
            holes: self.holes.iter().map(f).collect(),
            zones: self
                .zones
                .iter()
                .map(|(q, z)| (*q, z.iter().map(f).collect()))
                .collect(),
        }
    }
}

pub fn zshape(name: &str) -> Poly {
    zoo()
        .into_iter()
        .find(|z| z.0 == name)
        .unwrap_or_else(|| panic!("no shape {name}"))
        .1
}

pub fn bins() -> Vec<BinDef> {
    let ngon: Poly = scaled(&zshape("ngon"), 3.0);
    vec![
        BinDef {
            name: "square",
            outer: rect(0.0, 0.0, 16.0, 16.0),
            holes: vec![],
            zones: vec![],
        },
        BinDef {
            name: "wide-hole-zones",
            outer: rect(-7.0, 3.0, 15.0, 13.0),
            holes: vec![rect(-1.0, 5.0, 2.0, 8.0)],
            zones: vec![
                (0, vec![rect(9.0, 4.0, 14.0, 7.0), ip(&[(-6, 4), (-3, 4), (-3, 6)])]),
                (2, vec![ip(&[(4, 9), (12, 9), (8, 12)])]),
            ],
        },
        BinDef {
            name: "L-hole",
            outer: ip(&[(0, 0), (18, 0), (18, 8), (8, 8), (8, 18), (0, 18)]),
            holes: vec![ip(&[(2, 2), (6, 2), (6, 6), (4, 4), (2, 6)])],
            zones: vec![(1, vec![rect(11.0, 2.0, 15.0, 6.0)])],
        },
        BinDef {
            name: "ngon-many-edges",
            outer: ngon,
            holes: vec![
                shifted(&scaled(&zshape("star"), 0.5), (-4.0, -3.0)),
                rect(3.0, 3.0, 4.0, 5.0),
            ],
            zones: vec![],
        },
        BinDef {
            name: "comb",
            outer: scaled(&zshape("comb"), 3.0),
            holes: vec![],
            zones: vec![(9, vec![rect(4.0, 0.5, 8.0, 2.0)])],
        },
        BinDef {
            // hazards with many edges close together and long ones leading away from them
            name: "rasps",
            outer: rect(0.0, 0.0, 20.0, 20.0),
            holes: vec![shifted(&rasp(), (13.0, 1.0))],
            zones: vec![],
        },
    ]
}

/// twelve short edges on one flank, long edges elsewhere
pub fn rasp() -> Poly {
    let mut v: Poly = (0..12).map(|i| (0.125 * ((i % 2) as f64), 2.5 - 0.1875 * i as f64)).collect();
    v.extend([(6.0, 0.25), (6.0, 4.0), (0.0, 4.0)]);
    v
}

/// shapes placed in scenes / used as query
#[derive(Clone)]
pub struct Pool {
    pub defs: Vec<(usize, f64, P)>, // (shape index, rotation, translation)
    pub shapes: Vec<(&'static str, Poly)>,
    /// item id of every entry; empty = the entry's own index
    pub ids: Vec<usize>,
}
impl Pool {
    pub fn id(&self, i: usize) -> usize {
        self.ids.get(i).copied().unwrap_or(i)
    }
}

/// Pools contain big shapes (whole quadtree nodes covered), nested and overlapping ones, concave ones
/// that surround free space, thin ones, and ones with many edges.
pub fn pools() -> Vec<Pool> {
    let z = |n: &'static str, k: f64| (n, scaled(&zshape(n), k));
    let shapes = vec![
        ("big9", rect(0.0, 0.0, 9.0, 9.0)),   // 0
        z("square2", 1.0),                    // 1
        z("C", 1.5),                          // 2
        z("star", 1.25),                      // 3
        z("bar", 1.0),                        // 4
        z("cross", 1.0),                      // 5
        z("tri", 1.5),                        // 6
        z("spiral", 1.0),                     // 7
        z("ngon", 1.0),                       // 8
        z("L", 1.5),                          // 9
        z("comb", 1.0),                       // 10
        ("dense20", dense_gon(20, 3.0)),      // 11
        ("rasp", rasp()),                     // 12
    ];
    let pi = std::f64::consts::PI;
    let p = |d: &[(usize, f64, P)]| Pool { defs: d.to_vec(), shapes: shapes.clone(), ids: vec![] };
    vec![
        // square
        p(&[
            (0, 0.0, (4.5, 4.5)),
            (1, 0.0, (7.5, 8.5)),
            (2, 0.0, (1.0, 7.25)),
            (4, 0.3, (3.0, 1.0)),
            (3, 0.0, (11.5, 11.5)),
            (11, 0.7, (4.0, 12.0)),
        ]),
        // wide-hole-zones
        p(&[
            (0, 0.0, (3.25, 3.75)),
            (1, pi / 4.0, (7.5, 8.0)),
            (5, 0.0, (-6.5, 6.5)),
            (6, -1.0, (10.0, 9.0)),
            (8, 0.0, (0.25, 9.5)),
            (10, pi / 2.0, (12.0, 4.0)),
        ]),
        // L
        p(&[
            (7, 0.0, (0.5, 9.5)),
            (9, pi, (17.5, 7.5)),
            (0, 0.5, (6.0, 0.25)),
            (1, 0.0, (3.0, 12.5)),
            (4, pi / 2.0, (7.5, 8.5)),
            (11, 0.0, (11.0, 4.0)),
        ]),
        // ngon
        p(&[
            (2, 0.0, (-4.0, -4.0)),
            (1, 0.0, (-1.5, -1.0)),
            (3, 0.2, (3.0, -3.0)),
            (10, 0.0, (-4.5, 3.5)),
            (0, pi / 4.0, (0.0, -6.5)),
            (8, 0.0, (4.0, 4.0)),
        ]),
        // comb
        p(&[
            (4, 0.0, (2.0, 0.5)),
            (1, 0.0, (0.5, 9.5)),
            (4, pi / 2.0, (11.5, 3.5)),
            (6, 0.0, (18.5, 3.0)),
            (0, 0.0, (6.0, -3.0)),
            (11, 0.0, (10.5, 9.0)),
        ]),
        // rasps
        p(&[
            (12, 0.0, (1.0, 2.0)),
            (12, pi, (18.0, 17.0)),
            (12, pi / 2.0, (8.0, 12.0)),
            (12, -2.0, (6.0, 18.0)),
            (12, -0.2, (9.5, 7.5)),
            (11, 0.0, (16.0, 9.0)),
        ]),
    ]
}

/// a gear: n teeth, 2n vertices
pub fn gear(n: usize, r0: f64, r1: f64) -> Poly {
    (0..2 * n)
        .map(|i| {
            let a = (i as f64 + 0.25) * std::f64::consts::PI / n as f64;
            let r = if i % 2 == 0 { r0 } else { r1 };
            ((r * a.cos() * 256.0).round() / 256.0, (r * a.sin() * 256.0).round() / 256.0)
        })
        .collect()
}

/// One bin with a border and a hole of some hundred edges, twelve zones, and 54 items: a stack of twenty
/// that all cover the same place, twenty bars through one point, a large one below all that, a gear with
/// 300 vertices, and a dozen small ones.
pub fn crowd() -> (BinDef, Pool) {
    let mut outer: Poly = vec![(0.0, 0.0), (40.0, 0.0), (40.0, 40.0)];
    outer.extend((1..160).map(|i| (40.0 - 0.25 * i as f64, if i % 2 == 1 { 39.0 } else { 40.0 })));
    outer.push((0.0, 40.0));
    let bin = BinDef {
        name: "crowd",
        outer,
        holes: vec![shifted(&dense_gon(160, 3.0), (34.0, 33.0)), rect(36.0, 1.0, 38.0, 3.0)],
        zones: (0..10)
            .map(|q| {
                let z = |x: f64, y: f64| rect(x, y, x + 2.0, y + 2.5);
                let mut v = vec![z(1.5 + 2.3 * q as f64, 34.0)];
                if q % 5 == 0 {
                    v.push(z(35.0, 8.0 + q as f64));
                }
                (q, v)
            })
            .collect(),
    };
    let shapes = vec![
        ("big24", rect(0.0, 0.0, 24.0, 24.0)),
        ("gear300", gear(150, 4.0, 3.5)),
        ("sq6", rect(0.0, 0.0, 6.0, 6.0)),
        ("beam", rect(-7.0, -0.125, 7.0, 0.125)),
        ("sq1.5", rect(0.0, 0.0, 1.5, 1.5)),
        ("tri", zshape("tri")),
    ];
    let mut defs = vec![(0, 0.0, (2.0, 2.0)), (1, 0.1, (20.0, 21.0))];
    for i in 0..20 {
        defs.push((2, 0.0, (7.0 + 0.13 * i as f64, 9.5 - 0.11 * i as f64)));
    }
    for i in 0..20 {
        defs.push((3, std::f64::consts::PI * (i as f64 + 0.3) / 20.0, (28.0, 11.0)));
    }
    for i in 0..12 {
        defs.push((4 + i % 2, 0.2 * i as f64, (4.0 + 2.6 * i as f64, 29.5 + 0.2 * i as f64)));
    }
    (bin, Pool { defs, shapes, ids: vec![] })
}
pub fn crowd_world(step: f64, angles: Vec<f64>, s: SPSurrogateConfig) -> World {
    let (bin, pool) = crowd();
    let mut qshapes = default_qshapes();
    qshapes.retain(|q| ["square1", "bar", "star", "big8", "C2"].contains(&q.0));
    qshapes.push(("gear280", gear(140, 2.5, 2.0)));
    World::custom(bin, pool, &WorldOpts { surr: s, scale: 1.0, offset: (0.0, 0.0), qshapes, angles, step })
}

/// regular-ish polygon with n edges on a 1/64 lattice
pub fn dense_gon(n: usize, r: f64) -> Poly {
    (0..n)
        .map(|i| {
            let a = (i as f64 + 0.25) * 2.0 * std::f64::consts::PI / n as f64;
            ((r * a.cos() * 64.0).round() / 64.0, (r * a.sin() * 64.0).round() / 64.0)
        })
        .collect()
}

pub struct Haz {
    pub name: String,
    pub entity: HazardEntity,
    pub poly: Poly,
    pub ip: P,
    pub exterior: bool,
    /// None for static hazards of the bin, Some(pool index) for items
    pub pool: Option<usize>,
}

pub struct Query {
    pub shape: usize,
    pub angle: f64,
    pub at: P,
    pub t: Transformation,
    pub poly: Poly,
}

pub struct World {
    pub bin: BinDef,
    pub pool: Pool,
    pub pool_items: Vec<Item>,
    pub placed: Vec<PlacedItem>,
    pub haz: Vec<Haz>,
    pub qitems: Vec<(&'static str, Item, Poly)>,
    pub queries: Vec<Query>,
    /// tab[query][hazard]
    pub tab: Vec<Vec<V>>,
    /// query lies inside the engine's square bounding box with clearance
    pub in_box: Vec<bool>,
    pub margin: f64,
}

pub struct WorldOpts {
    pub surr: SPSurrogateConfig,
    pub scale: f64,
    pub offset: P,
    pub qshapes: Vec<(&'static str, Poly)>,
    pub angles: Vec<f64>,
    pub step: f64,
}

pub fn default_qshapes() -> Vec<(&'static str, Poly)> {
    let mut v = vec![
        ("square1", zshape("square1")),
        ("tri", zshape("tri")),
        ("sliver", zshape("sliver")),
        ("bar", zshape("bar")),
        ("C", zshape("C")),
        ("C2", scaled(&zshape("C"), 2.0)),
        ("cross", scaled(&zshape("cross"), 0.5)),
        ("star", zshape("star")),
        ("big8", rect(0.0, 0.0, 8.0, 8.0)),
        ("big13", rect(0.0, 0.0, 13.0, 13.0)),
        ("dense24", dense_gon(24, 2.0)),
    ];
    for s in v.iter_mut() {
        // centred at the bounding box centre, as the importer does by default (roughly)
        let b = geo::bbox(&s.1);
        s.1 = shifted(&s.1, (-(b.0 + b.2) / 2.0, -(b.1 + b.3) / 2.0));
    }
    v
}

impl World {
    pub fn new(b: usize, o: &WorldOpts) -> World {
        World::custom(bins()[b].clone(), pools()[b].clone(), o)
    }

    pub fn custom(bin: BinDef, mut pool: Pool, o: &WorldOpts) -> World {
        let (k, off) = (o.scale, o.offset);
        let bin = bin.map(k, off);
        for s in pool.shapes.iter_mut() {
            s.1 = scaled(&s.1, k);
        }
        for d in pool.defs.iter_mut() {
            d.2 = (d.2 .0 * k + off.0, d.2 .1 * k + off.1);
        }
        let margin = 2e-3 * k * (1.0 + (off.0.abs() + off.1.abs()) / (100.0 * k));
        let pool_items: Vec<Item> = pool
            .defs
            .iter()
            .enumerate()
            .map(|(i, d)| mk_item(pool.id(i), &pool.shapes[d.0].1, None, o.surr))
            .collect();
        let placed: Vec<PlacedItem> = pool
            .defs
            .iter()
            .zip(&pool_items)
            .map(|(d, it)| PlacedItem::new(it, dt(d.1, d.2)))
            .collect();
        let mut haz = vec![];
        let mut add = |name: String, entity, poly: Poly, exterior, pool| {
            let ip = geo::interior_point(&poly);
            haz.push(Haz { name, entity, poly, ip, exterior, pool });
        };
        add("exterior".into(), HazardEntity::BinExterior, bin.outer.clone(), true, None);
        for (i, h) in bin.holes.iter().enumerate() {
            add(format!("hole{i}"), HazardEntity::BinHole { id: i }, h.clone(), false, None);
        }
        for (q, zs) in bin.zones.iter() {
            for (i, z) in zs.iter().enumerate() {
                add(
                    format!("zone q{q}#{i}"),
                    HazardEntity::InferiorQualityZone { quality: *q, id: i },
                    z.clone(),
                    false,
                    None,
                );
            }
        }
        for (i, d) in pool.defs.iter().enumerate() {
            let poly = geo::place(&pool.shapes[d.0].1, f32a(d.1), d.2);
            add(
                format!("item{i}:{}", pool.shapes[d.0].0),
                HazardEntity::from(&placed[i]),
                poly,
                false,
                Some(i),
            );
        }
        let qitems: Vec<_> = o
            .qshapes
            .iter()
            .enumerate()
            .map(|(i, (n, p))| {
                let p = scaled(p, k);
                (*n, mk_item(1000 + i, &p, None, o.surr), p)
            })
            .collect();
        let bb = geo::bbox(&bin.outer);
        let mut queries = vec![];
        let pad = 2.0 * k;
        let step = o.step * k;
        let (nx, ny) = (
            ((bb.2 - bb.0 + 2.0 * pad) / step).round() as i64,
            ((bb.3 - bb.1 + 2.0 * pad) / step).round() as i64,
        );
        for (si, (_, _, p)) in qitems.iter().enumerate() {
            for &a in &o.angles {
                for ix in 0..=nx {
                    for iy in 0..=ny {
                        // off the lattice of the shapes, so that few queries merely touch a hazard
                        let at = (
                            bb.0 - pad + 0.17 * k + ix as f64 * step,
                            bb.1 - pad + 0.31 * k + iy as f64 * step,
                        );
                        queries.push(Query {
                            shape: si,
                            angle: a,
                            at,
                            t: dt(a, at).compose(),
                            poly: geo::place(p, f32a(a), at),
                        });
                    }
                }
            }
        }
        // interior witness per (shape, angle) relative to the placement
        let ips: Vec<P> = qitems.iter().map(|q| geo::interior_point(&q.2)).collect();
        let (cx, cy) = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
        let half = ((bb.2 - bb.0).max(bb.3 - bb.1)) / 2.0;
        let tab = queries
            .par_iter()
            .map(|q| {
                let r = geo::rot(ips[q.shape], f32a(q.angle));
                let iq = (r.0 + q.at.0, r.1 + q.at.1);
                haz.iter()
                    .map(|h| {
                        if h.exterior {
                            geo::protrudes(&q.poly, &h.poly, margin)
                        } else {
                            geo::overlap(&q.poly, iq, &h.poly, h.ip, margin)
                        }
                    })
                    .collect()
            })
            .collect();
        let in_box = queries
            .iter()
            .map(|q| {
                let b = geo::bbox(&q.poly);
                b.0 > cx - half + margin && b.2 < cx + half - margin && b.1 > cy - half + margin && b.3 < cy + half - margin
            })
            .collect();
        World { bin, pool, pool_items, placed, haz, qitems, queries, tab, in_box, margin }
    }

    pub fn n_static(&self) -> usize {
        self.haz.len() - self.pool.defs.len()
    }
    pub fn hazard(&self, i: usize) -> Hazard {
        // a shape of its own, as in every new placement
        let shape = std::sync::Arc::new(self.placed[i].shape.as_ref().clone());
        Hazard::new(HazardEntity::from(&self.placed[i]), shape)
    }
    pub fn base(&self, c: CDEConfig) -> CDEngine {
        self.bin.build(0, c).base_cde.as_ref().clone()
    }
    pub fn qname(&self, q: usize) -> String {
        let x = &self.queries[q];
        format!(
            "query {} rotated {:.3} rad at ({}, {})",
            self.qitems[x.shape].0, x.angle, x.at.0, x.at.1
        )
    }
    /// reference verdict of query q against the active hazards that are not ignored
    pub fn verdict(&self, q: usize, active: M, ignored: M) -> V {
        let mut v = V::No;
        let rel = active & !ignored;
        for (h, t) in self.tab[q].iter().enumerate() {
            if rel >> h & 1 == 1 {
                v = v.or(*t);
            }
        }
        if ignored & 1 == 1 && !self.in_box[q] {
            // with the exterior ignored, shapes outside the engine's box are unspecified
            return V::Amb;
        }
        v
    }
    pub fn names(&self, mask: M) -> String {
        (0..self.haz.len())
            .filter(|h| mask >> h & 1 == 1)
            .map(|h| self.haz[h].name.clone())
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn entities(&self, mask: M) -> Vec<HazardEntity> {
        (0..self.haz.len())
            .filter(|h| mask >> h & 1 == 1)
            .map(|h| self.haz[h].entity)
            .collect()
    }
    pub fn index_of(&self, e: &HazardEntity) -> Option<usize> {
        self.haz.iter().position(|h| h.entity == *e)
    }
    /// bit mask over hazards for: all statics + pool subset
    pub fn mask(&self, subset: M) -> M {
        let ns = self.n_static();
        (((1 as M) << ns) - 1) | (subset << ns)
    }
}

/// the library sees angles as f32; the reference must use the same value
pub fn f32a(a: f64) -> f64 {
    a as fsize as f64
}

pub fn bbox_of(s: &impl Shape) -> (f64, f64, f64, f64) {
    let b = s.bbox();
    (b.x_min as f64, b.y_min as f64, b.x_max as f64, b.y_max as f64)
}
#[allow(unused)]
fn _u() {
    let _ = shapes::zoo;
}
