//! C03 (engine answers depend only on the current hazards) and C07 (proximity grid): all operation
//! sequences up to a depth, executed on the real engine next to a reference state.
use crate::core::{sequences, Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, P, V};
use crate::scene::*;
use crate::shapes::rect;
use jagua_rs::collision_detection::cd_engine::{CDESnapshot, CDEngine};
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::item::Item;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::fsize;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use std::sync::Arc;
use tribool::Tribool;

type PrimAns = ([Tribool; 3], M, usize);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Reg(usize),
    Dereg(usize, bool),
    Commit,
    Flush,
    Snap(usize),
    Restore(usize),
}

#[derive(Clone)]
struct St {
    e: CDEngine,
    /// items (by pool index) that are registered
    reg: M,
    /// deregistered but not committed
    unc: M,
    /// an uncommitted deregistration happened since the grid was last brought up to date
    dirty: bool,
    snaps: [Option<(Arc<CDESnapshot>, M)>; 2],
}

pub struct Hist {
    w: World,
    /// groups of items that are registered and removed together
    items: Vec<Vec<usize>>,
    ops: Vec<Op>,
    /// queries with a clear verdict against every hazard
    probes: Vec<(SimplePolygon, usize)>,
    hpg: bool,
    /// primitives for the three-valued queries and their answers by a fresh engine, per set of items
    prims: Vec<(Edge, Circle, AARectangle)>,
    fresh: Vec<(M, Vec<PrimAns>)>,
    /// per (cell, hazard): distance that the grid should know about
    cells: Vec<Option<Vec<f64>>>,
    tol: f64,
}

fn slots(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for s in 0..n {
        v.push(Op::Snap(s));
        v.push(Op::Restore(s));
    }
    v
}

impl Hist {
    pub fn new(b: usize, o: &WorldOpts, items: Vec<usize>, n_slots: usize, hpg: bool, n_probes: usize) -> Hist {
        Hist::with(World::new(b, o), items.into_iter().map(|i| vec![i]).collect(), n_slots, hpg, n_probes, o.scale)
    }

    fn with(w: World, items: Vec<Vec<usize>>, n_slots: usize, hpg: bool, n_probes: usize, scale: f64) -> Hist {
        let mut ops = vec![];
        for i in 0..items.len() {
            ops.push(Op::Reg(i));
            ops.push(Op::Dereg(i, true));
            ops.push(Op::Dereg(i, false));
        }
        ops.push(Op::Commit);
        if hpg {
            ops.push(Op::Flush);
        }
        ops.extend(slots(n_slots));
        let ns = w.n_static();
        let relevant: Vec<usize> = (0..ns).chain(items.iter().flatten().map(|i| ns + i)).collect();
        // one probe per distinct (verdict vector, shape) signature, round robin
        let mut sigs: Vec<(Vec<bool>, usize, Vec<usize>)> = vec![];
        for q in 0..w.queries.len() {
            if !w.in_box[q] || relevant.iter().any(|&h| w.tab[q][h] == V::Amb) {
                continue;
            }
            let sig: Vec<bool> = relevant.iter().map(|&h| w.tab[q][h] == V::Yes).collect();
            if sig.iter().all(|x| !x) && q % 17 != 0 {
                continue;
            }
            let key = w.queries[q].shape;
            match sigs.iter_mut().find(|s| s.0 == sig && s.1 == key) {
                Some(s) => s.2.push(q),
                None => sigs.push((sig, key, vec![q])),
            }
        }
        // small verdict vectors first: they discriminate best
        sigs.sort_by_key(|s| (s.0.iter().filter(|x| **x).count().abs_diff(1), s.1));
        let mut probes = vec![];
        let mut round = 0;
        while probes.len() < n_probes && round < 4 {
            for s in &sigs {
                if let Some(q) = s.2.get((round * 7) % s.2.len().max(1)) {
                    if probes.len() < n_probes && !probes.iter().any(|(_, p)| p == q) {
                        let qq = &w.queries[*q];
                        probes.push((w.qitems[qq.shape].1.shape.transform_clone(&qq.t), *q));
                    }
                }
            }
            round += 1;
        }
        // small primitives on a lattice over the engine's box
        let bb = geo::bbox(&w.bin.outer);
        let side = (bb.2 - bb.0).max(bb.3 - bb.1);
        let (cx, cy) = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
        let mut prims = vec![];
        for i in 0..7 {
            for j in 0..7 {
                let f = |k: i32, e: f64| side * ((k as f64 + e) / 7.0 - 0.5);
                let (x, y) = (cx + f(i, 0.45), cy + f(j, 0.55));
                let r = side * [0.01, 0.03, 0.06][((i + j) % 3) as usize];
                let pt = |x: f64, y: f64| Point(x as fsize, y as fsize);
                prims.push((
                    Edge::new(pt(x - 1.5 * r, y - r), pt(x + r, y + r)),
                    Circle::new(pt(x, y), r as fsize),
                    AARectangle::new((x - r) as fsize, (y - r) as fsize, (x + r) as fsize, (y + 0.7 * r) as fsize),
                ));
            }
        }
        Hist { w, items, ops, probes, hpg, prims, fresh: vec![], cells: vec![], tol: 2e-3 * scale }
    }

    fn group(&self, g: usize) -> M {
        self.items[g].iter().fold(0, |m, i| m | 1 << i)
    }

    /// answers to the three-valued and the collecting queries about the primitives
    fn prim_answers(&self, e: &CDEngine, reg: M) -> Vec<PrimAns> {
        let w = &self.w;
        self.prims
            .iter()
            .enumerate()
            .map(|(k, (ed, ci, re))| {
                let ig = if reg != 0 && k % 3 == 0 { vec![w.haz[w.n_static() + reg.trailing_zeros() as usize].entity] } else { vec![] };
                let ask = w.haz[k % w.haz.len()].entity;
                let mut det = vec![];
                match k % 3 {
                    0 => e.hazards_within(ed, &ig, &mut det),
                    1 => e.hazards_within(ci, &ig, &mut det),
                    _ => e.hazards_within(re, &ig, &mut det),
                }
                let mask = det.iter().fold(0 as M, |m, x| m | 1 << w.index_of(x).unwrap_or(127));
                (
                    [
                        e.edge_definitely_collides(ed, &ig),
                        e.circle_definitely_collides(ci, &ig),
                        e.point_definitely_collides_with(&ci.center, ask),
                    ],
                    mask,
                    det.len(),
                )
            })
            .collect()
    }

    /// what engines that never held anything but the given items answer
    fn fill_fresh(&mut self, c: jagua_rs::util::config::CDEConfig) {
        let n = self.items.len();
        self.fresh = (0..(1 as M) << n)
            .map(|sub| {
                let mut e = self.w.base(c);
                let mut reg = 0;
                for (k, g) in self.items.iter().enumerate() {
                    if sub >> k & 1 == 1 {
                        g.iter().for_each(|&i| e.register_hazard(self.w.hazard(i)));
                        reg |= self.group(k);
                    }
                }
                (reg, self.prim_answers(&e, reg))
            })
            .collect();
    }

    fn start(&self, c: jagua_rs::util::config::CDEConfig) -> St {
        St { e: self.w.base(c), reg: 0, unc: 0, dirty: false, snaps: [None, None] }
    }

    fn enabled(&self, s: &St, o: Op) -> bool {
        match o {
            Op::Reg(g) => s.reg & self.group(g) == 0,
            Op::Dereg(g, _) => s.reg & self.group(g) != 0,
            Op::Commit => s.unc != 0 || s.dirty,
            Op::Flush => s.dirty,
            Op::Snap(k) => !matches!(&s.snaps[k], Some((_, m)) if *m == s.reg && s.unc == 0),
            Op::Restore(k) => s.snaps[k].is_some(),
        }
    }

    fn apply(&self, s: &mut St, o: Op) {
        match o {
            Op::Reg(g) => {
                self.items[g].iter().for_each(|&i| s.e.register_hazard(self.w.hazard(i)));
                s.reg |= self.group(g);
                s.unc &= !self.group(g);
            }
            Op::Dereg(g, now) => {
                for &i in &self.items[g] {
                    s.e.deregister_hazard(HazardEntity::from(&self.w.placed[i]), now);
                }
                s.reg &= !self.group(g);
                if !now {
                    s.unc |= self.group(g);
                    s.dirty = true;
                }
            }
            Op::Commit => {
                s.e.commit_deregisters();
                s.unc = 0;
                s.dirty = false;
            }
            Op::Flush => {
                s.e.flush_haz_prox_grid();
                s.dirty = false;
            }
            Op::Snap(k) => {
                s.snaps[k] = Some((Arc::new(s.e.create_snapshot()), s.reg));
                s.unc = 0;
                s.dirty = false;
            }
            Op::Restore(k) => {
                let (snap, m) = s.snaps[k].clone().unwrap();
                s.e.restore(&snap);
                s.reg = m;
                s.unc = 0;
                s.dirty = false;
            }
        }
    }

    fn check(&self, s: &St, l: &mut Local) -> Result<(), String> {
        let w = &self.w;
        let active = w.mask(s.reg);
        let present = s.e.dynamic_hazards();
        ensure!(
            present.len() as u32 == s.reg.count_ones()
                && self.items.iter().flatten().all(|&i| {
                    let n = present.iter().filter(|h| h.entity == w.haz[w.n_static() + i].entity).count() as M;
                    n == (s.reg >> i & 1)
                }),
            "hazards listed by the engine differ from those registered [{}]: {:?}",
            w.names(active), present.iter().map(|h| h.entity).collect::<Vec<_>>()
        );
        ensure!(
            s.e.has_uncommitted_deregisters() == (s.unc != 0),
            "pending deregistrations: engine says {}, expected {}",
            s.e.has_uncommitted_deregisters(), s.unc != 0
        );
        ensure!(s.e.static_hazards().len() == w.n_static(), "static hazards changed");
        for (pi, (shape, q)) in self.probes.iter().enumerate() {
            let ignored = if s.reg != 0 && pi % 3 == 0 {
                (1 as M) << (w.n_static() + s.reg.trailing_zeros() as usize)
            } else {
                0
            };
            let ig = w.entities(ignored);
            let rel = active & !ignored;
            let mut want = 0 as M;
            for h in 0..w.haz.len() {
                if rel >> h & 1 == 1 && w.tab[*q][h] == V::Yes {
                    want |= 1 << h;
                }
            }
            let got = s.e.poly_collides(shape, &ig);
            ensure!(
                got == (want != 0),
                "{}: collides={got}, expected {} with hazards [{}], ignored [{}]",
                w.qname(*q), want != 0, w.names(active), w.names(ignored)
            );
            let mut det = vec![];
            s.e.collect_poly_collisions(shape, &ig, &mut det);
            let mut m = 0;
            for x in &det {
                let h = w.index_of(x).ok_or("unknown hazard reported")?;
                m |= (1 as M) << h;
            }
            ensure!(
                m == want && det.len() as u32 == m.count_ones(),
                "{}: reported [{}] ({} entries), expected [{}]",
                w.qname(*q), w.names(m), det.len(), w.names(want)
            );
            l.outn(if want != 0 { "probe hit" } else { "probe free" }, 1);
        }
        if let Some((_, want)) = self.fresh.iter().find(|f| f.0 == s.reg) {
            let got = self.prim_answers(&s.e, s.reg);
            for (k, (g, f)) in got.iter().zip(want).enumerate() {
                ensure!(
                    g == f,
                    "queries about {:?}: [edge, circle, point, hazards within, their number] = {:?} [{}] {}, a fresh engine with hazards [{}] answers {:?} [{}] {}",
                    self.prims[k], g.0, w.names(g.1), g.2, w.names(active), f.0, w.names(f.1), f.2
                );
            }
            l.outn("primitive queries as by a fresh engine", got.len() as u64);
        }
        if self.hpg {
            self.check_grid(s, l)?;
        }
        l.states += 1;
        Ok(())
    }

    fn check_grid(&self, s: &St, l: &mut Local) -> Result<(), String> {
        let w = &self.w;
        match s.e.haz_prox_grid() {
            Err(_) => {
                ensure!(s.dirty, "grid refused although nothing is pending");
                l.out("grid refused (pending changes)");
            }
            Ok(g) => {
                if s.dirty {
                    // an engine may only hand the grid out if it is accurate
                    l.out("grid available with re-registered hazards");
                }
                ensure!(g.grid.cells.len() == self.cells.len(), "number of cells changed");
                for (ci, (c, want)) in g.grid.cells.iter().zip(&self.cells).enumerate() {
                    let (Some(c), Some(wt)) = (c, want) else {
                        ensure!(c.is_none() == want.is_none(), "cell {ci} appeared or disappeared");
                        continue;
                    };
                    for q in [None, Some(0), Some(1), Some(3), Some(9)] {
                        let mut exp = f64::MAX;
                        for h in 0..w.haz.len() {
                            if w.mask(s.reg) >> h & 1 == 0 {
                                continue;
                            }
                            if let HazardEntity::InferiorQualityZone { quality, .. } = w.haz[h].entity {
                                if q.is_some_and(|q| quality >= q) {
                                    continue;
                                }
                            }
                            exp = exp.min(wt[h]);
                        }
                        let got = c.hazard_proximity(q) as f64;
                        ensure!(
                            (got - exp).abs() <= self.tol,
                            "cell {ci} centred {:?}: proximity {got} for quality {q:?}, expected {exp} with hazards [{}]",
                            c.centroid, w.names(w.mask(s.reg))
                        );
                    }
                }
                l.out("grid checked");
            }
        }
        Ok(())
    }

    fn dfs(&self, s: &St, hist: &mut Vec<Op>, depth: usize, l: &mut Local) -> Result<(), String> {
        if depth == 0 {
            return Ok(());
        }
        for &o in &self.ops {
            if !self.enabled(s, o) {
                continue;
            }
            let mut t = s.clone();
            hist.push(o);
            self.apply(&mut t, o);
            l.transitions += 1;
            self.check(&t, l).map_err(|m| format!("after {hist:?}: {m}"))?;
            self.dfs(&t, hist, depth - 1, l)?;
            hist.pop();
        }
        // what happened to the clones must not have touched this engine
        if depth >= 3 {
            self.check(s, l).map_err(|m| format!("clone of the engine after {hist:?} was disturbed: {m}"))?;
        }
        Ok(())
    }

    pub fn run(&self, ctx: &Ctx, name: &str, c: jagua_rs::util::config::CDEConfig, depth: usize) {
        let k = self.ops.len() as u64;
        let pre = 3usize.min(depth);
        let Some(start) = ctx.setup(name, || self.start(c)) else { return };
        ctx.family(name, k.pow(pre as u32), |i, l| {
            let mut d = Dec(i);
            let mut s = start.clone();
            let mut hist = vec![];
            for step in 0..pre {
                let o = self.ops[d.take(self.ops.len())];
                if !self.enabled(&s, o) {
                    return Ok(());
                }
                hist.push(o);
                self.apply(&mut s, o);
                l.transitions += 1;
                if step == pre - 1 || i < k {
                    self.check(&s, l).map_err(|m| format!("after {hist:?}: {m}"))?;
                }
            }
            if l.sample.is_none() {
                l.sample = Some(format!("prefix {hist:?}, then every continuation to length {depth}"));
            }
            self.dfs(&s, &mut hist, depth - pre, l)
        });
        if !self.hpg {
            let base = self.w.bin.build(0, c);
            sequences(
                ctx,
                &format!("no copies, {name}"),
                &self.ops,
                depth - 1,
                || St { e: base.base_cde.as_ref().clone(), reg: 0, unc: 0, dirty: false, snaps: [None, None] },
                |s, o| self.enabled(s, o),
                |s, o| {
                    self.apply(s, o);
                    Ok(())
                },
                |s, l| self.check(s, l),
            );
        }
    }

    /// Reference distances for every grid cell, from the geometry of bin and items.
    fn fill_cells(&mut self, e: &CDEngine) {
        let w = &self.w;
        let g = e.haz_prox_grid().expect("clean grid");
        self.cells = g
            .grid
            .cells
            .iter()
            .map(|c| {
                c.as_ref().map(|c| {
                    let p = (c.centroid.0 as f64, c.centroid.1 as f64);
                    w.haz
                        .iter()
                        .map(|h| match h.pool {
                            None => {
                                if geo::inside(p, &h.poly) != h.exterior {
                                    0.0
                                } else {
                                    geo::dist_border(p, &h.poly)
                                }
                            }
                            Some(i) => w.placed[i]
                                .shape
                                .surrogate()
                                .poles
                                .iter()
                                .map(|c| (geo::dist(p, (c.center.0 as f64, c.center.1 as f64)) - c.radius as f64).max(0.0))
                                .fold(f64::MAX, f64::min),
                        })
                        .collect()
                })
            })
            .collect();
    }
}

fn crowd_groups() -> Vec<Vec<usize>> {
    vec![vec![0, 1], (2..22).collect(), (22..54).rev().collect()]
}

fn opts(scale: f64, offset: P, poles: usize) -> WorldOpts {
    WorldOpts {
        surr: surr(poles, 2.min(poles), 0),
        scale,
        offset,
        qshapes: default_qshapes(),
        angles: vec![0.0, 0.6],
        step: 1.0,
    }
}

pub fn c03(ctx: &Ctx) {
    // (bin, items, quadtree depth, snapshot slots, sequence length quick / thorough)
    let runs: &[(usize, &[usize], u8, usize, usize, usize)] = &[
        (0, &[0, 1, 2], 4, 1, 7, 8),
        (0, &[0, 1, 3, 4], 3, 1, 6, 7),
        (1, &[0, 1, 4], 5, 2, 6, 8),
        (2, &[0, 3, 5], 4, 1, 6, 8),
        (3, &[0, 1, 2], 0, 1, 6, 7),
        (3, &[1, 3, 5], 6, 2, 6, 7),
        (4, &[0, 2, 3], 4, 1, 6, 8),
        (1, &[0, 1], 3, 2, 7, 9),
        (0, &[0, 1], 4, 1, 9, 10),
        (2, &[0, 1], 3, 1, 8, 10),
    ];
    for (b, items, depth, slots, dq, dt_) in runs {
        let o = opts(1.0, (0.0, 0.0), 2);
        let name = format!("histories:{} items {:?} depth {depth} slots {slots}", bins()[*b].name, items);
        let n_probes = if items.len() == 2 { 16 } else { ctx.pick(36, 48) };
        let Some(mut h) = ctx.setup(&name, || Hist::new(*b, &o, items.to_vec(), *slots, false, n_probes)) else {
            continue;
        };
        if ctx.setup(&name, || h.fill_fresh(cfg(*depth, 0, o.surr))).is_none() {
            continue;
        }
        h.run(ctx, &name, cfg(*depth, 0, o.surr), ctx.pick(*dq, *dt_));
    }
    // fifty items that come and go in groups
    let name = "histories:crowd";
    let s = surr(2, 2, 0);
    if let Some(mut h) = ctx.setup(name, || {
        Hist::with(crowd_world(2.3, vec![0.0], s), crowd_groups(), 1, false, ctx.pick(60, 90), 1.0)
    }) {
        if ctx.setup(name, || h.fill_fresh(cfg(4, 0, s))).is_some() {
            h.run(ctx, name, cfg(4, 0, s), ctx.pick(5, 6));
        }
    }
    // with the proximity grid switched on (its own code path in register / deregister / restore)
    let o = opts(1.0, (0.0, 0.0), 4);
    let name = "histories:with proximity grid";
    if let Some(mut h) = ctx.setup(name, || Hist::new(0, &o, vec![0, 1, 4], 1, true, 24)) {
        let c = cfg(4, 40, o.surr);
        if ctx.setup(name, || h.fill_cells(&h.w.base(c).clone())).is_some() {
            h.run(ctx, name, c, ctx.pick(6, 8));
        }
    }
}

pub fn c07(ctx: &Ctx) {
    // all histories on the grid
    let runs: &[(usize, &[usize], usize, usize, usize, usize)] = &[
        (0, &[0, 1, 2], 100, 1, 7, 8),
        (0, &[2, 3, 4, 5], 60, 1, 6, 7),
        (1, &[0, 2, 4], 120, 2, 6, 7),
        (2, &[0, 1, 5], 150, 1, 6, 8),
        (3, &[0, 2, 3], 90, 1, 6, 8),
        (4, &[0, 2, 3], 150, 1, 6, 8),
    ];
    for (b, items, n, slots, dq, dt_) in runs {
        for poles in [1usize, 14] {
            let o = opts(1.0, (0.0, 0.0), poles);
            let name = format!("grid histories:{} items {:?} cells {n} poles {poles}", bins()[*b].name, items);
            let Some(mut h) = ctx.setup(&name, || Hist::new(*b, &o, items.to_vec(), *slots, true, 4)) else {
                continue;
            };
            let c = cfg(2, *n, o.surr);
            let Some(base) = ctx.setup(&name, || h.w.base(c)) else { continue };
            if ctx.setup(&name, || h.fill_cells(&base)).is_none() {
                continue;
            }
            h.run(ctx, &name, c, ctx.pick(*dq, *dt_));
        }
    }
    let name = "grid histories:crowd";
    let s = surr(6, 2, 0);
    if let Some(mut h) = ctx.setup(name, || Hist::with(crowd_world(4.0, vec![0.0], s), crowd_groups(), 1, true, 4, 1.0)) {
        let c = cfg(2, 150, s);
        if let Some(base) = ctx.setup(name, || h.w.base(c)) {
            if ctx.setup(name, || h.fill_cells(&base)).is_some() {
                h.run(ctx, name, c, ctx.pick(5, 6));
            }
        }
    }
    // every item position in every bin, one and two items: propagation reaches every affected cell
    for b in bins() {
        for n_cells in ctx.pick(vec![40, 400], vec![1, 9, 40, 150, 400, 1500]) {
            place_sweep(ctx, &b, n_cells, "", 2e-3);
        }
        place_sweep(ctx, &b.map(1.0, (2000.0, 9000.0)), 90, "@far", 2e-2);
    }
    // bins so narrow that the grid has a single column or row, or two
    let narrow = |name, outer, zone| BinDef { name, outer, holes: vec![], zones: vec![(9, vec![zone])] };
    for b in [
        narrow("one column", rect(0.0, 0.0, 2.0, 40.0), rect(0.5, 20.0, 1.0, 21.0)),
        narrow("one row", rect(-20.0, 1.0, 20.0, 3.0), rect(2.0, 1.5, 3.0, 2.5)),
    ] {
        for n_cells in ctx.pick(vec![10, 20, 60], vec![1, 2, 5, 10, 20, 40, 60, 80, 120]) {
            place_sweep(ctx, &b, n_cells, "", 2e-3);
        }
    }
    accommodate(ctx);
}

/// All placements of one item on a grid of positions (alone, and after a fixed second item), compared
/// cell by cell with distances computed from scratch.
fn place_sweep(ctx: &Ctx, bin: &BinDef, n_cells: usize, label: &str, tol: f64) {
    let s = surr(14, 2, 0);
    let name = format!("grid placements:{}{label} cells {n_cells}", bin.name);
    let shapes: Vec<(&str, Vec<P>)> = vec![
        ("square1", zshape("square1")),
        ("bar", zshape("bar")),
        ("C", zshape("C")),
        ("star", zshape("star")),
        ("sliver", zshape("sliver")),
    ];
    let Some((built, items)) = ctx.setup(&name, || {
        (
            bin.build(0, cfg(1, n_cells, s)),
            shapes.iter().enumerate().map(|(i, p)| mk_item(i, &p.1, None, s)).collect::<Vec<Item>>(),
        )
    }) else {
        return;
    };
    let bb = geo::bbox(&bin.outer);
    let step = ctx.pick(2.0, 1.0);
    let (nx, ny) = (((bb.2 - bb.0) / step) as usize, ((bb.3 - bb.1) / step) as usize);
    let n = (nx * ny * items.len() * 3) as u64;
    ctx.family(&name, n, |i, l| {
        let mut d = Dec(i);
        let k = d.take(items.len());
        let mode = d.take(3);
        let at = (bb.0 + 0.4 + step * d.take(nx) as f64, bb.1 + 0.3 + step * d.take(ny) as f64);
        let mut e = built.base_cde.as_ref().clone();
        let mut placed = vec![jagua_rs::entities::placed_item::PlacedItem::new(&items[k], dt(0.4 * k as f64, at))];
        if mode > 0 {
            let c = ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0);
            placed.push(jagua_rs::entities::placed_item::PlacedItem::new(&items[(k + 1) % items.len()], dt(1.0, c)));
        }
        if mode == 2 {
            placed.reverse();
        }
        for p in &placed {
            e.register_hazard(jagua_rs::collision_detection::hazard::Hazard::new(HazardEntity::from(p), p.shape.clone()));
            l.transitions += 1;
        }
        let g = e.haz_prox_grid().map_err(|_| "grid dirty after registrations only")?;
        for c in g.grid.cells.iter().flatten() {
            let p = (c.centroid.0 as f64, c.centroid.1 as f64);
            let mut exp = if geo::inside(p, &bin.outer) { geo::dist_border(p, &bin.outer) } else { 0.0 };
            for h in &bin.holes {
                exp = exp.min(if geo::inside(p, h) { 0.0 } else { geo::dist_border(p, h) });
            }
            for pi in &placed {
                for c in &pi.shape.surrogate().poles {
                    exp = exp.min((geo::dist(p, (c.center.0 as f64, c.center.1 as f64)) - c.radius as f64).max(0.0));
                }
            }
            for q in [Some(0), Some(1), Some(9), None] {
                let mut exp = exp;
                for (zq, zs) in &bin.zones {
                    if q.is_none_or(|q| *zq < q) {
                        for z in zs {
                            exp = exp.min(if geo::inside(p, z) { 0.0 } else { geo::dist_border(p, z) });
                        }
                    }
                }
                let got = c.hazard_proximity(q) as f64;
                ensure!(
                    (got - exp).abs() <= tol,
                    "bin {}, items {:?}: cell centred {p:?} knows proximity {got} for quality {q:?}, expected {exp}",
                    bin.name, placed.iter().map(|p| (shapes[p.item_id].0, p.d_transf)).collect::<Vec<_>>()
                );
            }
            l.states += 1;
        }
        l.out(if mode == 0 { "one item" } else { "two items" });
        Ok(())
    });
}

/// The filter built on the grid never rejects a cell in which the item could be placed, and the cells
/// cover the whole free space of the bin.
fn accommodate(ctx: &Ctx) {
    for b in 0..bins().len() {
        for n_cells in ctx.pick(vec![30, 300, 2000], vec![1, 5, 30, 120, 300, 1000, 4000]) {
            let o = WorldOpts { surr: surr(6, 2, 0), scale: 1.0, offset: (0.0, 0.0), qshapes: vec![], angles: vec![], step: 1.0 };
            let name = format!("filter:{} cells {n_cells}", bins()[b].name);
            let Some((w, base, items)) = ctx.setup(&name, || {
                let w = World::new(b, &o);
                let base = w.base(cfg(2, n_cells, o.surr));
                let mut items = vec![];
                for (i, s) in ["square1", "tri", "bar", "star", "big"].iter().enumerate() {
                    let p = if *s == "big" { zshape("square2").iter().map(|p| (p.0 * 2.0, p.1 * 2.0)).collect() } else { zshape(s) };
                    for q in [None, Some(0), Some(2), Some(9)] {
                        items.push(mk_item(100 + i, &p, q, o.surr));
                    }
                }
                (w, base, items)
            }) else {
                continue;
            };
            let np = w.placed.len();
            ctx.family(&name, 1 << np, |i, l| {
                let subset = i as M;
                let mut e = base.clone();
                for k in 0..np {
                    if subset >> k & 1 == 1 {
                        e.register_hazard(w.hazard(k));
                    }
                }
                let active = w.mask(subset);
                let g = e.haz_prox_grid().map_err(|_| "dirty grid")?;
                for c in g.grid.cells.iter().flatten() {
                    let bx = &c.bbox;
                    let (x0, y0, x1, y1) = (bx.x_min as f64, bx.y_min as f64, bx.x_max as f64, bx.y_max as f64);
                    let ps = [(x0, y0), (x1, y0), (x0, y1), (x1, y1), ((x0 + x1) / 2.0, (y0 + y1) / 2.0)];
                    // distance of each sample point to the nearest relevant hazard, per quality
                    let mut dists: Vec<Vec<(f64, Option<usize>)>> = vec![];
                    for p in ps {
                        dists.push(
                            (0..w.haz.len())
                                .filter(|h| active >> h & 1 == 1)
                                .map(|h| {
                                    let hz = &w.haz[h];
                                    let d = if geo::inside(p, &hz.poly) != hz.exterior { 0.0 } else { geo::dist_border(p, &hz.poly) };
                                    let q = match hz.entity {
                                        HazardEntity::InferiorQualityZone { quality, .. } => Some(quality),
                                        _ => None,
                                    };
                                    (d, q)
                                })
                                .collect(),
                        );
                    }
                    for it in &items {
                        l.states += 1;
                        if c.could_accommodate_item(it) {
                            l.out("accepted");
                            continue;
                        }
                        l.out("rejected");
                        let r = it.shape.poi.radius as f64;
                        for (pi, d) in dists.iter().enumerate() {
                            let near = d
                                .iter()
                                .filter(|(_, q)| match (q, it.base_quality) {
                                    (Some(q), Some(bq)) => *q < bq,
                                    _ => true,
                                })
                                .map(|x| x.0)
                                .fold(f64::MAX, f64::min);
                            ensure!(
                                near < r + 2e-3,
                                "cell {:?} rejected for an item of quality {:?} with inscribed radius {r}, although at {:?} the nearest relevant hazard is {near} away; hazards [{}]",
                                bx, it.base_quality, ps[pi], w.names(active)
                            );
                        }
                    }
                    l.transitions += 1;
                }
                if subset == 0 {
                    // coverage
                    let bb = geo::bbox(&w.bin.outer);
                    for a in 0..60 {
                        for c in 0..60 {
                            let p = (bb.0 + (bb.2 - bb.0) * (a as f64 + 0.5) / 60.0, bb.1 + (bb.3 - bb.1) * (c as f64 + 0.5) / 60.0);
                            let free = geo::inside(p, &w.bin.outer) && !w.bin.holes.iter().any(|h| geo::inside(p, h));
                            let cov = g.grid.cells.iter().flatten().any(|c| {
                                p.0 >= c.bbox.x_min as f64 - 1e-3 && p.0 <= c.bbox.x_max as f64 + 1e-3
                                    && p.1 >= c.bbox.y_min as f64 - 1e-3 && p.1 <= c.bbox.y_max as f64 + 1e-3
                            });
                            ensure!(!free || cov, "free point {p:?} of the bin lies in no grid cell");
                            l.out(if free { "free point covered" } else { "non-free point" });
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
