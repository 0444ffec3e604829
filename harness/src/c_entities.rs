//! C04 (layouts), C05 (bin packing bookkeeping), C06 (strip packing bookkeeping): every operation
//! sequence up to a depth on the real objects, compared after each step with a reference model.
use crate::core::{sequences, Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, V};
use crate::scene::*;
use crate::shapes::rect;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::{PItemKey, PlacedItem};
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::config::CDEConfig;
use std::sync::Arc;

fn entity_bins(aside: bool) -> Vec<BinDef> {
    let mut v = vec![
        BinDef {
            name: "hole",
            outer: rect(0.0, 0.0, 14.0, 10.0),
            holes: vec![rect(10.0, 6.0, 12.0, 8.0)],
            zones: vec![],
        },
        BinDef {
            name: "zone",
            outer: rect(0.0, -1.0, 20.0, 9.5),
            holes: vec![],
            zones: vec![(0, vec![rect(15.0, 1.0, 18.0, 6.0)])],
        },
    ];
    if aside {
        // leaves items wholly outside that lie inside the other bin
        v[1].name = "aside";
        v[1].outer = rect(4.5, -1.0, 24.0, 9.5);
    }
    v
}

fn entity_pool(extra: usize) -> Pool {
    let mut p = Pool {
        defs: vec![
            (0, 0.0, (1.0, 1.0)),
            (0, 0.0, (5.0, 1.0)),
            (1, 0.3, (2.5, 4.75)),
            (1, 0.0, (9.0, 1.0)),
            (2, 0.0, (6.5, 6.0)),
            (2, 0.2, (6.0, 2.5)), // overlaps the second one
        ],
        shapes: vec![("sq3", rect(0.0, 0.0, 3.0, 3.0)), ("L", zshape("L")), ("tri", zshape("tri"))],
        ids: vec![0, 0, 1, 1, 2, 2],
    };
    for i in 0..extra {
        let id = [2, 1, 0][i % 3];
        p.defs.push((id, 0.21 * i as f64, (1.5 + 0.43 * i as f64, 1.0 + 0.7 * (i % 9) as f64)));
        p.ids.push(id);
    }
    p
}

/// Bins that share a pool of placements, with probes whose verdict is clear in every bin.
struct Stage {
    worlds: Vec<World>,
    bins: Vec<Bin>,
    cfg: CDEConfig,
    /// (shape, per world: mask of hazards it overlaps, inside engine box)
    probes: Vec<(SimplePolygon, Vec<(M, bool)>, usize)>,
    areas: Vec<f64>,
    stock: [usize; 2],
    demand: [usize; 3],
}

impl Stage {
    fn with_ids(c: CDEConfig, n_probes: usize, ids: [usize; 2], extra: usize, aside: bool) -> Stage {
        let o = WorldOpts {
            surr: c.item_surrogate_config,
            scale: 1.0,
            offset: (0.0, 0.0),
            qshapes: vec![("square1", zshape("square1")), ("bar", zshape("bar"))],
            angles: vec![0.0],
            step: 0.75,
        };
        // a common frame: all worlds enumerate queries over the same region
        let worlds: Vec<World> = entity_bins(aside).into_iter().map(|b| World::custom(b, entity_pool(extra), &o)).collect();
        let bins: Vec<Bin> = worlds.iter().enumerate().map(|(i, w)| w.bin.build(ids[i], c)).collect();
        let w0 = &worlds[1]; // the larger one supplies the probes
        let mut cand: Vec<(Vec<M>, usize)> = vec![];
        for q in 0..w0.queries.len() {
            let qq = &w0.queries[q];
            let iq = {
                let r = geo::interior_point(&w0.qitems[qq.shape].2);
                (r.0 + qq.at.0, r.1 + qq.at.1)
            };
            let mut masks = vec![];
            let mut clear = true;
            for w in &worlds {
                let mut m = 0 as M;
                for (h, hz) in w.haz.iter().enumerate() {
                    let v = if hz.exterior {
                        geo::protrudes(&qq.poly, &hz.poly, 2e-3)
                    } else {
                        geo::overlap(&qq.poly, iq, &hz.poly, hz.ip, 2e-3)
                    };
                    match v {
                        V::Amb => clear = false,
                        V::Yes => m |= 1 << h,
                        V::No => {}
                    }
                }
                masks.push(m);
            }
            if clear {
                cand.push((masks, q));
            }
        }
        let mut probes = vec![];
        let mut seen: Vec<Vec<M>> = vec![];
        for round in 0..3 {
            for (m, q) in &cand {
                let n = seen.iter().filter(|s| *s == m).count();
                if n == round && probes.len() < n_probes {
                    seen.push(m.clone());
                    let qq = &w0.queries[*q];
                    let sp = w0.qitems[qq.shape].1.shape.transform_clone(&qq.t);
                    probes.push((sp, m.iter().map(|x| (*x, true)).collect(), *q));
                }
            }
        }
        let areas = worlds[0].pool.defs.iter().map(|d| geo::area(&worlds[0].pool.shapes[d.0].1)).collect();
        let (stock, demand) = if extra == 0 { (STOCK, DEMAND) } else { ([40, 30], [9, 300, 20]) };
        Stage { worlds, bins, cfg: c, probes, areas, stock, demand }
    }

    fn dt(&self, i: usize) -> DTransformation {
        let d = &self.worlds[0].pool.defs[i];
        dt(d.1, d.2)
    }
    fn item(&self, i: usize) -> &Item {
        &self.worlds[0].pool_items[i]
    }
    fn n(&self) -> usize {
        self.worlds[0].placed.len()
    }
    /// pool index of a placed item
    fn which(&self, pi: &PlacedItem) -> Option<usize> {
        (0..self.n()).find(|&i| self.item(i).id == pi.item_id && self.dt(i) == pi.d_transf)
    }
    fn probe(&self, e: &CDEngine, bin: usize, subset: M, l: &mut Local) -> Result<(), String> {
        let w = &self.worlds[bin];
        let active = w.mask(subset);
        for (shape, masks, q) in &self.probes {
            let want = masks[bin].0 & active != 0;
            let got = e.poly_collides(shape, &[]);
            ensure!(
                got == want,
                "{}: collides={got}, expected {want} in bin {} with items [{}]",
                self.worlds[1].qname(*q), w.bin.name, w.names(active)
            );
            l.outn(if want { "probe hit" } else { "probe free" }, 1);
        }
        Ok(())
    }
    fn usage(&self, bin: usize, placed: &[usize]) -> f64 {
        placed.iter().map(|i| self.areas[*i]).sum::<f64>() / self.worlds[bin].bin.area()
    }
    fn subset(placed: &[usize]) -> M {
        placed.iter().fold(0, |m, i| m | 1 << i)
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs()))
}

// ------------------------------------------------------------------------------------------ C04

#[derive(Clone, Copy, Debug, PartialEq)]
enum LOp {
    Place(usize),
    Remove(usize, bool),
    ChangeBin(usize),
    Flush,
    Snap(usize),
    Restore(usize),
    FromSnap(usize),
    CloneId,
    /// many at once: pool entries from, to
    PlaceAll(usize, usize),
    RemoveAll(usize, usize, bool),
}

#[derive(Clone)]
struct LSt {
    l: Layout,
    bin: usize,
    placed: Vec<(PItemKey, usize)>,
    snaps: [Option<(Arc<LayoutSnapshot>, usize, Vec<(PItemKey, usize)>)>; 2],
    dirty: bool,
}

impl LSt {
    fn has(&self, i: usize) -> Option<PItemKey> {
        self.placed.iter().find(|p| p.1 == i).map(|p| p.0)
    }
}

fn l_enabled(s: &LSt, o: LOp) -> bool {
    match o {
        LOp::Place(i) => s.has(i).is_none(),
        LOp::Remove(i, _) => s.has(i).is_some(),
        LOp::ChangeBin(b) => s.bin != b,
        LOp::Flush => s.dirty,
        LOp::Snap(_) | LOp::CloneId => true,
        LOp::PlaceAll(a, b) => (a..b).all(|i| s.has(i).is_none()),
        LOp::RemoveAll(a, b, _) => (a..b).all(|i| s.has(i).is_some()),
        LOp::Restore(k) => matches!(&s.snaps[k], Some((sn, _, _)) if sn.id == s.l.id()),
        LOp::FromSnap(k) => s.snaps[k].is_some(),
    }
}

fn l_apply(st: &Stage, s: &mut LSt, o: LOp) -> Result<(), String> {
    match o {
        LOp::Place(i) => {
            let k = s.l.place_item(st.item(i), st.dt(i));
            ensure!(!s.placed.iter().any(|p| p.0 == k), "the new item got the key of another placed item");
            s.placed.push((k, i));
        }
        LOp::Remove(i, c) => {
            let k = s.has(i).unwrap();
            let pi = s.l.remove_item(k, c);
            ensure!(st.which(&pi) == Some(i), "remove_item returned another item: {:?} {:?}", pi.item_id, pi.d_transf);
            s.placed.retain(|p| p.1 != i);
            s.dirty |= !c;
        }
        LOp::ChangeBin(b) => {
            s.l.change_bin(st.bins[b].clone());
            s.bin = b;
            s.dirty = false;
        }
        LOp::Flush => {
            s.l.flush_changes();
            s.dirty = false;
        }
        LOp::Snap(k) => {
            let sn = s.l.create_snapshot();
            s.dirty = false;
            ensure!(sn.id == s.l.id() && sn.bin.id == st.bins[s.bin].id && close(sn.bin.area as f64, st.worlds[s.bin].bin.area()), "snapshot records another layout id or bin");
            ensure!(
                sn.placed_items.len() == s.placed.len()
                    && s.placed.iter().all(|(k, i)| sn.placed_items.get(*k).and_then(|p| st.which(p)) == Some(*i)),
                "snapshot does not list the placed items"
            );
            let u = st.usage(s.bin, &s.placed.iter().map(|p| p.1).collect::<Vec<_>>());
            ensure!(close(sn.usage as f64, u), "snapshot usage {} expected {u}", sn.usage);
            s.snaps[k] = Some((Arc::new(sn), s.bin, s.placed.clone()));
        }
        LOp::Restore(k) => {
            let (sn, b, p) = s.snaps[k].clone().unwrap();
            s.l.restore(&sn);
            s.bin = b;
            s.placed = p;
            s.dirty = false;
        }
        LOp::FromSnap(k) => {
            let (sn, b, p) = s.snaps[k].clone().unwrap();
            s.l = Layout::from_snapshot(&sn);
            ensure!(s.l.id() == sn.id, "layout built from a snapshot has another id");
            s.bin = b;
            s.placed = p;
            s.dirty = false;
        }
        LOp::PlaceAll(a, b) => {
            for i in a..b {
                l_apply(st, s, LOp::Place(i))?;
            }
        }
        LOp::RemoveAll(a, b, c) => {
            for i in a..b {
                l_apply(st, s, LOp::Remove(i, c))?;
            }
        }
        LOp::CloneId => {
            let id = s.l.id() + 10;
            s.l = s.l.clone_with_id(id);
            ensure!(s.l.id() == id, "clone_with_id ignored the id");
        }
    }
    Ok(())
}

fn l_check(st: &Stage, s: &LSt, l: &mut Local) -> Result<(), String> {
    ensure!(
        s.l.bin.id == st.bins[s.bin].id && close(s.l.bin.area as f64, st.worlds[s.bin].bin.area()),
        "layout has bin {} of area {}, expected {} of area {}", s.l.bin.id, s.l.bin.area, st.bins[s.bin].id, st.worlds[s.bin].bin.area()
    );
    ensure!(s.l.placed_items().len() == s.placed.len(), "{} items placed, expected {}", s.l.placed_items().len(), s.placed.len());
    ensure!(s.l.is_empty() == s.placed.is_empty(), "is_empty is wrong");
    for i in 0..st.n() {
        let e = HazardEntity::from(&st.worlds[0].placed[i]);
        let k = s.l.hazard_to_p_item_key(&e);
        ensure!(k == s.has(i), "hazard of item {i} maps to key {k:?}, expected {:?}", s.has(i));
        if let Some(k) = s.has(i) {
            let pi = s.l.placed_items().get(k).ok_or_else(|| format!("key of item {i} is gone"))?;
            ensure!(st.which(pi) == Some(i), "key of item {i} leads to another item");
            let (a, b) = (bbox_of(pi.shape.as_ref()), geo::bbox(&st.worlds[0].haz[st.worlds[0].n_static() + i].poly));
            ensure!(close(a.0, b.0) && close(a.1, b.1) && close(a.2, b.2) && close(a.3, b.3), "item {i} is not where it was placed");
        }
    }
    let pl: Vec<usize> = s.placed.iter().map(|p| p.1).collect();
    let u = st.usage(s.bin, &pl);
    ensure!(close(s.l.usage() as f64, u), "usage {} expected {u}", s.l.usage());
    if st.cfg.hpg_n_cells > 0 && !s.dirty {
        ensure!(s.l.cde().haz_prox_grid().is_ok(), "proximity grid unavailable although no change is pending");
    }
    st.probe(s.l.cde(), s.bin, Stage::subset(&pl), l)?;
    l.states += 1;
    Ok(())
}

fn l_dfs(st: &Stage, ops: &[LOp], s: &LSt, hist: &mut Vec<LOp>, depth: usize, l: &mut Local) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for &o in ops {
        if !l_enabled(s, o) {
            continue;
        }
        let mut t = s.clone();
        hist.push(o);
        l.transitions += 1;
        l_apply(st, &mut t, o).and_then(|_| l_check(st, &t, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
        l_dfs(st, ops, &t, hist, depth - 1, l)?;
        hist.pop();
    }
    if depth >= 2 {
        l_check(st, s, l).map_err(|m| format!("layout after {hist:?} was disturbed by changes to its copies: {m}"))?;
    }
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    let runs: &[(&str, &[usize], u8, usize, usize, usize, usize)] = &[
        ("two items", &[0, 2], 3, 0, 1, 6, 7),
        ("two items, two snapshots", &[0, 1], 4, 0, 2, 5, 6),
        ("three items", &[0, 1, 5], 2, 0, 1, 5, 6),
        ("one item, bins with the same number", &[1], 3, 0, 2, 6, 7),
        ("four items", &[0, 1, 2, 3], 0, 0, 1, 4, 5),
        ("two items, grid", &[1, 2], 3, 50, 1, 5, 7),
        ("two items, one bin aside", &[0, 1], 3, 0, 1, 6, 7),
        ("two items, one bin aside, grid", &[0, 2], 2, 40, 1, 5, 6),
        ("thirty items", &[], 3, 0, 2, 5, 6),
        ("thirty items, grid", &[], 2, 30, 1, 5, 6),
    ];
    for (name, items, depth, hpg, nsnap, dq, dth) in runs {
        let c = cfg(*depth, *hpg, surr(3, 2, 0));
        // the bins of a strip all have the same number
        let many = items.is_empty();
        let ids = if name.contains("same number") { [0, 0] } else { [0, 1] };
        let Some(st) = ctx.setup(name, || Stage::with_ids(c, ctx.pick(24, 40) * if many { 3 } else { 1 }, ids, if many { 24 } else { 0 }, name.contains("aside"))) else { continue };
        let mut ops = vec![];
        for &i in *items {
            ops.extend([LOp::Place(i), LOp::Remove(i, true), LOp::Remove(i, false)]);
        }
        if many {
            for (a, b) in [(0, 3), (3, 12), (12, 30)] {
                ops.extend([LOp::PlaceAll(a, b), LOp::RemoveAll(a, b, true), LOp::RemoveAll(a, b, false)]);
            }
        }
        ops.extend([LOp::ChangeBin(0), LOp::ChangeBin(1), LOp::CloneId]);
        if *hpg > 0 {
            ops.push(LOp::Flush);
        }
        for k in 0..*nsnap {
            ops.extend([LOp::Snap(k), LOp::Restore(k), LOp::FromSnap(k)]);
        }
        let len = ctx.pick(*dq, *dth);
        let start = LSt { l: Layout::new(3, st.bins[0].clone()), bin: 0, placed: vec![], snaps: [None, None], dirty: false };
        let k = ops.len();
        ctx.family(&format!("layout:{name}"), (k * k * k) as u64, |i, l| {
            let mut d = Dec(i);
            let mut s = start.clone();
            let mut hist = vec![];
            for _ in 0..3 {
                let o = ops[d.take(k)];
                if !l_enabled(&s, o) {
                    return Ok(());
                }
                hist.push(o);
                l.transitions += 1;
                l_apply(&st, &mut s, o).and_then(|_| l_check(&st, &s, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
            }
            if l.sample.is_none() {
                l.sample = Some(format!("{hist:?} and all continuations to length {len}"));
            }
            l_dfs(&st, &ops, &s, &mut hist, len - 3, l)
        });
        sequences(
            ctx, &format!("layout, no copies:{name}"), &ops, ctx.pick(*dq, *dth) - 1,
            || LSt { l: Layout::new(3, st.bins[0].clone()), bin: 0, placed: vec![], snaps: [None, None], dirty: false },
            l_enabled, |s, o| l_apply(&st, s, o), |s, l| l_check(&st, s, l),
        );
    }
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Clone, Copy, Debug, PartialEq)]
enum BOp {
    /// place pool entry in a new bin of a type
    New(usize, usize),
    /// place pool entry in the n-th open layout
    In(usize, usize),
    /// remove first / last item of the n-th layout
    Remove(usize, bool, bool),
    RemoveLayout(usize),
    /// create a solution in a slot, from scratch or based on the latest one
    Sol(usize, bool),
    Restore(usize),
    /// take the n-th layout out and register it again
    Reregister(usize),
    /// open so many bins of a type, with one pool entry in each
    Open(usize, usize),
    /// place the pool entries from, to in the n-th layout
    Fill(usize, usize, usize),
    /// remove the first so many layouts
    Close(usize),
}

#[derive(Clone, Debug, PartialEq)]
struct MLay {
    bin: usize,
    placed: Vec<usize>, // sorted pool indices
}

#[derive(Clone)]
struct BSt {
    p: BPProblem,
    lays: Vec<MLay>,
    sols: [Option<(Arc<Solution>, Vec<MLay>)>; 2],
    /// slot that create_solution may use as reference
    reference: Option<usize>,
}

const STOCK: [usize; 2] = [2, 1];
const DEMAND: [usize; 3] = [1, 2, 1];
const COST: [u64; 2] = [7, 31];

fn b_obs(st: &Stage, p: &BPProblem) -> Result<Vec<MLay>, String> {
    p.layouts()
        .iter()
        .map(|l| {
            let mut placed = vec![];
            for (_, pi) in l.placed_items().iter() {
                placed.push(st.which(pi).ok_or_else(|| format!("layout holds an unknown placement {:?}", pi.d_transf))?);
            }
            placed.sort();
            Ok(MLay { bin: l.bin.id, placed })
        })
        .collect()
}

fn b_enabled(st: &Stage, s: &BSt, o: BOp) -> bool {
    let used = |b: usize| s.lays.iter().filter(|l| l.bin == b).count();
    match o {
        BOp::New(_, b) => used(b) < st.stock[b],
        BOp::Open(n, b) => used(b) + n <= st.stock[b],
        BOp::Fill(a, b, n) => n < s.lays.len() && (a..b).all(|i| !s.lays[n].placed.contains(&i)),
        BOp::Close(n) => s.lays.len() >= n,
        BOp::In(i, n) => n < s.lays.len() && !s.lays[n].placed.contains(&i),
        BOp::Remove(n, last, _) => n < s.lays.len() && (!last || s.lays[n].placed.len() > 1),
        BOp::RemoveLayout(n) | BOp::Reregister(n) => n < s.lays.len(),
        BOp::Sol(_, inc) => !inc || s.reference.is_some(),
        BOp::Restore(k) => s.sols[k].is_some(),
    }
}

fn sorted(mut v: Vec<MLay>) -> Vec<MLay> {
    v.sort_by(|a, b| (a.bin, &a.placed).cmp(&(b.bin, &b.placed)));
    v
}

fn b_sol_check(st: &Stage, sol: &Solution, lays: &[MLay], inst: &Instance) -> Result<(), String> {
    let got: Vec<MLay> = sol
        .layout_snapshots
        .iter()
        .map(|sn| {
            let mut placed: Vec<usize> = sn.placed_items.values().map(|pi| st.which(pi).unwrap_or(99)).collect();
            placed.sort();
            MLay { bin: sn.bin.id, placed }
        })
        .collect();
    ensure!(sorted(got.clone()) == sorted(lays.to_vec()), "solution records layouts {got:?}, expected {lays:?}");
    let (missing, stock, usage) = b_numbers(st, lays);
    let placed: Vec<usize> = missing.iter().zip(st.demand).map(|(m, d)| (d as isize - m) as usize).collect();
    ensure!(sol.placed_item_qtys == placed, "solution records placed quantities {:?}, expected {placed:?}", sol.placed_item_qtys);
    ensure!(sol.target_item_qtys == st.demand, "solution records demands {:?}", sol.target_item_qtys);
    ensure!(sol.bin_qtys == stock, "solution records stock {:?}, expected {stock:?}", sol.bin_qtys);
    ensure!(sol.missing_item_qtys(inst) == missing, "solution misses {:?}, expected {missing:?}", sol.missing_item_qtys(inst));
    ensure!(sol.n_items_placed() == placed.iter().sum::<usize>(), "n_items_placed {}", sol.n_items_placed());
    ensure!(close(sol.usage as f64, usage), "solution usage {} expected {usage}", sol.usage);
    for sn in &sol.layout_snapshots {
        let m: Vec<usize> = sn.placed_items.values().map(|pi| st.which(pi).unwrap()).collect();
        ensure!(close(sn.usage as f64, st.usage(sn.bin.id, &m)), "layout usage in solution is {}", sn.usage);
    }
    let complete = missing.iter().all(|m| *m <= 0);
    let gi: &dyn jagua_rs::entities::instances::instance_generic::InstanceGeneric = inst;
    ensure!(sol.is_complete(gi) == complete, "is_complete is {}, expected {complete}", sol.is_complete(gi));
    let area = |k: usize| st.areas[[0, 2, 4][k]];
    let tot: f64 = (0..3).map(|k| st.demand[k] as f64 * area(k)).sum();
    let inc: f64 = (0..3).map(|k| placed[k] as f64 * area(k)).sum();
    ensure!(close(sol.completeness(inst) as f64, inc / tot), "completeness {} expected {}", sol.completeness(inst), inc / tot);
    Ok(())
}

/// (missing per item, remaining stock per bin, usage)
fn b_numbers(st: &Stage, lays: &[MLay]) -> (Vec<isize>, Vec<usize>, f64) {
    let mut missing: Vec<isize> = st.demand.iter().map(|d| *d as isize).collect();
    let mut stock = st.stock.to_vec();
    let (mut a, mut t) = (0.0, 0.0);
    for l in lays {
        stock[l.bin] -= 1;
        t += st.worlds[l.bin].bin.area();
        for i in &l.placed {
            missing[st.worlds[0].pool.id(*i)] -= 1;
            a += st.areas[*i];
        }
    }
    (missing, stock, if lays.is_empty() { 0.0 } else { a / t })
}

fn b_apply(st: &Stage, s: &mut BSt, o: BOp, inst: &Instance) -> Result<(), String> {
    let opt = |i: usize, li| PlacingOption { layout_idx: li, item_id: st.item(i).id, d_transf: st.dt(i) };
    match o {
        BOp::New(i, b) => {
            let (li, k) = s.p.place_item(opt(i, LayoutIndex::Template(b)));
            let pi = s.p.get_layout(li).placed_items().get(k).ok_or("returned key leads nowhere")?;
            ensure!(st.which(pi) == Some(i) && matches!(li, LayoutIndex::Real(_)), "returned index/key leads to another item");
            s.lays.push(MLay { bin: b, placed: vec![i] });
        }
        BOp::In(i, n) => {
            let (li, k) = s.p.place_item(opt(i, LayoutIndex::Real(n)));
            ensure!(li == LayoutIndex::Real(n), "item was placed in {li:?} instead of layout {n}");
            let pi = s.p.get_layout(li).placed_items().get(k).ok_or("returned key leads nowhere")?;
            ensure!(st.which(pi) == Some(i), "returned key leads to another item");
            s.lays[n].placed.push(i);
            s.lays[n].placed.sort();
        }
        BOp::Remove(n, last, c) => {
            let m = &mut s.lays[n];
            let i = if last { m.placed.pop().unwrap() } else { m.placed.remove(0) };
            let k = s.p.layouts()[n].placed_items().iter().find(|(_, pi)| st.which(pi) == Some(i)).map(|x| x.0).ok_or("item vanished")?;
            let r = s.p.remove_item(LayoutIndex::Real(n), k, c);
            ensure!(r.item_id == st.item(i).id && r.d_transf == st.dt(i), "remove_item described another item: {r:?}");
            if m.placed.is_empty() {
                s.lays.remove(n);
            }
        }
        BOp::Open(n, b) => {
            for k in 0..n {
                b_apply(st, s, BOp::New((5 * s.lays.len() + k) % st.n(), b), inst)?;
            }
            return Ok(());
        }
        BOp::Fill(a, b, n) => {
            for i in a..b {
                b_apply(st, s, BOp::In(i, n), inst)?;
            }
            return Ok(());
        }
        BOp::Close(n) => {
            for _ in 0..n {
                b_apply(st, s, BOp::RemoveLayout(0), inst)?;
            }
            return Ok(());
        }
        BOp::RemoveLayout(n) => {
            s.p.remove_layout(LayoutIndex::Real(n));
            s.lays.remove(n);
        }
        BOp::Reregister(n) => {
            let lay = s.p.layouts()[n].clone();
            s.p.remove_layout(LayoutIndex::Real(n));
            let li = s.p.register_layout(lay);
            let m = s.lays.remove(n);
            s.lays.push(m);
            ensure!(li == LayoutIndex::Real(s.lays.len() - 1), "registered layout reported as {li:?}");
        }
        BOp::Sol(k, inc) => {
            let old = if inc { Some(s.sols[s.reference.unwrap()].as_ref().unwrap().0.clone()) } else { None };
            let sol = s.p.create_solution(old.as_deref());
            ensure!(!s.sols.iter().flatten().any(|x| x.0.id == sol.id), "solution id {} used twice", sol.id);
            b_sol_check(st, &sol, &s.lays, inst)?;
            s.sols[k] = Some((Arc::new(sol), s.lays.clone()));
            s.reference = Some(k);
        }
        BOp::Restore(k) => {
            let (sol, lays) = s.sols[k].clone().unwrap();
            b_sol_check(st, &sol, &lays, inst).map_err(|m| format!("solution changed after it was created: {m}"))?;
            s.p.restore_to_solution(&sol);
            // the order of layouts is not part of the contract: follow the implementation
            s.lays = lays;
            s.reference = Some(k);
        }
    }
    let obs = b_obs(st, &s.p)?;
    ensure!(sorted(obs.clone()) == sorted(s.lays.clone()), "layouts are {obs:?}, expected {:?}", s.lays);
    s.lays = obs;
    Ok(())
}

fn b_check(st: &Stage, s: &BSt, l: &mut Local) -> Result<(), String> {
    let obs = b_obs(st, &s.p)?;
    ensure!(obs == s.lays, "layouts are {obs:?}, expected {:?}", s.lays);
    let (missing, stock, usage) = b_numbers(st, &s.lays);
    ensure!(s.p.missing_item_qtys() == missing, "missing quantities {:?}, expected {missing:?}", s.p.missing_item_qtys());
    let placed: Vec<usize> = missing.iter().zip(st.demand).map(|(m, d)| (d as isize - m) as usize).collect();
    ensure!(s.p.placed_item_qtys().collect::<Vec<_>>() == placed, "placed quantities {:?}, expected {placed:?}", s.p.placed_item_qtys().collect::<Vec<_>>());
    ensure!(s.p.bin_qtys() == stock, "remaining stock {:?}, expected {stock:?}", s.p.bin_qtys());
    let cost: u64 = s.lays.iter().map(|l| COST[l.bin]).sum();
    ensure!(s.p.used_bin_cost() == cost, "bin cost {}, expected {cost}", s.p.used_bin_cost());
    let avail: Vec<LayoutIndex> = (0..2).filter(|b| stock[*b] > 0).map(LayoutIndex::Template).collect();
    ensure!(s.p.template_layout_indices_with_stock().collect::<Vec<_>>() == avail, "bins offered: {:?}, expected {avail:?}", s.p.template_layout_indices_with_stock().collect::<Vec<_>>());
    ensure!(s.p.layout_indices().count() == s.lays.len(), "layout_indices count");
    if !s.lays.is_empty() {
        let u = s.p.clone().usage();
        ensure!(close(u as f64, usage), "usage {u} expected {usage}");
    }
    for (b, t) in s.p.template_layouts().iter().enumerate() {
        ensure!(t.is_empty() && t.bin.id == b, "template layout {b} was modified");
    }
    let mut ids: Vec<usize> = s.p.layouts().iter().map(|l| l.id()).collect();
    ids.sort();
    ids.dedup();
    ensure!(ids.len() == s.lays.len(), "two layouts share an id");
    for (lay, m) in s.p.layouts().iter().zip(&s.lays) {
        st.probe(lay.cde(), m.bin, Stage::subset(&m.placed), l)?;
    }
    l.states += 1;
    Ok(())
}

fn b_dfs(st: &Stage, inst: &Instance, ops: &[BOp], s: &BSt, hist: &mut Vec<BOp>, depth: usize, l: &mut Local) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for &o in ops {
        if !b_enabled(st, s, o) {
            continue;
        }
        let mut t = s.clone();
        hist.push(o);
        l.transitions += 1;
        b_apply(st, &mut t, o, inst).and_then(|_| b_check(st, &t, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
        b_dfs(st, inst, ops, &t, hist, depth - 1, l)?;
        hist.pop();
    }
    Ok(())
}

fn b_instance(st: &Stage) -> BPInstance {
    let items = [0usize, 2, 4].iter().zip(st.demand).map(|(i, d)| (st.item(*i).clone(), d)).collect();
    let bins = st
        .bins
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let mut b = b.clone();
            b.value = COST[i];
            (b, st.stock[i])
        })
        .collect();
    BPInstance::new(items, bins)
}

pub fn c05(ctx: &Ctx) {
    // one alphabet around placing, one around solutions
    let all: Vec<(&str, Vec<BOp>, usize, usize)> = vec![
        (
            "placing and removing",
            vec![
                BOp::New(0, 0), BOp::New(2, 1), BOp::New(4, 0), BOp::In(1, 0), BOp::In(5, 0), BOp::In(3, 1), BOp::In(0, 1),
                BOp::Remove(0, false, true), BOp::Remove(0, true, false), BOp::Remove(1, false, false),
                BOp::RemoveLayout(0), BOp::RemoveLayout(1), BOp::Reregister(0), BOp::Sol(0, false), BOp::Restore(0),
            ],
            6, 7,
        ),
        (
            "solutions",
            vec![
                BOp::New(0, 0), BOp::New(2, 1), BOp::In(1, 0), BOp::In(4, 1), BOp::Remove(0, false, false), BOp::Remove(1, false, true),
                BOp::RemoveLayout(0), BOp::Sol(0, false), BOp::Sol(0, true), BOp::Sol(1, true), BOp::Restore(0), BOp::Restore(1),
            ],
            6, 7,
        ),
        (
            "incremental solutions on two layouts",
            vec![
                BOp::New(0, 0), BOp::In(1, 0), BOp::In(2, 1), BOp::Remove(0, true, false), BOp::Remove(1, false, true),
                BOp::Sol(0, false), BOp::Sol(1, true), BOp::Restore(0), BOp::Restore(1),
            ],
            7, 8,
        ),
        (
            "many layouts",
            vec![
                BOp::Open(12, 0), BOp::Open(9, 1), BOp::Fill(6, 28, 0), BOp::Fill(6, 28, 9), BOp::Close(4), BOp::Close(11), BOp::Remove(3, false, true),
                BOp::Sol(0, false), BOp::Sol(1, true), BOp::Restore(0), BOp::Restore(1),
            ],
            5, 6,
        ),
    ];
    for (name, ops, dq, dth) in all {
        let c = cfg(2, 0, surr(2, 1, 0));
        let Some((st, inst)) = ctx.setup(name, || {
            let st = Stage::with_ids(c, ctx.pick(14, 20), [0, 1], if name == "many layouts" { 24 } else { 0 }, false);
            let i = b_instance(&st);
            (st, i)
        }) else {
            continue;
        };
        let len = ctx.pick(dq, dth);
        let ie = Instance::BP(inst.clone());
        let start = BSt { p: BPProblem::new(inst.clone()), lays: vec![], sols: [None, None], reference: None };
        let k = ops.len();
        ctx.family(&format!("bin packing:{name}"), (k * k * k) as u64, |i, l| {
            let mut d = Dec(i);
            let mut s = start.clone();
            let mut hist = vec![];
            if i == 0 {
                b_check(&st, &s, l)?;
            }
            for _ in 0..3 {
                let o = ops[d.take(k)];
                if !b_enabled(&st, &s, o) {
                    return Ok(());
                }
                hist.push(o);
                l.transitions += 1;
                b_apply(&st, &mut s, o, &ie).and_then(|_| b_check(&st, &s, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
            }
            if l.sample.is_none() {
                l.sample = Some(format!("{hist:?} and all continuations to length {len}"));
            }
            b_dfs(&st, &ie, &ops, &s, &mut hist, len - 3, l)
        });
        sequences(
            ctx, &format!("bin packing, no copies:{name}"), &ops, len - 1,
            || BSt { p: BPProblem::new(inst.clone()), lays: vec![], sols: [None, None], reference: None },
            |s, o| b_enabled(&st, s, o), |s, o| b_apply(&st, s, o, &ie), |s, l| b_check(&st, s, l),
        );
    }
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Clone, Copy, Debug, PartialEq)]
enum SOp {
    Place(usize),
    Remove(usize, bool),
    Back(i32),
    Front(i32),
    Centered(i32),
    Rect(i32, i32),
    Fit,
    Sol(usize),
    Restore(usize),
    /// many at once: entries from, to
    PlaceAll(usize, usize),
    RemoveAll(usize, usize, bool),
}

#[derive(Clone, Debug)]
struct SModel {
    x0: f64,
    x1: f64,
    placed: Vec<usize>,
}

#[derive(Clone)]
struct SSt {
    p: Problem,
    m: SModel,
    sols: [Option<(Arc<Solution>, SModel)>; 2],
}

struct SStage {
    items: Vec<Item>,
    inst: SPInstance,
    place: Vec<(usize, f64, geo::P)>,
    polys: Vec<geo::Poly>,
    probe_item: Item,
    h: f64,
    demand: [usize; 2],
}

const S_DEMAND: [usize; 2] = [2, 1];

impl SStage {
    fn new(c: CDEConfig, off: f64, many: usize) -> SStage {
        let shapes = [rect(-1.5, -1.5, 1.5, 1.5), crate::shapes::shifted(&zshape("tri"), (-1.0, -1.0))];
        let s = c.item_surrogate_config;
        let items: Vec<Item> = shapes.iter().enumerate().map(|(i, p)| mk_item(i, p, None, s)).collect();
        let mut place = vec![(0, 0.0, (2.0 + off, 2.0)), (0, 0.7, (7.0 + off, 3.0)), (1, 0.0, (11.0 + off, 2.25)), (0, 0.0, (15.0 + off, 7.0)), (1, 0.4, (7.5 + off, 3.5))];
        for i in 0..many {
            place.push((i % 2, 0.33 * i as f64, (2.5 + 0.7 * i as f64, 2.5 + 0.9 * (i % 5) as f64)));
        }
        let polys = place.iter().map(|d| geo::place(&shapes[d.0], f32a(d.1), d.2)).collect();
        let demand = if many > 0 { [300, 7] } else { S_DEMAND };
        let inst = SPInstance::new(items.iter().cloned().zip(demand).collect(), 9.0);
        let probe_item = mk_item(9, &rect(-0.5, -0.5, 0.5, 0.5), None, s);
        SStage { items, inst, place, polys, probe_item, h: 9.0, demand }
    }
    fn which(&self, pi: &PlacedItem) -> Option<usize> {
        (0..self.place.len()).find(|&i| {
            let d = &self.place[i];
            self.items[d.0].id == pi.item_id && dt(d.1, d.2) == pi.d_transf
        })
    }
}

fn sp_of(p: &Problem) -> &SPProblem {
    match p {
        Problem::SP(s) => s,
        _ => unreachable!(),
    }
}

fn s_occ(st: &SStage, m: &SModel) -> Option<(f64, f64)> {
    m.placed.iter().map(|i| geo::bbox(&st.polys[*i])).fold(None, |a: Option<(f64, f64)>, b| {
        Some(a.map_or((b.0, b.2), |a| (a.0.min(b.0), a.1.max(b.2))))
    })
}

fn s_enabled(s: &SSt, o: SOp) -> bool {
    match o {
        SOp::Place(i) => !s.m.placed.contains(&i),
        SOp::Remove(i, _) => s.m.placed.contains(&i),
        SOp::Fit => !s.m.placed.is_empty(),
        SOp::PlaceAll(a, b) => (a..b).all(|i| !s.m.placed.contains(&i)),
        SOp::RemoveAll(a, b, _) => (a..b).any(|i| s.m.placed.contains(&i)),
        SOp::Restore(k) => s.sols[k].is_some(),
        _ => true,
    }
}

fn s_obs(st: &SStage, p: &SPProblem) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for pi in p.layout.placed_items().values() {
        v.push(st.which(pi).ok_or_else(|| format!("unknown placement {:?}", pi.d_transf))?);
    }
    v.sort();
    Ok(v)
}

fn s_apply(st: &SStage, s: &mut SSt, o: SOp) -> Result<(), String> {
    let w = s.m.x1 - s.m.x0;
    let mut target: Option<(f64, f64)> = None;
    match o {
        SOp::Place(i) => {
            let d = &st.place[i];
            let (li, k) = s.p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: d.0, d_transf: dt(d.1, d.2) });
            ensure!(li == STRIP_LAYOUT_IDX, "placed in {li:?}");
            let pi = s.p.get_layout(li).placed_items().get(k).ok_or("returned key leads nowhere")?;
            ensure!(st.which(pi) == Some(i), "returned key leads to another item");
            s.m.placed.push(i);
            s.m.placed.sort();
        }
        SOp::Remove(i, c) => {
            let k = s.p.layouts()[0].placed_items().iter().find(|(_, pi)| st.which(pi) == Some(i)).map(|x| x.0).ok_or("item vanished")?;
            let r = s.p.remove_item(STRIP_LAYOUT_IDX, k, c);
            ensure!(r.item_id == st.place[i].0, "remove_item described another item");
            s.m.placed.retain(|x| *x != i);
        }
        SOp::PlaceAll(a, b) => {
            for i in a..b {
                s_apply(st, s, SOp::Place(i))?;
            }
        }
        SOp::RemoveAll(a, b, c) => {
            for i in a..b {
                if s.m.placed.contains(&i) {
                    s_apply(st, s, SOp::Remove(i, c))?;
                }
            }
        }
        SOp::Sol(k) => {
            let sol = s.p.create_solution(None);
            s_sol_check(st, &sol, &s.m)?;
            s.sols[k] = Some((Arc::new(sol), s.m.clone()));
        }
        SOp::Restore(k) => {
            let (sol, m) = s.sols[k].clone().unwrap();
            s_sol_check(st, &sol, &m).map_err(|e| format!("solution changed after it was created: {e}"))?;
            s.p.restore_to_solution(&sol);
            s.m = m;
        }
        _ => {
            let occ = s_occ(st, &s.m).unwrap_or((0.0, 0.0));
            let Problem::SP(p) = &mut s.p else { unreachable!() };
            match o {
                SOp::Back(n) => {
                    p.modify_strip_in_back(n as fsize);
                    target = Some((s.m.x0, s.m.x0 + n as f64));
                }
                SOp::Front(n) => {
                    p.modify_strip_at_front(n as fsize);
                    target = Some((s.m.x1 - n as f64, s.m.x1));
                }
                SOp::Centered(n) => {
                    p.modify_strip_centered(n as fsize);
                    let c = (occ.0 + occ.1) / 2.0;
                    target = Some((c - n as f64 / 2.0, c + n as f64 / 2.0));
                }
                SOp::Rect(a, b) => {
                    p.modify_strip(AARectangle::new(a as fsize, 0.0, b as fsize, st.h as fsize));
                    target = Some((a as f64, b as f64));
                }
                SOp::Fit => {
                    p.fit_strip();
                    let ow = occ.1 - occ.0;
                    ensure!(p.layout.placed_items().len() == s.m.placed.len(), "fitting the strip dropped items");
                    let b = p.layout.bin.outer.bbox();
                    ensure!(
                        b.x_min as f64 <= occ.0 + 1e-4 && b.x_max as f64 >= occ.1 - 1e-4,
                        "fitted strip [{}, {}] does not cover the items [{}, {}]", b.x_min, b.x_max, occ.0, occ.1
                    );
                    ensure!(
                        (b.width() as f64) < ow * 1.002 + 1e-2,
                        "fitted strip is {} wide, the items need {ow}", b.width()
                    );
                    // the exact slack is not part of the contract: follow the implementation
                    s.m.x0 = b.x_min as f64;
                    s.m.x1 = b.x_max as f64;
                }
                _ => unreachable!(),
            }
        }
    }
    let _ = w;
    if let Some((a, b)) = target {
        s.m.x0 = a;
        s.m.x1 = b;
        let obs = s_obs(st, sp_of(&s.p))?;
        for i in s.m.placed.clone() {
            let q = geo::bbox(&st.polys[i]);
            let fits = q.0 > a + 2e-2 && q.2 < b - 2e-2;
            let out = q.0 < a - 2e-2 || q.2 > b + 2e-2;
            if fits {
                ensure!(obs.contains(&i), "item {i} fits the new strip [{a}, {b}] but was dropped");
            } else if out {
                ensure!(!obs.contains(&i), "item {i} does not fit the new strip [{a}, {b}] but was kept");
            }
        }
        ensure!(obs.iter().all(|i| s.m.placed.contains(i)), "resizing added an item");
        s.m.placed = obs;
    }
    Ok(())
}

fn s_missing(st: &SStage, m: &SModel) -> Vec<isize> {
    let mut v: Vec<isize> = st.demand.iter().map(|d| *d as isize).collect();
    for i in &m.placed {
        v[st.place[*i].0] -= 1;
    }
    v
}

fn s_usage(st: &SStage, m: &SModel) -> f64 {
    m.placed.iter().map(|i| geo::area(&st.polys[*i])).sum::<f64>() / ((m.x1 - m.x0) * st.h)
}

fn s_sol_check(st: &SStage, sol: &Solution, m: &SModel) -> Result<(), String> {
    ensure!(sol.layout_snapshots.len() == 1, "strip solution with {} layouts", sol.layout_snapshots.len());
    let sn = &sol.layout_snapshots[0];
    let mut got: Vec<usize> = sn.placed_items.values().map(|p| st.which(p).unwrap_or(99)).collect();
    got.sort();
    ensure!(got == m.placed, "solution records items {got:?}, expected {:?}", m.placed);
    let b = sn.bin.outer.bbox();
    ensure!(close(b.x_min as f64, m.x0) && close(b.x_max as f64, m.x1), "solution records strip [{}, {}], expected [{}, {}]", b.x_min, b.x_max, m.x0, m.x1);
    let missing = s_missing(st, m);
    let placed: Vec<usize> = missing.iter().zip(st.demand).map(|(x, d)| (d as isize - x) as usize).collect();
    ensure!(sol.placed_item_qtys == placed, "solution records quantities {:?}, expected {placed:?}", sol.placed_item_qtys);
    ensure!(close(sol.usage as f64, s_usage(st, m)), "solution usage {} expected {}", sol.usage, s_usage(st, m));
    let gi: &dyn jagua_rs::entities::instances::instance_generic::InstanceGeneric = &st.inst;
    ensure!(sol.is_complete(gi) == missing.iter().all(|x| *x <= 0), "is_complete is {}", sol.is_complete(gi));
    Ok(())
}

fn s_check(st: &SStage, s: &SSt, l: &mut Local) -> Result<(), String> {
    let p = sp_of(&s.p);
    let obs = s_obs(st, p)?;
    ensure!(obs == s.m.placed, "strip holds {obs:?}, expected {:?}", s.m.placed);
    let b = p.layout.bin.outer.bbox();
    ensure!(
        close(b.x_min as f64, s.m.x0) && close(b.x_max as f64, s.m.x1),
        "strip is [{}, {}], expected [{}, {}]", b.x_min, b.x_max, s.m.x0, s.m.x1
    );
    ensure!(close(p.strip_width() as f64, s.m.x1 - s.m.x0), "strip_width {}", p.strip_width());
    ensure!(close(p.strip_height() as f64, st.h) && close(b.y_min as f64, 0.0), "strip height changed to {}", p.strip_height());
    match (p.occupied_range(), s_occ(st, &s.m)) {
        (None, None) => ensure!(p.occupied_width() == 0.0, "occupied width of an empty strip is {}", p.occupied_width()),
        (Some(a), Some(w)) => ensure!(
            close(a.0 as f64, w.0) && close(a.1 as f64, w.1) && close(p.occupied_width() as f64, w.1 - w.0),
            "occupied range {a:?} (width {}), expected {w:?}", p.occupied_width()
        ),
        (a, w) => return Err(format!("occupied range {a:?}, expected {w:?}")),
    }
    let missing = s_missing(st, &s.m);
    ensure!(s.p.missing_item_qtys() == missing, "missing {:?}, expected {missing:?}", s.p.missing_item_qtys());
    let placed: Vec<usize> = missing.iter().zip(st.demand).map(|(x, d)| (d as isize - x) as usize).collect();
    ensure!(s.p.placed_item_qtys().collect::<Vec<_>>() == placed, "placed quantities are wrong");
    ensure!(s.p.template_layout_indices_with_stock().count() == 0, "a strip problem offered bins");
    ensure!(close(p.layout.usage() as f64, s_usage(st, &s.m)), "usage {} expected {}", p.layout.usage(), s_usage(st, &s.m));
    let cost = (s.m.x1 - s.m.x0) * st.h;
    ensure!((s.p.used_bin_cost() as f64 - cost).abs() <= 1.01, "cost {} of a strip of area {cost}", s.p.used_bin_cost());
    // the collision engine knows the strip and the items
    let haz: Vec<(&geo::Poly, geo::P)> = s.m.placed.iter().map(|i| (&st.polys[*i], geo::centroid(&st.polys[*i]))).collect();
    let outer = rect(s.m.x0, 0.0, s.m.x1, st.h);
    let base = rect(-0.5, -0.5, 0.5, 0.5);
    let mut k = 0;
    let mut x = s.m.x0 - 1.0;
    while x < s.m.x1 + 1.5 {
        let at = (x, [1.3, 2.9, 7.1, 8.75][k % 4]);
        let q = crate::shapes::shifted(&base, at);
        let mut v = geo::protrudes(&q, &outer, 5e-3);
        for (h, c) in &haz {
            v = v.or(geo::overlap(&q, at, h, *c, 5e-3));
        }
        let shape = st.probe_item.shape.transform_clone(&dt(0.0, at).compose());
        let got = p.layout.cde().poly_collides(&shape, &[]);
        if let Some(want) = v.b() {
            ensure!(got == want, "unit square at {at:?}: collides={got}, expected {want}; strip [{}, {}], items {:?}", s.m.x0, s.m.x1, s.m.placed);
            l.out(if want { "probe hit" } else { "probe free" });
        }
        x += 1.37;
        k += 1;
    }
    l.states += 1;
    Ok(())
}

fn s_dfs(st: &SStage, ops: &[SOp], s: &SSt, hist: &mut Vec<SOp>, depth: usize, l: &mut Local) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for &o in ops {
        if !s_enabled(s, o) {
            continue;
        }
        let mut t = s.clone();
        hist.push(o);
        l.transitions += 1;
        s_apply(st, &mut t, o).and_then(|_| s_check(st, &t, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
        s_dfs(st, ops, &t, hist, depth - 1, l)?;
        hist.pop();
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    let runs: Vec<(&str, Vec<SOp>, usize, usize, usize)> = vec![
        (
            "left of the origin",
            vec![
                SOp::Place(0), SOp::Place(1), SOp::Place(2), SOp::Remove(0, false), SOp::Back(10), SOp::Front(24), SOp::Centered(17),
                SOp::Fit, SOp::Sol(0), SOp::Restore(0),
            ],
            5, 6, 0,
        ),
        (
            "placing and resizing",
            vec![
                SOp::Place(0), SOp::Place(1), SOp::Place(4), SOp::Place(3), SOp::Remove(0, true), SOp::Remove(1, false),
                SOp::Back(10), SOp::Back(25), SOp::Front(12), SOp::Front(24), SOp::Centered(6), SOp::Centered(30), SOp::Fit,
            ],
            5, 6, 0,
        ),
        (
            "solutions",
            vec![
                SOp::Place(0), SOp::Place(1), SOp::Place(4), SOp::Remove(1, true), SOp::Remove(0, false), SOp::Back(10), SOp::Rect(5, 22),
                SOp::Fit, SOp::Sol(0), SOp::Sol(1), SOp::Restore(0), SOp::Restore(1),
            ],
            5, 6, 0,
        ),
        (
            "with proximity grid",
            vec![
                SOp::Place(0), SOp::Place(2), SOp::Remove(0, false), SOp::Back(14), SOp::Centered(18), SOp::Fit, SOp::Sol(0), SOp::Restore(0),
            ],
            5, 7, 40,
        ),
        (
            "many items",
            vec![
                SOp::PlaceAll(5, 20), SOp::PlaceAll(20, 45), SOp::RemoveAll(8, 19, false), SOp::RemoveAll(20, 40, true), SOp::Back(14), SOp::Rect(-1, 34),
                SOp::Centered(18), SOp::Fit, SOp::Sol(0), SOp::Restore(0),
            ],
            5, 6, 0,
        ),
    ];
    for (name, ops, dq, dth, hpg) in runs {
        let c = cfg(3, hpg, surr(3, 1, 0));
        let left = name == "left of the origin";
        let Some(st) = ctx.setup(name, || SStage::new(c, if left { -16.0 } else { 0.0 }, if name.contains("many") { 40 } else { 0 })) else { continue };
        let len = ctx.pick(dq, dth);
        let begin = || {
            let w = if st.place.len() > 9 { 40.0 } else { 20.0 };
            let mut p = SPProblem::new(st.inst.clone(), w as fsize, c);
            let mut m = SModel { x0: 0.0, x1: w, placed: vec![] };
            if left {
                p.modify_strip(AARectangle::new(-18.0, 0.0, 5.0, st.h as fsize));
                (m.x0, m.x1) = (-18.0, 5.0);
            }
            SSt { p: Problem::SP(p), m, sols: [None, None] }
        };
        let Some(start) = ctx.setup(name, begin) else { continue };
        let k = ops.len();
        ctx.family(&format!("strip:{name}"), (k * k * k) as u64, |i, l| {
            let mut d = Dec(i);
            let mut s = start.clone();
            let mut hist = vec![];
            if i == 0 {
                s_check(&st, &s, l)?;
            }
            for _ in 0..3 {
                let o = ops[d.take(k)];
                if !s_enabled(&s, o) {
                    return Ok(());
                }
                hist.push(o);
                l.transitions += 1;
                s_apply(&st, &mut s, o).and_then(|_| s_check(&st, &s, l)).map_err(|m| format!("after {hist:?}: {m}"))?;
            }
            if l.sample.is_none() {
                l.sample = Some(format!("{hist:?} and all continuations to length {len}"));
            }
            s_dfs(&st, &ops, &s, &mut hist, len - 3, l)
        });
        sequences(
            ctx, &format!("strip, no copies:{name}"), &ops, len - 1,
            begin,
            s_enabled, |s, o| s_apply(&st, s, o), |s, l| s_check(&st, s, l),
        );
    }
}
