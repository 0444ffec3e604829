//! C12 (the left-bottom-fill optimizer) and C17 (its samplers under every randomness).
use crate::c_io::{install_log_sink, item, simple, FBin, FInstance, FItem, FShape};
use crate::core::{guarded, Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, Poly, P, V};
use crate::scene::{bbox_of, bins, cfg, dt, f32a, pools, surr, zshape, BinDef};
use crate::shapes::{from_sp, ip, rect, scaled, shifted, sp};
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Transformable};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::config::CDEConfig;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_cost::LBFPlacingCost;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout, LBFOptimizer};
use lbf::samplers::hpg_sampler::HPGSampler;
use lbf::samplers::ls_sampler::LSSampler;
use lbf::samplers::rotation_distr::{NormalRotDistr, UniformRotDistr};
use lbf::samplers::uniform_rect_sampler::UniformAARectSampler;
use rand::rngs::SmallRng;
use rand::{RngCore, SeedableRng};

/// A random source whose first draws are scripted; afterwards a fixed sequence.
#[derive(Clone)]
struct Script {
    words: Vec<u64>,
    at: usize,
    tail: u64,
}
impl Script {
    fn new(words: Vec<u64>) -> Script {
        Script { words, at: 0, tail: 0x9E37_79B9_7F4A_7C15 }
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let w = match self.words.get(self.at) {
            Some(w) => *w,
            None => {
                // splitmix64
                self.tail = self.tail.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = self.tail;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^ (z >> 31)
            }
        };
        self.at += 1;
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// extremes and a lattice of ordinary values
const WORDS: [u64; 9] = [
    0,
    u64::MAX,
    1 << 63,
    0x4000_0000_0000_0000,
    0xC000_0000_0000_0000,
    0x0000_0200_0000_0000,
    0xFFFF_FDFF_FFFF_FFFF,
    0x5555_5555_5555_5555,
    0x1234_5678_9ABC_DEF0,
];
fn script(mut i: usize, len: usize, alphabet: &[u64]) -> Vec<u64> {
    (0..len)
        .map(|_| {
            let w = alphabet[i % alphabet.len()];
            i /= alphabet.len();
            w
        })
        .collect()
}

fn mk(id: usize, p: &[P], rot: AllowedRotation, q: Option<usize>, c: CDEConfig) -> Item {
    Item::new(id, sp(p), rot, q, 0, Transformation::empty(), c.item_surrogate_config)
}
fn rotations() -> Vec<AllowedRotation> {
    let d = |v: &[f64]| AllowedRotation::Discrete(v.iter().map(|a| a.to_radians() as fsize).collect());
    vec![AllowedRotation::None, AllowedRotation::Continuous, d(&[0.0, 90.0, 180.0, 270.0]), d(&[45.0]), d(&[-30.0, 200.0, 10.0])]
}
/// angle `a` is an allowed rotation
fn allowed(r: &AllowedRotation, a: f64) -> bool {
    let tau = 2.0 * std::f64::consts::PI;
    let near = |x: f64| {
        let d = (a - x).rem_euclid(tau);
        d < 1e-4 || tau - d < 1e-4
    };
    match r {
        AllowedRotation::None => near(0.0),
        AllowedRotation::Continuous => a.is_finite(),
        AllowedRotation::Discrete(v) => v.iter().any(|x| near(*x as f64)),
    }
}

struct Scene {
    name: String,
    layout: Layout,
    problem: Problem,
    layout_idx: LayoutIndex,
    /// obstacles: (polygon, exterior, quality of a zone)
    haz: Vec<(Poly, bool, Option<usize>)>,
    inner: Vec<P>,
    bbox: (f64, f64, f64, f64),
    margin: f64,
}
impl Scene {
    /// a bin with some items in it, in a bin packing problem that holds exactly this layout
    fn new(name: String, def: &BinDef, placed: &[(Poly, f64, P)], items: &[Item], c: CDEConfig) -> Scene {
        let bin = def.build(0, c);
        let mut all: Vec<(Item, usize)> = items.iter().cloned().map(|i| (i, 1)).collect();
        let n0 = all.len();
        for (k, p) in placed.iter().enumerate() {
            all.push((mk(n0 + k, &p.0, AllowedRotation::Continuous, Some(0), c), 1));
        }
        let mut layout = Layout::new(0, bin.clone());
        let inst = BPInstance::new(all.clone(), vec![(bin, 3)]);
        let mut p = BPProblem::new(inst);
        let mut li = LayoutIndex::Template(0);
        let mut haz = vec![(def.outer.clone(), true, None)];
        haz.extend(def.holes.iter().map(|h| (h.clone(), false, None)));
        haz.extend(def.zones.iter().flat_map(|(q, z)| z.iter().map(move |z| (z.clone(), false, Some(*q)))));
        for (k, q) in placed.iter().enumerate() {
            let d = dt(q.1, q.2);
            layout.place_item(&all[n0 + k].0, d);
            li = p.place_item(PlacingOption { layout_idx: li, item_id: n0 + k, d_transf: d }).0;
            haz.push((geo::place(&q.0, f32a(q.1), q.2), false, None));
        }
        layout.flush_changes();
        p.flush_changes();
        let bbox = geo::bbox(&def.outer);
        let margin = 2e-3 * ((bbox.2 - bbox.0).max(bbox.3 - bbox.1) / 16.0).max((bbox.0.abs() + bbox.1.abs()) / 200.0);
        let inner = haz.iter().map(|h| geo::interior_point(&h.0)).collect();
        Scene { name, layout, problem: Problem::BP(p), layout_idx: li, haz, inner, bbox, margin }
    }
    /// does `q` (with interior point) collide with what matters to an item requiring `quality`?
    fn verdict(&self, q: &[P], iq: P, quality: Option<usize>) -> V {
        let mut v = V::No;
        for ((h, ext, z), ih) in self.haz.iter().zip(&self.inner) {
            if let (Some(z), Some(r)) = (z, quality) {
                if *z >= r {
                    continue;
                }
            }
            v = v.or(if *ext { geo::protrudes(q, h, self.margin) } else { geo::overlap(q, iq, h, *ih, self.margin) });
            if v == V::Yes {
                break;
            }
        }
        v
    }
}

fn scenes(items: &[Item], c: CDEConfig) -> Vec<Scene> {
    let mut out = vec![];
    let bs = bins();
    let ps = pools();
    // (bin, pool entries placed)
    let sets: [(usize, &[usize]); 7] = [(0, &[]), (0, &[1, 3]), (1, &[]), (1, &[1, 4]), (2, &[1]), (3, &[2]), (4, &[])];
    for (b, sub) in sets {
        let placed: Vec<(Poly, f64, P)> = sub.iter().map(|i| (ps[b].shapes[ps[b].defs[*i].0].1.clone(), ps[b].defs[*i].1, ps[b].defs[*i].2)).collect();
        out.push(Scene::new(format!("{} with {} items", bs[b].name, sub.len()), &bs[b], &placed, items, c));
    }
    // a bin hardly larger than an item, and one far from the origin
    let tight = BinDef { name: "tight", outer: rect(0.0, 0.0, 2.6, 2.3), holes: vec![], zones: vec![] };
    out.push(Scene::new("tight".into(), &tight, &[], items, c));
    let far = bs[1].map(20.0, (3000.0, -1000.0));
    out.push(Scene::new("far and large".into(), &far, &[], items, c));
    // nowhere to go
    let full = BinDef { name: "full", outer: rect(0.0, 0.0, 6.0, 6.0), holes: vec![rect(0.3, 0.3, 5.7, 5.7)], zones: vec![] };
    out.push(Scene::new("full".into(), &full, &[], items, c));
    out
}
fn test_items(c: CDEConfig) -> Vec<Item> {
    let r = rotations();
    vec![
        mk(0, &rect(-1.0, -1.0, 1.0, 1.0), r[0].clone(), None, c),
        mk(1, &rect(5.0, 5.0, 7.0, 6.0), r[2].clone(), Some(1), c),
        mk(2, &zshape("L"), r[1].clone(), Some(3), c),
        mk(3, &shifted(&zshape("tri"), (-20.0, 11.0)), r[4].clone(), None, c),
        mk(4, &scaled(&zshape("star"), 0.5), r[3].clone(), Some(0), c),
    ]
}
fn cost(p: &[P]) -> f64 {
    let b = geo::bbox(p);
    10.0 * b.2 + b.3
}
fn cost_eps(s: &Scene) -> f64 {
    // costs are computed in single precision
    2e-5 * (10.0 * s.bbox.2.abs().max(s.bbox.0.abs()) + s.bbox.3.abs().max(s.bbox.1.abs())) + 1e-4
}

/// all placements of the item with its pole on a lattice over the bin, with their verdicts
struct Plc {
    poi: P,
    cost: f64,
    free: bool,
}
fn lattice_placements(s: &Scene, it: &Item, n: usize) -> Vec<Plc> {
    let base = from_sp(&it.shape);
    let inner = geo::interior_point(&base);
    let poi = (it.shape.poi.center.0 as f64, it.shape.poi.center.1 as f64);
    let angles: Vec<f64> = match &it.allowed_rotation {
        AllowedRotation::None => vec![0.0],
        AllowedRotation::Continuous => vec![0.0, 1.0, 2.2, 4.0],
        AllowedRotation::Discrete(v) => v.iter().map(|a| *a as f64).collect(),
    };
    let mut out = vec![];
    for a in angles {
        for ix in 0..n {
            for iy in 0..n {
                let at = (s.bbox.0 + (ix as f64 + 0.5) / n as f64 * (s.bbox.2 - s.bbox.0), s.bbox.1 + (iy as f64 + 0.5) / n as f64 * (s.bbox.3 - s.bbox.1));
                let r = geo::rot(poi, a);
                let p = geo::place(&base, a, (at.0 - r.0, at.1 - r.1));
                out.push(Plc { poi: at, cost: cost(&p), free: s.verdict(&p, geo::place(&[inner], a, (at.0 - r.0, at.1 - r.1))[0], it.base_quality) == V::No });
            }
        }
    }
    out
}
fn in_cell(p: P, b: &AARectangle, m: f64) -> bool {
    p.0 >= b.x_min as f64 - m && p.0 <= b.x_max as f64 + m && p.1 >= b.y_min as f64 - m && p.1 <= b.y_max as f64 + m
}
fn poi_of(it: &Item, t: &Transformation) -> (P, f64) {
    let c = it.shape.poi.center.transform_clone(t);
    ((c.0 as f64, c.1 as f64), t.decompose().rotation() as f64)
}

pub fn c17(ctx: &Ctx) {
    install_log_sink();
    let c = cfg(3, 100, surr(4, 2, 0));
    let rots = rotations();
    let nw = WORDS.len();
    // ---- rotation distributions
    ctx.family("rotations", (rots.len() * nw * nw * nw) as u64, |i, l| {
        let mut d = Dec(i);
        let r = &rots[d.take(rots.len())];
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), r.clone(), None, c);
        let w = script(d.0 as usize, 3, &WORDS);
        let mut rng = Script::new(w.clone());
        let u = UniformRotDistr::from_item(&it);
        for _ in 0..3 {
            let a = u.sample(&mut rng) as f64;
            ensure!(allowed(r, a), "{r:?}: uniform rotation {a} from words {w:x?}");
            l.transitions += 1;
        }
        let means: Vec<f64> = match r {
            AllowedRotation::None => vec![0.0],
            AllowedRotation::Continuous => vec![0.0, -2.0, 6.0],
            AllowedRotation::Discrete(v) => v.iter().map(|a| *a as f64).collect(),
        };
        for (k, m) in means.iter().enumerate() {
            let mut rng = Script::new(w.clone());
            let mut n = NormalRotDistr::from_item(&it, *m as fsize, 0.1);
            let a = n.sample(&mut rng) as f64;
            ensure!(allowed(r, a), "{r:?}: rotation {a} around {m} from words {w:x?}");
            n.set_stddev(0.0);
            let a = n.sample(&mut rng) as f64;
            ensure!(allowed(r, a) && (a - m).abs() < 1e-4, "{r:?}: rotation {a} with no spread around {m}");
            let m2 = means[(k + 1) % means.len()];
            n.set_mean(m2 as fsize);
            let a = n.sample(&mut rng) as f64;
            ensure!(allowed(r, a) && (a - m2).abs() < 1e-4, "{r:?}: rotation {a} with no spread after moving the mean from {m} to {m2}");
            l.transitions += 3;
        }
        l.states += 1;
        Ok(())
    });
    // ---- rectangles
    let boxes: [(f64, f64, f64, f64); 5] = [(0.0, 0.0, 1.0, 1.0), (-3.0, 2.0, 50.0, 2.5), (1000.0, -1000.0, 1000.25, -999.0), (1e-3, 1e-3, 2e-3, 3e-3), (-1e5, -1e5, 1e5, 1e5)];
    ctx.family("rectangles", (boxes.len() * rots.len() * nw * nw * nw) as u64, |i, l| {
        let mut d = Dec(i);
        let b = boxes[d.take(boxes.len())];
        let r = &rots[d.take(rots.len())];
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), r.clone(), None, c);
        let bb = AARectangle::new(b.0 as fsize, b.1 as fsize, b.2 as fsize, b.3 as fsize);
        let s = UniformAARectSampler::new(bb.clone(), &it);
        let w = script(d.0 as usize, 3, &WORDS);
        let mut rng = Script::new(w.clone());
        for _ in 0..2 {
            let t = s.sample(&mut rng);
            let (x, y) = t.translation();
            ensure!(x >= bb.x_min && x <= bb.x_max && y >= bb.y_min && y <= bb.y_max, "({x}, {y}) sampled from {bb:?} with words {w:x?}");
            ensure!(allowed(r, t.rotation() as f64), "rotation {} sampled for {r:?}", t.rotation());
            l.transitions += 1;
        }
        l.states += 1;
        Ok(())
    });
    // ---- everything in the range can be drawn: the random words of an even lattice reach all of it
    let even = |j: usize, n: usize| {
        let h = ((j as u64 * 2 + 1) << 31) / n as u64;
        h << 32 | h
    };
    ctx.family("range of the rotations", rots.len() as u64, |i, l| {
        let r = &rots[i as usize];
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), r.clone(), None, c);
        let u = UniformRotDistr::from_item(&it);
        let n = 512;
        let mut got: Vec<f64> = (0..n).map(|j| (u.sample(&mut Script::new(vec![even(j, n); 3])) as f64).rem_euclid(std::f64::consts::TAU)).collect();
        got.sort_by(f64::total_cmp);
        let away = |a: f64, b: f64| {
            let d = (a - b).rem_euclid(std::f64::consts::TAU);
            d.min(std::f64::consts::TAU - d)
        };
        match r {
            AllowedRotation::None => {}
            AllowedRotation::Continuous => {
                for j in 0..n {
                    let gap = (got[(j + 1) % n] - got[j]).rem_euclid(std::f64::consts::TAU);
                    ensure!(gap < 0.1, "no rotation between {} and {} is ever drawn", got[j], got[(j + 1) % n]);
                }
            }
            AllowedRotation::Discrete(v) => {
                for a in v {
                    ensure!(got.iter().any(|g| away(*g, *a as f64) < 1e-3), "the rotation {a} of {v:?} is never drawn");
                }
            }
        }
        l.states += 1;
        l.transitions += n as u64;
        Ok(())
    });
    ctx.family("range of the rectangles", boxes.len() as u64, |i, l| {
        let b = boxes[i as usize];
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), AllowedRotation::Continuous, None, c);
        let s = UniformAARectSampler::new(AARectangle::new(b.0 as fsize, b.1 as fsize, b.2 as fsize, b.3 as fsize), &it);
        let n = 12usize;
        let mut seen = [[false; 4]; 4];
        for j in 0..n * n * n {
            let t = s.sample(&mut Script::new(vec![even(j % n, n), even(j / n % n, n), even(j / n / n, n)]));
            let (x, y) = (t.translation().0 as f64, t.translation().1 as f64);
            let cell = |v: f64, lo: f64, hi: f64| (((v - lo) / (hi - lo) * 4.0).floor().max(0.0) as usize).min(3);
            seen[cell(x, b.0, b.2)][cell(y, b.1, b.3)] = true;
            l.transitions += 1;
        }
        ensure!(seen.iter().flatten().all(|x| *x), "parts of {b:?} are never drawn: {seen:?}");
        l.states += 1;
        Ok(())
    });
    // ---- local search sampler: operation sequences under every script
    let ops = 4usize; // sample, shift the mean, decay, set the spread to zero
    let depth = ctx.pick(3usize, 4);
    ctx.family("local search", (rots.len() * ops.pow(depth as u32) * nw * nw) as u64, |i, l| {
        let mut d = Dec(i);
        let r = &rots[d.take(rots.len())];
        let seq: Vec<usize> = (0..depth).map(|_| d.take(ops)).collect();
        let w = script(d.0 as usize, 2, &WORDS);
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), r.clone(), None, c);
        let refs: Vec<DTransformation> = match r {
            AllowedRotation::Discrete(v) => (0..3).map(|k| dt(v[k % v.len()] as f64, (k as f64 * 3.0 - 1.0, 50.0 * k as f64))).collect(),
            AllowedRotation::None => (0..3).map(|k| dt(0.0, (k as f64 * 3.0 - 1.0, 50.0 * k as f64))).collect(),
            AllowedRotation::Continuous => (0..3).map(|k| dt(k as f64 * 1.3, (k as f64 * 3.0 - 1.0, 50.0 * k as f64))).collect(),
        };
        let (range_t, range_r) = ((0.4, 0.02), (0.05, 0.01));
        let mut s = LSSampler::new(&it, &refs[0], (range_t.0 as fsize, range_t.1 as fsize), (range_r.0 as fsize, range_r.1 as fsize));
        let mut mean = refs[0];
        let (mut sd, mut sdr) = (range_t.0, range_r.0);
        let mut shifts = 0;
        for (k, o) in seq.iter().enumerate() {
            let desc = || format!("{r:?}, operations {:?}, words {w:x?}", &seq[..=k]);
            match o {
                0 => {}
                1 => {
                    shifts += 1;
                    mean = refs[shifts % 3];
                    s.shift_mean(&mean);
                }
                2 => {
                    let pct = k as f64 / depth as f64;
                    s.decay_stddev(pct as fsize);
                    sd = range_t.0 * (range_t.1 / range_t.0 as f64).powf(pct);
                    sdr = range_r.0 * (range_r.1 / range_r.0 as f64).powf(pct);
                }
                _ => {
                    s.set_stddev(0.0, 0.0);
                    (sd, sdr) = (0.0, 0.0);
                }
            }
            let t = s.sample(&mut Script::new(w.clone()));
            // the same draw of a fresh sampler with unit spread gives the deviation in standard deviations
            let unit = LSSampler::new(&it, &dt(mean.rotation() as f64, (0.0, 0.0)), (1.0, 1.0), (1.0, 1.0)).sample(&mut Script::new(w.clone()));
            let a = t.rotation() as f64;
            ensure!(allowed(r, a), "{}: rotation {a}", desc());
            let (mx, my) = (mean.translation().0 as f64, mean.translation().1 as f64);
            let (x, y) = (t.translation().0 as f64, t.translation().1 as f64);
            let (ux, uy) = (unit.translation().0 as f64, unit.translation().1 as f64);
            let tol = |m: f64, u: f64| 2e-6 * m.abs() + 1e-3 * (sd * u).abs() + 1e-5;
            ensure!((x - mx - sd * ux).abs() < tol(mx, ux) && (y - my - sd * uy).abs() < tol(my, uy), "{}: sampled ({x}, {y}) around ({mx}, {my}) with spread {sd}, expected deviations {ux}, {uy}", desc());
            if matches!(r, AllowedRotation::Continuous) {
                let (m, u) = (mean.rotation() as f64, unit.rotation() as f64 - mean.rotation() as f64);
                ensure!((a - m - sdr * u).abs() < 1e-4 + 1e-3 * (sdr * u).abs(), "{}: sampled rotation {a} around {m} with spread {sdr}", desc());
            } else if !matches!(r, AllowedRotation::None) {
                ensure!((a - mean.rotation() as f64).abs() < 1e-4, "{}: sampled rotation {a}, the reference has {}", desc(), mean.rotation());
            }
            l.transitions += 1;
        }
        l.states += 1;
        Ok(())
    });
    // ---- default spread of the local search: positive and proportional to the container
    ctx.family("local search defaults", 4, |i, l| {
        let k = [1.0, 10.0, 1e3, 1e-2][i as usize];
        let it = mk(0, &rect(0.0, 0.0, 2.0, 1.0), AllowedRotation::None, None, c);
        let bb = AARectangle::new(0.0, 0.0, (3.0 * k) as fsize, (2.0 * k) as fsize);
        let mut s = LSSampler::from_defaults(&it, &dt(0.0, (0.0, 0.0)), &bb);
        let a = s.sample(&mut Script::new(vec![WORDS[8], WORDS[7]])).translation();
        let b = LSSampler::from_defaults(&it, &dt(0.0, (0.0, 0.0)), &AARectangle::new(0.0, 0.0, 3.0, 2.0)).sample(&mut Script::new(vec![WORDS[8], WORDS[7]])).translation();
        ensure!((a.0 as f64 - b.0 as f64 * k).abs() < 1e-3 * k && a.0.is_finite() && a.1.is_finite(), "{a:?} in a box {k} times as large as for {b:?}");
        s.decay_stddev(1.0);
        l.states += 1;
        l.transitions += 2;
        Ok(())
    });
    // ---- sampling positions from the proximity grid
    let items = test_items(c);
    let Some(sc) = ctx.setup("scenes", || scenes(&items, c)) else { return };
    let nl = ctx.pick(24, 48);
    let tabs: Vec<Vec<Vec<Plc>>> = {
        use rayon::prelude::*;
        sc.par_iter().map(|s| items.iter().map(|it| lattice_placements(s, it, nl)).collect()).collect()
    };
    ctx.family("grid sampler covers free positions", (sc.len() * items.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let si = d.take(sc.len());
        let ii = d.take(items.len());
        let (s, it, tab) = (&sc[si], &items[ii], &tabs[si][ii]);
        let free: Vec<&Plc> = tab.iter().filter(|p| p.free).collect();
        l.outn("free positions", free.len() as u64);
        let hs = HPGSampler::new(it, &s.layout);
        let Some(hs) = hs else {
            ensure!(free.is_empty(), "{}, item {ii}: no sampler, yet it can be placed with its pole at {:?}", s.name, free[0].poi);
            l.out("nowhere");
            return Ok(());
        };
        let area: f64 = hs.cell_samplers.iter().map(|c| { let b = bbox_of(&c.bbox); (b.2 - b.0) * (b.3 - b.1) }).sum();
        ensure!((area - hs.coverage_area as f64).abs() < 1e-3 * area, "{}, item {ii}: coverage {} for cells of area {area}", s.name, hs.coverage_area);
        for p in &free {
            ensure!(hs.cell_samplers.iter().any(|c| in_cell(p.poi, &c.bbox, s.margin)), "{}, item {ii}: free with its pole at {:?}, which no cell of the sampler covers", s.name, p.poi);
            l.transitions += 1;
        }
        // every order of two tightenings by achievable costs
        let mut costs: Vec<f64> = tab.iter().map(|p| p.cost).collect();
        costs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let pick: Vec<f64> = (0..9).map(|k| costs[k * (costs.len() - 1) / 8]).collect();
        for a in &pick {
            for b in &pick {
                let mut hs = HPGSampler::new(it, &s.layout).unwrap();
                let mut best = f64::MAX;
                for x in [a, b] {
                    // through a real cost: 10 x + y
                    hs.tighten(LBFPlacingCost::new((*x / 10.0) as fsize, 0.0));
                    best = best.min(*x);
                    for p in &free {
                        if p.cost < best - cost_eps(s) {
                            ensure!(
                                hs.cell_samplers.iter().any(|c| in_cell(p.poi, &c.bbox, s.margin)),
                                "{}, item {ii}: after tightening to {a} then {b} the placement with its pole at {:?}, cost {}, is no longer covered",
                                s.name, p.poi, p.cost
                            );
                        }
                    }
                    let area: f64 = hs.cell_samplers.iter().map(|c| { let b = bbox_of(&c.bbox); (b.2 - b.0) * (b.3 - b.1) }).sum();
                    let tot = (s.bbox.2 - s.bbox.0) * (s.bbox.3 - s.bbox.1);
                    ensure!((area - hs.coverage_area as f64).abs() < 2e-3 * tot, "{}, item {ii}: coverage {} after tightening for cells of area {area}", s.name, hs.coverage_area);
                    l.transitions += 1;
                }
                l.states += 1;
            }
        }
        Ok(())
    });
    let alpha: Vec<u64> = if ctx.quick() { vec![WORDS[0], WORDS[1], WORDS[2], WORDS[7], WORDS[6]] } else { WORDS[..8].to_vec() };
    let na = alpha.len();
    let cells_of: Vec<Vec<Vec<AARectangle>>> = sc
        .iter()
        .map(|s| items.iter().map(|it| s.layout.cde().haz_prox_grid().unwrap().grid.cells.iter().flatten().filter(|c| c.could_accommodate_item(it)).map(|c| c.bbox.clone()).collect()).collect())
        .collect();
    ctx.family("grid sampler draws", (sc.len() * items.len() * na.pow(4)) as u64, |i, l| {
        let mut d = Dec(i);
        let si = d.take(sc.len());
        let s = &sc[si];
        let ii = d.take(items.len());
        let it = &items[ii];
        let w = script(d.0 as usize, 4, &alpha);
        let Some(mut hs) = HPGSampler::new(it, &s.layout) else {
            l.out("nowhere");
            return Ok(());
        };
        let cells = &cells_of[si][ii];
        let mut rng = Script::new(w.clone());
        let t = hs.sample(&mut rng);
        let (p, a) = poi_of(it, &t);
        l.transitions += 1;
        l.states += 1;
        let m = s.margin;
        ensure!(allowed(&it.allowed_rotation, a), "{}, item {ii}, words {w:x?}: rotation {a}", s.name);
        ensure!(p.0 >= s.bbox.0 - m && p.0 <= s.bbox.2 + m && p.1 >= s.bbox.1 - m && p.1 <= s.bbox.3 + m, "{}, item {ii}, words {w:x?}: pole at {p:?}, outside the bin's box", s.name);
        ensure!(cells.iter().any(|c| in_cell(p, c, m)), "{}, item {ii}, words {w:x?}: pole at {p:?}, in no eligible cell", s.name);
        Ok(())
    });
    // ---- the search itself, for every script
    let alpha3 = [WORDS[0], WORDS[1], WORDS[7]];
    let len = ctx.pick(7usize, 10);
    let nscripts = 3usize.pow(len as u32);
    let inner: Vec<P> = items.iter().map(|it| geo::interior_point(&from_sp(&it.shape))).collect();
    let cfgl = |n: usize, ls: usize| LBFConfig { cde_config: c, poly_simpl_tolerance: None, prng_seed: Some(0), n_samples: n + ls, ls_frac: (ls as f32 + 0.01) / (n + ls) as f32, ..LBFConfig::default() };
    ctx.family("search under every script", (sc.len() * items.len() * nscripts) as u64, |i, l| {
        let mut d = Dec(i);
        let s = &sc[d.take(sc.len())];
        let ii = d.take(items.len());
        let it = &items[ii];
        let w = script(d.0 as usize, len, &alpha3);
        let desc = |n: usize, ls: usize| format!("{}, item {ii}, words {w:x?}, {n} uniform and {ls} local samples", s.name);
        let mut prev: Option<f64> = None;
        let li = s.layout_idx;
        for (n, ls) in [(1, 0), (2, 0), (3, 0), (4, 0), (4, 1), (4, 2), (6, 0), (6, 2)] {
            let mut rng = Script::new(w.clone());
            let mut cnt = 0;
            let r = guarded(|| sample_layout(&s.problem, li, it, &cfgl(n, ls), &mut rng, &mut cnt)).map_err(|m| format!("{}: {m}", desc(n, ls)))?;
            l.transitions += 1;
            ensure!(cnt <= n + ls, "{}: counted {cnt} samples", desc(n, ls));
            let got = match r {
                None => None,
                Some(o) => {
                    ensure!(o.item_id == it.id && o.layout_idx == li, "{}: option for item {} in {:?}", desc(n, ls), o.item_id, o.layout_idx);
                    let a = o.d_transf.rotation() as f64;
                    let t = (o.d_transf.translation().0 as f64, o.d_transf.translation().1 as f64);
                    ensure!(allowed(&it.allowed_rotation, a), "{}: rotation {a}", desc(n, ls));
                    let p = geo::place(&from_sp(&it.shape), a, t);
                    ensure!(s.verdict(&p, geo::place(&[inner[ii]], a, t)[0], it.base_quality) != V::Yes, "{}: placed at {p:?}, which collides", desc(n, ls));
                    Some(cost(&p))
                }
            };
            // more samples never give a worse result (same draws first)
            match (prev, got) {
                (Some(a), Some(b)) => ensure!(b <= a + cost_eps(s), "{}: cost {b}, with fewer samples {a}", desc(n, ls)),
                (Some(a), None) => return Err(format!("{}: nothing found, with fewer samples cost {a}", desc(n, ls))),
                _ => {}
            }
            // a single sample: exactly the first one drawn, when it is free
            if n == 1 {
                match HPGSampler::new(it, &s.layout) {
                    None => ensure!(got.is_none(), "{}: found a placement where there is none", desc(n, ls)),
                    Some(mut hs) => {
                        let t = hs.sample(&mut Script::new(w.clone()));
                        let p = from_sp(&it.shape.transform_clone(&t));
                        match s.verdict(&p, geo::interior_point(&p), it.base_quality) {
                            V::Yes => ensure!(got.is_none(), "{}: found cost {got:?} though the sample collides", desc(n, ls)),
                            V::No => ensure!(got.is_some_and(|g| (g - cost(&p)).abs() < 10.0 * cost_eps(s)), "{}: cost {got:?} for a free sample of cost {}", desc(n, ls), cost(&p)),
                            V::Amb => {}
                        }
                    }
                }
            }
            // local samples only follow uniform ones: compare within the same number of uniform samples
            if !(n == 4 && ls > 0) {
                prev = got.or(prev);
            }
            l.out(if got.is_some() { "found" } else { "not found" });
        }
        l.states += 1;
        Ok(())
    });
    // ---- cost of a placement
    ctx.family("costs", 15 * 15 * 15, |i, l| {
        let mut d = Dec(i);
        let v = |k: usize| [-1e5, -7.0, -0.5, 0.0, 0.25, 1.0, 2.0, 3.0, 10.0, 11.0, 99.0, 100.0, 101.0, 5e3, 1e5][k] as fsize;
        let (x, y, s) = (v(d.take(15)), v(d.take(15)), v(d.take(15)).abs());
        l.states += 1;
        l.transitions += 1;
        let a = LBFPlacingCost::new(x, y);
        let right = LBFPlacingCost::new(x + s, y);
        let up = LBFPlacingCost::new(x, y + s);
        ensure!(right >= a && up >= a, "moving by {s} from ({x}, {y}) lowers the cost");
        ensure!(right >= up, "moving right by {s} from ({x}, {y}) costs less than moving up");
        Ok(())
    });
    let _ = Point(0.0, 0.0);
}

// ------------------------------------------------------------------------------- C12

fn with(shape: FShape, demand: u64, rots: Option<Vec<f64>>, quality: Option<usize>) -> FItem {
    FItem { demand, rots, quality, ..item(shape) }
}
pub fn item_sets() -> Vec<(&'static str, Vec<FItem>)> {
    let none = || Some(vec![0.0]);
    let four = || Some(vec![0.0, 90.0, 180.0, 270.0]);
    vec![
        ("two kinds of rectangles, fixed", vec![with(FShape::Rect(3.0, 2.0), 3, none(), None), with(FShape::Rect(1.0, 1.5), 4, Some(vec![]), None)]),
        (
            "concave shapes, any rotation",
            vec![
                with(simple(&shifted(&zshape("L"), (40.0, -7.0))), 2, None, None),
                with(FShape::Simple { ring: zshape("C"), closed: true }, 2, None, Some(1)),
                with(simple(&scaled(&zshape("star"), 0.6)), 2, None, Some(9)),
            ],
        ),
        (
            "mixed quality, discrete rotations",
            vec![
                with(simple(&zshape("tri")), 3, four(), Some(0)),
                with(simple(&scaled(&zshape("arrow"), 0.7)), 2, Some(vec![15.0, -120.0]), Some(2)),
                with(FShape::Rect(2.5, 0.7), 3, Some(vec![45.0]), Some(5)),
                with(FShape::Rect(0.8, 0.8), 5, four(), None),
            ],
        ),
        ("one large, many small", vec![with(simple(&scaled(&zshape("cross"), 0.8)), 1, four(), None), with(FShape::Rect(0.7, 0.5), 12, None, None)]),
        ("does not fit", vec![with(FShape::Rect(40.0, 30.0), 2, None, None), with(FShape::Rect(2.0, 1.0), 3, four(), None)]),
        ("single small items", vec![with(FShape::Rect(0.6, 0.4), 1, None, None), with(simple(&scaled(&zshape("tri"), 0.3)), 1, none(), None)]),
        ("nothing demanded of one", vec![with(FShape::Rect(2.0, 2.0), 0, None, None), with(FShape::Rect(2.0, 1.0), 2, None, None)]),
    ]
}
pub fn containers() -> Vec<(&'static str, Vec<FBin>, Option<f64>)> {
    let b = |shape, stock, zones| FBin { shape, cost: 1, stock, zones };
    let holed = || FShape::WithHoles {
        ring: shifted(&ip(&[(0, 0), (18, 0), (20, 9), (17, 16), (3, 14)]), (-50.0, 31.0)),
        holes: vec![rect(-44.0, 34.0, -41.0, 37.0), shifted(&ip(&[(0, 0), (3, 1), (1, 3)]), (-38.0, 38.0))],
        closed: true,
    };
    let zones = || {
        vec![
            (0, simple(&rect(-48.0, 32.0, -46.0, 36.0))),
            (1, simple(&rect(-40.0, 32.5, -36.0, 34.0))),
            (1, simple(&rect(-46.5, 40.0, -44.0, 43.0))),
            (4, simple(&shifted(&ip(&[(0, 0), (4, 0), (2, 3)]), (-36.5, 41.0)))),
        ]
    };
    vec![
        ("one square", vec![b(FShape::Rect(9.0, 9.0), Some(1), vec![])], None),
        ("unlimited small squares", vec![b(FShape::Rect(6.0, 6.5), None, vec![])], None),
        ("holes and zones", vec![b(holed(), Some(2), zones())], None),
        (
            "several kinds",
            vec![b(FShape::Rect(4.0, 3.5), Some(2), vec![]), b(simple(&ip(&[(0, 0), (10, 0), (10, 4), (4, 4), (4, 10), (0, 10)])), Some(1), vec![(0, simple(&rect(1.0, 1.0, 2.0, 8.0)))]), b(holed(), None, zones())],
            None,
        ),
        ("none in stock of the first", vec![b(FShape::Rect(20.0, 20.0), Some(0), vec![]), b(FShape::Rect(7.0, 7.0), Some(1), vec![])], None),
        ("strip", vec![], Some(8.0)),
        ("low strip far from unit size", vec![], Some(6.2)),
    ]
}
/// fraction of a lattice of positions (and rotations) at which the item is clear of the empty bin's features
fn ease(it: &FItem, b: &FBin) -> f64 {
    let p = it.shape.outer();
    let c = geo::interior_point(&p);
    let outer = b.shape.outer();
    let bb = geo::bbox(&outer);
    let angles: Vec<f64> = match &it.rots {
        None => (0..5).map(|k| k as f64 * 1.3).collect(),
        Some(v) if v.is_empty() => vec![0.0],
        Some(v) => v.iter().map(|a| a.to_radians()).collect(),
    };
    let (mut n, mut free) = (0, 0);
    for a in angles {
        for ix in 0..10 {
            for iy in 0..10 {
                let at = (bb.0 + (ix as f64 + 0.5) / 10.0 * (bb.2 - bb.0), bb.1 + (iy as f64 + 0.5) / 10.0 * (bb.3 - bb.1));
                let r = geo::rot(c, a);
                let q = geo::place(&p, a, (at.0 - r.0, at.1 - r.1));
                n += 1;
                if clashes(&q, at, it, b, 1e-2) == V::No {
                    free += 1;
                }
            }
        }
    }
    free as f64 / n as f64
}
/// does the placed polygon `q` of the item clash with the bin's own features?
fn clashes(q: &[P], iq: P, it: &FItem, b: &FBin, m: f64) -> V {
    let mut v = geo::protrudes(q, &b.shape.outer(), m);
    for h in b.shape.holes() {
        v = v.or(geo::overlap(q, iq, &h, geo::interior_point(&h), m));
    }
    for (z, s) in &b.zones {
        if it.quality.is_none_or(|r| *z < r) {
            let s = s.outer();
            v = v.or(geo::overlap(q, iq, &s, geo::interior_point(&s), m));
        }
    }
    v
}
/// the layouts of an exported solution: bin index, or width and height of the strip, and the placed items
fn placed_of(v: &serde_json::Value, f: &FInstance) -> Result<Vec<(Option<usize>, f64, f64, Vec<(usize, f64, P, Poly, P)>)>, String> {
    let inner: Vec<P> = f.items.iter().map(|i| geo::interior_point(&i.shape.outer())).collect();
    v["Layouts"]
        .as_array()
        .ok_or("no layouts")?
        .iter()
        .map(|lay| {
            let c = &lay["Container"];
            let items = lay["PlacedItems"]
                .as_array()
                .ok_or("no items")?
                .iter()
                .map(|p| {
                    let i = p["Index"].as_u64().unwrap() as usize;
                    let t = &p["Transformation"];
                    let tr = (t["Translation"][0].as_f64().unwrap(), t["Translation"][1].as_f64().unwrap());
                    let a = t["Rotation"].as_f64().unwrap();
                    (i, a, tr, geo::place(&f.items[i].shape.outer(), a, tr), geo::place(&[inner[i]], a, tr)[0])
                })
                .collect();
            Ok((
                c["Params"]["Index"].as_u64().map(|i| i as usize),
                c["Params"]["Width"].as_f64().unwrap_or(0.0),
                c["Params"]["Height"].as_f64().unwrap_or(0.0),
                items,
            ))
        })
        .collect()
}
fn feasible(sol: &Solution, inst: &Instance, f: &FInstance, l: &mut Local) -> Result<(Vec<usize>, Vec<usize>), String> {
    let v = serde_json::to_value(compose_json_solution(sol, inst, sol.time_stamp)).map_err(|e| e.to_string())?;
    let (count, used) = feasible_json(&v, f, l)?;
    for (i, it) in f.items.iter().enumerate() {
        ensure!(sol.placed_item_qtys[i] == count[i] && sol.target_item_qtys[i] as u64 == it.demand, "the solution reports {} of item {i} placed for {} demanded, exported are {}", sol.placed_item_qtys[i], sol.target_item_qtys[i], count[i]);
    }
    Ok((count, used))
}
/// The independent feasibility oracle: the exported solution against the file's own shapes.
pub fn feasible_json(v: &serde_json::Value, f: &FInstance, l: &mut Local) -> Result<(Vec<usize>, Vec<usize>), String> {
    let lays = placed_of(v, f)?;
    let mut count = vec![0usize; f.items.len()];
    let mut used = vec![0usize; f.bins.len()];
    for (k, (bin, w, h, items)) in lays.iter().enumerate() {
        let container = match (bin, f.strip) {
            (Some(b), None) => {
                used[*b] += 1;
                f.bins[*b].clone()
            }
            (None, Some(_)) => FBin { shape: FShape::Rect(*w, *h), cost: 0, stock: None, zones: vec![] },
            _ => return Err(format!("layout {k} has the wrong kind of container")),
        };
        let outer = container.shape.outer();
        let bb = geo::bbox(&outer);
        let m = 4e-5 * bb.0.abs().max(bb.1.abs()).max(bb.2.abs()).max(bb.3.abs()).max(if f.items.iter().all(|i| { let b = geo::bbox(&i.shape.outer()); b.2 - b.0 < 0.5 }) { 0.1 } else { 10.0 });
        ensure!(f.strip.is_some() || !items.is_empty(), "layout {k} is empty");
        let boxes: Vec<_> = items.iter().map(|i| geo::bbox(&i.3)).collect();
        for (x, a) in items.iter().enumerate() {
            count[a.0] += 1;
            let it = &f.items[a.0];
            let ok = match &it.rots {
                None => a.1.is_finite(),
                Some(v) => {
                    let v = if v.is_empty() { vec![0.0] } else { v.clone() };
                    allowed(&AllowedRotation::Discrete(v.iter().map(|d| d.to_radians() as fsize).collect()), a.1)
                }
            };
            ensure!(ok, "item {} is rotated by {}°, allowed are {:?}", a.0, a.1.to_degrees(), it.rots);
            ensure!(clashes(&a.3, a.4, it, &container, m) != V::Yes, "item {} at {:?} in layout {k} is not inside container {bin:?} ({w} x {h}) clear of its holes and zones", a.0, a.3);
            for (y, b) in items.iter().enumerate().skip(x + 1) {
                let (p, q) = (boxes[x], boxes[y]);
                if p.2 < q.0 || q.2 < p.0 || p.3 < q.1 || q.3 < p.1 {
                    continue;
                }
                ensure!(geo::overlap(&a.3, a.4, &b.3, b.4, m) != V::Yes, "items {} at {:?} and {} at {:?} overlap in layout {k}", a.0, a.3, b.0, b.3);
            }
            l.transitions += 1;
        }
    }
    for (i, it) in f.items.iter().enumerate() {
        ensure!(count[i] as u64 <= it.demand, "item {i} is placed {} times, demanded {}", count[i], it.demand);
        ensure!(f.strip.is_none() || count[i] as u64 == it.demand, "item {i} is placed {} times in the strip, demanded {}", count[i], it.demand);
    }
    for (b, n) in used.iter().enumerate() {
        ensure!(*n as u64 <= f.bins[b].stock.unwrap_or(u64::MAX), "{n} bins {b} are used, {:?} in stock", f.bins[b].stock);
    }
    Ok((count, used))
}
pub fn fingerprint(i: &Instance) -> String {
    let items: Vec<String> = i.items().iter().map(|(it, q)| format!("{} {q} {:?} {:?} {:?}", it.id, it.shape.points, it.allowed_rotation, it.base_quality)).collect();
    let rest = match i {
        Instance::BP(b) => b.bins.iter().map(|(b, n)| format!("{} {n} {:?} {} {}", b.id, b.outer.points, b.holes.len(), b.value)).collect(),
        Instance::SP(s) => vec![format!("{}", s.strip_height)],
    };
    format!("{items:?}{rest:?}")
}
fn exact(s: &Solution) -> Vec<(usize, Vec<(usize, u64, u64, u64)>)> {
    s.layout_snapshots
        .iter()
        .map(|l| {
            let mut v: Vec<_> = l
                .placed_items
                .values()
                .map(|p| (p.item_id, (p.d_transf.rotation() as f64).to_bits(), (p.d_transf.translation().0 as f64).to_bits(), (p.d_transf.translation().1 as f64).to_bits()))
                .collect();
            v.sort();
            (l.bin.id, v)
        })
        .collect()
}
/// an instance file of the repository
pub fn asset(path: &str) -> Result<FInstance, String> {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let ring = |v: &serde_json::Value| -> Poly {
        let mut p: Poly = v.as_array().unwrap().iter().map(|p| (p[0].as_f64().unwrap(), p[1].as_f64().unwrap())).collect();
        if p.len() > 1 && p[0] == p[p.len() - 1] {
            p.pop();
        }
        p
    };
    let shape = |v: &serde_json::Value| -> FShape {
        let d = &v["Data"];
        match v["Type"].as_str() {
            Some("Rectangle") => FShape::Rect(d["Width"].as_f64().unwrap(), d["Height"].as_f64().unwrap()),
            Some("SimplePolygon") => FShape::Simple { ring: ring(d), closed: true },
            _ => FShape::WithHoles { ring: ring(&d["Outer"]), holes: d["Inner"].as_array().map(|a| a.iter().map(ring).collect()).unwrap_or_default(), closed: true },
        }
    };
    Ok(FInstance {
        items: v["Items"]
            .as_array()
            .unwrap()
            .iter()
            .map(|i| FItem {
                shape: shape(&i["Shape"]),
                demand: i["Demand"].as_u64().unwrap(),
                rots: i["AllowedOrientations"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()),
                value: i["Value"].as_u64(),
                quality: i["BaseQuality"].as_u64().map(|q| q as usize),
            })
            .collect(),
        bins: v["Objects"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|b| FBin {
                        shape: shape(&b["Shape"]),
                        cost: b["Cost"].as_u64().unwrap_or(0),
                        stock: b["Stock"].as_u64(),
                        zones: b["Zones"].as_array().map(|z| z.iter().map(|z| (z["Quality"].as_u64().unwrap() as usize, shape(&z["Shape"]))).collect()).unwrap_or_default(),
                    })
                    .collect()
            })
            .unwrap_or_default(),
        strip: v["Strip"]["Height"].as_f64(),
        nulls: false,
    })
}

struct Run {
    simpl: Option<f64>,
    cde: CDEConfig,
    n: usize,
    ls: f32,
    center: bool,
}
impl Run {
    fn cfg(&self) -> LBFConfig {
        LBFConfig { cde_config: self.cde, poly_simpl_tolerance: self.simpl.map(|t| t as fsize), prng_seed: Some(0), n_samples: self.n, ls_frac: self.ls, ..LBFConfig::default() }
    }
    fn parse(&self, f: &FInstance) -> Result<Instance, String> {
        let ps = match self.simpl {
            None => PolySimplConfig::Disabled,
            Some(t) => PolySimplConfig::Enabled { tolerance: t as fsize },
        };
        let ji = f.read()?;
        guarded(|| Parser::new(ps, self.cde, self.center).parse(&ji))
    }
}
fn runs() -> Vec<Run> {
    let c = |d, h, s| cfg(d, h, s);
    vec![
        Run { simpl: None, cde: c(3, 100, surr(4, 2, 0)), n: 150, ls: 0.2, center: true },
        Run { simpl: Some(0.02), cde: c(5, 300, surr(10, 2, 0)), n: 200, ls: 0.3, center: true },
        Run { simpl: None, cde: c(0, 2, surr(1, 0, 0)), n: 180, ls: 0.0, center: false },
        Run { simpl: Some(0.001), cde: c(2, 1000, surr(3, 3, 3)), n: 300, ls: 0.7, center: true },
        Run { simpl: None, cde: c(4, 36, surr(6, 1, 0)), n: 160, ls: 0.15, center: false },
    ]
}

pub fn c12(ctx: &Ctx) {
    install_log_sink();
    let sets = item_sets();
    let cons = containers();
    let rs = runs();
    let seeds = ctx.pick(8usize, 100);
    let single: Vec<Vec<Vec<Vec<f64>>>> = cons.iter().map(|(_, bs, _)| bs.iter().map(|b| sets.iter().map(|s| s.1.iter().map(|it| ease(it, b)).collect()).collect()).collect()).collect();
    // each instance is imported once (through its file form), the optimizer gets clones
    let file = |si: usize, ci: usize| FInstance { items: sets[si].1.clone(), bins: cons[ci].1.clone(), strip: cons[ci].2, nulls: false };
    // (importing the items is what costs: one import per item set and one per container)
    let ns = sets.len();
    let parsed: Vec<Result<Instance, String>> = {
        use rayon::prelude::*;
        (0..rs.len() * (ns + cons.len()))
            .into_par_iter()
            .map(|k| match k % (ns + cons.len()) {
                s if s < ns => rs[k / (ns + cons.len())].parse(&file(s, 0)),
                c => rs[k / (ns + cons.len())].parse(&file(5, c - ns)),
            })
            .collect()
    };
    let combine = |si: usize, ci: usize, ri: usize| -> Result<Instance, String> {
        let at = ri * (ns + cons.len());
        let items = parsed[at + si].clone()?.items().to_vec();
        Ok(match parsed[at + ns + ci].clone()? {
            Instance::BP(b) => Instance::BP(BPInstance::new(items, b.bins)),
            Instance::SP(s) => Instance::SP(SPInstance::new(items, s.strip_height)),
        })
    };
    // removals between two runs: 0 = none, then ways to take items out again
    let removals = 3usize;
    ctx.family("solve, remove, solve again", (sets.len() * cons.len() * rs.len() * removals * seeds) as u64, |i, l| {
        let mut d = Dec(i);
        let si = d.take(sets.len());
        let ci = d.take(cons.len());
        let ri = d.take(rs.len());
        let run = &rs[ri];
        let rem = d.take(removals);
        let seed = d.take(seeds) as u64;
        let (cname, bins, strip) = &cons[ci];
        if strip.is_some() && sets[si].0 == "does not fit" {
            return Ok(());
        }
        let f = file(si, ci);
        let _ = bins;
        let desc = format!("{} into {cname}, {} samples ({} local), simplification {:?}, centering {}, depth {}, seed {seed}", sets[si].0, run.n, run.ls, run.simpl, run.center, run.cde.quadtree_depth);
        let inst = combine(si, ci, ri)?;
        let before = fingerprint(&inst);
        let step = |o: &mut LBFOptimizer, what: &str, l: &mut Local| -> Result<Solution, String> {
            let sol = guarded(|| o.solve()).map_err(|m| format!("{desc}: {what}: {m}"))?;
            l.transitions += 1;
            let (count, used) = feasible(&sol, &inst, &f, l).map_err(|m| format!("{desc}: {what}: {m}"))?;
            ensure!(fingerprint(&o.instance) == before, "{desc}: {what}: the instance has changed");
            for (k, it) in f.items.iter().enumerate() {
                if (count[k] as u64) < it.demand {
                    l.out("item left out");
                    for (b, bin) in f.bins.iter().enumerate() {
                        ensure!(
                            (used[b] as u64) >= bin.stock.unwrap_or(u64::MAX) || single[ci][b][si][k] < 0.25,
                            "{desc}: {what}: only {} of {} items {k} are placed, although they fit easily into bin {b}, of which {} of {:?} are used",
                            count[k], it.demand, used[b], bin.stock
                        );
                    }
                }
            }
            // what the problem itself reports
            let p = &o.problem;
            let placed: Vec<usize> = p.placed_item_qtys().collect();
            ensure!(placed == count, "{desc}: {what}: the problem reports {placed:?} placed, the solution holds {count:?}");
            ensure!(sol.layout_snapshots.len() == p.layouts().iter().filter(|l| !l.is_empty() || f.strip.is_some()).count(), "{desc}: {what}: {} layouts in the solution", sol.layout_snapshots.len());
            if sets[si].0 == "single small items" {
                ensure!(sol.layout_snapshots.len() == 1, "{desc}: {what}: two tiny items were spread over {} layouts", sol.layout_snapshots.len());
            }
            l.out("solved");
            Ok(sol)
        };
        let mut o = LBFOptimizer::new(inst.clone(), run.cfg(), SmallRng::seed_from_u64(seed));
        let sol = step(&mut o, "first run", l)?;
        if rem == 0 {
            // the same again gives the same
            let mut o2 = LBFOptimizer::new(inst.clone(), run.cfg(), SmallRng::seed_from_u64(seed));
            let s2 = guarded(|| o2.solve())?;
            ensure!(exact(&sol) == exact(&s2) && o.sample_counter == o2.sample_counter, "{desc}: a second run with the same seed gives a different solution");
        } else {
            for k in 0..rem * 2 {
                let p = &mut o.problem;
                let n = p.layouts().len();
                if n == 0 {
                    break;
                }
                let li = k % n;
                let keys: Vec<_> = p.layouts()[li].placed_items().keys().collect();
                if keys.is_empty() || (f.strip.is_some() && keys.len() == 1) {
                    break;
                }
                let key = keys[(k * 7 + seed as usize) % keys.len()];
                let idx = p.layout_indices().nth(li).ok_or("layout index")?;
                guarded(|| p.remove_item(idx, key, rem == 2)).map_err(|m| format!("{desc}: removal: {m}"))?;
                l.transitions += 1;
            }
            guarded(|| o.problem.flush_changes()).map_err(|m| format!("{desc}: flush: {m}"))?;
            step(&mut o, "second run, after removing items", l)?;
        }
        l.states += 1;
        Ok(())
    });
    // ---- the same at other scales: coordinates in thousands, and in hundredths
    let scale = |sh: &FShape, k: f64| match sh {
        FShape::Rect(w, h) => FShape::Rect(w * k, h * k),
        FShape::Simple { ring, closed } => FShape::Simple { ring: scaled(ring, k), closed: *closed },
        FShape::WithHoles { ring, holes, closed } => FShape::WithHoles { ring: scaled(ring, k), holes: holes.iter().map(|h| scaled(h, k)).collect(), closed: *closed },
    };
    let factors = [5000.0, 37.0, 0.01];
    let pick_sets: Vec<usize> = (0..ns).filter(|s| !["does not fit", "concave shapes, any rotation"].contains(&sets[*s].0)).collect();
    let sseeds = ctx.pick(2usize, 20);
    let scaled_file = |si: usize, ci: usize, k: f64| {
        let mut f = file(si, ci);
        f.items.iter_mut().for_each(|i| i.shape = scale(&i.shape, k));
        f.bins.iter_mut().for_each(|b| {
            b.shape = scale(&b.shape, k);
            b.zones.iter_mut().for_each(|z| z.1 = scale(&z.1, k));
        });
        f.strip = f.strip.map(|h| h * k);
        f
    };
    ctx.family("other scales", (factors.len() * pick_sets.len() * cons.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (si, ci, k) = (pick_sets[d.take(pick_sets.len())], d.take(cons.len()), factors[d.take(factors.len())]);
        let run = Run { simpl: if i % 2 == 0 { None } else { Some(0.01) }, cde: cfg(3, 100, surr(2, 1, 0)), n: 150, ls: 0.2, center: i % 3 != 0 };
        let f = scaled_file(si, ci, k);
        let inst = run.parse(&f)?;
        for seed in 0..sseeds {
            let mut o = LBFOptimizer::new(inst.clone(), run.cfg(), SmallRng::seed_from_u64(seed as u64));
            let desc = format!("{} into {}, scaled by {k}, seed {seed}", sets[si].0, cons[ci].0);
            let sol = guarded(|| o.solve()).map_err(|m| format!("{desc}: {m}"))?;
            let (count, used) = feasible(&sol, &inst, &f, l).map_err(|m| format!("{desc}: {m}"))?;
            for (j, it) in f.items.iter().enumerate() {
                for (b, bin) in f.bins.iter().enumerate() {
                    ensure!(
                        count[j] as u64 == it.demand || (used[b] as u64) >= bin.stock.unwrap_or(u64::MAX) || single[ci][b][si][j] < 0.25,
                        "{desc}: only {} of {} items {j} are placed, although they fit easily into bin {b}, of which {} of {:?} are used",
                        count[j], it.demand, used[b], bin.stock
                    );
                }
            }
            l.states += 1;
            l.transitions += 1;
        }
        Ok(())
    });
    // ---- the search over layouts: the result lies in an open layout or in one still in stock
    let stocks = 3usize;
    let base: Vec<Result<Instance, String>> = (0..2 * rs.len())
        .map(|k| {
            let (w, h) = if k % 2 == 1 { (5.0, 5.0) } else { (1.0, 0.8) };
            rs[k / 2].parse(&FInstance {
                items: vec![with(FShape::Rect(4.0, 4.0), 3, None, None), with(FShape::Rect(w, h), 2, None, None)],
                bins: vec![
                    FBin { shape: FShape::Rect(7.0, 7.0), cost: 1, stock: Some(1), zones: vec![] },
                    FBin { shape: FShape::Rect(12.0, 12.0), cost: 1, stock: Some(1), zones: vec![] },
                ],
                strip: None,
                nulls: false,
            })
        })
        .collect();
    ctx.family("choice of layout", (stocks * stocks * 3 * rs.len() * seeds * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let (s0, s1) = (d.take(stocks), d.take(stocks));
        let open = d.take(3);
        let ri = d.take(rs.len());
        let run = &rs[ri];
        let seed = d.take(seeds) as u64;
        let big = d.take(2) == 1;
        if open > s0 {
            return Ok(());
        }
        let Instance::BP(mut bpi) = base[2 * ri + big as usize].clone()? else { return Err("not a bin packing instance".into()) };
        bpi.bins[0].1 = s0;
        bpi.bins[1].1 = s1;
        let inst = Instance::BP(bpi.clone());
        let mut p = BPProblem::new(bpi.clone());
        for _ in 0..open {
            // one item in the middle of a small bin: half of the sampled positions of a small item are free
            let c = p.get_layout(LayoutIndex::Template(0)).bin.bbox();
            let at = ((c.x_min + c.x_max) as f64 / 2.0, (c.y_min + c.y_max) as f64 / 2.0);
            let ic = from_sp(&inst.item(0).shape);
            let cc = geo::centroid(&ic);
            p.place_item(PlacingOption { layout_idx: LayoutIndex::Template(0), item_id: 0, d_transf: dt(0.0, (at.0 - cc.0 - 1.2, at.1 - cc.1 - 1.2)) });
        }
        p.flush_changes();
        let p = Problem::BP(p);
        let mut cnt = 0;
        let desc = format!("stock {s0} and {s1}, {open} open, {} samples, seed {seed}, {}", run.n, if big { "large item" } else { "small item" });
        let r = guarded(|| find_lbf_placement(&p, inst.item(1), &run.cfg(), &mut SmallRng::seed_from_u64(seed), &mut cnt)).map_err(|m| format!("{desc}: {m}"))?;
        l.states += 1;
        l.transitions += 1;
        match r.map(|o| o.layout_idx) {
            Some(LayoutIndex::Real(k)) => {
                ensure!(k < open && !big, "{desc}: placed into open layout {k}");
                l.out("open layout");
            }
            Some(LayoutIndex::Template(b)) => {
                ensure!([s0 - open, s1][b] > 0, "{desc}: a bin {b} was opened, of which none is left");
                ensure!(open == 0 || big, "{desc}: a new bin was opened although an open one has room");
                l.out("new layout");
            }
            None => {
                ensure!(s0 - open + s1 == 0 && (open == 0 || big), "{desc}: nothing found");
                l.out("nothing found");
            }
        }
        Ok(())
    });
    // ---- the bundled instances
    let files = ["swim", "shirts", "trousers", "mao", "albano", "baldacci1", "baldacci2", "baldacci3", "baldacci4", "baldacci5", "baldacci6"];
    let aseeds = ctx.pick(1usize, 8);
    ctx.family("bundled instances", (files.len() * aseeds) as u64, |i, l| {
        let mut d = Dec(i);
        let name = files[d.take(files.len())];
        let seed = d.take(aseeds) as u64;
        let f = asset(&format!("/repo/assets/{name}.json"))?;
        let run = Run { simpl: Some(0.001), cde: LBFConfig::default().cde_config, n: ctx.pick(60, 300), ls: 0.2, center: true };
        let inst = run.parse(&f)?;
        let mut o = LBFOptimizer::new(inst.clone(), run.cfg(), SmallRng::seed_from_u64(seed));
        let sol = guarded(|| o.solve()).map_err(|m| format!("{name}, seed {seed}: {m}"))?;
        l.states += 1;
        l.transitions += 1;
        feasible(&sol, &inst, &f, l).map_err(|m| format!("{name}, seed {seed}: {m}"))?;
        Ok(())
    });
}
