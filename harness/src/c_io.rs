//! C11 (import and export of instances and solutions) and C18 (SVG export).
use crate::core::{guarded, Ctx, Dec, Local};
use crate::ensure;
use crate::geo::{self, Poly, P, V};
use crate::scene::{cfg, dt, surr, zshape};
use crate::shapes::{from_sp, ip, lattice_polys, rect, scaled, shifted};
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::JsonSolution;
use jagua_rs::io::parser::{compose_json_solution, pretransform_bin, pretransform_item, Parser};
use jagua_rs::util::config::CDEConfig;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::io::layout_to_svg::{layout_to_svg, s_layout_to_svg};
use lbf::io::svg_util::{SvgDrawOptions, SvgLayoutTheme};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

// ------------------------------------------------------------------------ log sink

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // formats the arguments, as any real logger would
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
/// The library's log statements are executed too (up to the level the CLI uses by default).
pub fn install_log_sink() {
    if log::set_logger(&SINK).is_ok() {
        log::set_max_level(log::LevelFilter::Info);
    }
}

// ------------------------------------------------------------------------ file descriptions

/// A shape as it stands in an instance file.
#[derive(Clone, Debug)]
pub enum FShape {
    Rect(f64, f64),
    Simple { ring: Poly, closed: bool },
    WithHoles { ring: Poly, holes: Vec<Poly>, closed: bool },
}
fn jring(r: &Poly, closed: bool) -> Value {
    let mut v: Vec<Value> = r.iter().map(|p| json!([p.0, p.1])).collect();
    if closed {
        v.push(v[0].clone());
    }
    Value::Array(v)
}
impl FShape {
    fn json(&self) -> Value {
        match self {
            FShape::Rect(w, h) => json!({"Type": "Rectangle", "Data": {"Width": w, "Height": h}}),
            FShape::Simple { ring, closed } => json!({"Type": "SimplePolygon", "Data": jring(ring, *closed)}),
            FShape::WithHoles { ring, holes, closed } => {
                let inner: Vec<Value> = holes.iter().map(|h| jring(h, *closed)).collect();
                json!({"Type": "Polygon", "Data": {"Outer": jring(ring, *closed), "Inner": inner}})
            }
        }
    }
    pub fn outer(&self) -> Poly {
        match self {
            FShape::Rect(w, h) => rect(0.0, 0.0, *w, *h),
            FShape::Simple { ring, .. } | FShape::WithHoles { ring, .. } => ring.clone(),
        }
    }
    pub fn holes(&self) -> Vec<Poly> {
        match self {
            FShape::WithHoles { holes, .. } => holes.clone(),
            _ => vec![],
        }
    }
}
#[derive(Clone, Debug)]
pub struct FItem {
    pub shape: FShape,
    pub demand: u64,
    pub rots: Option<Vec<f64>>,
    pub value: Option<u64>,
    pub quality: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct FBin {
    pub shape: FShape,
    pub cost: u64,
    pub stock: Option<u64>,
    pub zones: Vec<(usize, FShape)>,
}
#[derive(Clone, Debug)]
pub struct FInstance {
    pub items: Vec<FItem>,
    pub bins: Vec<FBin>,
    pub strip: Option<f64>,
    /// write absent options as null instead of leaving them out
    pub nulls: bool,
}
impl FInstance {
    pub fn json(&self) -> Value {
        let opt = |o: &mut Value, k: &str, v: Value| {
            if self.nulls || !v.is_null() {
                o[k] = v;
            }
        };
        let items: Vec<Value> = self
            .items
            .iter()
            .map(|i| {
                let mut o = json!({"Demand": i.demand, "Shape": i.shape.json()});
                opt(&mut o, "AllowedOrientations", json!(i.rots));
                opt(&mut o, "Value", json!(i.value));
                opt(&mut o, "BaseQuality", json!(i.quality));
                o
            })
            .collect();
        let mut v = json!({"Name": "generated", "Items": items});
        match self.strip {
            Some(h) => v["Strip"] = json!({"Height": h}),
            None => {
                v["Objects"] = Value::Array(
                    self.bins
                        .iter()
                        .map(|b| {
                            let mut o = json!({"Cost": b.cost, "Shape": b.shape.json()});
                            opt(&mut o, "Stock", json!(b.stock));
                            if !b.zones.is_empty() || self.nulls {
                                o["Zones"] = Value::Array(
                                    b.zones.iter().map(|(q, s)| json!({"Quality": q, "Shape": s.json()})).collect(),
                                );
                            }
                            o
                        })
                        .collect(),
                )
            }
        }
        v
    }
    pub fn read(&self) -> Result<JsonInstance, String> {
        serde_json::from_str(&self.json().to_string()).map_err(|e| format!("instance file rejected: {e}"))
    }
}

/// `got` is the ring `want` (any starting vertex, either direction) within tol.
pub fn same_ring(got: &[P], want: &[P], tol: f64) -> bool {
    let n = want.len();
    if got.len() != n {
        return false;
    }
    let near = |a: P, b: P| (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol;
    (0..n).any(|s| (0..n).all(|i| near(got[i], want[(i + s) % n])) || (0..n).all(|i| near(got[i], want[(s + n - i) % n])))
}
fn mag(p: &[P]) -> f64 {
    p.iter().fold(1.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()))
}
/// the shape in the coordinates of the file
fn in_file(s: &SimplePolygon, pre: &Transformation) -> Poly {
    from_sp(&s.transform_clone(&pre.clone().inverse()))
}

fn rotation_ok(got: &AllowedRotation, want: &Option<Vec<f64>>) -> Result<(), String> {
    let norm = |v: Vec<f64>| -> Vec<i64> {
        let mut w: Vec<i64> = v.iter().map(|a| (a.rem_euclid(2.0 * std::f64::consts::PI) * 1e4).round() as i64 % 62832).collect();
        w.sort();
        w.dedup();
        w
    };
    let ok = match (want, got) {
        (None, AllowedRotation::Continuous) => true,
        (None, _) | (Some(_), AllowedRotation::Continuous) => false,
        (Some(w), AllowedRotation::None) => w.iter().all(|a| *a == 0.0),
        (Some(w), AllowedRotation::Discrete(g)) => {
            let w = if w.is_empty() { vec![0.0] } else { w.clone() };
            norm(g.iter().map(|a| *a as f64).collect()) == norm(w.iter().map(|a| a.to_radians()).collect())
        }
    };
    ensure!(ok, "allowed rotations {got:?}, the file says {want:?} (degrees)");
    Ok(())
}

fn item_ok(it: &Item, qty: usize, id: usize, f: &FItem) -> Result<(), String> {
    let want = f.shape.outer();
    let tol = 2e-5 * mag(&want);
    let got = in_file(&it.shape, &it.pretransform);
    ensure!(it.id == id, "item {id} has id {}", it.id);
    ensure!(qty as u64 == f.demand, "item {id} is demanded {qty} times, the file says {}", f.demand);
    ensure!(same_ring(&got, &want, tol), "item {id} has shape {got:?} in file coordinates, the file says {want:?}");
    rotation_ok(&it.allowed_rotation, &f.rots).map_err(|m| format!("item {id}: {m}"))?;
    ensure!(it.value == f.value.unwrap_or(0), "item {id} has value {}, the file says {:?}", it.value, f.value);
    ensure!(it.base_quality == f.quality, "item {id} requires quality {:?}, the file says {:?}", it.base_quality, f.quality);
    Ok(())
}

fn bin_ok(b: &Bin, stock: usize, id: usize, f: &FBin) -> Result<(), String> {
    let outer = f.shape.outer();
    let tol = 2e-5 * mag(&outer);
    let m = |s: &SimplePolygon| in_file(s, &b.pretransform);
    ensure!(b.id == id, "bin {id} has id {}", b.id);
    ensure!(same_ring(&m(&b.outer), &outer, tol), "bin {id} has outline {:?} in file coordinates, the file says {outer:?}", m(&b.outer));
    let holes = f.shape.holes();
    ensure!(b.holes.len() == holes.len(), "bin {id} has {} holes, the file {}", b.holes.len(), holes.len());
    for h in &holes {
        ensure!(b.holes.iter().any(|g| same_ring(&m(g), h, tol)), "bin {id}: hole {h:?} is missing");
    }
    let mut n = 0;
    for (q, z) in b.quality_zones.iter().enumerate() {
        let Some(z) = z else { continue };
        ensure!(z.quality == q || z.zones.is_empty(), "bin {id}: zones of quality {} listed under {q}", z.quality);
        n += z.zones.len();
    }
    ensure!(n == f.zones.len(), "bin {id} has {n} zones, the file {}", f.zones.len());
    for (q, z) in &f.zones {
        let w = z.outer();
        let found = b.quality_zones.iter().flatten().filter(|g| g.quality == *q).flat_map(|g| g.zones.iter()).any(|g| same_ring(&m(g), &w, tol));
        ensure!(found, "bin {id}: zone {w:?} of quality {q} is missing");
    }
    let area = geo::area(&outer) - holes.iter().map(|h| geo::area(h)).sum::<f64>();
    ensure!((b.area as f64 - area).abs() <= 1e-4 * geo::area(&outer), "bin {id} has area {}, expected {area}", b.area);
    ensure!(stock as u64 == f.stock.unwrap_or(u64::MAX), "bin {id} has stock {stock}, the file says {:?}", f.stock);
    ensure!(b.value == f.cost, "bin {id} costs {}, the file says {}", b.value, f.cost);
    // what the collision engine of the bin was told
    let mut want: Vec<(String, Poly)> = vec![("exterior".into(), outer.clone())];
    want.extend(holes.iter().map(|h| ("hole".into(), h.clone())));
    want.extend(f.zones.iter().map(|(q, z)| (format!("zone{q}"), z.outer())));
    let haz: Vec<(String, Poly)> = b
        .base_cde
        .all_hazards()
        .map(|h| {
            let k = match h.entity {
                HazardEntity::BinExterior => "exterior".to_string(),
                HazardEntity::BinHole { .. } => "hole".into(),
                HazardEntity::InferiorQualityZone { quality, .. } => format!("zone{quality}"),
                HazardEntity::PlacedItem { .. } => "item".into(),
            };
            (k, m(&h.shape))
        })
        .collect();
    ensure!(haz.len() == want.len(), "bin {id}: {} hazards for {} features", haz.len(), want.len());
    let mut ents: Vec<String> = b.base_cde.all_hazards().map(|h| format!("{:?}", h.entity)).collect();
    ents.sort();
    ents.dedup();
    ensure!(ents.len() == haz.len(), "bin {id}: hazards are not uniquely identified: {ents:?}");
    for (k, w) in &want {
        ensure!(haz.iter().any(|(k2, g)| k2 == k && same_ring(g, w, tol)), "bin {id}: no {k} hazard for {w:?}");
    }
    Ok(())
}

fn instance_ok(inst: &Instance, f: &FInstance) -> Result<(), String> {
    ensure!(inst.items().len() == f.items.len(), "{} items for {} in the file", inst.items().len(), f.items.len());
    for (i, (it, q)) in inst.items().iter().enumerate() {
        item_ok(it, *q, i, &f.items[i])?;
        ensure!(inst.item_qty(i) == *q && inst.item(i).id == i, "item accessors disagree for {i}");
    }
    let qty: u64 = f.items.iter().map(|i| i.demand).sum();
    ensure!(inst.total_item_qty() as u64 == qty, "total quantity {}, the file says {qty}", inst.total_item_qty());
    let area: f64 = f.items.iter().map(|i| geo::area(&i.shape.outer()) * i.demand as f64).sum();
    ensure!((inst.item_area() as f64 - area).abs() <= 1e-3 * area.max(1e-9), "total item area {}, the file says {area}", inst.item_area());
    match (inst, f.strip) {
        (Instance::SP(s), Some(h)) => ensure!((s.strip_height as f64 - h).abs() < 1e-4 * h, "strip height {}, the file says {h}", s.strip_height),
        (Instance::BP(b), None) => {
            ensure!(b.bins.len() == f.bins.len(), "{} bins for {} in the file", b.bins.len(), f.bins.len());
            for (i, (bin, stock)) in b.bins.iter().enumerate() {
                bin_ok(bin, *stock, i, &f.bins[i])?;
            }
        }
        _ => return Err("wrong kind of problem".into()),
    }
    Ok(())
}

pub fn simple(p: &[P]) -> FShape {
    FShape::Simple { ring: p.to_vec(), closed: false }
}
pub fn item(s: FShape) -> FItem {
    FItem { shape: s, demand: 1, rots: None, value: None, quality: None }
}
fn light() -> CDEConfig {
    cfg(3, 40, surr(2, 1, 0))
}

// ------------------------------------------------------------------------ C11

/// Layouts of an instance: every way to place up to `k` items, from a list of (bin, item, rotation, translation).
#[derive(Clone, Copy, Debug)]
struct Pl {
    bin: usize,
    item: usize,
    rot: f64,
    t: P,
}

/// the instance used for layouts: shapes far from their own origin, with different centroids
fn layout_instance(strip: bool) -> FInstance {
    let items = vec![
        item(simple(&shifted(&zshape("L"), (20.0, -13.0)))),
        item(FShape::Rect(3.0, 1.5)),
        FItem { shape: FShape::Simple { ring: shifted(&zshape("tri"), (-30.0, 7.0)), closed: true }, demand: 3, rots: Some(vec![0.0, 90.0, 211.0]), value: Some(7), quality: Some(2) },
    ];
    let mut items = items;
    items[0].demand = 2;
    items[1].demand = 2;
    let bins = vec![
        FBin { shape: FShape::Rect(20.0, 12.0), cost: 5, stock: Some(2), zones: vec![] },
        FBin {
            shape: FShape::WithHoles { ring: shifted(&ip(&[(0, 0), (18, 0), (22, 16), (4, 14)]), (-50.0, 31.0)), holes: vec![rect(-40.0, 33.0, -38.0, 35.0)], closed: true },
            cost: 11,
            stock: None,
            zones: vec![(1, simple(&rect(-44.0, 40.0, -42.0, 42.0))), (1, simple(&rect(-36.0, 42.0, -34.0, 43.0))), (3, FShape::Simple { ring: ip(&[(-46, 33), (-44, 33), (-45, 36)]), closed: true })],
        },
        // as large as the first
        FBin { shape: FShape::Rect(15.0, 16.0), cost: 5, stock: Some(2), zones: vec![] },
    ];
    FInstance { items, bins: if strip { vec![] } else { bins }, strip: strip.then_some(9.0), nulls: false }
}

/// many of everything: twelve items, one of them with 150 vertices, a bin of 130 vertices, twenty holes, 31 zones of all qualities
fn many_instance(strip: bool) -> FInstance {
    let gear = |n: usize, a: f64, b: f64| -> Poly {
        (0..n)
            .map(|i| {
                let (t, r) = (i as f64 / n as f64 * std::f64::consts::TAU, if i % 2 == 0 { a } else { b });
                ((r * t.cos()) as f32 as f64, (r * t.sin()) as f32 as f64)
            })
            .collect()
    };
    let mut items: Vec<FItem> = (0..11)
        .map(|k| FItem {
            demand: 1 + k as u64,
            value: (k % 3 == 0).then_some(k as u64 * 1_000_003),
            quality: (k > 0).then(|| k - 1),
            rots: [None, Some((0..k + 1).map(|j| j as f64 * 30.0).collect())][k % 2].clone(),
            ..item(if k % 3 == 2 { FShape::Rect(1.0 + k as f64, 0.75) } else { simple(&shifted(&scaled(&zshape(["L", "tri", "C"][k % 3]), 0.5 + k as f64 * 0.1), (k as f64 * 3.0, -5.0))) })
        })
        .collect();
    items.push(FItem { demand: 3, ..item(simple(&shifted(&gear(150, 3.0, 2.6), (11.0, 3.0)))) });
    let holes: Vec<Poly> = (0..20)
        .map(|k| {
            let (x, y) = (-25.0 + 5.0 * (k % 10) as f64, 20.0 + 8.0 * (k / 10) as f64);
            rect(x, y, x + 2.0, y + 2.0 + 0.125 * k as f64)
        })
        .collect();
    // more than one per quality, and eighteen of one of them
    let zones = (0..31)
        .map(|k| {
            let (x, y) = (-28.0 + 4.0 * (k % 13) as f64, -9.0 - 6.0 * (k / 13) as f64);
            (if k < 13 { k % 10 } else { 9 }, simple(&rect(x, y, x + 2.5, y + 3.0 + 0.0625 * k as f64)))
        })
        .collect();
    let mut bins: Vec<FBin> = (0..11).map(|k| FBin { shape: FShape::Rect(20.0 + k as f64, 30.0), cost: k as u64 * 5_000_000_000, stock: Some(k as u64 + 1), zones: vec![(k % 10, simple(&rect(1.0, 1.0, 3.0, 2.0)))] }).collect();
    bins.push(FBin { shape: FShape::WithHoles { ring: gear(130, 70.0, 66.0), holes, closed: true }, cost: 3, stock: None, zones });
    FInstance { items, bins: if strip { vec![] } else { bins }, strip: strip.then_some(31.5), nulls: true }
}

/// (polygon in file coordinates of the container, item) for every placed item of a snapshot
fn drawn(ls: &LayoutSnapshot) -> Vec<(usize, Poly)> {
    ls.placed_items.values().map(|pi| (pi.item_id, in_file(&pi.shape, &ls.bin.pretransform))).collect()
}

fn multiset_match(got: &[(usize, Poly)], want: &[(usize, Poly)], tol: f64) -> bool {
    let mut left: Vec<usize> = (0..want.len()).collect();
    got.len() == want.len()
        && got.iter().all(|g| match left.iter().position(|&w| want[w].0 == g.0 && ring_eq(&g.1, &want[w].1, tol)) {
            Some(k) => {
                left.swap_remove(k);
                true
            }
            None => false,
        })
}
fn ring_eq(a: &[P], b: &[P], tol: f64) -> bool {
    same_ring(a, b, tol)
}

/// Exports `sol`, compares with the expected absolute geometry, re-imports and compares again.
fn export_ok(sol: &Solution, inst: &Instance, f: &FInstance, want: &[(usize, f64, Vec<(usize, Poly)>)], center: bool, l: &mut Local) -> Result<(), String> {
    let epoch = sol.time_stamp;
    let js = compose_json_solution(sol, inst, epoch);
    // through the text form, keys as documented
    let text = serde_json::to_value(&js).map_err(|e| e.to_string())?;
    let lays = text["Layouts"].as_array().ok_or("no Layouts in the exported solution")?;
    ensure!(lays.len() == want.len(), "{} layouts exported, expected {}", lays.len(), want.len());
    let tol = 4e-3;
    let mut used: Vec<bool> = vec![false; want.len()];
    let mut item_area = 0.0;
    let mut bin_area = 0.0;
    for lay in lays {
        let c = &lay["Container"];
        let key = match c["Type"].as_str() {
            Some("Bin") => (c["Params"]["Index"].as_u64().ok_or("no bin index")? as usize, 0.0, 0.0),
            Some("Strip") => (usize::MAX, c["Params"]["Width"].as_f64().ok_or("no strip width")?, c["Params"]["Height"].as_f64().ok_or("no strip height")?),
            _ => return Err(format!("container {c}")),
        };
        let got: Vec<(usize, Poly)> = lay["PlacedItems"]
            .as_array()
            .ok_or("no placed items")?
            .iter()
            .map(|p| {
                let i = p["Index"].as_u64().unwrap() as usize;
                let t = &p["Transformation"];
                let tr = (t["Translation"][0].as_f64().unwrap(), t["Translation"][1].as_f64().unwrap());
                (i, geo::place(&f.items[i].shape.outer(), t["Rotation"].as_f64().unwrap(), tr))
            })
            .collect();
        let w = want.iter().enumerate().position(|(k, (b, width, its))| {
            !used[k] && (if f.strip.is_some() { (width - key.1).abs() < tol } else { *b == key.0 }) && multiset_match(&got, its, tol)
        });
        let Some(w) = w else {
            return Err(format!("exported layout {key:?} puts the items at {got:?}; the solution has {want:?}"));
        };
        used[w] = true;
        let ia: f64 = got.iter().map(|(i, _)| geo::area(&f.items[*i].shape.outer())).sum();
        let ba = match f.strip {
            Some(h) => {
                ensure!((key.2 - h).abs() < 1e-4 * h, "exported strip height {}, expected {h}", key.2);
                want[w].1 * h
            }
            None => {
                let s = &f.bins[key.0].shape;
                geo::area(&s.outer()) - s.holes().iter().map(|h| geo::area(h)).sum::<f64>()
            }
        };
        let u = lay["Statistics"]["Usage"].as_f64().ok_or("no usage")?;
        ensure!((u - ia / ba).abs() < 1e-3, "exported layout usage {u}, expected {}", ia / ba);
        item_area += ia;
        bin_area += ba;
    }
    let u = text["Usage"].as_f64().ok_or("no usage")?;
    ensure!((u - item_area / bin_area).abs() < 1e-3, "exported usage {u}, expected {}", item_area / bin_area);
    l.transitions += 1;
    // import it again, from the text
    let js2: JsonSolution = serde_json::from_str(&text.to_string()).map_err(|e| format!("exported solution cannot be read: {e}"))?;
    let ji = f.read()?;
    for c in [center, !center] {
        let parser = Parser::new(PolySimplConfig::Disabled, light(), c);
        let (inst2, sol2) = guarded(|| parser.parse_and_build_solution(&ji, &js2.layouts)).map_err(|m| format!("importing the exported solution: {m}"))?;
        instance_ok(&inst2, f)?;
        ensure!(sol2.layout_snapshots.len() == sol.layout_snapshots.len(), "{} layouts re-imported of {}", sol2.layout_snapshots.len(), sol.layout_snapshots.len());
        let mut used = vec![false; want.len()];
        for ls in &sol2.layout_snapshots {
            let got = drawn(ls);
            let width = (ls.bin.bbox().x_max - ls.bin.bbox().x_min) as f64;
            let w = want.iter().enumerate().position(|(k, (b, wd, its))| {
                !used[k] && (if f.strip.is_some() { (wd - width).abs() < tol } else { *b == ls.bin.id }) && multiset_match(&got, its, 2.0 * tol)
            });
            let Some(w) = w else {
                return Err(format!("re-imported layout in bin {} has {got:?}, the solution has {want:?}", ls.bin.id));
            };
            used[w] = true;
        }
        ensure!(sol2.placed_item_qtys == sol.placed_item_qtys, "re-imported quantities {:?}, before {:?}", sol2.placed_item_qtys, sol.placed_item_qtys);
        ensure!((sol2.usage - sol.usage).abs() < 1e-3, "re-imported usage {}, before {}", sol2.usage, sol.usage);
        l.transitions += 1;
    }
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    install_log_sink();
    // ---- items
    let mut rings: Vec<Poly> = vec![];
    for (i, p) in lattice_polys(3, 3, 4, false).into_iter().chain(lattice_polys(3, 3, 5, false)).chain(lattice_polys(4, 3, 4, false)).enumerate() {
        if i % ctx.pick(7, 1) == 0 {
            rings.push(p);
        }
    }
    for z in ["C", "star", "spiral", "sliver", "ngon"] {
        rings.push(zshape(z));
    }
    let frames: [(f64, P); 4] = [(1.0, (0.0, 0.0)), (1.0, (7.5, -3.25)), (0.01, (0.5, 0.5)), (100.0, (-2000.0, 900.0))];
    ctx.family("item shapes", (rings.len() * 4 * 2 * 2 * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let center = d.take(2) == 1;
        let closed = d.take(2) == 1;
        let rev = d.take(2) == 1;
        let fr = frames[d.take(4)];
        let mut ring = shifted(&scaled(&rings[d.take(rings.len())], fr.0), fr.1);
        ring = ring.iter().map(|p| (p.0 as fsize as f64, p.1 as fsize as f64)).collect();
        if rev {
            ring.reverse();
        }
        let s = ring.len() / 2;
        ring.rotate_left(s);
        let f = FInstance { items: vec![item(FShape::Simple { ring, closed })], bins: vec![], strip: Some(10.0), nulls: rev };
        let parser = Parser::new(PolySimplConfig::Disabled, light(), center);
        let inst = parser.parse(&f.read()?);
        l.states += 1;
        l.transitions += 1;
        instance_ok(&inst, &f).map_err(|m| format!("centering {center}, {:?}: {m}", f.items[0].shape))
    });
    // ---- item attributes, two items at a time (parsed in parallel)
    let rots: Vec<Option<Vec<f64>>> = vec![
        None,
        Some(vec![]),
        Some(vec![0.0]),
        Some(vec![90.0]),
        Some(vec![180.0]),
        Some(vec![0.0, 180.0]),
        Some(vec![0.0, 90.0, 180.0, 270.0]),
        Some(vec![30.0, 211.0]),
        Some(vec![-45.0, 0.0]),
        Some(vec![360.0]),
    ];
    let demands = [0u64, 1, 2, 1000];
    let values = [None, Some(0u64), Some(9), Some(1 << 40)];
    let quals = [None, Some(0usize), Some(1), Some(5), Some(9)];
    let nattr = rots.len() * demands.len() * values.len() * quals.len();
    ctx.family("item attributes", (nattr * 2 * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let center = d.take(2) == 1;
        let nulls = d.take(2) == 1;
        let a = d.take(nattr);
        let mk = |a: usize, s: FShape| {
            let mut d = Dec(a as u64);
            FItem { shape: s, rots: rots[d.take(rots.len())].clone(), demand: demands[d.take(demands.len())], value: values[d.take(values.len())], quality: quals[d.take(quals.len())] }
        };
        let f = FInstance {
            items: vec![mk(a, FShape::Rect(2.0, 5.0)), mk((a * 7 + 13) % nattr, simple(&zshape("tri"))), mk((a * 3 + 1) % nattr, FShape::Rect(1.0, 1.0))],
            bins: vec![],
            strip: Some(3.5),
            nulls,
        };
        let parser = Parser::new(PolySimplConfig::Disabled, light(), center);
        let inst = parser.parse(&f.read()?);
        l.states += 1;
        l.transitions += 1;
        instance_ok(&inst, &f).map_err(|m| format!("centering {center}: {m}"))
    });
    // ---- bins
    let outers: Vec<FShape> = vec![
        FShape::Rect(20.0, 10.0),
        FShape::Rect(7.0, 31.0),
        simple(&shifted(&ip(&[(0, 0), (20, 0), (20, 10), (8, 10), (8, 18), (0, 18)]), (-33.0, 12.0))),
        FShape::Simple { ring: shifted(&scaled(&zshape("ngon"), 4.0), (5.0, 5.0)), closed: true },
        FShape::WithHoles { ring: rect(-10.0, -10.0, 12.0, 11.0), holes: vec![], closed: false },
        FShape::WithHoles { ring: rect(-10.0, -10.0, 12.0, 11.0), holes: vec![rect(-8.0, -8.0, -6.0, -5.0)], closed: true },
        FShape::WithHoles {
            ring: shifted(&ip(&[(0, 0), (24, 0), (20, 20), (0, 16)]), (100.0, 50.0)),
            holes: vec![shifted(&zshape("tri"), (102.0, 52.0)), shifted(&zshape("diamond"), (110.0, 55.0)), rect(103.0, 60.0, 104.0, 63.0)],
            closed: false,
        },
    ];
    let zone_sets: Vec<Vec<usize>> = {
        // every assignment of qualities to up to two zones, a few to three
        let q = [0usize, 1, 4, 9];
        let mut v = vec![vec![]];
        v.extend(q.iter().map(|a| vec![*a]));
        for a in q {
            for b in q {
                v.push(vec![a, b]);
            }
        }
        v.extend([vec![2, 2, 2], vec![5, 3, 5], vec![0, 9, 0]]);
        v
    };
    let stocks = [None, Some(0u64), Some(1), Some(17)];
    let costs = [0u64, 1, 250, 1 << 50];
    let nbin = outers.len() * zone_sets.len() * stocks.len() * costs.len();
    ctx.family("bins", (nbin * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let center = d.take(2) == 1;
        let a = d.take(nbin);
        let mk = |a: usize| {
            let mut d = Dec(a as u64);
            let shape = outers[d.take(outers.len())].clone();
            let zs = &zone_sets[d.take(zone_sets.len())];
            let b = geo::bbox(&shape.outer());
            let zones = zs
                .iter()
                .enumerate()
                .map(|(k, q)| {
                    let x = b.0 + 1.0 + k as f64 * 1.5;
                    let y = b.1 + 2.0;
                    let s = match (k, a % 3) {
                        (0, 0) => FShape::Rect(1.25, 2.0),
                        (1, _) => FShape::Simple { ring: vec![(x, y), (x + 1.0, y), (x, y + 2.0)], closed: true },
                        _ => simple(&rect(x, y, x + 1.0, y + 1.0)),
                    };
                    (*q, s)
                })
                .collect();
            FBin { shape, cost: costs[d.take(costs.len())], stock: stocks[d.take(stocks.len())], zones }
        };
        let f = FInstance { items: vec![item(FShape::Rect(1.0, 1.0))], bins: vec![mk(a), mk((a * 5 + 3) % nbin), mk((a * 11 + 7) % nbin)], strip: None, nulls: a % 2 == 0 };
        let parser = Parser::new(PolySimplConfig::Disabled, light(), center);
        let inst = parser.parse(&f.read()?);
        l.states += 1;
        l.transitions += 1;
        instance_ok(&inst, &f).map_err(|m| format!("centering {center}: {m}"))?;
        // the instance itself survives being written (as the output file does)
        let again: JsonInstance = serde_json::from_str(&serde_json::to_string(&f.read()?).unwrap()).map_err(|e| format!("written instance cannot be read: {e}"))?;
        instance_ok(&parser.parse(&again), &f).map_err(|m| format!("after writing the instance: {m}"))
    });
    // ---- conservative import
    // ---- layouts in bins
    for center in [true, false] {
        let f = layout_instance(false);
        let Some(inst) = ctx.setup("instance", || Parser::new(PolySimplConfig::Disabled, light(), center).parse(&f.read().unwrap())) else { continue };
        let mut opts: Vec<Pl> = vec![];
        for bin in 0..3 {
            for it in 0..3 {
                for (k, rot) in [0.0, std::f64::consts::FRAC_PI_2, 2.5, -1.1].iter().enumerate() {
                    for (j, t) in [(3.0, 2.0), (-4.25, 1.5)].iter().enumerate() {
                        if ctx.quick() && ((bin + it + k + j) % 2 == 1 || bin == 2 && k > 0) {
                            continue;
                        }
                        opts.push(Pl { bin, item: it, rot: *rot, t: (t.0 + it as f64 * 0.5, t.1 + k as f64) });
                    }
                }
            }
        }
        let n = opts.len();
        let Instance::BP(bpi) = inst.clone() else { unreachable!() };
        // all pairs, and all triples over a subset that has both bins, all items and several rotations
        let few: Vec<Pl> = opts.iter().enumerate().filter(|(k, _)| k % ctx.pick(3, 2) == 0).map(|x| *x.1).collect();
        let m = few.len();
        ctx.family(&format!("layouts in bins, centering {center}"), (n * n + m * m * m) as u64, |i, l| {
            let pls: Vec<Pl> = if (i as usize) < n * n {
                let mut d = Dec(i);
                vec![opts[d.take(n)], opts[d.take(n)]]
            } else {
                let mut d = Dec(i - (n * n) as u64);
                vec![few[d.take(m)], few[d.take(m)], few[d.take(m)]]
            };
            for fresh in 0..1usize << (pls.len() - 1) {
                // bit k: the (k+2)-nd item opens a new layout even if one with its bin is open
                let mut p = BPProblem::new(bpi.clone());
                let mut want: Vec<(usize, f64, Vec<(usize, Poly)>)> = vec![];
                let mut open: Vec<(LayoutIndex, usize)> = vec![];
                let mut skip = false;
                for (k, pl) in pls.iter().enumerate() {
                    let q = &inst.items()[pl.item];
                    if pls[..k].iter().filter(|o| o.item == pl.item).count() >= q.1 {
                        skip = true;
                        break;
                    }
                    let reuse = if k > 0 && fresh >> (k - 1) & 1 == 0 { open.iter().rposition(|o| bpi.bins[pl.bin].0.id == want[o.1].0) } else { None };
                    let li = match reuse {
                        Some(o) => open[o].0,
                        None => {
                            if want.iter().filter(|w| w.0 == pl.bin).count() >= bpi.bins[pl.bin].1 {
                                skip = true;
                                break;
                            }
                            LayoutIndex::Template(p.template_layouts().iter().position(|t| t.bin.id == pl.bin).ok_or("no template for bin")?)
                        }
                    };
                    let opt = PlacingOption { layout_idx: li, item_id: pl.item, d_transf: dt(pl.rot, pl.t) };
                    let (li, _) = p.place_item(opt);
                    let w = match reuse {
                        Some(o) => open[o].1,
                        None => {
                            want.push((pl.bin, 0.0, vec![]));
                            open.push((li, want.len() - 1));
                            want.len() - 1
                        }
                    };
                    // where the item is: its internal shape placed, in the bin's file coordinates
                    let placed = inst.item(pl.item).shape.transform_clone(&dt(pl.rot, pl.t).compose());
                    want[w].2.push((pl.item, in_file(&placed, &bpi.bins[pl.bin].0.pretransform)));
                }
                if skip {
                    continue;
                }
                p.flush_changes();
                let sol = p.create_solution(None);
                l.states += 1;
                export_ok(&sol, &inst, &f, &want, center, l).map_err(|m| format!("centering {center}, placements {pls:?}, fresh {fresh}: {m}"))?;
            }
            Ok(())
        });
        // ---- layouts in strips, at every extent of the strip
        let f = layout_instance(true);
        let Some(inst) = ctx.setup("instance", || Parser::new(PolySimplConfig::Disabled, light(), center).parse(&f.read().unwrap())) else { continue };
        let Instance::SP(spi) = inst.clone() else { unreachable!() };
        let mut opts: Vec<Pl> = vec![];
        for it in 0..3 {
            for (k, rot) in [0.0, std::f64::consts::FRAC_PI_2, 2.5].iter().enumerate() {
                for x in [5.0, 14.0] {
                    opts.push(Pl { bin: 0, item: it, rot: *rot, t: (x, 4.5 + 0.1 * k as f64) });
                }
            }
        }
        let n = opts.len();
        ctx.family(&format!("layouts in strips, centering {center}"), (n * n * 5) as u64, |i, l| {
            let mut d = Dec(i);
            let ext = d.take(5);
            let pls = [opts[d.take(n)], opts[d.take(n)]];
            let mut p = SPProblem::new(spi.clone(), 30.0, light());
            let cnt = if pls[0].item == pls[1].item && pls[0].t.0 == pls[1].t.0 { 1 } else { 2 };
            let mut pts = vec![];
            for pl in &pls[..cnt] {
                let it = inst.item(pl.item);
                // put the centroid of the item where the option says, whatever its own origin is
                let c = geo::rot(geo::centroid(&from_sp(&it.shape)), pl.rot);
                let t = dt(pl.rot, (pl.t.0 - c.0, pl.t.1 - c.1));
                p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: pl.item, d_transf: t });
                pts.push((pl.item, from_sp(&it.shape.transform_clone(&t.compose()))));
            }
            p.flush_changes();
            let all: Vec<P> = pts.iter().flat_map(|x| x.1.clone()).collect();
            let bb = geo::bbox(&all);
            let (x0, w) = match ext {
                0 => (0.0, 30.0),
                1 => {
                    p.fit_strip();
                    // how tightly it fits is the subject of C06
                    let b = crate::scene::bbox_of(p.layout.bin.outer.as_ref());
                    (b.0, b.2 - b.0)
                }
                2 => {
                    p.modify_strip_in_back(41.5);
                    (0.0, 41.5)
                }
                3 => {
                    p.modify_strip_at_front(44.0);
                    (-14.0, 44.0)
                }
                _ => {
                    p.modify_strip_centered(37.0);
                    ((bb.0 + bb.2) / 2.0 - 18.5, 37.0)
                }
            };
            if p.placed_item_qtys().sum::<usize>() != cnt {
                l.out("an item no longer fits");
                return Ok(());
            }
            let sol = p.create_solution(None);
            l.states += 1;
            let want = vec![(0, w, pts.iter().map(|(i, q)| (*i, shifted(q, (-x0, 0.0)))).collect())];
            export_ok(&sol, &inst, &f, &want, center, l).map_err(|m| format!("centering {center}, extent {ext}, placements {pls:?}: {m}"))
        });
    }
    // ---- items and bins turned and moved beforehand, once or twice
    let f = layout_instance(false);
    let rg = rigids();
    let rb: Vec<usize> = if ctx.quick() { vec![0, 2, 3, 5] } else { (0..rg.len()).collect() };
    if let Some(pre) = ctx.setup("pre-transformed instances", || pretransformed(&f, &rg)) {
        let pls: Vec<(usize, f64, P)> = [0.0, 2.5].iter().flat_map(|r| (0..3).map(move |k| (k, *r, (3.0 - k as f64, 2.0 + r)))).collect();
        ctx.family("pre-transformed instances", (rg.len() * rb.len() * pls.len() * pls.len() * 2) as u64, |i, l| {
            let mut d = Dec(i);
            let (bin, a, b) = (d.take(2), d.take(rg.len()), rb[d.take(rb.len())]);
            let (p1, p2) = (pls[d.take(pls.len())], pls[d.take(pls.len())]);
            let inst = pre.with(a, b);
            instance_ok(&inst, &f).map_err(|m| format!("items by {:?}, bins by {:?}: {m}", rg[a], rg[b]))?;
            let Instance::BP(bpi) = &inst else { unreachable!() };
            let mut p = BPProblem::new(bpi.clone());
            let mut li = LayoutIndex::Template(p.template_layouts().iter().position(|t| t.bin.id == bin).ok_or("no template for bin")?);
            let mut want = vec![(bin, 0.0, vec![])];
            for (k, rot, t) in [p1, p2] {
                li = p.place_item(PlacingOption { layout_idx: li, item_id: k, d_transf: dt(rot, t) }).0;
                want[0].2.push((k, in_file(&inst.item(k).shape.transform_clone(&dt(rot, t).compose()), &bpi.bins[bin].0.pretransform)));
                if p1 == p2 {
                    break;
                }
            }
            p.flush_changes();
            l.states += 1;
            export_ok(&p.create_solution(None), &inst, &f, &want, false, l).map_err(|m| format!("items by {:?}, bins by {:?}, placements {p1:?} {p2:?}: {m}", rg[a], rg[b]))
        });
    }
    // ---- many of everything
    for center in [false, true] {
        let f = many_instance(false);
        let Some(inst) = ctx.setup("large instance", || Parser::new(PolySimplConfig::Disabled, light(), center).parse(&f.read().unwrap())) else { continue };
        let (ni, nb) = (f.items.len(), f.bins.len());
        let counts: Vec<usize> = ctx.pick(vec![2, ni], vec![1, 2, 5, ni]);
        ctx.family(&format!("large instance, centering {center}"), (nb * ni * counts.len()) as u64, |i, l| {
            let mut d = Dec(i);
            let (bin, first, n) = (d.take(nb), d.take(ni), counts[d.take(counts.len())]);
            if ctx.quick() && (bin + first) % 2 != 0 {
                return Ok(());
            }
            if i == 0 {
                instance_ok(&inst, &f)?;
            }
            let Instance::BP(bpi) = &inst else { unreachable!() };
            let mut p = BPProblem::new(bpi.clone());
            let mut want = vec![];
            // items one after the other, each layout with up to three of them, in this and the next kinds of bins
            for (k, c) in (0..n).collect::<Vec<_>>().chunks(3).enumerate() {
                let b = (bin + k) % nb;
                let mut li = LayoutIndex::Template(p.template_layouts().iter().position(|t| t.bin.id == b).ok_or("no template for bin")?);
                let mut lay = (b, 0.0, vec![]);
                for j in c {
                    let it = (first + j) % ni;
                    let t = dt(0.3 * *j as f64, (3.0 + *j as f64, 2.0 * *j as f64 - 4.0));
                    li = p.place_item(PlacingOption { layout_idx: li, item_id: it, d_transf: t }).0;
                    lay.2.push((it, in_file(&inst.item(it).shape.transform_clone(&t.compose()), &bpi.bins[b].0.pretransform)));
                }
                want.push(lay);
            }
            p.flush_changes();
            l.states += 1;
            export_ok(&p.create_solution(None), &inst, &f, &want, center, l).map_err(|m| format!("{n} items from {first} on in bins from {bin} on: {m}"))
        });
    }
    // ---- the output file holds the instance and the solution
    let f2 = [layout_instance(false), layout_instance(true)];
    ctx.family("output files", 2 * 3 * 4, |i, l| {
        let mut d = Dec(i);
        let f = &f2[d.take(2)];
        let it = d.take(3);
        let rot = [0.0, 1.0, -2.5, 3.0][d.take(4)];
        let ji = f.read()?;
        let inst = Parser::new(PolySimplConfig::Disabled, light(), true).parse(&ji);
        let t = dt(rot, (5.0, 4.5));
        let opt = |layout_idx| PlacingOption { layout_idx, item_id: it, d_transf: t };
        let sol = match &inst {
            Instance::BP(b) => {
                let mut p = BPProblem::new(b.clone());
                p.place_item(opt(LayoutIndex::Template(1)));
                p.create_solution(None)
            }
            Instance::SP(s) => {
                let mut p = SPProblem::new(s.clone(), 30.0, light());
                p.place_item(opt(STRIP_LAYOUT_IDX));
                p.create_solution(None)
            }
        };
        let config = lbf::lbf_config::LBFConfig::default();
        let js = compose_json_solution(&sol, &inst, sol.time_stamp);
        let want = serde_json::to_value(&js).unwrap();
        let out = lbf::io::json_output::JsonOutput { instance: ji, solution: js, config };
        let dir = std::env::temp_dir().join(format!("vh-c11-{}-{i}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = dir.join(format!("out{i}.json"));
        let r = guarded(|| {
            lbf::io::write_json_output(&out, &path);
            (lbf::io::read_json_instance(&path), std::fs::read_to_string(&path).unwrap())
        });
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&dir);
        let (ji2, text) = r?;
        let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        ensure!(same_json(&v["Solution"], &want), "the output file holds solution {}, expected {want}", v["Solution"]);
        let c2: lbf::lbf_config::LBFConfig = serde_json::from_value(v["Config"].clone()).map_err(|e| format!("config of the output file: {e}"))?;
        ensure!(same_json(&serde_json::to_value(c2).unwrap(), &serde_json::to_value(config).unwrap()), "the output file holds config {}", v["Config"]);
        l.states += 1;
        l.transitions += 1;
        instance_ok(&Parser::new(PolySimplConfig::Disabled, light(), false).parse(&ji2), f).map_err(|m| format!("instance in the output file: {m}"))
    });
}

/// chains of rigid pre-transformations
fn rigids() -> Vec<Vec<(f64, P)>> {
    vec![
        vec![],
        vec![(0.0, (7.0, -3.0))],
        vec![(0.7, (3.0, -2.0))],
        vec![(-2.0, (-10.0, 4.0)), (0.9, (2.0, 6.0))],
        vec![(std::f64::consts::FRAC_PI_2, (0.0, 0.0))],
        vec![(0.0, (4.0, 1.0)), (2.8, (-1.0, 0.5))],
    ]
}
/// every item and bin of an instance, moved by each chain
struct Pre {
    items: Vec<Vec<(Item, usize)>>,
    bins: Vec<Vec<(Bin, usize)>>,
}
impl Pre {
    fn with(&self, a: usize, b: usize) -> Instance {
        BPInstance::new(self.items[a].clone(), self.bins[b].clone()).into()
    }
}
fn pretransformed(f: &FInstance, rg: &[Vec<(f64, P)>]) -> Pre {
    let Instance::BP(b) = Parser::new(PolySimplConfig::Disabled, light(), false).parse(&f.read().unwrap()) else { panic!("not a bin packing instance") };
    let chain = |c: &[(f64, P)]| -> Vec<Transformation> { c.iter().map(|(r, t)| dt(*r, *t).compose()).collect() };
    Pre {
        items: rg.iter().map(|c| b.items.iter().map(|(i, q)| (chain(c).iter().fold(i.clone(), |i, t| pretransform_item(&i, t)), *q)).collect()).collect(),
        bins: rg.iter().map(|c| b.bins.iter().map(|(i, q)| (chain(c).iter().fold(i.clone(), |i, t| pretransform_bin(&i, t)), *q)).collect()).collect(),
    }
}

/// Equal up to the digits that single precision numbers are written with.
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same_json(p, q))),
        _ => match (a.as_f64(), b.as_f64()) {
            (Some(p), Some(q)) => (p - q).abs() <= 1e-6 * p.abs().max(q.abs()),
            _ => a == b,
        },
    }
}

/// Import with simplification: items, holes and zones only grow, bins only shrink (part of C10).
pub fn c10_import(ctx: &Ctx) {
    let mut shapes: Vec<Poly> = lattice_polys(4, 3, 5, true).into_iter().step_by(ctx.pick(23, 3)).collect();
    for z in ["C", "star", "spiral", "ngon", "cross", "comb", "arrow"] {
        shapes.push(zshape(z));
    }
    let tols = [0.01, 0.1, 0.3];
    ctx.family("import", (shapes.len() * 3 * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let center = d.take(2) == 1;
        let tol = tols[d.take(3)];
        let s = scaled(&shapes[d.take(shapes.len())], 4.0);
        let b = geo::bbox(&s);
        // a bin whose outline, hole and zone are all the shape (scaled about its own centre)
        let hole = shifted(&scaled(&s, 0.25), (b.0 + 40.0, b.1 + 40.0));
        let zone = shifted(&scaled(&s, 0.25), (b.0 + 60.0, b.1 + 40.0));
        let outer = shifted(&scaled(&s, 6.0), (3.0, -9.0));
        let f = FInstance {
            items: vec![item(simple(&s)), item(FShape::Simple { ring: shifted(&s, (100.0, 50.0)), closed: true })],
            bins: vec![
                FBin { shape: simple(&outer), cost: 1, stock: None, zones: vec![] },
                FBin { shape: FShape::WithHoles { ring: outer.clone(), holes: vec![hole.clone()], closed: true }, cost: 1, stock: None, zones: vec![(2, simple(&zone))] },
            ],
            strip: None,
            nulls: false,
        };
        let inst = Parser::new(PolySimplConfig::Enabled { tolerance: tol as fsize }, light(), center).parse(&f.read()?);
        l.states += 1;
        l.transitions += 1;
        let grown = |got: Poly, want: &Poly, what: &str| -> Result<(), String> {
            let m = 1e-4 * mag(want).max(mag(&got));
            ensure!(geo::protrudes(want, &got, m) != V::Yes, "tolerance {tol}: {what} {want:?} is imported as {got:?}, which does not contain it");
            let (a, b) = (geo::area(want), geo::area(&got));
            ensure!(b <= a * (1.0 + tol) + m * mag(want) * 4.0, "tolerance {tol}: {what} {want:?} grew from {a} to {b}");
            Ok(())
        };
        for (k, (it, _)) in inst.items().iter().enumerate() {
            grown(in_file(&it.shape, &it.pretransform), &f.items[k].shape.outer(), "item")?;
        }
        let Instance::BP(bp) = &inst else { return Err("not a bin packing instance".into()) };
        for (b, _) in &bp.bins {
            let got = in_file(&b.outer, &b.pretransform);
            let m = 1e-4 * mag(&outer);
            ensure!(geo::protrudes(&got, &outer, m) != V::Yes, "tolerance {tol}: bin {outer:?} is imported as {got:?}, which sticks out of it");
        }
        let b = &bp.bins[1].0;
        ensure!(b.holes.len() == 1, "hole lost");
        grown(in_file(&b.holes[0], &b.pretransform), &hole, "hole")?;
        let z = b.quality_zones[2].as_ref().ok_or("zone lost")?;
        ensure!(z.zones.len() == 1, "zone lost");
        grown(in_file(&z.zones[0], &b.pretransform), &zone, "zone")?;
        l.out(if bp.bins[0].0.outer.number_of_points() < outer.len() { "simplified" } else { "unchanged" });
        Ok(())
    });
}

// ------------------------------------------------------------------------ C18

#[derive(Clone, Debug, Default)]
struct El {
    tag: String,
    attr: BTreeMap<String, String>,
    kids: Vec<El>,
}
type M = [f64; 6]; // x' = a x + c y + e, y' = b x + d y + f
const ID: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
fn mul(m: M, n: M) -> M {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}
fn app(m: M, p: P) -> P {
    (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5])
}
fn nums(s: &str) -> Result<Vec<f64>, String> {
    s.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).map(|x| x.parse::<f64>().map_err(|_| format!("not a number: {x}"))).collect()
}
/// transform attribute per the SVG specification (applied left to right as matrix products)
fn transform(s: &str) -> Result<M, String> {
    let mut m = ID;
    let mut rest = s.trim_matches(|c: char| c.is_whitespace() || c == ',');
    while !rest.is_empty() {
        let o = rest.find('(').ok_or_else(|| format!("transform {s:?}"))?;
        let c = rest.find(')').ok_or_else(|| format!("transform {s:?}"))?;
        let a = nums(&rest[o + 1..c])?;
        let t = match (rest[..o].trim(), a.len()) {
            ("translate", 1) => [1.0, 0.0, 0.0, 1.0, a[0], 0.0],
            ("translate", 2) => [1.0, 0.0, 0.0, 1.0, a[0], a[1]],
            ("rotate", 1) | ("rotate", 3) => {
                let (sn, cs) = a[0].to_radians().sin_cos();
                let r = [cs, sn, -sn, cs, 0.0, 0.0];
                if a.len() == 3 {
                    mul(mul([1.0, 0.0, 0.0, 1.0, a[1], a[2]], r), [1.0, 0.0, 0.0, 1.0, -a[1], -a[2]])
                } else {
                    r
                }
            }
            ("scale", 1) => [a[0], 0.0, 0.0, a[0], 0.0, 0.0],
            ("scale", 2) => [a[0], 0.0, 0.0, a[1], 0.0, 0.0],
            ("matrix", 6) => [a[0], a[1], a[2], a[3], a[4], a[5]],
            _ => return Err(format!("transform {s:?}")),
        };
        m = mul(m, t);
        rest = rest[c + 1..].trim_matches(|c: char| c.is_whitespace() || c == ',');
    }
    Ok(m)
}
/// rings of a path (moveto, lineto, closepath, absolute or relative, horizontal and vertical lines)
fn rings(d: &str) -> Result<Vec<Poly>, String> {
    let mut s = String::new();
    for c in d.chars() {
        if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            s.push(' ');
            s.push(c);
            s.push(' ');
        } else if c == ',' {
            s.push(' ');
        } else {
            s.push(c);
        }
    }
    let tok: Vec<&str> = s.split_whitespace().collect();
    let mut out: Vec<Poly> = vec![];
    let mut cur: Poly = vec![];
    let (mut at, mut start) = ((0.0, 0.0), (0.0, 0.0));
    let mut cmd = ' ';
    let mut i = 0;
    let num = |i: &mut usize| -> Result<f64, String> {
        let v = tok.get(*i).ok_or("path ends early")?.parse().map_err(|_| format!("path {d:?}"))?;
        *i += 1;
        Ok(v)
    };
    while i < tok.len() {
        if tok[i].len() == 1 && tok[i].chars().next().unwrap().is_ascii_alphabetic() {
            cmd = tok[i].chars().next().unwrap();
            i += 1;
            if cmd == 'z' || cmd == 'Z' {
                out.push(std::mem::take(&mut cur));
                at = start;
                continue;
            }
        }
        let rel = cmd.is_ascii_lowercase();
        let b = if rel { at } else { (0.0, 0.0) };
        match cmd.to_ascii_uppercase() {
            'M' | 'L' => {
                let x = num(&mut i)? + b.0;
                let y = num(&mut i)? + b.1;
                at = (x, y);
                if cmd.to_ascii_uppercase() == 'M' {
                    if !cur.is_empty() {
                        out.push(std::mem::take(&mut cur));
                    }
                    start = at;
                    cmd = if rel { 'l' } else { 'L' };
                } else if cur.is_empty() {
                    cur.push(start);
                }
                cur.push(at);
            }
            'H' => {
                at.0 = num(&mut i)? + b.0;
                cur.push(at);
            }
            'V' => {
                at.1 = num(&mut i)? + b.1;
                cur.push(at);
            }
            _ => return Err(format!("path command {cmd}")),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    for r in out.iter_mut() {
        if r.len() > 1 && r[0] == r[r.len() - 1] {
            r.pop();
        }
    }
    Ok(out)
}

fn read_svg(text: &str) -> Result<El, String> {
    use svg::node::element::tag::Type;
    use svg::parser::Event;
    let mut stack: Vec<El> = vec![El::default()];
    for e in svg::read(text).map_err(|e| e.to_string())? {
        match e {
            Event::Tag(name, ty, attr) => {
                let el = || El { tag: name.to_string(), attr: attr.iter().map(|(k, v)| (k.clone(), v.to_string())).collect(), kids: vec![] };
                match ty {
                    Type::Start => stack.push(el()),
                    Type::Empty => stack.last_mut().unwrap().kids.push(el()),
                    Type::End => {
                        let e = stack.pop().ok_or("unbalanced")?;
                        ensure!(e.tag == name, "unbalanced <{}> closed by </{name}>", e.tag);
                        stack.last_mut().ok_or("unbalanced")?.kids.push(e);
                    }
                }
            }
            Event::Error(e) => return Err(format!("not well formed: {e}")),
            _ => {}
        }
    }
    ensure!(stack.len() == 1, "unclosed elements");
    stack.pop().unwrap().kids.into_iter().find(|e| e.tag == "svg").ok_or("no svg element".into())
}

fn by_id<'a>(e: &'a El, out: &mut BTreeMap<String, &'a El>) -> Result<(), String> {
    if let Some(i) = e.attr.get("id") {
        ensure!(out.insert(i.clone(), e).is_none(), "id {i} is used twice");
    }
    e.kids.iter().try_for_each(|k| by_id(k, out))
}

#[derive(Default)]
struct Drawn {
    /// (ring, referenced id or "" when drawn directly)
    rings: Vec<(Poly, String)>,
    uses: Vec<String>,
    /// (centre, radius, referenced id)
    circles: Vec<(P, f64, String)>,
}
/// everything that is drawn, in document coordinates; definitions are not drawn, references are
fn render(e: &El, m: M, via: &str, ids: &BTreeMap<String, &El>, out: &mut Drawn) -> Result<(), String> {
    let m = match e.attr.get("transform") {
        Some(t) => mul(m, transform(t)?),
        None => m,
    };
    match e.tag.as_str() {
        "defs" | "title" => Ok(()),
        "path" => {
            for r in rings(e.attr.get("d").ok_or("path without data")?)? {
                out.rings.push((r.into_iter().map(|p| app(m, p)).collect(), via.to_string()));
            }
            Ok(())
        }
        "circle" => {
            let n = |k: &str| e.attr.get(k).map_or(Ok(0.0), |v| v.parse::<f64>().map_err(|_| format!("circle with {k} = {v}")));
            // rigid transformations keep the radius
            out.circles.push((app(m, (n("cx")?, n("cy")?)), n("r")? * (m[0] * m[3] - m[1] * m[2]).abs().sqrt(), via.to_string()));
            Ok(())
        }
        "use" => {
            let h = e.attr.get("xlink:href").or(e.attr.get("href")).ok_or("use without reference")?;
            let id = h.strip_prefix('#').ok_or_else(|| format!("reference {h}"))?;
            let t = ids.get(id).ok_or_else(|| format!("reference to {id}, which is not defined"))?;
            out.uses.push(id.to_string());
            let n = |k: &str| e.attr.get(k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
            let m = mul(m, [1.0, 0.0, 0.0, 1.0, n("x"), n("y")]);
            render(t, m, id, ids, out)
        }
        _ => e.kids.iter().try_for_each(|k| render(k, m, via, ids, out)),
    }
}

/// (what, ring) expected in the drawing: outline, holes, zones and placed items, in file coordinates
fn expected(layout: &Layout) -> (Vec<Poly>, Vec<(usize, Poly)>) {
    let b = &layout.bin;
    let m = |s: &SimplePolygon| in_file(s, &b.pretransform);
    let mut st = vec![m(&b.outer)];
    st.extend(b.holes.iter().map(|h| m(h)));
    st.extend(b.quality_zones.iter().flatten().flat_map(|z| z.zones.iter()).map(|z| m(z)));
    let its = layout.placed_items().values().map(|pi| (pi.item_id, m(&pi.shape))).collect();
    (st, its)
}

pub fn svg_ok(text: &str, layout: &Layout, all_items: usize, o: &SvgDrawOptions) -> Result<(), String> {
    let root = read_svg(text)?;
    let mut ids = BTreeMap::new();
    by_id(&root, &mut ids)?;
    let mut dr = Drawn::default();
    // the optional overlays are drawn in their own group, after everything else
    let (mut main, mut over) = (root.clone(), root.clone());
    main.kids.retain(|k| k.attr.get("id").map(|s| s.as_str()) != Some("optionals"));
    over.kids.retain(|k| k.attr.get("id").map(|s| s.as_str()) == Some("optionals"));
    render(&main, ID, "", &ids, &mut dr)?;
    let (st, its) = expected(layout);
    let tol = 4e-3 * (1.0 + st[0].iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs())) / 100.0);
    let direct: Vec<(usize, Poly)> = dr.rings.iter().filter(|r| r.1.is_empty()).map(|r| (0, r.0.clone())).collect();
    let want: Vec<(usize, Poly)> = st.iter().map(|r| (0, r.clone())).collect();
    ensure!(multiset_match(&direct, &want, tol), "the drawing shows {direct:?} for the bin, its holes and zones, expected {want:?}");
    let items: Vec<(usize, Poly)> = dr.rings.iter().filter(|r| !r.1.is_empty()).map(|r| Ok((r.1.strip_prefix("item_").ok_or("a reference that is not to an item")?.parse::<usize>().map_err(|e| e.to_string())?, r.0.clone()))).collect::<Result<_, String>>()?;
    ensure!(multiset_match(&items, &its, tol), "the drawing shows items {items:?}, the layout has {its:?}");
    ensure!((0..all_items).all(|i| ids.contains_key(&format!("item_{i}"))), "an item of the instance is not defined");
    // the view shows the whole bin
    let vb = nums(root.attr.get("viewBox").ok_or("no view box")?)?;
    let b = geo::bbox(&st[0]);
    ensure!(vb.len() == 4 && vb[0] <= b.0 + tol && vb[1] <= b.1 + tol && vb[0] + vb[2] >= b.2 - tol && vb[1] + vb[3] >= b.3 - tol, "view box {vb:?} does not show the bin {b:?}");
    // overlays
    let mut ov = Drawn::default();
    render(&over, ID, "", &ids, &mut ov)?;
    if o.surrogate {
        let mut u: Vec<String> = ov.uses.clone();
        u.sort();
        let mut w: Vec<String> = its.iter().map(|(i, _)| format!("surrogate_{i}")).collect();
        w.sort();
        ensure!(u == w, "surrogates drawn for {u:?}, expected {w:?}");
        // the poles lie in the items they are drawn for, and every item has some
        let inside = |c: &(P, f64, String), p: &Poly| geo::inside(c.0, p) && geo::dist_border(c.0, p) >= c.1 - tol;
        let surr: Vec<_> = ov.circles.iter().filter(|c| !c.2.is_empty()).collect();
        for c in &surr {
            ensure!(its.iter().any(|(i, p)| c.2 == format!("surrogate_{i}") && inside(c, p)), "the pole {c:?} is drawn outside of its item");
        }
        for (i, p) in &its {
            ensure!(surr.iter().any(|c| c.2 == format!("surrogate_{i}") && inside(c, p)), "no pole is drawn in item {i} at {p:?}");
        }
    }
    let inv = |p: P| {
        let q = jagua_rs::geometry::primitives::point::Point(p.0 as fsize, p.1 as fsize).transform_clone(&layout.bin.pretransform.clone().inverse());
        (q.0 as f64, q.1 as f64)
    };
    let corners = |b: &jagua_rs::geometry::primitives::aa_rectangle::AARectangle| -> Poly { rect(b.x_min as f64, b.y_min as f64, b.x_max as f64, b.y_max as f64).into_iter().map(inv).collect() };
    if o.quadtree {
        // the leaves of the tree fill its box
        let root = corners(&layout.cde().quadtree().bbox);
        let leaves: Vec<&Poly> = ov.rings.iter().filter(|r| r.1.is_empty()).map(|r| &r.0).collect();
        let (sum, whole) = (leaves.iter().map(|r| geo::area(r).abs()).sum::<f64>(), geo::area(&root).abs());
        ensure!((sum - whole).abs() < 1e-3 * whole, "the nodes of the quadtree drawn cover {sum}, its box {whole}");
        for p in leaves.iter().flat_map(|r| r.iter()) {
            ensure!(geo::inside(*p, &root) || geo::dist_border(*p, &root) < tol, "a node of the quadtree is drawn at {p:?}, outside its box {root:?}");
        }
    }
    if o.haz_prox_grid {
        let grid = layout.cde().haz_prox_grid().map_err(|_| "no grid")?;
        let key = |p: P| ((p.0 / (8.0 * tol)).floor() as i64, (p.1 / (8.0 * tol)).floor() as i64);
        let near = |map: &BTreeMap<(i64, i64), Vec<(P, f64)>>, p: P| -> Vec<(P, f64)> {
            let k = key(p);
            (-1..2).flat_map(|a| (-1..2).map(move |b| (k.0 + a, k.1 + b))).filter_map(|k| map.get(&k)).flatten().filter(|q| (q.0 .0 - p.0).hypot(q.0 .1 - p.1) < tol).copied().collect()
        };
        let mut drawn: BTreeMap<(i64, i64), Vec<(P, f64)>> = BTreeMap::new();
        ov.circles.iter().filter(|c| c.2.is_empty()).for_each(|c| drawn.entry(key(c.0)).or_default().push((c.0, c.1)));
        let mut cells: BTreeMap<(i64, i64), Vec<(P, f64)>> = BTreeMap::new();
        for c in grid.grid.cells.iter().flatten() {
            let (at, r) = (inv((c.centroid.0 as f64, c.centroid.1 as f64)), c.hazard_proximity(None) as f64);
            cells.entry(key(at)).or_default().push((at, r));
            ensure!(near(&drawn, at).iter().any(|d| (d.1 - r).abs() < tol), "the cell at {at:?} is not drawn with its proximity {r}");
        }
        for d in drawn.values().flatten() {
            ensure!(!near(&cells, d.0).is_empty(), "a cell is drawn at {:?}, where the grid has none", d.0);
        }
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    for (strip, center) in [(false, true), (false, false), (true, true), (true, false)] {
        let f = layout_instance(strip);
        let Some(inst) = ctx.setup("instance", || Parser::new(PolySimplConfig::Disabled, light(), center).parse(&f.read().unwrap())) else { continue };
        let mut opts: Vec<(usize, f64, P)> = vec![];
        for it in 0..3 {
            for (k, rot) in [0.0, std::f64::consts::FRAC_PI_2, std::f64::consts::PI, 2.5, -1.1].iter().enumerate() {
                for t in [(3.0, 2.0), (-4.25, 1.5), (31.0, -0.5)] {
                    if ctx.quick() && (it + k) % 2 == 1 && t.0 > 30.0 {
                        continue;
                    }
                    opts.push((it, *rot, (t.0 + it as f64 * 0.5, t.1 + k as f64)));
                }
            }
        }
        let n = opts.len();
        let bins: Vec<Bin> = match &inst {
            Instance::BP(b) => b.bins.iter().map(|b| b.0.clone()).collect(),
            Instance::SP(s) => [(0.0, 30.0), (5.25, 22.0), (-14.0, 44.0)]
                .iter()
                .map(|(x, w)| Bin::from_strip(jagua_rs::geometry::primitives::aa_rectangle::AARectangle::new(*x as fsize, 0.0, (x + w) as fsize, s.strip_height), light()))
                .collect(),
        };
        let dos: Vec<SvgDrawOptions> = (0..8)
            .map(|b| SvgDrawOptions {
                theme: if b % 2 == 0 { SvgLayoutTheme::earth_tones() } else { SvgLayoutTheme::gray() },
                quadtree: b & 1 > 0,
                haz_prox_grid: b & 2 > 0,
                surrogate: b & 4 > 0,
            })
            .collect();
        let name = format!("{} {}", if strip { "strips" } else { "bins" }, if center { "centred" } else { "as given" });
        // every ordered pair of placements (and every single one, and none) in every bin
        ctx.family(&format!("drawings of {name}"), (bins.len() * (n * n + n + 1)) as u64, |i, l| {
            let mut d = Dec(i);
            let b = d.take(bins.len());
            let k = d.take(n * n + n + 1);
            let pls: Vec<(usize, f64, P)> = if k == 0 { vec![] } else if k <= n { vec![opts[k - 1]] } else { vec![opts[(k - 1 - n) / n], opts[(k - 1 - n) % n]] };
            let mut lay = Layout::new(0, bins[b].clone());
            let mut keys = vec![];
            for p in &pls {
                // the layout of a collision-free problem does not matter to the drawing
                if pls.len() == 2 && pls[0] == pls[1] && !keys.is_empty() {
                    break;
                }
                keys.push(lay.place_item(inst.item(p.0), dt(p.1, p.2)));
            }
            // one draw option per case in turn, all of them for layouts with at most one item
            for (oi, o) in dos.iter().enumerate() {
                if pls.len() == 2 && oi as u64 != (i / 7) % 8 {
                    continue;
                }
                let desc = || format!("bin {b}, items {pls:?}, options {}{}{}", o.quadtree as u8, o.haz_prox_grid as u8, o.surrogate as u8);
                let a = layout_to_svg(&lay, &inst, *o).to_string();
                svg_ok(&a, &lay, 3, o).map_err(|m| format!("{}: {m}", desc()))?;
                l.states += 1;
                l.transitions += 1;
                let snap = lay.create_snapshot();
                let s = s_layout_to_svg(&snap, &inst, *o).to_string();
                svg_ok(&s, &lay, 3, o).map_err(|m| format!("of the snapshot: {}: {m}", desc()))?;
                l.transitions += 1;
                if let Some(k) = keys.first() {
                    // history: removing an item removes it from the drawing, and not from the snapshot's
                    let mut l2 = lay.clone();
                    l2.remove_item(*k, oi % 2 == 0);
                    if o.haz_prox_grid {
                        // the grid may only be looked at when all changes are flushed
                        l2.flush_changes();
                    }
                    svg_ok(&layout_to_svg(&l2, &inst, *o).to_string(), &l2, 3, o).map_err(|m| format!("after removing an item: {}: {m}", desc()))?;
                    svg_ok(&s_layout_to_svg(&snap, &inst, *o).to_string(), &lay, 3, o).map_err(|m| format!("of the snapshot, after removing an item: {}: {m}", desc()))?;
                    l.transitions += 2;
                }
            }
            Ok(())
        });
    }
    // many of everything
    for strip in [false, true] {
        let f = many_instance(strip);
        let Some(inst) = ctx.setup("large instance", || Parser::new(PolySimplConfig::Disabled, light(), true).parse(&f.read().unwrap())) else { continue };
        let bins: Vec<Bin> = match &inst {
            Instance::BP(b) => b.bins.iter().map(|b| b.0.clone()).collect(),
            Instance::SP(s) => vec![Bin::from_strip(jagua_rs::geometry::primitives::aa_rectangle::AARectangle::new(0.0, 0.0, 70.0, s.strip_height), light())],
        };
        let ni = f.items.len();
        ctx.family(&format!("drawings of a large instance, {}", if strip { "strip" } else { "bins" }), (bins.len() * ni * 4 * 8) as u64, |i, l| {
            let mut d = Dec(i);
            let (b, first, n, bits) = (d.take(bins.len()), d.take(ni), [1, 2, 5, ni + 3][d.take(4)], d.take(8));
            if ctx.quick() && ![0, 1 + (b + first) % 7].contains(&bits) {
                return Ok(());
            }
            let mut lay = Layout::new(3, bins[b].clone());
            for j in 0..n {
                lay.place_item(inst.item((first + j) % ni), dt(0.7 * j as f64, (j as f64, 7.0 - 0.5 * j as f64)));
            }
            lay.flush_changes();
            let o = SvgDrawOptions { theme: SvgLayoutTheme::earth_tones(), quadtree: bits & 1 > 0, haz_prox_grid: bits & 2 > 0, surrogate: bits & 4 > 0 };
            let desc = || format!("bin {b}, {n} items from {first} on, options {bits:03b}");
            svg_ok(&layout_to_svg(&lay, &inst, o).to_string(), &lay, ni, &o).map_err(|m| format!("{}: {m}", desc()))?;
            svg_ok(&s_layout_to_svg(&lay.create_snapshot(), &inst, o).to_string(), &lay, ni, &o).map_err(|m| format!("of the snapshot, {}: {m}", desc()))?;
            l.states += 1;
            l.transitions += 2;
            Ok(())
        });
    }
    // items and bins turned and moved beforehand
    let f = layout_instance(false);
    let rg = rigids();
    let Some(pre) = ctx.setup("pre-transformed instances", || pretransformed(&f, &rg)) else { return };
    ctx.family("drawings of pre-transformed instances", (rg.len() * rg.len() * 2 * 3 * 3) as u64, |i, l| {
        let mut d = Dec(i);
        let (a, b, bin, k, r) = (d.take(rg.len()), d.take(rg.len()), d.take(2), d.take(3), [0.0, 1.2, -2.9][d.take(3)]);
        let inst = pre.with(a, b);
        let mut lay = Layout::new(0, pre.bins[b][bin].0.clone());
        lay.place_item(inst.item(k), dt(r, (3.0, 2.5)));
        lay.place_item(inst.item((k + 1) % 3), dt(-r, (-1.0, 4.5)));
        for bits in [0, 7] {
            let o = SvgDrawOptions { theme: SvgLayoutTheme::gray(), quadtree: bits & 1 > 0, haz_prox_grid: bits & 2 > 0, surrogate: bits & 4 > 0 };
            svg_ok(&layout_to_svg(&lay, &inst, o).to_string(), &lay, 3, &o).map_err(|m| format!("items by {:?}, bins by {:?}, bin {bin}, item {k} turned by {r}: {m}", rg[a], rg[b]))?;
            svg_ok(&s_layout_to_svg(&lay.create_snapshot(), &inst, o).to_string(), &lay, 3, &o).map_err(|m| format!("of the snapshot, items by {:?}, bins by {:?}, bin {bin}, item {k} turned by {r}: {m}", rg[a], rg[b]))?;
            l.states += 1;
            l.transitions += 2;
        }
        Ok(())
    });
    let _ = Instant::now;
}
