//! C19: the command line tool, run as a process in a scratch folder of its own.
use crate::c_io::{install_log_sink, item, same_ring, simple, svg_ok, FBin, FInstance, FItem, FShape};
use crate::c_lbf::{asset, containers, feasible_json, fingerprint, item_sets};
use crate::core::{guarded, Ctx, Dec, Local};
use crate::ensure;
use crate::scene::zshape;
use crate::shapes::rect;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::solution::Solution;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::{compose_json_solution, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::rngs::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

static NEXT: AtomicU64 = AtomicU64::new(0);

/// a folder that is removed again, whatever happens
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("vh-cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Scratch(p)
    }
    fn put(&self, name: &str, text: &str) -> PathBuf {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).expect("folder");
        std::fs::write(&p, text).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn tool() -> PathBuf {
    std::env::var("VERIF_CLI").map(PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap().with_file_name("lbfcli"))
}
/// runs the tool, optionally with a limit on the size of files it may write; returns the exit code (None: signal)
fn run(cwd: &Path, args: &[String], limit: Option<u64>) -> Result<(Option<i32>, String), String> {
    let mut c = match limit {
        None => Command::new(tool()),
        Some(n) => {
            // writes beyond the limit fail with an error, they do not end the process
            let mut c = Command::new("/bin/bash");
            c.args(["-c", "trap '' XFSZ; exec prlimit --fsize=\"$0\" \"$@\"", &n.to_string()]).arg(tool());
            c
        }
    };
    c.args(args).current_dir(cwd).stdin(Stdio::null()).env_remove("RUST_BACKTRACE");
    let o = c.output().map_err(|e| format!("cannot start the tool: {e}"))?;
    Ok((o.status.code(), String::from_utf8_lossy(&o.stderr).chars().take(300).collect()))
}

/// a configuration file, field by field
#[derive(Clone)]
struct Conf {
    depth: u64,
    cells: u64,
    poles: (f64, u64, u64, u64),
    simpl: Option<f64>,
    seed: Option<u64>,
    n: u64,
    ls: f64,
    svg: Option<u8>,
}
impl Conf {
    fn json(&self) -> Value {
        let mut v = json!({
            "cde_config": {"quadtree_depth": self.depth, "hpg_n_cells": self.cells, "item_surrogate_config":
                {"pole_coverage_goal": self.poles.0, "max_poles": self.poles.1, "n_ff_poles": self.poles.2, "n_ff_piers": self.poles.3}},
            "poly_simpl_tolerance": self.simpl, "prng_seed": self.seed, "n_samples": self.n, "ls_frac": self.ls,
        });
        if let Some(b) = self.svg {
            v["svg_draw_options"] = json!({"quadtree": b & 1 > 0, "haz_prox_grid": b & 2 > 0, "surrogate": b & 4 > 0});
        }
        v
    }
    /// the configuration as the library has it, built without reading a file
    fn lib(&self) -> LBFConfig {
        let mut c = LBFConfig::default();
        c.cde_config.quadtree_depth = self.depth as u8;
        c.cde_config.hpg_n_cells = self.cells as usize;
        let s = &mut c.cde_config.item_surrogate_config;
        s.pole_coverage_goal = self.poles.0 as jagua_rs::fsize;
        s.max_poles = self.poles.1 as usize;
        s.n_ff_poles = self.poles.2 as usize;
        s.n_ff_piers = self.poles.3 as usize;
        c.poly_simpl_tolerance = self.simpl.map(|t| t as jagua_rs::fsize);
        c.prng_seed = self.seed;
        c.n_samples = self.n as usize;
        c.ls_frac = self.ls as f32;
        let b = self.svg.unwrap_or(0);
        c.svg_draw_options.quadtree = b & 1 > 0;
        c.svg_draw_options.haz_prox_grid = b & 2 > 0;
        c.svg_draw_options.surrogate = b & 4 > 0;
        c
    }
}
fn confs() -> Vec<Option<Conf>> {
    let c = |depth, cells, poles, simpl, seed, n, ls, svg| Some(Conf { depth, cells, poles, simpl, seed, n, ls, svg });
    vec![
        c(3, 100, (0.5, 2, 1, 0), None, Some(0), 150, 0.2, None),
        c(5, 300, (0.6, 3, 2, 0), Some(0.02), Some(7), 200, 0.3, Some(7)),
        c(0, 2, (0.5, 1, 0, 0), None, Some(u64::MAX), 180, 0.0, Some(1)),
        c(2, 400, (0.55, 2, 1, 1), Some(0.001), Some(1 << 33), 300, 0.7, Some(4)),
        c(4, 36, (0.7, 2, 0, 0), None, None, 160, 0.15, Some(2)),
        None,
    ]
}
/// what the library finds for this configuration and its seed
fn by_library(ji: &JsonInstance, c: &LBFConfig) -> Result<(Instance, Solution), String> {
    let ps = match c.poly_simpl_tolerance {
        None => PolySimplConfig::Disabled,
        Some(tolerance) => PolySimplConfig::Enabled { tolerance },
    };
    guarded(|| {
        let inst = Parser::new(ps, c.cde_config, true).parse(ji);
        let sol = LBFOptimizer::new(inst.clone(), *c, SmallRng::seed_from_u64(c.prng_seed.unwrap_or(0))).solve();
        (inst, sol)
    })
}
fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() <= 1e-6 * (1.0 + x.as_f64().unwrap().abs()),
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(x, y)),
        // every field asked for is there
        (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, x)| y.get(k).is_some_and(|y| near(x, y))),
        _ => a == b,
    }
}
/// the layouts of a solution, the placed items in a fixed order
fn layouts(v: &Value) -> Result<Vec<(Value, Vec<String>, Value)>, String> {
    v["Layouts"]
        .as_array()
        .ok_or("no layouts")?
        .iter()
        .map(|l| {
            let mut it: Vec<String> = l["PlacedItems"].as_array().ok_or("no placed items")?.iter().map(|p| p.to_string()).collect();
            it.sort();
            Ok((l["Container"].clone(), it, l["Statistics"].clone()))
        })
        .collect()
}
fn same_instance(a: &FInstance, b: &FInstance) -> bool {
    let shape = |x: &FShape, y: &FShape| {
        let (hx, hy) = (x.holes(), y.holes());
        same_ring(&x.outer(), &y.outer(), 1e-4) && hx.len() == hy.len() && hx.iter().zip(&hy).all(|(p, q)| same_ring(p, q, 1e-4))
    };
    let stock = |s: &FBin| s.stock.unwrap_or(u64::MAX);
    a.items.len() == b.items.len()
        && a.bins.len() == b.bins.len()
        && a.strip.is_some() == b.strip.is_some()
        && a.strip.zip(b.strip).is_none_or(|(x, y)| (x - y).abs() < 1e-5)
        && a.items.iter().zip(&b.items).all(|(x, y)| shape(&x.shape, &y.shape) && x.demand == y.demand && x.rots == y.rots && x.quality == y.quality && x.value == y.value)
        && a.bins.iter().zip(&b.bins).all(|(x, y)| {
            shape(&x.shape, &y.shape) && x.cost == y.cost && stock(x) == stock(y) && x.zones.len() == y.zones.len() && x.zones.iter().zip(&y.zones).all(|(p, q)| p.0 == q.0 && shape(&p.1, &q.1))
        })
}
/// the files a run has left: everything below the folder
fn files(dir: &Path) -> Vec<String> {
    let mut v = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else {
                v.push(e.path().strip_prefix(dir).unwrap().to_string_lossy().into_owned());
            }
        }
    }
    v.sort();
    v
}
/// Are the files in `folder` the complete and right output for this input?
fn complete(folder: &Path, stem: &str, f: &FInstance, conf: &Option<Conf>, want: Option<&(Instance, Solution)>, secs: u64, l: &mut Local) -> Result<(), String> {
    let path = folder.join(format!("sol_{stem}.json"));
    let text = std::fs::read_to_string(&path).map_err(|e| format!("sol_{stem}.json: {e}"))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("sol_{stem}.json is not JSON: {e}"))?;
    let lc = conf.as_ref().map(|c| c.lib()).unwrap_or_default();
    // the instance
    let back = guarded(|| asset(path.to_str().unwrap())).and_then(|r| r).map_err(|m| format!("the instance in the output: {m}"))?;
    ensure!(same_instance(f, &back) && v["Name"] == "generated", "the output holds another instance than the input: {}", text.chars().take(400).collect::<String>());
    // the configuration
    let cj = conf.as_ref().map(|c| c.json()).unwrap_or_else(|| json!({"n_samples": lc.n_samples, "prng_seed": lc.prng_seed, "ls_frac": lc.ls_frac, "poly_simpl_tolerance": lc.poly_simpl_tolerance}));
    ensure!(near(&cj, &v["Config"]), "the output holds the configuration {} instead of {cj}", v["Config"]);
    // the solution
    let sol = &v["Solution"];
    feasible_json(sol, f, l)?;
    let run_time = sol["RunTimeSec"].as_u64().ok_or("no run time")?;
    ensure!(run_time <= secs, "the run took less than {secs} s, reported are {run_time}");
    let n = sol["Layouts"].as_array().unwrap().len();
    if let Some((inst, want)) = want {
        // both through text, so that numbers read alike
        let w = serde_json::to_string(&compose_json_solution(want, inst, want.time_stamp)).map_err(|e| e.to_string())?;
        let w: Value = serde_json::from_str(&w).map_err(|e| e.to_string())?;
        let (a, b) = (layouts(sol)?, layouts(&w)?);
        ensure!(a == b, "the output holds another solution than the optimizer finds with this seed: {a:?} instead of {b:?}");
        ensure!(near(&sol["Usage"], &w["Usage"]), "usage {} instead of {}", sol["Usage"], w["Usage"]);
        // the output can be read back as an instance with the same content
        let ji: JsonInstance = serde_json::from_str(&text).map_err(|e| format!("the output is no instance: {e}"))?;
        let ps = lc.poly_simpl_tolerance.map(|tolerance| PolySimplConfig::Enabled { tolerance }).unwrap_or(PolySimplConfig::Disabled);
        if l.traces % 8 == 0 {
            ensure!(fingerprint(&guarded(|| Parser::new(ps, lc.cde_config, true).parse(&ji))?) == fingerprint(inst), "the instance in the output is imported differently from the input");
        }
    }
    // one drawing per layout
    let mut expect = vec![format!("sol_{stem}.json")];
    for i in 0..n {
        let name = format!("sol_{stem}_{i}.svg");
        let text = std::fs::read_to_string(folder.join(&name)).map_err(|e| format!("{name}: {e}"))?;
        ensure!(text.trim_end().ends_with("</svg>"), "{name} is cut off");
        if let Some((_, want)) = want {
            let lay = Layout::from_snapshot(&want.layout_snapshots[i]);
            svg_ok(&text, &lay, f.items.len(), &lc.svg_draw_options).map_err(|m| format!("{name}: {m}"))?;
        }
        expect.push(name);
    }
    let got = files(folder);
    expect.sort();
    ensure!(got == expect, "the solution folder holds {got:?} instead of {expect:?}");
    l.states += 1;
    l.transitions += 1 + n as u64;
    Ok(())
}
fn small(strip: bool) -> FInstance {
    FInstance {
        items: vec![
            FItem { demand: 2, rots: Some(vec![0.0, 90.0]), ..item(FShape::Rect(3.0, 2.0)) },
            FItem { demand: 2, rots: None, quality: Some(2), value: Some(11), ..item(simple(&zshape("tri"))) },
        ],
        bins: if strip { vec![] } else { vec![FBin { shape: FShape::Rect(5.0, 4.5), cost: 3, stock: Some(9), zones: vec![(1, simple(&rect(0.5, 0.5, 1.0, 1.0)))] }] },
        strip: strip.then_some(6.0),
        nulls: false,
    }
}

pub fn c19(ctx: &Ctx) {
    install_log_sink();
    if !tool().exists() {
        eprintln!("the tool was not built: {}", tool().display());
        std::process::exit(2);
    }
    let s = |x: &str| x.to_string();
    let p = |x: &Path| x.to_str().unwrap().to_string();
    // ---- what a run writes
    let (sets, cons, cfs) = (item_sets(), containers(), confs());
    ctx.family("instances and configurations", (sets.len() * cons.len() * cfs.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (si, ci, fi) = (d.take(sets.len()), d.take(cons.len()), d.take(cfs.len()));
        if cons[ci].2.is_some() && sets[si].0 == "does not fit" {
            return Ok(());
        }
        // 5000 samples for every item
        if ctx.quick() && cfs[fi].is_none() && !["single small items", "nothing demanded of one"].contains(&sets[si].0) {
            return Ok(());
        }
        let f = FInstance { items: sets[si].1.clone(), bins: cons[ci].1.clone(), strip: cons[ci].2, nulls: i % 2 == 0 };
        let conf = &cfs[fi];
        let desc = format!("{} into {}, configuration {:?}", sets[si].0, cons[ci].0, conf.as_ref().map(|c| c.json().to_string()));
        let t = Scratch::new();
        let input = t.put("in/case.json", &f.json().to_string());
        let out = t.0.join("out");
        let mut args = vec![s("-i"), p(&input), s("-s"), p(&out)];
        if let Some(c) = conf {
            args.extend([s("-c"), p(&t.put("config.json", &serde_json::to_string_pretty(&c.json()).unwrap()))]);
        }
        let t0 = Instant::now();
        let (rc, err) = run(&t.0, &args, None)?;
        let secs = t0.elapsed().as_secs() + 1;
        ensure!(rc == Some(0), "{desc}: ended with {rc:?}: {err}");
        let lc = conf.as_ref().map(|c| c.lib()).unwrap_or_default();
        let want = match lc.prng_seed {
            Some(_) => Some(by_library(&f.read()?, &lc).map_err(|m| format!("{desc}: {m}"))?),
            None => None,
        };
        complete(&out, "case", &f, conf, want.as_ref(), secs, l).map_err(|m| format!("{desc}: {m}"))?;
        l.out(if want.is_some() { "fixed seed" } else { "entropy" });
        Ok(())
    });
    // ---- one item per bin: many layouts, many drawings
    let counts = [2u64, 10, 13, 33, 101];
    ctx.family("many layouts", (counts.len() * 3) as u64, |i, l| {
        let mut d = Dec(i);
        let (n, conf) = (counts[d.take(counts.len())], &cfs[[0, 2, 4][d.take(3)]]);
        let mut f = small(false);
        f.items = vec![FItem { demand: n / 2, rots: Some(vec![0.0]), ..item(FShape::Rect(4.0, 4.0)) }, FItem { demand: n - n / 2, rots: Some(vec![0.0]), ..item(FShape::Rect(3.5, 3.75)) }];
        f.bins[0].stock = Some(n);
        f.bins[0].zones.clear();
        let desc = format!("{n} bins with one item each, configuration {}", conf.as_ref().unwrap().json());
        let t = Scratch::new();
        let input = t.put("in/case.json", &f.json().to_string());
        let out = t.0.join("out");
        let c = t.put("config.json", &conf.as_ref().unwrap().json().to_string());
        let t0 = Instant::now();
        let (rc, err) = run(&t.0, &[s("-i"), p(&input), s("-s"), p(&out), s("-c"), p(&c)], None)?;
        let secs = t0.elapsed().as_secs() + 1;
        ensure!(rc == Some(0), "{desc}: ended with {rc:?}: {err}");
        let lc = conf.as_ref().unwrap().lib();
        let want = match lc.prng_seed {
            Some(_) => Some(by_library(&f.read()?, &lc).map_err(|m| format!("{desc}: {m}"))?),
            None => None,
        };
        complete(&out, "case", &f, conf, want.as_ref(), secs, l).map_err(|m| format!("{desc}: {m}"))?;
        l.out(if files(&out).len() > 10 { "more than ten files" } else { "few files" });
        Ok(())
    });
    // ---- ways to call it: options, log levels, names, state of the solution folder
    let levels = [None, Some("off"), Some("error"), Some("warn"), Some("info"), Some("debug"), Some("trace")];
    let names = ["a.json", "two words.json", "dots.in.name.json", "noext", "sub/folder/x.json", "sol_y.json", "ünï.txt", "_0.json", "z_1.json"];
    // 0: there, 1: absent, 2: absent with parents, 3: there with longer old files, 4: relative, 5: with trailing slash, 6: next to the input
    let situations = 7usize;
    let conf = confs()[0].clone();
    let wanted: Vec<Option<(Instance, Solution)>> = [false, true].iter().map(|b| ctx.setup("library run", || by_library(&small(*b).read().unwrap(), &conf.as_ref().unwrap().lib()).unwrap())).collect();
    ctx.family("ways to call the tool", (levels.len() * names.len() * situations * 2 * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let (lv, nm, sit, long, strip) = (levels[d.take(levels.len())], names[d.take(names.len())], d.take(situations), d.take(2) == 1, d.take(2) == 1);
        let f = small(strip);
        let t = Scratch::new();
        let mut input = p(&t.put(&format!("in/{nm}"), &f.json().to_string()));
        let stem = Path::new(nm).file_stem().unwrap().to_str().unwrap().to_string();
        let out = if sit == 2 { t.0.join("deep/er/out") } else { t.0.join("out") };
        let mut folder = p(&out);
        match sit {
            0 => std::fs::create_dir_all(&out).unwrap(),
            3 => {
                let old = "old content\n".repeat(20_000);
                let n = wanted[strip as usize].as_ref().ok_or("no reference")?.1.layout_snapshots.len();
                t.put(&format!("out/sol_{stem}.json"), &old);
                for k in 0..n {
                    t.put(&format!("out/sol_{stem}_{k}.svg"), &old);
                }
            }
            4 => {
                folder = s("out");
                input = format!("in/{nm}");
            }
            5 => folder.push('/'),
            _ => {}
        }
        let cf = p(&t.put("config.json", &conf.as_ref().unwrap().json().to_string()));
        let o = |a: &str, b: &str| s(if long { b } else { a });
        let mut args = vec![o("-c", "--config-file"), cf, o("-s", "--solution-folder"), folder, o("-i", "--input-file"), input];
        if let Some(v) = lv {
            args.extend([o("-l", "--log-level"), s(v)]);
        }
        let desc = format!("{args:?}, situation {sit}");
        let (rc, err) = run(&t.0, &args, None)?;
        ensure!(rc == Some(0), "{desc}: ended with {rc:?}: {err}");
        complete(&out, &stem, &f, &conf, wanted[strip as usize].as_ref(), 60, l).map_err(|m| format!("{desc}: {m}"))?;
        ensure!(files(&t.0.join("in")) == vec![nm.to_string()], "{desc}: the folder of the input now holds {:?}", files(&t.0.join("in")));
        Ok(())
    });
    // ---- input that is no instance: an error, and no solution
    let good = small(false).json().to_string();
    let gconf = conf.as_ref().unwrap().json().to_string();
    let mut bad: Vec<(String, Option<String>, Option<String>)> = vec![]; // (what, instance, configuration)
    let step = ctx.pick(5usize, 1);
    for n in (0..good.len()).step_by(step) {
        bad.push((format!("instance file cut off after {n} bytes"), Some(good[..n].into()), Some(gconf.clone())));
    }
    for n in (0..gconf.len()).step_by(step) {
        bad.push((format!("configuration file cut off after {n} bytes"), Some(good.clone()), Some(gconf[..n].into())));
    }
    bad.push((s("no instance file"), None, Some(gconf.clone())));
    bad.push((s("no configuration file"), Some(good.clone()), None));
    let edits: Vec<(&str, Box<dyn Fn(&mut Value)>)> = vec![
        ("both bins and a strip", Box::new(|v| v["Strip"] = json!({"Height": 5.0}))),
        ("neither bins nor a strip", Box::new(|v| drop(v.as_object_mut().unwrap().remove("Objects")))),
        ("no items", Box::new(|v| drop(v.as_object_mut().unwrap().remove("Items")))),
        ("an item without demand", Box::new(|v| drop(v["Items"][1].as_object_mut().unwrap().remove("Demand")))),
        ("an item with negative demand", Box::new(|v| v["Items"][1]["Demand"] = json!(-1))),
        ("an item without shape", Box::new(|v| drop(v["Items"][0].as_object_mut().unwrap().remove("Shape")))),
        ("an item of an unknown shape", Box::new(|v| v["Items"][0]["Shape"]["Type"] = json!("Blob"))),
        ("a bin without shape", Box::new(|v| drop(v["Objects"][0].as_object_mut().unwrap().remove("Shape")))),
        ("a zone without quality", Box::new(|v| drop(v["Objects"][0]["Zones"][0].as_object_mut().unwrap().remove("Quality")))),
        ("a zone of a quality that does not exist", Box::new(|v| v["Objects"][0]["Zones"][0]["Quality"] = json!(99))),
    ];
    for (what, e) in &edits {
        let mut v: Value = serde_json::from_str(&good).unwrap();
        e(&mut v);
        bad.push((s(what), Some(v.to_string()), Some(gconf.clone())));
    }
    for k in ["cde_config", "n_samples", "ls_frac"] {
        let mut v: Value = serde_json::from_str(&gconf).unwrap();
        v.as_object_mut().unwrap().remove(k);
        bad.push((format!("configuration without {k}"), Some(good.clone()), Some(v.to_string())));
        v[k] = json!("text");
        bad.push((format!("configuration with text for {k}"), Some(good.clone()), Some(v.to_string())));
    }
    ctx.family("input that cannot be used", (bad.len() * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let there = d.take(2) == 1;
        let (what, inst, cf) = &bad[d.take(bad.len())];
        let t = Scratch::new();
        let out = t.0.join("out");
        if there {
            std::fs::create_dir_all(&out).unwrap();
        }
        let (ip, cp) = (t.0.join("x.json"), t.0.join("c.json"));
        inst.as_ref().map(|x| t.put("x.json", x));
        cf.as_ref().map(|x| t.put("c.json", x));
        let (rc, _) = run(&t.0, &[s("-l"), s("off"), s("-i"), p(&ip), s("-s"), p(&out), s("-c"), p(&cp)], None)?;
        ensure!(rc != Some(0), "{what}: the tool reports success");
        ensure!(rc.is_some(), "{what}: the tool was ended by a signal");
        ensure!(files(&out).is_empty(), "{what}: the tool has written {:?}", files(&out));
        l.states += 1;
        l.transitions += 1;
        Ok(())
    });
    let input_only: Vec<Vec<&str>> = vec![vec![], vec!["-i", "x.json"], vec!["-s", "out"], vec!["-i", "x.json", "-s", "out", "-l", "loud"], vec!["-i", "x.json", "-s", "out", "--speed"], vec!["-i", "out", "-s", "out"], vec!["-i", "x.json", "-s", "x.json"]];
    ctx.family("calls that cannot be served", input_only.len() as u64, |i, l| {
        let t = Scratch::new();
        t.put("x.json", &good);
        std::fs::create_dir_all(t.0.join("out")).unwrap();
        let args: Vec<String> = input_only[i as usize].iter().map(|x| s(x)).collect();
        let (rc, _) = run(&t.0, &args, None)?;
        ensure!(rc.is_some_and(|c| c != 0), "{args:?}: ended with {rc:?}");
        ensure!(files(&t.0) == ["x.json"] && std::fs::read_to_string(t.0.join("x.json")).unwrap() == good, "{args:?}: the folder holds {:?}", files(&t.0));
        l.states += 1;
        l.transitions += 1;
        Ok(())
    });
    // ---- writes that fail: success is only reported when everything is written
    let faults: Vec<(bool, FInstance, Vec<u64>)> = [false, true]
        .iter()
        .map(|strip| {
            let f = small(*strip);
            let t = Scratch::new();
            let input = t.put("x.json", &f.json().to_string());
            let cf = t.put("c.json", &gconf);
            let _ = run(&t.0, &[s("-i"), p(&input), s("-s"), p(&t.0.join("out")), s("-c"), p(&cf)], None);
            let sizes: Vec<u64> = files(&t.0.join("out")).iter().map(|n| std::fs::metadata(t.0.join("out").join(n)).map(|m| m.len()).unwrap_or(0)).collect();
            (*strip, f, sizes)
        })
        .collect();
    let mut cuts: Vec<(usize, u64)> = vec![];
    for (k, (_, _, sizes)) in faults.iter().enumerate() {
        let max = sizes.iter().copied().max().unwrap_or(0);
        let mut v: Vec<u64> = (0..max + 2).step_by(ctx.pick(61, 1)).collect();
        for z in sizes {
            v.extend([z.saturating_sub(1), *z, z + 1]);
        }
        v.sort();
        v.dedup();
        cuts.extend(v.into_iter().map(|n| (k, n)));
    }
    ctx.family("no room for a file beyond a size", cuts.len() as u64, |i, l| {
        let (k, limit) = cuts[i as usize];
        let (strip, f, sizes) = &faults[k];
        ensure!(!sizes.is_empty(), "the tool writes nothing");
        let t = Scratch::new();
        let input = t.put("x.json", &f.json().to_string());
        let cf = t.put("c.json", &gconf);
        let out = t.0.join("out");
        let (rc, err) = run(&t.0, &[s("-i"), p(&input), s("-s"), p(&out), s("-c"), p(&cf)], Some(limit))?;
        let desc = format!("{}, files limited to {limit} bytes (complete ones have {sizes:?})", if *strip { "strip" } else { "bins" });
        match rc {
            Some(0) => {
                complete(&out, "x", f, &conf, wanted[*strip as usize].as_ref(), 60, l).map_err(|m| format!("{desc}: the tool reports success, but {m}"))?;
                l.out("written");
            }
            Some(_) => {
                ensure!(sizes.iter().any(|z| *z > limit), "{desc}: the tool failed although there is room: {err}");
                l.out("failure reported");
            }
            None => return Err(format!("{desc}: the tool was ended by a signal")),
        }
        l.states += 1;
        l.transitions += 1;
        Ok(())
    });
    // a single output file that cannot be written: the device is full, or a folder is in its place
    let blocked: Vec<(usize, usize, bool)> = (0..2).flat_map(|k| (0..faults[k].2.len()).flat_map(move |j| [(k, j, false), (k, j, true)])).collect();
    ctx.family("one file cannot be written", blocked.len() as u64, |i, l| {
        let (k, j, full) = blocked[i as usize];
        let (_, f, sizes) = &faults[k];
        let t = Scratch::new();
        let input = t.put("x.json", &f.json().to_string());
        let cf = t.put("c.json", &gconf);
        let out = t.0.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let name = out.join(if j + 1 == sizes.len() { s("sol_x.json") } else { format!("sol_x_{j}.svg") });
        if full {
            std::os::unix::fs::symlink("/dev/full", &name).map_err(|e| e.to_string())?;
        } else {
            std::fs::create_dir_all(&name).unwrap();
        }
        let (rc, _) = run(&t.0, &[s("-i"), p(&input), s("-s"), p(&out), s("-c"), p(&cf)], None)?;
        ensure!(rc.is_some_and(|c| c != 0), "{} {}: the tool reports success ({rc:?})", name.file_name().unwrap().to_string_lossy(), if full { "on a full device" } else { "is a folder" });
        l.states += 1;
        l.transitions += 1;
        Ok(())
    });
}
