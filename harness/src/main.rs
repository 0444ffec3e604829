mod core;
mod geo;
mod shapes;
mod scene;
mod c_query;
mod c_entities;
mod c_history;
mod c_prims;
mod c_poly;
mod c_io;
mod c_filter;
mod c_lbf;
mod c_cli;

use crate::core::{install_panic_hook, Ctx, Tier};
use serde_json::{json, Value};

type CheckFn = fn(&Ctx);

struct Check {
    id: &'static str,
    f: CheckFn,
    bounds: &'static str,
    assumptions: &'static [&'static str],
}

const CHECKS: &[Check] = &[
    Check { id: "C01", f: c_query::c01, bounds: "quick: every pair of lattice polygons (triangles and quadrangles of a 3x3 lattice, every third/23rd) at every half-lattice offset and tree depth 0, 4; every pair of 12 concave shapes at scales (3, 0.35), (0.35, 3), (3, 1), (1, 3), 4 rotations, 19x19 offsets, the hazard as item, hole or bin outline; nine forms of coinciding sides x 4 frames x item/hole x depths x 3^8 last-bit displacements of the query's corners; six bins (square, wide with hole and zones, L with hole, 24-gon, comb, rasps) x every subset of 0, 1, 2 or all pool items x both registration orders x tree depths {0,2,3,5} ({1,4} at other scales: x50, and x16 at (2000, 9000), x1/1024) x every query placement (10 shapes x 3 rotations x lattice of positions) x ignore lists; a crowd (54 items, 12 zones, outlines of 160-300 edges) x groups of items x depths. thorough: every subset, depths 0..6 and 8, 5 rotations, finer lattice, four scales", assumptions: &["verdicts closer to touching than the tolerance band are unspecified and counted as 'too close to call'"] },
    Check { id: "C02", f: c_query::c02, bounds: "quick: the bins, queries and ignore lists of C01 with every subset of 0, 2, 3 or all pool items at depths {0,3,5}; the interlocked shapes and coinciding sides of C01; the surrogates of the query shapes; every segment, circle and rectangle of an 8x8 lattice over the bin's box at depths {0,2,4,6}; buffers empty or holding entries; the crowd of C01. thorough: all subsets, depths 0..6 / 0..8, 12x12 lattice", assumptions: &["contacts within the tolerance band may or may not be reported"] },
    Check { id: "C03", f: c_history::c03, bounds: "every sequence of register, deregister (immediate / deferred), commit, flush, clone, snapshot, restore over 2-4 hazards and 1-2 snapshot slots, of length 6-9 (quick) or 7-10 (thorough), in 5 bins and tree depths 0-6; 54 hazards registered and removed in three groups, length 5 (6); executed both as a tree with copies and from a fresh start without living copies", assumptions: &["no two placements of the same item at the identical position (excluded by the library's own assertions)"] },
    Check { id: "C07", f: c_history::c07, bounds: "every history as in C03 with the grid switched on (5 bins, 60-150 cells, 1 or 14 poles, length 6-7 / 7-8; 54 items in groups, length 5 / 6); every position of an item on a lattice in 6 bins for 2 (6) grid sizes, also at (2000, 9000), including bins one cell wide; every subset of pool items x 3 (7) grid sizes for the filter and the cover", assumptions: &["distances to items are measured to their poles, which is what the grid guarantees"] },
    Check { id: "C04", f: c_entities::c04, bounds: "every sequence of place, remove (immediate / deferred), change bin, clone, flush, snapshot, restore, build from snapshot over 2-4 items and 1-2 snapshots, length 4-6 (quick) or 5-7 (thorough), one pair of bins such that the change leaves items wholly outside; thirty items placed and removed at once, length 5 (6); with and without proximity grid; with and without living copies", assumptions: &["no two placements of the same item at the identical position"] },
    Check { id: "C05", f: c_entities::c05, bounds: "four alphabets of 6-15 operations, one that opens and closes many layouts (place in new / open layout, remove, remove layout, flush, solution with / without the previous one, restore), every sequence of length 6-7 (quick) or 7-8 (thorough); 2 bin types, 3 item types", assumptions: &["solutions are restored into the problem object (or a clone made before) that created them"] },
    Check { id: "C06", f: c_entities::c06, bounds: "five alphabets of 6-13 operations, one that places and removes many items at once (place, remove, resize at either end / centred, fit, solution, restore), every sequence of length 5 (quick) or 6-7 (thorough)", assumptions: &["fit is applied to strips that hold an item; strips near the origin (f32 resolution)"] },
    Check { id: "C08", f: c_poly::c08, bounds: "every lattice polygon with 3-6 (quick; thorough 3-9) vertices on 3x3 and up to 4 (5) on 4x4 lattices plus hand-picked shapes x pole configurations x 5 scale/offset frames; polygons of 40-560 vertices with 20-48 poles; piers for a subset of them; every pair of hazard and query polygon from two lists for the surrogate verdict", assumptions: &["slivers thinner than the pole search resolves are left out"] },
    Check { id: "C09", f: c_poly::c09, bounds: "every lattice polygon with 3-7 (9) vertices on 3x3 and up to 5 (6) on 4x4 lattices plus hand-picked shapes, every start vertex and both orientations x transformations x frames (one at (2000, 9000)); polygons of 40-560 vertices; every sequence of 5 (6) points of a 3x3 lattice for hulls", assumptions: &["membership of points on the border is unspecified"] },
    Check { id: "C10", f: c_poly::c10, bounds: "every lattice polygon as in C09 plus hand-picked shapes, tongues and polygons of 40-560 vertices, every start vertex x both modes x tolerances x frames; import with simplification for items, bins, holes and zones", assumptions: &[] },
    Check { id: "C11", f: c_io::c11, bounds: "every lattice ring in both orientations, open and closed, x item/bin/hole/zone roles x centering; every combination of the optional attributes; every layout of up to 2 items (3 from a smaller list) over 3 bins and strips of 5 widths; pre-transformed instances; an instance with 12 items, 12 bins, shapes of 150 vertices and zones of all qualities; output files read back", assumptions: &["items with holes are not supported by the library (documented as unimplemented)"] },
    Check { id: "C13", f: c_prims::c13, bounds: "every segment, rectangle and circle (radii from a list) on a 5x5 (6x6) lattice, every pair of them, in several scale/offset frames; every such pair with one moved by a hair (1/8192) to just hit or miss, at three scales; every sequence of 3 (4) circles for bounding circles, lists of up to 40 circles", assumptions: &["collinear overlap and tangency within rounding are unspecified"] },
    Check { id: "C14", f: c_prims::c14, bounds: "every sequence of 2 (3) operations from the full alphabet of rotations, translations, combined calls, inverses and decompositions; every sequence of 5 (6) from a small one", assumptions: &[] },
    Check { id: "C15", f: c_query::c15, bounds: "every point, segment and circle of an 8x8 (12x12) lattice over and around the box of every bin, for subsets of hazards, deferred removals and ignore lists, depths {0,2,4,6} (0..8)", assumptions: &[] },
    Check { id: "C12", f: c_lbf::c12, bounds: "item sets x containers x run configurations x removals x 8 (100) seeds; the same scaled by 5000, 37 and 0.01; every pair of stocks for the choice of layout; the instances bundled with the repository", assumptions: &["randomness is enumerated over seeds here and over scripted draws in C17"] },
    Check { id: "C16", f: c_filter::c16, bounds: "every single filter and every combination of up to 3 filters against every kind of hazard; lists of up to 66 hazards and combinations of up to 24 filters; items of every quality (None, 0..N) in bins whose three zones take every combination of qualities, all query placements", assumptions: &[] },
    Check { id: "C17", f: c_lbf::c17, bounds: "every script of the first 3 random words from an alphabet of extreme and ordinary words; every sequence of 3 (4) operations of the local sampler; every draw of the grid sampler over lattices of scripts; every script of length 7 (10) for a whole search, on several scenes", assumptions: &["after its scripted prefix the random source continues with a fixed sequence"] },
    Check { id: "C18", f: c_io::c18, bounds: "four instances x bins x every layout of up to two placed items, drawn as layout and snapshot with every overlay; pre-transformed instances; a large instance with up to 15 placed items; the document is parsed and its geometry recomputed", assumptions: &["drawing the grid overlay requires a flushed layout"] },
    Check { id: "C19", f: c_cli::c19, bounds: "the tool run as a process: 7 item sets x 7 containers x 6 configurations (one with entropy, one without file); 7 log levels x 9 input names x 7 states of the solution folder x short/long options x bins/strip; the instance and the configuration file cut off at every 5th (every) byte, 18 malformed ones; every limit on the file size in steps of 61 bytes (1 byte) and around the complete sizes; 2 to 101 layouts; each output file on a full device or replaced by a folder", assumptions: &["the tool is built from /repo/lbf/src/main.rs against the same libraries as the harness"] },
];

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

/// Known findings: lines `known: property=<id> key=<substring of message> <text>`.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={prop} "))?;
            let l = l.strip_prefix("case=")?;
            let (case, txt) = l.split_once(' ')?;
            Some((case.to_string(), txt.to_string()))
        })
        .collect()
}

pub fn finish(ctx: &Ctx) -> i32 {
    let totals = ctx.totals.lock().unwrap();
    let viol = ctx.violations.lock().unwrap();
    let known = known_findings(&ctx.prop);
    let mut fresh = 0;
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut vjson: Vec<Value> = vec![];
    for v in viol.iter() {
        let case = format!("{}#{}", v.family, v.index);
        if let Some((_, txt)) = known.iter().find(|(c, _)| *c == case) {
            println!("KNOWN-FINDING: property={} {} {}", ctx.prop, case, txt);
            continue;
        }
        fresh += 1;
        let fname: String = format!("{}-{}-{}.json", ctx.prop, v.family, v.index)
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() || ".-_".contains(c) { c } else { '_' })
            .collect();
        let path = rdir.join(fname);
        let tier = if ctx.quick() { "quick" } else { "thorough" };
        let body = json!({"property": ctx.prop, "tier": tier, "seed": ctx.seed,
            "family": v.family, "index": v.index, "message": v.message,
            "replay": format!("bash /verif/check.sh replay {}", path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("  {}: {}", case, v.message);
        println!("VIOLATION property={} replay={}", ctx.prop, path.display());
        vjson.push(body);
    }
    let c = CHECKS.iter().find(|c| c.id == ctx.prop);
    let fams = ctx.families.lock().unwrap();
    let exhaustive = fams.iter().all(|f| f["complete"] == json!(true));
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.quick() { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": {
            "states": totals.states.max(totals.traces),
            "transitions": totals.transitions.max(totals.traces),
            "traces_validated_against_impl": totals.traces,
            "exhaustive": exhaustive,
            "bounds": c.map(|c| c.bounds).unwrap_or(""),
            "families": *fams,
            "outcomes": totals.outcomes.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "samples": *ctx.samples.lock().unwrap(),
            "notes": *ctx.notes.lock().unwrap(),
        },
        "assumptions": c.map(|c| c.assumptions.to_vec()).unwrap_or_default(),
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": vjson,
    });
    if ctx.only.is_none() {
        let ed = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        if let Err(e) = std::fs::write(
            ed.join(format!("{}.json", ctx.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{}: executions={} states={} transitions={} violations={} [{:.1}s]",
        ctx.prop,
        totals.traces,
        totals.states,
        totals.transitions,
        fresh,
        ctx.start.elapsed().as_secs_f64()
    );
    if fresh > 0 {
        1
    } else if totals.traces == 0 && ctx.only.is_none() {
        eprintln!("nothing explored");
        2
    } else {
        0
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vh check <ID> <quick|thorough> | vh replay <file> | vh list");
        std::process::exit(2)
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in CHECKS {
                println!("{}", c.id);
            }
        }
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let tier = match args.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let Some(c) = CHECKS.iter().find(|c| c.id == id) else {
                eprintln!("unknown check {id}");
                std::process::exit(2)
            };
            let ctx = Ctx::new(&id, tier, seed);
            println!("checking {id} ({tier:?})");
            (c.f)(&ctx);
            std::process::exit(finish(&ctx));
        }
        Some("replay") => {
            let file = args.get(2).cloned().unwrap_or_else(|| usage());
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file"))
                .expect("replay json");
            let id = v["property"].as_str().expect("property").to_string();
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let mut ctx = Ctx::new(&id, tier, v["seed"].as_u64().unwrap_or(1));
            ctx.only = Some((
                v["family"].as_str().unwrap().to_string(),
                // without index: the whole family
                v["index"].as_u64().unwrap_or(u64::MAX),
            ));
            let c = CHECKS.iter().find(|c| c.id == id).expect("unknown property");
            (c.f)(&ctx);
            let bad = !ctx.violations.lock().unwrap().is_empty();
            std::process::exit(bad as i32);
        }
        _ => usage(),
    }
}
