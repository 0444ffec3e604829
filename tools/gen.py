#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "jagua-rs/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, tech=tech, note=note, claimed=claimed, reason=reason))

T = "the only tests run the LBF heuristic end to end on a few bundled instances and assert nothing about "

prop("C01", "A collision query answers exactly whether a placement collides",
     "For every bin, set of placed items and query shape, the engine reports a collision if and only if the interior of the shape really overlaps a placed item, leaves the bin, or overlaps a hole or a hazardous zone of the bin that is not ignored; the tree depth, the fail-fast surrogates, the order of registration and the shape's position relative to the internal subdivision never change the answer. Placements whose only contact is touching a border (within floating-point tolerance) are unspecified.",
     ["inputs", "configurations", "histories"],
     "all bins, placed items, query shapes and transformations, ignore filters, tree depths and surrogate configurations",
     T + "individual collision verdicts; geometry, tree depth and shortcuts combine into an unbounded space",
     [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard.rs", J+"collision_detection/quadtree/qt_partial_hazard.rs", J+"geometry/primitives/edge.rs", J+"geometry/primitives/simple_polygon.rs"],
     [("poly_collides, surrogate_collides and containment test", J+"collision_detection/cd_engine.rs"), ("quadtree collision descent", J+"collision_detection/quadtree/qt_node.rs"), ("subdivision of a hazard over quadrants", J+"collision_detection/quadtree/qt_hazard.rs")],
     [("quadtree", "subdivision of the bin with the hazards present per node", J+"collision_detection/quadtree/qt_node.rs")],
     ["CDEngine::poly_collides", "CDEngine::surrogate_collides"],
     "bounded-exhaustive exploration of the real engine: every subset of registered hazards x registration order x tree depth x ignored set x query placement in the stated worlds, plus every pair of small lattice polygons at every offset, each verdict compared with an independent double-precision overlap oracle")

prop("C02", "Collecting collisions reports exactly the colliding hazards",
     "For every state and shape, collecting the hazards a shape collides with reports every relevant hazard that it really overlaps and none that it does not overlap, none twice and none that is ignored or no longer present; the same holds for collecting the hazards that meet a segment, circle or rectangle inside the bin's box.",
     ["inputs", "configurations", "histories"],
     "all bins, placed items, query shapes and primitives, ignore filters and tree depths",
     T + "which hazards are reported; no test calls the collection API",
     [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs"],
     [("collect_poly_collisions / hazards_within", J+"collision_detection/cd_engine.rs"), ("collect_collisions descent", J+"collision_detection/quadtree/qt_node.rs")],
     [], ["CDEngine::collect_poly_collisions", "CDEngine::hazards_within"],
     "bounded-exhaustive exploration of the real engine: every subset of hazards x tree depth x ignored set x query in the stated worlds, reported sets compared with an independent overlap oracle per hazard")

prop("C03", "The engine's answers depend only on the hazards present, not on history",
     "After any sequence of registering and deregistering hazards (immediately or deferred), committing deferred removals, re-registering, cloning, creating snapshots and restoring them, every query answers exactly as a freshly built engine holding the same hazards would. A snapshot or clone is unaffected by later changes to the engine, and restoring it brings back exactly the hazards present when it was made.",
     ["histories", "configurations"],
     "all sequences of engine operations, for all bins, hazards and tree depths",
     T + "engine states; the heuristic only exercises one deterministic sequence of insertions",
     [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs", J+"collision_detection/quadtree/qt_partial_hazard.rs"],
     [("register_hazard, deregister_hazard, commit_deregisters", J+"collision_detection/cd_engine.rs"), ("create_snapshot, restore", J+"collision_detection/cd_engine.rs"), ("register/deregister/activate/deactivate in the tree", J+"collision_detection/quadtree/qt_node.rs")],
     [("dynamic hazards and uncommitted deregisters", "what is present and what still sits deactivated in the tree", J+"collision_detection/cd_engine.rs")],
     ["CDEngine queries after each step"],
     "explicit-state exploration of the real engine: depth-first search over all operation sequences up to the stated depth, after every step every probe's answer compared with the verdict for the reference set of hazards")

prop("C04", "Layouts stay consistent through placing, removing, swapping bins and restoring",
     "After any sequence of placing and removing items, changing the bin, cloning, creating snapshots and restoring them, a layout contains exactly the items that were placed and not removed with their placements, its usage is the area of those items over the area of its current bin, and its collision engine answers for exactly those items in that bin. Restoring a snapshot brings back the items and the bin of the moment it was made, and snapshots are never altered by later changes.",
     ["histories"],
     "all sequences of layout operations over all bins and items",
     T + "layout states; restore and change of bin are never called by a test",
     [J+"entities/layout.rs", J+"entities/placed_item.rs", J+"collision_detection/cd_engine.rs"],
     [("place_item, remove_item, change_bin, create_snapshot, restore", J+"entities/layout.rs")],
     [("placed items and engine", "the two representations of a layout that must agree", J+"entities/layout.rs")],
     ["Layout::placed_items", "Layout::usage", "Layout::cde"],
     "explicit-state exploration of the real layout: depth-first search over all operation sequences up to the stated depth, compared after every step with a reference model of the placed items and bin")

prop("C05", "Bin packing bookkeeping is exact under every history",
     "After any sequence of placing items in open or fresh bins, removing items or whole layouts, creating solutions and restoring them, the open layouts, the items in them, the missing quantity per item, the remaining stock per bin, the used bin cost and the overall usage are exactly those implied by the operations performed. Every solution records exactly the state at its creation, is not altered afterwards, and restoring it brings that state back from any later state.",
     ["histories", "inputs"],
     "all sequences of bin-packing operations over all instances, stocks and demands",
     T + "quantities, stock or restored solutions; they use one forward history per instance",
     [J+"entities/problems/bin_packing.rs", J+"entities/problems/problem_generic.rs", J+"entities/problems/problem.rs", J+"entities/solution.rs", J+"entities/instances/bin_packing.rs"],
     [("place_item, remove_item, remove_layout, create_solution, restore_to_solution", J+"entities/problems/bin_packing.rs"), ("register_included_item, usage, used_bin_cost, bin/item quantities", J+"entities/problems/problem_generic.rs")],
     [("missing item quantities, bin quantities, layouts", "the bookkeeping", J+"entities/problems/bin_packing.rs"), ("unmodified / uncommitted removed layouts", "what makes restoring incremental", J+"entities/problems/bin_packing.rs")],
     ["Problem and Solution accessors"],
     "explicit-state exploration of the real problem object: depth-first search over all operation sequences up to the stated depth, compared after every step with a reference model")

prop("C06", "Strip packing keeps its items and figures exact while the strip is resized",
     "After any sequence of placing and removing items, resizing the strip, fitting it to its items, creating solutions and restoring them, the placed items, missing quantities, strip width, height, usage, occupied width and cost are those implied by the operations, and collisions are answered for the current strip and items. Resizing never moves, drops or duplicates an item, fitting yields a strip that contains every item and is no longer than needed, and restoring a solution brings back its strip and items.",
     ["histories", "inputs"],
     "all sequences of strip-packing operations over all instances",
     T + "strip widths or restored solutions",
     [J+"entities/problems/strip_packing.rs", J+"entities/problems/problem_generic.rs", J+"entities/bin.rs", J+"entities/layout.rs"],
     [("modify_strip_in_back, fit_strip, modify_strip_width, restore_to_solution", J+"entities/problems/strip_packing.rs"), ("from_strip", J+"entities/bin.rs")],
     [("layout and its bin", "the strip at its current width", J+"entities/problems/strip_packing.rs")],
     ["Problem and Solution accessors", "Layout::cde"],
     "explicit-state exploration of the real problem object: depth-first search over all operation sequences up to the stated depth, compared after every step with a reference model")

prop("C07", "The proximity grid never hides a feasible position",
     "After any history of registering, removing, committing and restoring hazards, every cell of the proximity grid holds the true distance of its centre to the nearest hazard of each kind (within the cell-size tolerance the grid guarantees), as a grid built from scratch would. The filter built on it never rejects a position at which the item could be placed without collision, and the cells that exist cover every free position in the bin.",
     ["histories", "inputs", "configurations"],
     "all hazard histories, bins, grid resolutions and items",
     T + "grid contents; a wrong grid only silently removes good positions",
     [J+"collision_detection/hpg/hazard_proximity_grid.rs", J+"collision_detection/hpg/hpg_cell.rs", J+"collision_detection/hpg/boundary_fill.rs", J+"collision_detection/hpg/grid.rs", J+"collision_detection/hpg/grid_generator.rs"],
     [("register/deregister/flush/restore of the grid", J+"collision_detection/hpg/hazard_proximity_grid.rs"), ("cell update", J+"collision_detection/hpg/hpg_cell.rs"), ("boundary fill", J+"collision_detection/hpg/boundary_fill.rs"), ("grid generation", J+"collision_detection/hpg/grid_generator.rs")],
     [("per-cell hazard proximity", "distance to the bin/zone/item hazards", J+"collision_detection/hpg/hpg_cell.rs")],
     ["HazardProximityGrid cells through the engine"],
     "explicit-state exploration of the real grid: all operation sequences up to the stated depth and all placements on a lattice, every cell compared with distances recomputed from scratch by an independent oracle")

prop("C08", "Fail-fast surrogates never claim a collision that is not there",
     "For every simple polygon and surrogate configuration, the poles and piers generated for it lie inside the polygon, the bounding circle of the poles contains them all, the configured limits on their number and coverage are respected, and transforming the polygon transforms the surrogate with it. Hence a collision reported through a surrogate is always a collision of the polygon itself.",
     ["inputs", "configurations"],
     "all simple polygons, surrogate configurations and transformations",
     T + "surrogates; a pole or pier sticking out only makes some feasible placements look infeasible",
     [J+"geometry/fail_fast/sp_surrogate.rs", J+"geometry/fail_fast/poi.rs", J+"geometry/fail_fast/piers.rs"],
     [("generate_additional_surrogate_poles, generate_next_pole, pole of inaccessibility", J+"geometry/fail_fast/poi.rs"), ("generate_piers, clip", J+"geometry/fail_fast/piers.rs"), ("SPSurrogate::new and its transform", J+"geometry/fail_fast/sp_surrogate.rs")],
     [], ["SimplePolygon::surrogate", "CDEngine::surrogate_collides"],
     "bounded-exhaustive enumeration of all lattice polygons up to the stated size x surrogate configurations x transformations, every pole and pier of the real implementation compared with an independent containment oracle")

prop("C09", "Polygon measures and derived data are right and follow transformations",
     "For every simple polygon, area, bounding box, diameter, centroid, convex hull, pole of inaccessibility, edges and point membership agree with their mathematical definition, independent of the starting vertex and orientation in which the points were given. Transforming a polygon by any rotation and translation moves all derived data along with it, in place, as a copy, or into a reused buffer alike.",
     ["inputs"],
     "all simple polygons and rigid transformations",
     T + "geometry",
     [J+"geometry/primitives/simple_polygon.rs", J+"geometry/convex_hull.rs", J+"geometry/fail_fast/poi.rs"],
     [("SimplePolygon::new, transform, transform_from, collides_with", J+"geometry/primitives/simple_polygon.rs"), ("convex_hull_from_points", J+"geometry/convex_hull.rs"), ("pole of inaccessibility", J+"geometry/fail_fast/poi.rs")],
     [("area, bbox, diameter, poi, surrogate", "cached data of a polygon", J+"geometry/primitives/simple_polygon.rs")],
     ["SimplePolygon accessors"],
     "bounded-exhaustive enumeration of all lattice polygons up to the stated size, all rotations of their vertex list, both orientations and a set of transformations, executed on the real code and compared with an exact integer or double-precision oracle")

prop("C10", "Polygon simplification is conservative and bounded",
     "For every simple polygon and tolerance, simplifying in inflating mode yields a simple polygon that contains the original and in deflating mode one that is contained in it, with no more vertices than before, and with a total change of area within the given fraction of the original area and never without area. The importer inflates items, holes and zones and deflates bins, so that a layout that is feasible for the simplified shapes is feasible for the original ones.",
     ["inputs", "configurations"],
     "all simple polygons, tolerances and both modes",
     T + "simplified shapes; a non-conservative simplification produces layouts that overlap in reality",
     [J+"util/polygon_simplification.rs", J+"io/parser.rs"],
     [("simplify_shape and its candidate corners", J+"util/polygon_simplification.rs")],
     [], ["simplify_shape"],
     "bounded-exhaustive enumeration of all lattice polygons up to the stated size x tolerances x modes, output compared with an independent containment and area oracle")

prop("C11", "Instances and solutions survive import and export",
     "For every JSON instance, the parsed instance has the same items (shape, demand, value, allowed rotations, required quality) and bins or strip (shape, holes, quality zones, stock, cost) as the file, up to a fixed rigid pre-transformation per shape. For every layout of it, exporting gives for each placed item a transformation that puts the original shape exactly where the layout has it, with correct usage and bin, and importing that solution again rebuilds the same layouts.",
     ["inputs", "histories"],
     "all instances, and all layouts of them",
     T + "parsed contents or exported transformations; no solution is ever re-imported",
     [J+"io/parser.rs", J+"io/json_instance.rs", J+"io/json_solution.rs"],
     [("parse, parse_item, parse_bin, build_solution_from_json", J+"io/parser.rs"), ("compose_json_solution, internal/absolute transforms", J+"io/parser.rs")],
     [], ["Parser::parse", "Parser::parse_and_build_solution", "compose_json_solution"],
     "bounded-exhaustive enumeration of generated instances (shapes x offsets x demands x rotations x stock x cost x zones) and of all layouts of them up to a bound; parsed and exported data compared with a reference interpretation of the file, and re-import compared with the original")

prop("C12", "The left-bottom-fill optimizer returns feasible, accounted, reproducible layouts",
     "For every instance, configuration and seed, the solution returned has no overlapping items, every item inside its bin and clear of holes and of zones of insufficient quality, uses only allowed rotations, never places more of an item than demanded nor opens more bins than in stock. Strip packing places every demanded item (that fits the strip's height), and bin packing leaves out no item that fits easily into a bin still in stock and opens no bin while an open one has ample room; this holds again when items are removed and the optimizer is run once more. The same instance, configuration and seed give the same solution, and the input instance is left as it was.",
     ["inputs", "configurations", "histories"],
     "all instances, configurations and random seeds",
     "the tests run a few bundled instances with one seed and only check that the run ends without a panic",
     ["lbf/src/lbf_optimizer.rs", "lbf/src/lbf_cost.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs", "lbf/src/samplers/uniform_rect_sampler.rs"],
     [("solve, find_lbf_placement, sample_layout, item order", "lbf/src/lbf_optimizer.rs")],
     [], ["LBFOptimizer::solve"],
     "bounded-exhaustive exploration of the real optimizer over a product of small instances x configurations x seeds, every returned layout checked by an independent feasibility oracle")

prop("C13", "Geometric predicates and distances between primitives are correct",
     "For all points, segments, rectangles and circles, intersection and containment predicates, intersection points, point-to-primitive distances (plain, squared and to the border, with the inside or outside classification), rectangle subdivision and relations, and bounding circles agree with their mathematical definition (of closed sets; overlap of collinear segments and tangency within rounding are unspecified).",
     ["inputs"],
     "all pairs of primitives",
     T + "primitive predicates",
     [J+"geometry/primitives/edge.rs", J+"geometry/primitives/aa_rectangle.rs", J+"geometry/primitives/circle.rs", J+"geometry/primitives/point.rs", J+"geometry/geo_traits.rs", J+"geometry/geo_enums.rs"],
     [("CollidesWith / Distance / DistanceFromBorder / AlmostCollidesWith implementations", J+"geometry/primitives/")],
     [], ["collides_with", "distance", "distance_from_border"],
     "exhaustive enumeration of all pairs of primitives on a lattice (axis-parallel, diagonal, degenerate positions included), executed on the real predicates and compared with an exact rational or double-precision oracle")

prop("C14", "Transformations compose, invert and decompose correctly",
     "For all rotations and translations, composing transformations equals applying them one after the other, the inverse undoes a transformation, decomposing and recomposing gives back the same transformation, and rotating or translating an existing transformation in any order of calls has the effect of that sequence on every point.",
     ["inputs", "histories"],
     "all sequences of transformation operations on all points",
     T + "transformations directly",
     [J+"geometry/transformation.rs", J+"geometry/d_transformation.rs", J+"geometry/primitives/point.rs"],
     [("rotate, translate, transform, inverse, decompose", J+"geometry/transformation.rs"), ("DTransformation and its composition", J+"geometry/d_transformation.rs")],
     [], ["Transformation", "DTransformation", "Point::transform"],
     "explicit-state exploration: all sequences of transformation operations up to the stated depth on the real type, compared after every step with an independent double-precision affine map")

prop("C15", "Definite answers of the three-valued queries are never wrong",
     "For every state, segment, circle and point, when a three-valued query says that the primitive definitely collides it does collide with a hazard that is present and not ignored, and when it says that it definitely does not collide it is free of them; everything else is reported as undetermined.",
     ["inputs", "configurations", "histories"],
     "all bins, placed items, primitives, ignore filters and tree depths",
     T + "these shortcuts",
     [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs"],
     [("edge/circle/point definitely collides", J+"collision_detection/cd_engine.rs"), ("definitely_collides in the tree", J+"collision_detection/quadtree/qt_node.rs")],
     [], ["CDEngine::edge_definitely_collides", "CDEngine::circle_definitely_collides", "CDEngine::point_definitely_collides_with"],
     "bounded-exhaustive exploration of the real engine: every subset of hazards x tree depth x ignored set x primitive in the stated worlds, definite answers compared with an independent oracle")

prop("C16", "Quality zones and filters bind exactly the items they concern",
     "An item that requires a quality collides with exactly those zones of the bin whose quality is below what it requires and an item without requirement ignores none of them; filters built from hazard kinds, entities or quality, and any combination of them, make a query ignore precisely the hazards they describe and no others.",
     ["inputs", "configurations"],
     "all zones, required qualities, filters and placements",
     "the bundled test instances with zones only check that a run ends without a panic",
     [J+"collision_detection/hazard_filter.rs", J+"collision_detection/hazard.rs", J+"entities/item.rs", J+"entities/bin.rs", J+"entities/quality_zone.rs"],
     [("HazardFilter implementations, generate_irrelevant_hazards", J+"collision_detection/hazard_filter.rs"), ("hazard entities", J+"collision_detection/hazard.rs"), ("zones to hazards", J+"entities/bin.rs")],
     [], ["Item::hazard_filter", "CDEngine queries with a filter"],
     "bounded-exhaustive exploration: all assignments of qualities to zones x required qualities x filters x placements on the real engine, compared with the rule stated")

prop("C17", "Samplers only produce placements in the range they promise, for any randomness",
     "Whatever values the random source yields, samplers of positions and rotations only produce allowed rotations and positions in the region they were built for, the uniform ones can reach all of them, tightening a sampler by a best cost never removes a region that still holds a better placement, local sampling stays within the allowed rotations, around its current mean and spread, a free first sample is accepted, drawing more samples never gives a worse placement, and no sequence of draws makes them fail.",
     ["inputs", "histories"],
     "all values of the random source and all sequences of sampler calls",
     "the tests draw from one seed",
     ["lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs", "lbf/src/samplers/uniform_rect_sampler.rs", "lbf/src/lbf_cost.rs"],
     [("sample, tighten", "lbf/src/samplers/hpg_sampler.rs"), ("local sampler", "lbf/src/samplers/ls_sampler.rs"), ("rotation distributions", "lbf/src/samplers/rotation_distr.rs")],
     [], ["HPGSampler", "LSSampler", "UniformRotDistr", "NormalRotDistr"],
     "exhaustive exploration of all sequences of random choices on a lattice up to the stated length, through a scripted random source feeding the real samplers")

prop("C18", "The SVG export shows every item where the layout has it",
     "For every layout, the SVG export contains the bin with its holes and zones and, for every placed item and no other, a reference to that item's shape with a transformation that puts it where the layout has it; the view box shows the whole bin, and exporting a layout and exporting its snapshot agree; the optional overlays show the poles of the items, the nodes of the quadtree and the cells of the proximity grid where they are.",
     ["inputs", "histories"],
     "all layouts",
     "the tests never read the exported SVG",
     ["lbf/src/io/layout_to_svg.rs", "lbf/src/io/svg_export.rs", "lbf/src/io/svg_util.rs"],
     [("layout_to_svg, s_layout_to_svg", "lbf/src/io/layout_to_svg.rs"), ("path data", "lbf/src/io/svg_export.rs")],
     [], ["s_layout_to_svg", "layout_to_svg"],
     "bounded-exhaustive enumeration of all layouts up to a bound; the exported document is parsed and its drawn geometry compared with the layout")

prop("C19", "The lbf command line tool writes the solution it found, or reports failure",
     "For every instance and configuration, a run of the lbf tool that reports success (exit status zero) leaves in the solution folder one complete JSON file, named after the input file, that holds the instance, the configuration and a feasible solution - with a fixed seed, the one the optimizer finds for that configuration and seed - and one drawing of every layout of that solution, in order; the folder is created if needed, and older files of the same names are replaced. A missing or unusable input or configuration file, or an output file that cannot be written completely, is reported by a non-zero exit status, and unusable input never produces a solution file.",
     ["inputs", "configurations", "fault_sequences"],
     "all instances, configurations, ways to call the tool, states of the solution folder and write failures",
     "the tests call the optimizer as a library and never run the tool, read what it writes, or make a write fail",
     ["lbf/src/main.rs", "lbf/src/io/mod.rs", "lbf/src/io/cli.rs", "lbf/src/io/json_output.rs", "lbf/src/lbf_config.rs"],
     [("main", "lbf/src/main.rs"), ("read_json_instance, write_json_output, write_svg", "lbf/src/io/mod.rs"), ("JsonOutput", "lbf/src/io/json_output.rs")],
     [], ["the lbf executable: exit status and files written"],
     "bounded-exhaustive exploration of runs of the real executable: all combinations of instances, configurations, options, folder states and injected faults (input cut off at each byte, file size limit at each size, full device) in the stated bounds, the files compared with an independent feasibility oracle and with the library's result")

built = subprocess.run(["grep", "-o", 'id: "C[0-9]*"', os.path.join(here, "harness/src/main.rs")], capture_output=True, text=True).stdout
built = {l.split('"')[1] for l in built.splitlines()}

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]

m = {"version": 1, "setup_cmd": "bash check.sh setup",
     "checks": [], "not_applicable": [],
     "notes": "One Rust harness (harness/) linked against /repo's crates; check.sh rebuilds it from /repo's working tree before every check. No hooks in /repo: every check uses the public API. See DESIGN.md."}
for p in P:
    if p["id"] in built and p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": "model checking: " + p["tech"],
                            "level": "model_checking", "level_note": p["note"] or "exhaustive within the bounds listed in DESIGN.md and in the evidence file"})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
