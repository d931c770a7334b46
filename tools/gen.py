"""Writes properties.jsonl and MANIFEST.json from the table below.
python3 tools/gen.py   (not needed by any check)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {"fluent": "src/cq_cam/fluent.py", "command": "src/cq_cam/command.py", "address": "src/cq_cam/address.py",
     "groups": "src/cq_cam/groups.py", "routers": "src/cq_cam/routers.py", "vis": "src/cq_cam/visualize.py",
     "tool": "src/cq_cam/tool.py", "pocket": "src/cq_cam/operations/pocket.py",
     "pocketcq": "src/cq_cam/operations/pocket_cq.py",
     "profile": "src/cq_cam/operations/profile.py", "tabs": "src/cq_cam/operations/tabs.py",
     "drill": "src/cq_cam/operations/drill.py", "op3d": "src/cq_cam/operations/op3d.py",
     "strategy": "src/cq_cam/operations/strategy.py", "base": "src/cq_cam/operations/base_operation.py",
     "geom": "src/cq_cam/utils/geometry_op.py", "interp": "src/cq_cam/utils/interpolation.py",
     "utils": "src/cq_cam/utils/utils.py", "tree": "src/cq_cam/utils/tree.py",
     "linked": "src/cq_cam/utils/linked_polygon.py", "circle": "src/cq_cam/utils/circle_bug_workaround.py"}
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, na=na))


TRUST = (" Trusts the harness's own G-code automaton, its closed-form geometry and CadQuery's construction of the "
         "input shapes.")

prop("C01", "Every program is valid G-code inside a complete frame",
     "For every history of operations and every job configuration, the program is accepted block by block by a strict "
     "RS-274 controller: known words, no two codes of one modal group in a block, closed comments, absolute distances "
     "in the XY plane, a feed rate and a running spindle for every cut, arcs whose radius agrees at both ends. It "
     "establishes units, work offset, path mode, plane, distance and feed mode and cancels compensation before anything moves, and "
     "it ends with the machine homed, spindle (and coolant, if used) stopped, and exactly one program end as last block.",
     ["histories", "configurations", "inputs"],
     "All sequences of up to three operations over the operation alphabet (profile, wire profile, pocket, drill, with and "
     "without tools, tabs, stepdowns), crossed with units, work offsets, path modes, coolant, names and heights.",
     "The tests compare a few fixed texts; they never execute a program, nor combine operations, tools and settings.",
     ["command", "groups", "address", "fluent"],
     [("SafetyBlock / StartSequence / StopSequence / ToolChange texts", "command"),
      ("Job.to_gcode assembling frame and operations", "fluent"), ("word formatting", "address")],
     ["text of Job.to_gcode() executed on the strict interpreter"],
     "Every history and configuration within the bounds is generated by the real code and executed by an independent "
     "strict controller automaton; nothing is sampled.")

prop("C02", "Tool, speed, coolant and feed in force are the ones requested",
     "Along every history of operations with tools, each operation runs with the tool number, spindle speed and cutting "
     "feed that result from the job and the tools given so far (a field a tool leaves unset keeps its value), and its "
     "path is laid out for the diameter in effect. A tool change happens exactly when the tool number changes, with the "
     "spindle stopped and the machine homed first, length compensation for the new tool, and spindle and coolant "
     "restarted before the next cut; no other operation changes the tool.",
     ["histories", "configurations"],
     "All paths of the tree of tool choices (no tool, each single field, combinations, number 0, number equal to the current "
     "one) to depth three, over the operations and coolant settings.",
     "The tests issue one tool change and compare its text; state carried across later operations is never checked.",
     ["fluent", "command", "tool"],
     [("Job.update_tool", "fluent"), ("ToolChange, StartSequence", "command")],
     ["machine state (tool, S, F, spindle, coolant) at every motion of the executed program"],
     "Explicit-state reference model of the job's tool state walked together with the implementation over every path of "
     "the operation tree; the executed program's machine state is compared with the model at every operation.")

prop("C03", "Jobs are immutable, deterministic values and failed calls leave no trace",
     "Adding an operation never changes the job it was called on, jobs derived from it before, or the shapes, lists, tools "
     "and tabs handed in, even when the call fails with an exception. The program of a job depends only on its own chain of "
     "calls: the operations of its ancestor appear unchanged as a prefix, and repeating the same calls, in any "
     "interleaving with other jobs, in the same or another process, gives the same text.",
     ["histories", "fault_sequences"],
     "All trees of calls up to depth three including failing calls and sibling branches, re-rendering every live job "
     "after every step; the same histories repeated in fresh processes with different hash seeds.",
     "The tests build linear chains once and never look at an earlier job again.",
     ["fluent", "tool", "tabs", "pocket", "drill", "command"],
     [("Job._add_operation copies the job", "fluent"), ("Job.update_tool copies", "fluent"),
      ("relative commands resolved against the previous command only", "command")],
     ["to_gcode() of every live job after every call"],
     "All interleavings of calls on all live jobs up to the depth are executed on the real code, with every live job "
     "re-rendered and compared after each step.")

prop("C04", "Rapids never cut",
     "In every program, a rapid that moves sideways starts and ends at or above the operation's safe height, and a rapid that "
     "descends never goes below it (below the job plane for drilling). Every operation begins by going up to a safe "
     "height before it moves sideways, wherever the previous one ended.",
     ["histories", "configurations", "inputs"],
     "All pairs and triples of operations x height settings x units x job planes x stepdown, tabs, several "
     "wires, islands and depths.",
     "The tests look at the text of single operations; what a rapid does depends on where the previous cut ended.",
     ["command", "routers", "profile", "pocket", "drill", "tabs"],
     [("rapid/plunge sequencing between wires and depths", "routers"), ("Rapid and Retract output", "command")],
     ["all G0 motions of the executed program"],
     "Every rapid of every generated program within the bounds is checked on the machine automaton, from the position the "
     "preceding operation really left the tool in.")

prop("C05", "Profiles follow the offset contour exactly, completely and once",
     "A profile cuts the contour that runs parallel to the requested outline at the requested multiple of the tool radius, "
     "on the requested side, for outer and inner outlines made of lines and arcs, whatever their direction, first edge, "
     "orientation, job plane or the kind of object they were handed over as. Every point of that contour that the tool "
     "can reach is cut, nothing else is, and each part is cut once per pass.",
     ["inputs", "configurations"],
     "Alphabet of outlines x rigid motions x direction x first edge x tool diameter x offsets x ways of passing the shape.",
     "The tests profile a handful of boxes; offset side, collapse and rounding depend on every shape and orientation.",
     ["profile", "geom", "circle", "utils", "routers"],
     [("offset_wire and its circle handling", "geom"), ("extract_wires", "utils"), ("route_wires", "routers")],
     ["cutting moves of the executed program against the exact parallel curve"],
     "Exhaustive enumeration of the bounded input alphabet on the real code, compared with an exact closed-form parallel curve.")

prop("C06", "Profile passes reach full depth in steps no deeper than the stepdown",
     "A profile with a stepdown cuts the complete contour in level passes from the top down, each at most one stepdown "
     "below the previous one (the first below the job plane), and the last exactly at the depth of the outline. Without a "
     "stepdown there is exactly one pass, at full depth.",
     ["inputs", "configurations"],
     "Grid of depths x stepdowns (dividing exactly, just missing, larger than the depth, up to the step limit) x outlines x "
     "offsets x job planes.",
     "The tests check two depth/stepdown pairs; rounding at the boundaries decides whether a pass is missing or doubled.",
     ["profile", "geom"],
     [("depth sequence", "profile")], ["levels and paths of the passes of the executed program"],
     "Every depth/stepdown combination of the grid is executed and its pass sequence replayed against the removed depth.")

prop("C07", "Tabs leave the requested bridges and nothing else",
     "A profile with tabs leaves material up to the tab height along each tab and is cut to full depth everywhere else: "
     "as many evenly spaced tabs as requested along a contour, or tabs at the requested spacing on each edge of the "
     "requested kinds, of the requested width measured along the tool path. Passes of a stepdown above the tab height "
     "are cut completely, and tabs never reach outside of the contour or move the tool off it.",
     ["inputs", "configurations"],
     "Outlines x tab kind/count/spacing/width/height x offset x stepdown x job planes, including tabs over "
     "edge boundaries, arcs, the contour's start and tabs higher than the stock.",
     "The tests check one square with one layout; tab layout depends on edge kinds, boundaries and the contour's start.",
     ["tabs", "profile", "routers", "geom"],
     [("WireTabs.transitions / EdgeTabs.transitions", "tabs"), ("splitting of edges into height segments", "tabs")],
     ["lowest height cut at every position along the contour"],
     "Exhaustive over the bounded layouts; the executed program's height profile along the contour is compared with an "
     "independently computed layout.")

prop("C08", "Pockets never cut outside of the requested area",
     "While cutting at some height, the centre of the tool of a pocket stays inside the union of the areas at least that "
     "deep, each reduced by the outer offset and by its islands grown by the inner offset, and outside of every avoid "
     "area that reaches that height grown by its offset. With default offsets that means no part of the tool leaves the "
     "area or touches an island.",
     ["inputs", "configurations"],
     "Outlines x islands (kind, rotation, position) x tool x stepover x offsets x avoid areas x overlapping, nested and "
     "disjoint areas of equal and different depth x job planes x size.",
     "The tests check that a pocket produces output; gouging depends on the geometry and on linking moves between rings.",
     ["pocket", "routers", "geom", "interp", "tree", "linked"],
     [("boundary construction and offsetting", "pocket"), ("linking of rings", "routers"), ("polyface handling", "geom")],
     ["every cutting move and plunge of the executed program against the exact allowed region"],
     "Exhaustive over the bounded scenarios; every cutting move is compared with an exact distance oracle independent of "
     "shapely's buffer.")

prop("C09", "Pockets clear everything the tool can reach",
     "With a stepover of at most the tool radius, a pocket runs the tool along all walls (outer and island) of the region "
     "its centre may be in, and leaves no point of that region farther than a tool radius from the path at the "
     "depth of the area, including separate parts, narrow channels and small remaining cores.",
     ["inputs", "configurations"],
     "The scenarios of C08 with stepovers up to the tool radius, plus channels and small stepovers.",
     "The tests compare a few ring counts; lost rings and lost islands only show when coverage is computed.",
     ["pocket", "routers", "geom", "interp", "tree"],
     [("inner offset rings", "pocket"), ("tree of rings and their sequences", "tree"), ("routing of all rings", "routers")],
     ["distance of wall points and of a grid of interior points to the executed cuts"],
     "Exhaustive over the bounded scenarios; coverage is computed from the executed moves.")

prop("C10", "Pocket floors are at their depth and are reached in safe steps",
     "Each area of a pocket is finished exactly at its own depth and no deeper. With a stepdown, no cut takes "
     "off more than one stepdown of material at once anywhere (at first measured from the job plane, areas of "
     "different depth included); without one, the areas are cut at their depths only.",
     ["inputs", "configurations"],
     "Depths x stepdowns x one to three areas (disjoint, overlapping, nested, different depths) x "
     "job planes x ways of passing the faces.",
     "The tests use one area with one stepdown; depth lists interact between areas and with rounding.",
     ["pocket", "geom", "routers"],
     [("apply_stepdown and depth mapping", "pocket"), ("depth of faces in job coordinates", "pocket")],
     ["height map of the material simulated along the executed program"],
     "Exhaustive over the bounded scenarios; material removal is simulated on a height map cell by cell.")

prop("C11", "Drilling makes each hole once, at its place and depth",
     "A drill operation bores exactly one vertical hole at each position given (points, or the centres of area of wires, of "
     "inner outlines of faces, or of the outer outline of faces without; in any job plane), from the job plane to the requested depth with the plunge feed, "
     "rapids only between holes at safe height. Holes are visited nearest first, and no position is lost, doubled or moved.",
     ["inputs", "configurations"],
     "All subsets and orders of a grid of positions up to five holes x kinds of input object x depth x job planes.",
     "The tests drill one or two points in XY; ordering and coordinate conversion need all arrangements.",
     ["drill", "command", "fluent"],
     [("collecting positions", "drill"), ("nearest neighbour order", "drill")],
     ["holes of the executed program"],
     "Exhaustive over arrangements within the bound, compared with a reference nearest-neighbour walk.")

prop("C12", "A program depends only on the part relative to the job plane",
     "Placing the same part and job plane anywhere in space, at any position and orientation, gives the same "
     "program: the same moves in the coordinates of the job plane for every operation, with the same heights, tabs, order and "
     "direction of cutting. Only the links between the rings of a pocket may differ, where two places are equally near; what "
     "the pocket clears and how often and how deep it goes down stays the same.",
     ["inputs", "configurations"],
     "All operations with features x a set of rigid motions (axis permutations, flips, tilts, offsets).",
     "The tests use world-aligned planes; a coordinate taken in the wrong frame vanishes there.",
     ["fluent", "profile", "pocket", "drill", "command", "geom", "utils", "tabs"],
     [("transformation into plane coordinates in every operation", "command")],
     ["motions of the program in plane P against those of the same part in XY"],
     "Every operation of the alphabet is executed in every plane and its motion sequence compared with the reference placement.")

prop("C13", "Numbers in programs are exact to the output resolution",
     "Every coordinate, arc offset, feed and speed in a program is within half a unit of the third decimal of the "
     "value requested, at any magnitude from zero to metres, positive or negative. Numbers are plain decimals without "
     "exponents, negative zeros or trailing separators, coordinates and arc offsets with at most three decimals, so that "
     "any controller reads them back as meant.",
     ["inputs"],
     "Grid of decimal values around every rounding boundary and magnitude for each kind of word.",
     "The tests format a handful of values.",
     ["address", "command", "utils"],
     [("number formatting of words", "address"), ("position and speed words", "command")],
     ["words of the program text"],
     "All values of the grid are pushed through the real operations and the text is read back.")

prop("C14", "Visualization shows the moves of the program",
     "The shapes a job shows or returns for display trace, at their place in the world, the same moves the "
     "program makes from where each operation starts: each rapid, straight cut and arc (centre, radius, direction, full "
     "circles) once and in order.",
     ["inputs", "histories"],
     "All operations of the alphabet x job planes x display modes, histories of up to three operations.",
     "The tests never compare the display with the program.",
     ["vis", "command", "fluent"],
     [("visualize_job / visualize_job_as_edges", "vis"), ("to_edge of commands", "command")],
     ["edges and wires of to_shapes() / show() against the motions of the executed program"],
     "Each displayed edge is compared with the motion of the executed program for every job of the bounded space.")

prop("C15", "Cuts are made in a safe order",
     "Operations appear in the program in the order they were called, each under its own comment naming job and operation. "
     "Within a profile inner outlines are finished before outer ones, so that a part is not released before its holes are cut; "
     "within a contour or pocket area shallower passes come before deeper ones.",
     ["histories", "inputs"],
     "All orders of operations to depth three; profiles of faces with up to three holes, several faces; stepdowns and tabs.",
     "The tests check one face with one hole.",
     ["fluent", "profile", "routers", "utils", "pocket"],
     [("inner before outer in profile", "fluent"), ("depth order", "routers")],
     ["order of sections and cuts in the executed program"],
     "Exhaustive over the bounded histories and faces; the order is read off the executed program.")

prop("C16", "Job settings are honoured in the program",
     "The unit, work offset, path control mode, rapid height, safe height, feed, plunge feed, speed, coolant and name "
     "given to a job are the ones in force in its program, for every combination; settings left out take the documented defaults (metric, first "
     "work offset, continuous path, heights 10/1 mm or 0.4/0.04 in, plunge feed equal to feed), which never override a value given.",
     ["configurations"],
     "Full product of all settings, each with several values including absent and zero-like ones, x operations.",
     "The tests use the defaults throughout.",
     ["fluent", "command", "groups", "routers", "profile", "drill"],
     [("Job constructor and defaults", "fluent"), ("SafetyBlock", "command")],
     ["modal state, heights and feeds of the executed program"],
     "Exhaustive product of the settings; each program is executed and its modal state compared.")

prop("C17", "Saving writes the complete program or reports the failure",
     "After save_gcode returns, the file holds exactly the program of the job and nothing else, whatever was in it before, for "
     "str or path-like names. When the storage fails at any point (open, any write, flush, close) the failure is raised to the "
     "caller, and it never returns normally with a file that is not the complete program.",
     ["fault_sequences", "crash_points", "inputs"],
     "All prior contents (absent, empty, shorter, longer, same) x jobs x every fault point of the I/O sequence.",
     "No test saves a file.",
     ["fluent"], [("Job.save_gcode", "fluent")], ["file content after the call; exception"],
     "Every system-level I/O call of the save is failed in turn, for each kind of failure, and the outcome checked.")

prop("C18", "Arcs are the requested circle pieces",
     "Arcs of the part come out as G2/G3 with the right direction, centre and end for every start angle, sweep, radius, "
     "traversal direction and job plane orientation (a plane seen from below flips the direction), full circles included, so "
     "that the executed arc stays within the output resolution of the true one; arcs that are too small to be expressed are cut straight.",
     ["inputs", "configurations"],
     "Grid of start angle x sweep (to full circle) x radius (1e-3 to 1e3) x direction x job planes, in profiles with and without offset.",
     "The tests run a single arc in XY.",
     ["command", "routers", "geom", "utils"],
     [("CircularCW / CircularCCW and arc centre", "command"), ("edge to command conversion and orientation", "routers")],
     ["executed arcs against the exact circle"],
     "Exhaustive over the grid; each executed arc is compared with the exact circle point by point.")

prop("C19", "Impossible requests are refused and change nothing",
     "A request that cannot be fulfilled - profile with both offsets missing, a pocket above the job plane, a pocket "
     "face that is not parallel to the job plane, drilling without a depth, an operation without tool diameter that needs one, tab "
     "spacing not larger than the tab width, an unsupported object such as a solid, or a profile with more depth steps than the limit - raises an error instead of "
     "producing a program. The job it was called on stays usable and unchanged.",
     ["inputs", "histories"],
     "All kinds of impossible request x operations x parameters around the limit, before and after valid operations.",
     "The tests check two of the errors.",
     ["fluent", "profile", "pocket", "drill", "tabs", "utils", "routers"],
     [("argument checks of operations", "fluent"), ("face checks", "pocket")],
     ["exception and the job's program before and after"],
     "Exhaustive over kinds of invalid request and values around the limits.")

prop("C20", "Free-form outlines are followed within tolerance",
     "Profiles of outlines with splines, ellipses and other free-form curves stay within 0.1 units of the exact parallel curve, "
     "cover all of it, and keep the requested side; pockets of such outlines stay inside and along the walls within the "
     "same tolerance.",
     ["inputs", "configurations"],
     "Alphabet of free-form outlines x size x direction x offset x job planes.",
     "The tests run one spline without checking the path.",
     ["interp", "routers", "command", "pocket", "geom"],
     [("edge interpolation", "interp"), ("conversion of non-arc edges", "routers")],
     ["cutting moves against densely sampled curves"],
     "Exhaustive over the bounded alphabet with a densely sampled oracle.")

prop("C21", "3D surfacing never gouges the surface",
     "A 3D surface operation never sends the cutter below the height at which it rests on the surfaces as they lie in the job's "
     "coordinates (beside them: below the lowest of them). Every location it cuts ends at that height, in passes no deeper "
     "than the stepdown. Locations along a cut are no farther apart than the interpolation step and stay inside the offset "
     "boundary; no part of the area that is at least a stepover wide is left farther than a stepover from them. Rapids "
     "stay at the rapid and safe heights. This holds wherever the job's plane is and however the faces are placed or their outlines run.",
     ["inputs"],
     "Surfaces (planar pieces, slopes, ridges, steps, pits, domes, bowls, cones, bodies with pockets and bosses, areas apart, "
     "holes) at or below the job's plane x flat and ball cutters x stepover x interpolation step x boundary offset x stepdown "
     "and top height x planes x direction and start of the outline.",
     "The only test of a surface operation can't run without opencamlib and cuts one flat face.",
     ["op3d", "strategy", "linked", "base", "utils"],
     [("Surface3D: sequences, interpolation, drop cutter, passes", "op3d"), ("ZigZagStrategy", "strategy"),
      ("LinkedPolygon", "linked"), ("offset_boundary", "base"), ("flatten_edges, project_face", "utils")],
     ["locations of the executed program against the heights of rest on independently made triangles"],
     "The real operation runs with opencamlib's drop cutter replaced by a model (exact contact of cylindrical and ball cutters with "
     "triangles), which is itself replayed against brute force and against the locations recorded with the real library in the "
     "repository's own test. Every request of the grid is executed and every location of every program compared.")

TECH = {
    "C01": "explicit enumeration of operation histories x configurations, executed on a strict RS-274 automaton",
    "C02": "explicit-state reference model of tool state walked in lockstep with the implementation over the operation tree",
    "C03": "stateless exploration of all call interleavings over live jobs, with re-execution in fresh processes",
    "C04": "explicit enumeration of operation histories, executed on a machine automaton with a rapid-safety invariant",
    "C10": "exhaustive scenario enumeration with material-removal state simulation",
    "C11": "exhaustive enumeration of hole arrangements against a reference walk",
    "C12": "exhaustive enumeration of placements, trace equivalence on the machine automaton",
    "C18": "exhaustive grid of arcs and constructions, executed arcs compared with the exact circle both ways",
    "C20": "exhaustive enumeration of free-form outlines and placements, executed cuts compared with a dense sampling both ways",
    "C21": "exhaustive enumeration of requests on the real code with the drop cutter library modelled, executed locations compared with independent contact heights",
    "C14": "exhaustive enumeration, displayed edges replayed against the program trace",
    "C17": "exhaustive fault injection at every I/O step of the real code",
}


def main():
    known = []
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": [F[x] for x in p["files"]],
                             "mechanism": [{"name": n, "where": F[w]} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
            if p["na"]:
                na.append({"property": p["id"], "reason": p["na"]})
            elif not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
                na.append({"property": p["id"], "reason": "check not built yet"})
            else:
                checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}",
                               "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                               "technique": TECH.get(p["id"], "exhaustive bounded enumeration of inputs, programs executed "
                                                     "on a machine automaton and compared with an exact oracle"),
                               "level": "model_checking", "level_note": p["level_note"] + TRUST})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo/src\"); import cq_cam'",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: every check drives the public API of the working tree."}, f, indent=1)


main()
