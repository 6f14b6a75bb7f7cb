import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
W="src/gggears/gggears_wrapper.py";C="src/gggears/gggears_core.py";B="src/gggears/gggears_build123d.py";BC="src/gggears/gggears_base_classes.py";K="src/gggears/curve.py";G="gui/gggui.py";M="src/gggears/gearmath.py";D="src/gggears/defs.py";N="src/gggears/gggears_convert.py";T="src/gggears/gearteeth.py"

p("C01","Gears, racks and shared constants never leak into each other",
"Whatever is done to one gear or rack (moving it, editing its centre array in place, meshing, resetting, building, copying, and the same operations failing part-way), every other gear and rack, the library's direction and origin constants, the defaults used by gears created later, and everything the caller passed in (arrays, and for core gears also tooth generators, cones, transforms and shape recipes, which may be used for several gears) stay exactly as they were. The same holds the other way round: after a call returns, changing an array or object that was passed to it does not move or reshape the gear or rack.",
["histories","fault_sequences","inputs"],"every history of create/move/in-place edit/mesh/build/copy/reset operations over several coexisting gears and racks, with operations failing at arbitrary points",
"Tests build one or two gears per test and look at that gear only; no test edits an array in place, keeps a bystander gear, or looks at the module constants after a history of operations.",
[W,BC,D,C],[("each gear owns its transform arrays","TransformData / GearTransform construction, center setter"),("racks own position and orientation","InvoluteRack.__init__"),("reset and mesh assign fresh arrays","reset_location, mesh_to")],
["center, angle, orientation, radii, boundary of every bystander; values of ORIGIN/RIGHT/UP/OUT/UNIT3X3; the caller's arrays and parameter objects"],None,
[("transform","placement of one gear","Gear.transform"),("ORIGIN, RIGHT, UNIT3X3 ...","module-level constants used as defaults","defs.py")])
p("C02","Looking at or building a gear never changes it",
"Reading any dimension, location, profile, boundary, reference circle or boundary wire of a gear, copying it, building its solid, or using it as the target another gear is meshed to, any number of times and in any order and whether the call succeeds or fails, leaves the gear's parameters, placement and shape exactly as they were. Consequently every such read returns the same value no matter which reads or builds came before it.",
["histories","fault_sequences"],"every order and repetition of read-only operations on one gear, including ones that fail part-way",
"Tests call each query once on a fresh gear; none repeats a query after another one or compares values across orders.",
[W,C,B,N,BC],[("recipes are evaluated on a deep copy","ZFunctionMixin.__call__"),("curves are generated per call","Gear.curve_gen_at_z"),("boundary wire works on its own transform","generate_boundary_edges")],
["all public properties of the gear before/after each step"],None)
p("C03","A failed or interrupted build leaves the gear intact and rebuildable",
"If building a gear's or rack's solid fails or is interrupted at any point, the gear's parameters, placement and shape are exactly what they were before the attempt, and a part obtained earlier stays valid and current. Building again afterwards succeeds and yields the same solid as if the failed attempt had never happened.",
["crash_points","fault_sequences","inputs"],"every point at which a build can fail (CAD kernel error, solver error, out of memory) or be interrupted (Ctrl-C), any number of failed attempts, every gear family",
"No test makes a build fail and then looks at or rebuilds the gear; the space of failure points inside a build (thousands of calls) is out of reach of examples.",
[B,W,N],[("conic builds work on an extended copy of the slice positions","GearBuilder.__init__"),("builder is stored only once complete","build_part")],
["gear state after the failure; volume, area, bounding box, vertices of the rebuilt part"],None,
[("z_vals","slice positions of the gear","Gear.z_vals"),("builder","last completed build","InvoluteGear.builder")])
p("C04","A failed placement leaves the gear where it was",
"If meshing a gear or rack to another one fails part-way (solver failure, incompatible partner, numerical error), its position, orientation and rotation are all exactly what they were before the call, and the partner is unchanged. Repeating the call once the cause is gone places the gear exactly where a first successful call would have.",
["fault_sequences","crash_points","histories"],"every failing step inside a placement, every kind of gear pair, every prior placement",
"Tests only mesh successfully; none makes a placement fail or looks at the gear afterwards.",
[W,C,M],[("placement is computed completely before it is applied","InvoluteGear.mesh_to, CycloidGear.mesh_to, HelicalGear.mesh_to, InvoluteRack.mesh_to, Gear.mesh_to")],
["center, angle, orientation / position, offset of both partners"],None)
p("C05","Independent gears in concurrent threads do not affect each other",
"When several threads each work on gears of their own (creating, querying, meshing, building, copying), every thread gets exactly the results it would get running alone, whatever the interleaving and even when another thread's operation fails.",
["schedules","fault_sequences"],"every interleaving, at source-line granularity, of threads that share no gear",
"The test-suite is single threaded.",
[W,C,B,N,K,T,M],[("no module-level mutable state is used in any computation","whole package")],
["every value returned to each thread"],None)
p("C06","One gear can be queried and built from several threads at once",
"When several threads concurrently read, copy, build, or mesh their own gears to the same gear, each of them sees the gear exactly as it is: every result equals the one a single thread gets, whatever the interleaving, and the gear is unchanged at the end.",
["schedules"],"every interleaving, at source-line granularity, of read-only operations and builds on a shared gear",
"The test-suite is single threaded.",
[W,C,B,N],[("builds and queries do not modify the gear even temporarily","GearBuilder.__init__, generate_boundary_edges")],
["every value returned to each thread; the shared gear afterwards"],None)
p("C07","A copied gear is identical and fully independent",
"A copy of a gear reports the same dimensions and placement and builds the same solid as the original at the time of copying. Anything done later to either of them (moving, meshing, changing parameters, adapting, building, failing operations, or discarding it) never shows in the other.",
["histories","fault_sequences"],"every history of operations before and after the copy, on the original, the copy, and copies of copies",
"Tests copy a gear at most to build it; none modifies the original afterwards and inspects the copy.",
[W,C,BC],[("copy is a deep copy","InvoluteGear.copy, CycloidGear.copy, Gear.copy"),("recipe functions hold their own values","calc_params")],
["public properties and built parts of both"],None)
p("C08","Copied, cut, converted or filleted curves are independent of their source",
"A copy of a curve (also of a chain, a mirrored, rotated or transformed curve with everything it is made of) traces the same points as its source and reacts to later changes as the source would; the pieces from cutting, the results of filleting, of the transform methods of lines and arcs, and spline conversions are new curves. Later trimming, reversing, transforming or re-parameterising of any of these, by assignment or in place, never changes the others or the library's constants, and producing them, successfully or not, never changes the source. (Chains and mirrored, rotated or transformed curves are views of the curves they were made from; that sharing is intended.)",
["histories","fault_sequences"],"every history of copy/cut/trim/reverse/transform/convert/fillet/parameter edits over every kind of curve and nesting, with producing operations failing part-way",
"Tests evaluate freshly made curves; none edits a source after copying it.",
[K],[("deep copies","Curve.copy, Curve.cut, CurveChain.cut, fillet_at_locations"),("curve functions are bound to the copy","Curve subclasses")],
["points of every live curve at fixed parameters"],None)
p("C09","A gear's part always follows the gear",
"After any history of moves, rotations, meshing and copying, the part returned by building or updating a gear or rack is its solid at the current placement: updating gives the same result as building afresh, and equals the unplaced solid moved to the gear's reported position, orientation and rotation. Parts returned earlier never move or change.",
["histories","fault_sequences"],"every history of placement changes, builds and updates, including failed builds in between",
"Tests build once and never move a gear between build and update, so stale-part histories are not reached.",
[W,B],[("the solid is kept unplaced and placed on demand","update_part, apply_transform_part, transform2Location")],
["vertices, volume, bounding box of each returned part"],None)
p("C10","Where a gear is placed does not depend on where it was",
"The placement that meshing gives a gear or rack depends only on the two parties' parameters, the target's current placement and the arguments, not on the gear's own earlier placement, on builds, queries or failed attempts that came before, nor on how often it is repeated. Resetting a gear or adapting its tooth curves to a partner is equally free of history, and adapting never moves either gear.",
["histories","fault_sequences"],"every prior history of the moved gear and of its partner",
"Tests mesh freshly created gears exactly once.",
[W,M,C],[("mesh placement overwrites centre, orientation and angle","mesh_to"),("adapt keeps the transform","CycloidGear.adapt_cycloid_radii")],
["center, angle, orientation after the operation"],None)
p("C11","After any history, a gear just meshed really meshes with its partner",
"Immediately after a gear (or rack) is meshed to a partner that has itself been moved, rotated, re-oriented or meshed to others, the two are at the working distance for their tooth geometry and requested backlash, their axes stand in the relation their type requires, and the teeth of one face the gaps of the other. This stays true when a whole train is re-meshed link by link after any link was moved, and when earlier attempts failed.",
["histories","fault_sequences","inputs"],"every history of a gear train (moves, rotations, re-orientations, meshes, failures) over compatible external, internal, helical, bevel and cycloid pairs and racks, with the target direction perpendicular to the partner's axis",
"Tests check a handful of pairs meshed directly after creation at the origin.",
[W,M,C],[("distance from involute geometry","calc_involute_mesh_distance"),("phase matching","calc_mesh_angle"),("bevel placement","calc_bevel_gear_placement_vector, calc_mesh_orientation")],
["centre distance, axis angle, tooth phase, overlap of the two outlines"],None)
p("C12","The same design gives the same gear whatever happened before",
"Creating, placing, querying and building a gear from the same inputs gives the same dimensions, placement and solid regardless of what the process did before (other gears created, built, failed, copied or discarded), of the wall clock, hash randomisation and random state, of the thread it runs in, and of whether earlier objects are still alive.",
["histories","configurations","schedules"],"every preceding process history and every environment (clock jumps, hash seed, random state, thread)",
"Tests run each design once in one process; nothing compares runs across histories or environments.",
[W,C,B,N,K],[("no caches, no clock or randomness in any result","whole package")],
["dimensions, placement, boundary, part signature"],None)
p("C13","The GUI's gears, parts and buttons stay consistent through any failure",
"After any sequence of generate, clear, gear-type changes, animate and save in the GUI, with builds, meshing, the viewer or the disk failing at any moment, each side either holds the gear of its last successful generate together with that gear's part, or is empty; animation is enabled exactly when both sides hold a gear. A failed action changes neither side, and the next action works as if the failed one had not been tried.",
["histories","fault_sequences"],"every sequence of user actions with failures of the build, meshing, viewer or file export at any step",
"The GUI has no tests.",
[G],[("state is replaced only after the build succeeded","generate_gear_left, generate_gear_right, clear_gears")],
["what is shown, what is saved, what is animated, button state"],None)
p("C14","GUI save writes exactly the gear shown on that side, or nothing",
"Saving a side writes the part of that side's last successfully generated gear, in the format chosen, to the path chosen, whatever happened on the other side; cancelling the dialog or saving an empty side writes nothing, and a write that fails is reported rather than passing silently. Saving never changes the gears.",
["histories","fault_sequences"],"every sequence of actions before the save, every format, failing and cancelled saves",
"The GUI has no tests.",
[G],[("export of the side's part","file_save_1, file_save_2")],
["files written: path, format, volume of the re-imported part"],None)
p("C15","The GUI builds exactly the gear described by the edited fields",
"Generating a side creates the gear type selected on that side with exactly the values currently shown in that side's fields, after any sequence of edits, type changes and generates on either side; angles are entered in degrees and used in radians; the right gear is placed in mesh with the left one if there is one. Edits on one side never affect the other side, gears already generated, or the defaults of panels created later.",
["histories"],"every sequence of field edits, type changes and generates on both sides",
"The GUI has no tests.",
[G,W],[("panel dictionary follows widgets","InputArgPanel.update_dict"),("defaults are not shared","InputArgPanel.init_dict")],
["constructor arguments of the generated gear"],None)
p("C16","The GUI never leaves its viewer process behind",
"However the GUI ends (window closed, an error during start-up, an unhandled error or interrupt in the event loop), the viewer server it started is stopped, and it starts only one.",
["fault_sequences","crash_points"],"every point of start-up and event loop at which the GUI can fail or be interrupted",
"The GUI has no tests.",
[G],[("viewer is killed on exit","end of gggui.py")],
["spawned and killed processes"],None)

# not applicable
pure="A pure function of its inputs: no schedule, clock, fault, I/O or history can change the answer, so a simulated schedule adds nothing over plain input generation."
def n(id,title,statement,why,files,mech):
    p(id,title,statement,["inputs"],"every valid parameter combination",why,files,mech)
n("P01","Meshing involute teeth are conjugate and do not interfere","Two compatible gears placed in mesh at nominal distance transmit constant velocity ratio and their tooth flanks never overlap at any rotation angle.","Tests sample a few pairs and angles.",[T,M,C],[("involute and undercut generation","gearteeth.py")])
n("P02","Every built solid is valid, closed and has the designed volume","For every supported parameter combination the built part is a valid closed solid with as many teeth as requested and dimensions equal to the reported radii.","Tests build a sample of parameter sets.",[B,N],[("surface and shell construction","GearBuilder")])
n("P03","Spline conversion stays within tolerance","Converting any tooth profile to spline form reproduces the profile within the documented tolerance, with exact end points.","Tests sample curves.",[N,K],[("fit","fit_nurb_points, solve_surface")])
n("P04","Transform algebra is consistent","Composing, inverting and applying transforms agree with matrix algebra for all inputs.","Tests sample transforms.",[BC],[("transform composition","GearTransform.__mul__, invert")])
n("P05","Curve parameter is proportional to length and trims hit their parameters","Equal parameter steps on any curve are equal length steps, and trimming at s makes the old point at s the new end.","Tests sample curves.",[K],[("length lookup","Curve.update_lengths, s2t, t2s")])
n("P06","Mesh distance and backlash are inverse to each other","The distance computed for a backlash gives back that backlash.","Tests sample values.",[M],[("distance and backlash","calc_involute_mesh_distance, backlash_from_ax_distance")])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['title'])
