"""source of properties.jsonl (kept so that the statements are easy to edit)"""
import json, os
P = "pyslope/pyslope.py"
U = "pyslope/utilities.py"
V = "pyslope/data_validation.py"
W = "slope/views.py"
props = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            "observe_at": observe or [],
            "hook_needed": None,
        }})

p("C01", "Ground profile and surface queries follow the requested slope",
  "Whatever height, face angle or face length and minimum section size are requested, and however often they are changed, the ground is a level crest, a straight face of exactly the requested height and horizontal length (height/tan(angle) when given by angle) centred in a section no smaller than the requested minima, 5 face lengths / 4 heights long and 3 heights / 2.5 face lengths high, and a level toe. The surface elevation at any x and the surface position at any elevation agree with that profile everywhere, including exactly at crest, toe and both ends, and x outside the section or elevations above the crest give nothing.",
  ["inputs", "configurations", "histories"], "all heights, angles/lengths, minimum sizes, query positions and redefinition orders",
  "Tests sample a handful of heights and angles (mostly 1 or 2 m at 30-45 degrees) and few query points; vertical, very flat, very high faces and boundary points are open.",
  [P], [("Slope.set_external_boundary", P), ("Slope.update_boundary_options", P), ("Slope.get_external_y_intersection / get_external_x_intersection", P)],
  ["get_top_coordinates", "get_bottom_coordinates", "get_external_y_intersection", "get_external_x_intersection"])

p("C02", "A model is what was declared, whatever the order of the calls",
  "After any sequence of accepted calls (materials, loads, water table, boundary, boundary sizes, water options, analysis options; set, replaced or removed in any order) the factor of safety of every failure surface is the one of the declared content: layer bottoms and water level are measured down from the current crest level, loads back from the current crest edge, and each option has its last set value. Enlarging or redefining the section - explicitly, or implicitly because a deep material or distant load needs room - carries every part of the model along.",
  ["histories", "programs"], "all sequences of model-building calls",
  "Tests build each model once in one fixed order; order-dependent or forgotten updates need several calls in a particular sequence.",
  [P], [("Slope.set_external_boundary updating dependent coordinates", P), ("Slope.set_materials / set_udls / set_lls / set_water_table", P)],
  ["analyse_slope + reported planes", "get_top_coordinates"],
  [("layer, water and load coordinates", "derived from the boundary, must follow it", P)])

p("C03", "Reported results always belong to the current model",
  "Whenever results can be read (minimum factor of safety, its circle and end points, the list of planes, result plots), they equal those of an analysis of the model as it is at that moment: any accepted change of the model makes results of the old model unavailable until the next analysis. Repeating an analysis of an unchanged model gives the same results, and neither plotting nor querying changes the model or the results.",
  ["histories", "programs"], "all sequences interleaving model changes, analyses, queries and plots",
  "Each test analyses once and reads once; serving an old result requires change-after-analyse histories for each kind of change.",
  [P], [("Slope._reset_results called by every modifier", P), ("Slope.analyse_slope", P)],
  ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points", "plot_critical"],
  [("result list", "planes with their FOS of the last analysis", P)])

p("C04", "A rejected call changes nothing",
  "Whenever a call on a slope is rejected with a value error because of its input (wrong type, out of range, repeated material depth, limits out of order), the model, its options, its limits and any available results are exactly as they were before the call, even when some of the values passed were valid. The rejected call can be corrected and repeated as if it had never been made.",
  ["inputs", "histories"], "every invalid call in every reachable model state, with and without results",
  "Tests only check that a few bad inputs raise on a fresh object; nobody compares the state before and after a failed call.",
  [P, V], [("validation before assignment in every modifier", P)],
  ["all public queries, analysis results and plots before and after"])

p("C05", "Adding and then removing leaves no trace",
  "Removing materials, distributed loads, line loads, the water table, individual planes or analysis limits takes away exactly the items asked for - every equal one, whether named by the same object, an equal object, its depth, or all at once - and nothing else. Afterwards the slope analyses and plots exactly as if the removed items had never been assigned (apart from the room the section may have been given for them).",
  ["histories", "inputs"], "all sequences of adding and removing items, including duplicates and repeated removal",
  "Tests remove one item from a list of two; duplicates, equal copies, removing in another order, or using the model afterwards are not exercised.",
  [P], [("Slope.remove_material / remove_udls / remove_lls / remove_water_table / remove_individual_planes / remove_analysis_limits", P)],
  ["analysis results", "plot_boundary"])

p("C06", "Slopes are independent of each other",
  "Any number of slopes can be built, analysed and plotted in one process in any interleaving, and each behaves exactly as if it were the only one, even when the same material and load objects are assigned to several slopes of different shape (only a dynamic analysis moves the movable load objects it is about, and a material without a colour keeps the first one given to it). No default, cache or shared object carries information from one slope to another.",
  ["schedules", "histories"], "all interleavings of the calls made on two or more slopes",
  "Tests use one slope per test, so cross-talk through shared objects or module state is never exercised.",
  [P, U], [("per-slope coordinates refreshed from the slope's own boundary", P)],
  ["analysis results and plots of each slope"])

p("C07", "Reported FOS is Bishop's for layered ground",
  "For every slope geometry, circle, number of slices and stack of layers, the factor of safety of a plane is the solution of Bishop's simplified equation over equal-width vertical slices of the mass between circle and ground, with each slice's weight summed layer by layer and strength taken from the layer at the middle of its base. The deepest layer extends indefinitely downwards; a plane that is not driven downhill, or does not cut the ground twice, gets no factor of safety.",
  ["inputs", "configurations"], "all geometries, circles, slice counts and layer stacks",
  "Tests compare the critical FOS of five examples within about 5%; errors in rarely critical layers, steep or flat arcs, or single slices stay invisible.",
  [P], [("Slope._analyse_circular_failure_bishop", P), ("Slope._analyse_circular_failure_ordinary", P), ("Slope._calculate_strip_weights", P)],
  ["add_single_circular_plane + analyse_slope + reported FOS"])

p("C08", "Surcharges act where and as much as declared",
  "In every factor of safety, a distributed load adds to each slice its pressure times the width it actually covers (from its offset behind the crest back over its length, or to the model edge when continuous), and a line load adds its force exactly once, to the slice under it. Loads outside the sliding mass, and loads of zero magnitude, change nothing, any number of loads simply add up, and their order and colour do not matter.",
  ["inputs", "configurations"], "all combinations of load magnitudes, positions and lengths relative to the slices and circles",
  "Tests have one load position each; partial cover of a slice, loads at the very edge, loads longer than the crest and multiple overlapping loads are not sampled.",
  [P], [("load handling in the slice loop", P), ("Slope._update_udl_coordinates / _update_ll_coordinates", P)],
  ["reported FOS of user-given planes"])

p("C09", "Water pressure follows the water table and the water options",
  "In every factor of safety the pore pressure at a slice base is 9.81 kPa per metre of head below the lower of water table and ground surface, reduced under the submerged part of the face by the chosen factor: cos squared of the face angle by default or after choosing automatic, otherwise the user's value limited to 0..1. A water table below the circle or none at all has no effect, and a higher water table never increases a plane's factor of safety when the factor is 1.",
  ["inputs", "configurations", "histories"], "all water depths (above, within and below circle, face and toe), factors and orders of setting them",
  "Tests have two water levels with one setting of the factor; the switch of factor, clamping, and levels above crest, at toe or below are not covered.",
  [P], [("water uplift in the slice loop", P), ("Slope.set_water_table / update_water_analysis_options", P)],
  ["reported FOS of user-given planes"])

p("C10", "The search only reports planes that were allowed",
  "Every plane reported by a search starts on the crest side and ends on the toe side within the analysis limits in force, with its ends further apart than the minimum failure distance. Its end points lie on both the ground surface and its own circle, are the first two crossings of circle and ground from the left, and its reported factor of safety is exactly that of that circle.",
  ["inputs", "configurations", "histories"], "all geometries, limits, minimum distances, load positions and search sizes",
  "Tests look at the single critical plane; a stray plane outside the limits is only seen when it is critical.",
  [P, U], [("Slope._get_entry_exit_planes / _generate_planes / _is_within_limits", P), ("Slope._get_circle_external_intersection", P)],
  ["planes reported after analyse_slope"])

p("C11", "The search is complete, ordered and reports its minimum",
  "A search covers an evenly spaced grid of entry points spanning the whole allowed entry range times exit points spanning the whole allowed exit range up to its far end, with at least five circles through each pair (the first almost vertical at the entry, 1.1 times the radius of the one that is, the others flatter in equal steps of sagitta; one in 800 of the iterations when that is more than five) and additional entry points just behind every load, about as many planes as the requested iterations. Every such plane that is allowed and has a factor of safety is reported once, in ascending order; the reported minimum, circle and end points are those of the first one; and a given maximum factor of safety drops exactly the planes above it.",
  ["inputs", "configurations"], "all geometries, limits, loads, iterations and cut-offs",
  "Tests accept any search whose minimum is near an expected value; dropped regions of the search space go unnoticed unless critical in the examples.",
  [P], [("Slope._get_entry_exit_planes / _generate_planes", P), ("Slope.analyse_slope sorting and filtering", P)],
  ["planes reported after analyse_slope", "get_min_FOS*"])

p("C12", "User-specified planes are analysed, exactly and only",
  "Once planes are added by the user - circles, or circles through a given entry and exit - an analysis reports exactly those planes that cut the ground twice and have a factor of safety, in ascending order, whatever was added in whichever order and with whatever search options, and removing them returns to the full search. Circles that do not cut the ground twice when they are added are dropped. Circles requested through an entry and an exit all pass through both points, become progressively flatter, and their number is the one asked for as far as they cut the ground.",
  ["histories", "inputs"], "all sequences of adding/removing planes, changing the model and analysing",
  "Tests add one plane and check one number; repeated additions, repeated analyses and model changes in between are not covered.",
  [P], [("Slope.add_single_circular_plane / add_single_entry_exit_plane / remove_individual_planes", P), ("Slope.analyse_slope", P)],
  ["planes reported after analyse_slope"])

p("C13", "Analysis options take effect, within bounds, and only as set",
  "Each analysis option given in a call takes effect on the next analysis and every option not given keeps its value, in any sequence of calls: slices limited to 10..500, iterations to 500..100000, minimum failure distance to 90% of the section length, convergence tolerance and maximum number of convergence iterations as given. The factor of safety of a plane is the first Bishop iterate, starting from the ordinary method of slices, whose change is below the tolerance, or the last one allowed.",
  ["inputs", "histories"], "all option values and sequences of option updates",
  "Tests set options once; clamping, partial updates, and the stop criterion are not checked against an oracle.",
  [P], [("Slope.update_analysis_options", P), ("iteration loop of the Bishop solution", P)],
  ["reported FOS and number of planes"])

p("C14", "Dynamic analysis reports true results and moves only dynamic loads",
  "For every model with movable loads and every target, each offset and factor of safety recorded by a dynamic analysis is what a fresh ordinary analysis of the same slope gives with all movable loads at that offset, and the analysis always ends: after the crest position if that already reaches the target, after the far position (as far behind the crest edge as the crest allows) if even that does not, and otherwise after closing in on an offset between them. Nothing else changes - fixed loads, materials, water, limits and section size stay, movable loads rest at the last analysed offset - and the recorded offsets are reported with the values analysed.",
  ["inputs", "configurations"], "all models with movable loads, targets and limits",
  "The tests run two examples and compare the final offset loosely; intermediate records, side effects on the model and the early exits are unchecked.",
  [P], [("Slope.analyse_dynamic / _set_dynamic_offset", P), ("Slope.get_dynamic_results / print_dynamic_results", P)],
  ["get_dynamic_results", "print_dynamic_results", "model state afterwards"])

p("C15", "The section plot shows the model as analysed",
  "In every reachable model state the section plot draws the section outline, one filled area per material that together tile the ground exactly once with each area between its own layer levels and carrying its own properties and colour, every load at its position with its magnitude, the water table at its level, and the analysis limits in force. The material table lists the same materials from the top down with the same properties and colours. Plotting never fails on a valid model and draws nothing that has been removed.",
  ["histories", "configurations"], "all models: layer stacks relative to crest, face, toe and base; loads; water; limits; histories",
  "Tests never look inside a figure beyond its type; wrong polygons are seen only by eye.",
  [P, U], [("Slope.plot_boundary and its helpers", P), ("draw_arrow", U)],
  ["plot_boundary figure data"])

p("C16", "Result plots show exactly the analysed planes",
  "The critical-plane plot draws the plane with the smallest factor of safety, from its entry to its exit along its circle, annotated with its value; the all-planes plot draws precisely the reported planes below the requested maximum, each with its own end points on the ground, its own value, and the colour of the documented colour scale for that value (values above the scale use its last colour), drawn so that the more critical lie on top. The section, loads and water are drawn exactly as in the section plot.",
  ["inputs", "configurations"], "all analysed models, planes and display cut-offs",
  "Tests only call the plotting functions; contents are never compared with the results.",
  [P, U], [("Slope.plot_critical / plot_all_planes / _plot_failure_plane", P), ("create_fos_color_dictionary / generate_circle_coordinates", U)],
  ["figure data"])

p("C17", "Inputs of materials, loads and slopes are validated and normalised",
  "Creating a material, distributed load, line load or slope, or setting heights, angles, lengths, depths, limits and section sizes on a slope, succeeds exactly for documented inputs and otherwise raises a value error: numbers where numbers are required, unit weight within 1..50, no negative friction angle, angle within 0 (exclusive) to 90, strictly positive heights and sizes. Accepted values are stored as given except for the documented normalisation: signs of cohesion, depths, magnitudes, offsets and lengths are dropped, a missing or zero load length means continuous, unknown load colours fall back to the default, and names and colours are kept.",
  ["inputs"], "all argument values of every type at and around the documented limits, in every argument position",
  "Tests try a few bad values for a few arguments; the combinations of argument positions and boundary values are open.",
  [P, V], [("Material/Udl/LineLoad __post_init__", P), ("assert_* helpers", V)],
  ["constructor result or error"])

p("C18", "A web submission returns the result of the library",
  "For every valid submission of the web form the planes, minimum factor of safety and section returned equal those of the library for the submitted slope (by angle or by length as chosen), materials, loads, water table, outer and inner limits, slices, iterations and normal or dynamic analysis, restricted to factors of safety up to 5 for a normal analysis when there are any. Submissions that are incomplete, invalid or not analysable never produce a server error or somebody's results.",
  ["inputs", "configurations"], "all combinations of form options and field values",
  "The web application has no tests at all.",
  [W, "slope/forms.py", "slope/models.py"], [("create_slope", W), ("index POST", W)],
  ["HTTP response context and status"])

p("C19", "Web sessions keep exactly the user's own last submission",
  "In every sequence of page loads, valid and invalid submissions, resets and reports from any number of browsers, loading the page shows the form values, plot and planes of that browser's last successful submission since its last reset, or the default example if there is none. A reset forgets everything, an invalid submission never mixes with earlier results, and what one browser does is never visible in another.",
  ["histories", "schedules"], "all request sequences and interleavings of browsers up to the bound",
  "The web application has no tests at all; session mix-ups need several requests in sequence.",
  [W], [("session keys forms, search, plot_json", W), ("reset, index", W)],
  ["HTTP responses"], [("session", "last forms, planes and plot", W)])

p("C20", "The PDF report contains the session's planes up to the chosen FOS",
  "For every state of a session, the report request answers with a PDF of the session's own section plot plus exactly its planes with a factor of safety below the requested maximum, each along its own circle in the colour of its value, or sends the browser to the main page when there are no results. Requesting a report never changes the session.",
  ["inputs", "histories"], "all session states and requested maxima",
  "The web application has no tests at all.",
  [W], [("pdf", W)], ["figure handed to the PDF renderer", "HTTP response"])

p("C21", "Equivalent descriptions give equal results",
  "Describing the same physical slope differently never changes a factor of safety: a layer split into sublayers of equal properties, a load split into adjoining or superposed parts, materials or loads given in another order, the face given by angle or by equal length, a deeper last layer, a larger section, or, without water, all stresses (weights, cohesion, loads) or all lengths (with weights inversely) scaled alike. Scaling the strength (cohesion and tangent of friction angle) of all layers scales every factor of safety alike, and adding cohesion to any layer never lowers one.",
  ["inputs", "configurations"], "all models and all their equivalent descriptions",
  "No test compares two descriptions of one slope.",
  [P], [("slice weights and strengths", P), ("Slope.set_materials sorting", P)],
  ["reported FOS of the same circles"])

p("C22", "Analysis limits are applied as requested and never silently lost",
  "After any sequence of limit settings, each of the four limits holds the last accepted value given for it, cut back to the section ends and the crest edge, and limits not mentioned in a call keep their value; a call that would leave an entry or exit range empty is rejected. Limits return to the full range exactly when they are removed or the section is redefined or resized, and every search and section plot uses the limits in force.",
  ["histories", "inputs"], "all sequences of limit, boundary and removal calls",
  "Tests set limits once on one slope.",
  [P], [("Slope.set_analysis_limits / remove_analysis_limits", P)],
  ["range of reported planes", "limit markers of plot_boundary"])

p("C23", "The page submits exactly the rows and values the user sees",
  "In every sequence of adding and deleting rows of materials and loads, typing, ticking and choosing on the main page, what the browser would submit is exactly what is shown: every row once, in the order shown, with the values shown, however many rows there are. A new row comes last, deleting removes the row whose button was pressed but never the only one, other rows keep their values, and neither submits the form. As soon as anything but the display maximum is changed a new analysis is possible and the report of the old results is not offered; until then it is offered for the display maximum chosen. Only inputs that matter for the chosen slope definition, water table and limits are shown.",
  ["histories", "inputs"], "all sequences of user events on the page",
  "There are no tests of the front end; the row numbering depends on the whole history of additions and deletions.",
  ["static/slope/add_rows.js", "static/slope/button_control.js", "static/slope/hide_form.js", "static/slope/update_pdf_link.js", "static/slope/slider_values.js", "slope/templates/slope/index.html"],
  [("click handlers and updateForms", "static/slope/add_rows.js"), ("form_changed", "static/slope/button_control.js"),
   ("updateSlopeForm / updateWaterForm / updateLimitsForm", "static/slope/hide_form.js"), ("update_pdf_link", "static/slope/update_pdf_link.js")],
  ["form data set the browser would submit", "visible rows, values and buttons"])
p("C24", "The page plots exactly the planes below the display maximum",
  "In every sequence of changes of the display maximum, of the window size and of the form, the plot on the main page shows the section and critical plane of the session's results plus exactly the planes with a factor of safety below the current display maximum, each once along its own curve, labelled with its own value and in the colour of the documented scale, the more critical on top. On small screens the loads and tables inside the plot are replaced by a table of the analysed materials with their own properties and plot colours and by the colour scale.",
  ["histories", "inputs"], "all sequences of user events on the page",
  "There are no tests of the front end; redrawing depends on what was drawn before.",
  ["static/slope/charting.js", "slope/templates/slope/index.html", "slope/views.py"],
  [("createPlot / createMobileTables / updateFOS", "static/slope/charting.js")],
  ["traces handed to Plotly", "tables of the page"])

p("C25", "Slopes can be used from several threads at the same time",
  "When several threads work at the same time, each on slopes and objects of its own - creating, changing, analysing, plotting them and reading results - every schedule gives each thread exactly the results, figures, rejections and dynamic results that it gets when running alone, and none fails or waits for ever. No thread leaves anything behind that changes what later work gives.",
  ["schedules"], "all interleavings of the calls of two threads on slopes of their own",
  "Tests run one thread; shared scratch data, class-level state or a default that is filled in show only when a switch falls between its writing and its reading.",
  [P, U, V], [("analysis and drawing without state outside of the slope and the figure", P), ("drawing helpers", U)],
  ["reported planes", "get_dynamic_results", "figures"])

p("C26", "An interrupted analysis or plot leaves nothing wrong behind",
  "When an analysis, a dynamic analysis or a plot is interrupted at any point (Ctrl-C, memory exhausted), what can be read of the slope afterwards is complete and true: either no results, or those of a complete analysis of the slope with its loads where they then are; every dynamic result recorded is a true one. Model, options and limits are as before, except for the position of movable loads when a dynamic analysis was interrupted. The same call or any other made afterwards gives exactly what it would have given without the interruption.",
  ["crash_points", "histories"], "all points at which an analysis or plot can be interrupted, after all histories",
  "Tests never interrupt anything; a list of half-analysed planes, an option changed for the time of the analysis or a flag which is not taken back show only when a call ends early.",
  [P], [("Slope.analyse_slope storing results", P), ("Slope.analyse_dynamic / _set_dynamic_offset", P), ("Slope.plot_boundary / plot_critical / plot_all_planes", P)],
  ["get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points", "get_dynamic_results", "reported planes", "later analyses and plots"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(props))
