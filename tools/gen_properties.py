import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    assert len(title)<=80,(title,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
G="gcodeutils/gcoder.py"
p("C01","Head position of every command is that of a RepRap machine",
 "After analysing any program, the X/Y/Z position recorded for every command, and the position and coordinates reported at the end, are those of a machine executing it: G0-G3 moves in absolute (G90) or relative (G91) mode, G92 redefining the named axes (all axes when no word is given) without moving, G28 returning exactly the named axes (all axes when none is named) to the home position and cancelling their G92 offset, and lengths in inches after G20 or millimetres after G21.",
 ["programs","histories"],"all command sequences mixing moves, modes, G92, G28, units and home positions",
 "No test looks at a recorded position; the state depends on the whole command history, and tests parse a handful of fixed files.",
 [G],[("position and offset state machine","GCode._preprocess"),("argument parsing and unit scaling","parse_coordinates")],
 [("current_x/y/z","machine position","GCode"),("offset_x/y/z","G92 offsets","GCode"),("relative, imperial","modes","GCode")],["line.current_x/y/z","GCode.current_pos","GCode.abs_pos"])
p("C02","Filament accounting matches what the machine feeds",
 "For any program, each move is classified as extruding exactly when it feeds filament forward, the running extruder position is the net filament fed so far, and the filament-used figure is the largest net amount fed at any point. This holds for absolute (M82) and relative (M83) extrusion, with G90/G91 also selecting absolute/relative extrusion, G92 (with E, or bare) re-numbering the extruder without feeding, and inch or millimetre units.",
 ["programs","histories"],"all sequences of extruding moves, retractions, mode switches and extruder resets",
 "No test checks filament figures; errors need an extruder reset or a mode switch between two extrusions.",
 [G],[("E computation","GCode._preprocess, 'Process extrusion'"),("filament_length","GCode._preprocess, final part")],
 [("current_e/offset_e/total_e/max_e","extruder state","GCode")],["line.extruding","line.current_e","GCode.filament_length"])
p("C03","Reading and writing a program loses, adds or reorders nothing",
 "For any text whose numbers are of ordinary magnitude, reading it succeeds and writing it back yields every non-blank line, trimmed of surrounding blanks, exactly once and in the original order, whatever the lines contain. The flat list of lines, the concatenation of the layers and the per-line layer/position indices all describe that same sequence.",
 ["inputs","programs"],"all sequences of lines over commands, comments, blank lines, unknown codes and free text, including height changes at any place",
 "Tests compare only a few whole files through the comment-ignoring equality; no test checks the indices, unknown codes or free text.",
 [G],[("line filtering","GCode.prepare"),("layer and index building","GCode._preprocess"),("write","GCode.write")],
 [("layer_idxs/line_idxs","line position tables","GCode")],["GCode.write output","GCode.lines","GCode.all_layers","GCode.idxs"])
p("C04","Layers follow the height changes and printed heights are the extruded ones",
 "For programs whose heights are at least 0.02 mm apart, a new layer begins exactly at each command that changes the commanded height (absolute or relative Z, or G92 Z), and each layer reports, to the hundredth, the height its lines are at (homing is not a height change; a bare G92 is G92 Z0). The set of printed heights, and the layer count, contains exactly the heights at which at least one move extrudes, a move being counted at the height it ends at; moves made before any height was set belong to none.",
 ["programs","histories"],"all sequences of height changes, extruding and travel moves, z-hops, comments and mode switches",
 "Only one test touches layers, on a single file with two heights; the boundary depends on the order of Z changes and extrusions.",
 [G],[("layer splitting","GCode._preprocess, 'Create layers'")],[("all_zs","printed heights","GCode"),("all_layers","layers","GCode")],["len/contents of GCode.all_layers","Layer.z","GCode.all_zs","GCode.layers_count"])
p("C05","Reported dimensions bound exactly what is printed",
 "For any program that uses filament, the reported X and Y extents are the minimum and maximum machine positions reached at the end of extruding moves; for a program that uses none they are those of all its moves, and an axis no such move defines reports 0. The Z extents span 0 and all printed heights, and width, depth and height are the differences of the extents.",
 ["programs","inputs"],"all sequences of extruding and travel moves, retractions, offsets and units",
 "No test reads the extents.",
 [G],[("bounding box","GCode._preprocess, 'Update bounding box' and 'Compute bounding box'")],(),["GCode.xmin/xmax/ymin/ymax/zmin/zmax/width/depth/height"])
p("C06","Feeding lines one at a time is the same as parsing the whole program",
 "Splitting any program at any point, parsing the first part and appending the remaining lines one by one leaves the same machine state, filament counters, line list and per-line records as parsing it whole, and every index entry locates its line. Lines appended without being stored affect only the state, and the memory-light representation yields the same text, layers and figures as the full one.",
 ["histories","programs"],"all programs up to the bound and all split points, stored and unstored appends, light and full line classes",
 "No test appends a line or uses the light representation.",
 [G],[("append","GCode.append"),("state carry-over","GCode._preprocess, store current status"),("LightGCode","LightGCode")],(),["GCode state after append","GCode.idxs"])
p("C07","Comments and formatting never change what a program means",
 "Adding, removing or moving comments (semicolon or parenthesised, on their own line or before, between or after the words of a command), changing letter case, the spacing between words, line ends, padding codes with zeros (G01), or adding a line number and checksum never changes the command, arguments, positions, extrusion, layers or figures the analysis attributes to the program's commands.",
 ["inputs","programs"],"all short programs crossed with all placements of formatting variations",
 "One test checks that a comment-only file equals an empty one; no test varies formatting of commands.",
 [G],[("tokenizer","gcode_exp, split"),("argument parsing","parse_coordinates")],(),["line.command, arguments and records"])
p("C08","Program comparison is a sound equality",
 "Two fully parsed programs compare equal exactly when, comments aside, they have the same number of commands and corresponding commands have the same code and, for G commands, the same set of X/Y/Z/E/F/I/J arguments, each within 0.001. The comparison is symmetric, and the difference report is empty exactly when the programs compare equal.",
 ["inputs","programs"],"all pairs of programs up to the bound, including prefixes of one another",
 "Four tests compare fixed pairs of equal length; no test compares programs of different lengths or every argument.",
 [G],[("line equality","PyLine.__eq__"),("program equality","GCode.__eq__, GCode.diff")],(),["GCode == GCode","GCode != GCode","GCode.diff"])
p("C09","Editing a layer keeps the program and its indices consistent",
 "After any sequence of prepending commands to a non-empty layer or replacing its content, the written program is the original with exactly those commands (blank ones ignored) placed at the start of, or instead of, that layer, in the given order, and the returned commands are those inserted. The line list and the index tables still describe the written program line for line.",
 ["histories","programs"],"all sequences of layer edits up to the bound on programs with several layer structures",
 "One test prepends one command to one layer and only looks for it in a diff message.",
 [G],[("prepend","GCode.prepend_to_layer"),("rewrite","GCode.rewrite_layer")],[("layer_idxs/line_idxs/lines","must be kept in step","GCode")],["GCode.write","GCode.lines","GCode.idxs"])
T="gcodeutils/filter/translate.py"
p("C10","Translating a program moves its toolpath by exactly the requested amount",
 "For any program whose positioning mode (G90 or G91) is selected before it moves, translating by (dx, dy) millimetres makes the machine visit, for each original move, the original position displaced by exactly (dx, dy) on every axis the program has moved since that axis was last homed, to within output rounding of half a micron per written line, through any mix of absolute and relative moves, G92 (named or bare), G28 and units. Before it first moves since homing, an axis is either at its original or at its displaced position.",
 ["programs","histories"],"all sequences of moves, mode switches, G92, G28 and unit switches, for a set of amounts including zero and negative ones on each axis",
 "Two tests translate one five-line absolute program; G92, G28, relative mode and units are never exercised.",
 [T,"gcodeutils/gcode_mod.py"],[("translation","GCodeXYTranslateFilter.opcode_filter"),("line rewriting","gcoder.unsplit")],
 [("pending translation","part still to be applied to coordinates","GCodeXYTranslateFilter")],["translated program text, executed by a reference machine"])
p("C11","Translating a program changes nothing but X/Y placement",
 "Translating keeps every command in order and alters no height, filament feed, feed rate, arc centre offset, non-positioning command, other parameter or comment; the only added commands are rapid X/Y moves placing the head. Translating by zero changes no command's arguments at all beyond number formatting.",
 ["programs","inputs"],"all sequences of moves with every combination of arguments, parameters and comments, crossed with translation amounts",
 "The two tests use lines with a single argument and no comment.",
 [T,G],[("translation","GCodeXYTranslateFilter.opcode_filter"),("line rewriting","gcoder.unsplit")],(),["translated program text"])
R="gcodeutils/filter/relative_extrusion.py"
p("C12","Relative-extrusion conversion feeds the same filament at every move",
 "For any program that selects its extrusion mode with M82 or M83 before extruding, on a machine where those two commands alone select it, the converted program extrudes only in relative mode and feeds, on every move, the same amount of filament as the original to within output rounding, through any mix of mode switches and extruder resets by G92 (with E, bare, or other axes only).",
 ["programs","histories"],"all sequences of extruding moves, retractions, mode switches and G92 variants",
 "Two tests convert fixed five-line programs without resets or mode switches.",
 [R],[("conversion","GCodeToRelativeExtrusionFilter.opcode_filter")],[("current_extrusion_distance","absolute E reached","GCodeToRelativeExtrusionFilter")],["converted text executed by a reference machine"])
p("C13","Relative-extrusion conversion changes nothing but E values and the mode",
 "Converting keeps every command, in order, except that M82 becomes M83, and leaves X, Y, Z, F and arc arguments, other parameters and comments of every line as they were to within number formatting. Converting an already converted program changes nothing, when the program selects its extrusion mode before extruding.",
 ["programs","inputs"],"all sequences of lines with every argument combination, comments and mode commands",
 "The two tests use lines with at most two arguments and no comment.",
 [R,G],[("conversion","GCodeToRelativeExtrusionFilter.opcode_filter"),("line rewriting","gcoder.unsplit")],(),["converted program text"])
p("C14","A pause is inserted at the requested printed layer and nowhere else",
 "In a program whose heights are at least 0.02 mm apart, asking for a pause at layer n (counting printed heights upwards from 0) inserts exactly one pause command at the start of every run of consecutive lines at the n-th printed height, and nowhere else, and changes no other line. If there is no such layer the program is unchanged.",
 ["programs","inputs"],"all sequences of layers (printed, travel-only, repeated heights, identical contents, relative or absolute) and all requested layer sets",
 "One test pauses one file once and only checks that the pause command appears somewhere in a diff.",
 ["gcodeutils/visit/pause_at_layer.py","gcodeutils/visit/iterator.py",G],[("pause","PauseAtLayer.did_visit_layer"),("layer lookup","GCodeIterator.accept"),("insertion","GCode.prepend_to_layer")],(),["written program"])
p("C15","Visiting a program reports every layer and line once, in order, correctly",
 "Walking any program (its heights at least 0.02 mm apart) announces each layer, then each of its lines, then the layer's end, exactly once and in program order. Each notification carries the right position of the layer in the program, a running line number counting every line once, whether the layer's height is a printed one, and the layer's number: for layers at a printed height its rank among the printed heights, otherwise its position.",
 ["programs","inputs"],"all programs built from up to the bound of layers with repeated, empty, identical, unprinted and height-less ones",
 "The only test of visiting never inspects the information passed.",
 ["gcodeutils/visit/iterator.py","gcodeutils/visit/visitor.py"],[("walk","GCodeIterator.accept")],(),["visitor callbacks"])
A="gcodeutils/filter/arc_optimizer.py"
p("C16","Generated arcs follow the path of the moves they replace",
 "Every arc the optimiser generates replaces at least 8 consecutive straight moves at one height, starts where they start, ends where they end (to within rounding), has a radius of at most 200 mm, and passes within 0.035 mm of every replaced point in the order and turning direction in which the moves visit them, without doubling back or turning by more than a full circle. This holds in absolute and relative positioning, under G92 offsets and in inches.",
 ["programs","inputs"],"all polylines built from arcs of every size, direction, start angle, step, turn count and perturbation within the bounds, in every positioning context",
 "The four arc tests never run (they are not collected), so no test executes the optimiser.",
 [A],[("arc detection","GCodeArcOptimizerFilter.get_circle, queue_valid"),("arc output","GCodeArcOptimizerFilter.to_gcode")],[("queue","moves being considered","GCodeArcOptimizerFilter")],["optimised program, executed by a reference machine with arcs"])
p("C17","Generated arcs feed the right filament at the right speed",
 "An arc feeds, in the same direction, an amount of filament between that of the moves it replaces and that amount scaled by the ratio of the arc's length to theirs (within 3 percent), or none if they feed none, at the feed rate those moves had, and it only replaces moves that share one feed rate and all extrude or all do not, at a per-length ratio constant within 15 percent. All later commands still see the extruder numbering the original program had, or one off by at most 1 percent of the arc's filament, in absolute extrusion.",
 ["programs","inputs"],"all arcs of the bounded geometry in absolute and relative extrusion, both directions, with feed-rate and extrusion-ratio changes at every position",
 "No test executes the optimiser.",
 [A],[("extrusion","GCodeArcOptimizerFilter.to_gcode, get_distances"),("uniformity","GCodeArcOptimizerFilter.queue_valid")],(),["optimised program, executed by a reference machine"])
p("C18","Arc optimisation keeps everything it does not replace, in order",
 "Optimising any program never fails, and the result is the original program, in which zero or more runs of consecutive straight moves have each been replaced by one arc (optionally followed by a command re-setting the extruder position): no other line, comment or existing arc is lost, duplicated, altered or moved across another command. Layer changes, comments, mode changes and the end of the program at any point make no difference to this.",
 ["programs","histories"],"all interleavings up to the bound of arc pieces, straight lines, coincident points, comments and other commands, with interruptions at every position of the window",
 "No test executes the optimiser; its queue is flushed by different branches depending on fill level, validity and command type.",
 [A,"gcodeutils/filter/filter.py"],[("queueing and flushing","GCodeArcOptimizerFilter.opcode_filter, parse_gcode"),("layer rewriting","GCodeFilter.parse_layer")],[("queue/valid_circle","window state","GCodeArcOptimizerFilter")],["optimised program text"])
p("C19","Clean circular runs are recognised as arcs",
 "A run of 9 or more equal straight steps on a circle of radius 1 mm to 199 mm, each turning 3 to 45 degrees and together no more than a full circle, at one feed rate and constant extrusion ratio (or all travel), written with 3 or more decimals, is replaced by arcs that cover all but at most one of its moves when it is delimited by other commands or by moves off the circle.",
 ["inputs","programs"],"all combinations of step count, step angle, direction, start angle, radius, extrusion mode and delimiter within the bounds",
 "No test executes the optimiser.",
 [A],[("detection","GCodeArcOptimizerFilter.opcode_filter")],(),["number of moves in the optimised program"])
S="gcodeutils/stretch/stretch.py"
p("C20","Stretching moves only wall points, and never beyond the configured limit",
 "In Slic3r, Cura and Skeinforge programs, stretching changes the X/Y only of straight moves inside marked wall loops (extra shells or Cura SKIN sections, inner and outer edges; with the travel to their first point in Slic3r and Skeinforge programs, without travel in Cura ones), and by at most the edge width the program gives (0.4 mm when it gives none) times the configured ratio for that kind of loop times the stretch strength, plus rounding. A layer being a run of lines at one height, the first external perimeter of a Slic3r layer is its outer edge, the others inner ones. Other travel, infill, skirt, support and start/end moves, on the same or any other layer, keep their coordinates, and with zero strength nothing moves.",
 ["programs","configurations"],"all sequences of wall, infill, travel, skirt and layer-change blocks of each slicer's format, shapes and settings within the bounds",
 "One test compares one Skeinforge file with a reference; Slic3r and Cura tests only check that nothing is raised.",
 [S],[("loop state","StretchFilter.parse_line"),("marking","setup_filter of each slicer filter"),("displacement","StretchFilter.get_stretched_line_from_index_location")],[("isLoop, thread_maximum_absolute_stretch","current loop kind","StretchFilter")],["stretched program vs original"])
p("C21","Stretching keeps every command, height and speed",
 "Stretching a program in relative extrusion terminates and keeps every line in its place: every move has the same command, height, arc arguments and feed rate in force as in the original, every other command is untouched but for marker comments appended to it, and extrusion on a stretched move never exceeds the original or falls below it by more than the fraction the point was displaced in millimetres. Nothing but the program is written to its output. (A Cura profile string must be well formed, and the configured distances positive.)",
 ["programs","inputs"],"all sequences of marker comments, moves with partial arguments, feed-rate changes and layer changes up to the bound",
 "The Skeinforge reference always gives X, Y, Z and F on each move; no test covers missing arguments or malformed marker sequences.",
 [S],[("rewriting","StretchFilter.get_stretched_line_from_index_location, filter"),("loop walking","Line iterators")],(),["stretched program text"])
p("C22","Stretching widens closed loops outwards as documented",
 "On a closed convex wall loop longer than twice the 'stretch from distance', each point moves by an amount found from the path at 'stretch from distance' (these distances being ratios of the edge width, 0.4 mm when the program gives none) before and after the point and limited by the neighbouring points as the documented algorithm prescribes; the result does not depend on where the loop lies or how it is rotated by quarter turns. When neighbouring points are closer than a third of the cross limit distance, every displacement points out of the loop and does not depend on which way round it is printed. Closed Slic3r and Skeinforge loops stay closed, and the displacement is proportional to the stretch strength until it saturates.",
 ["inputs","configurations"],"all loops over a family of shapes, sizes, start points, directions, offsets, rotations, loop kinds, slicer formats and settings",
 "The one reference file fixes a single model and the default settings; rotations, directions and other slicers are unchecked.",
 [S],[("normal estimation","StretchFilter.get_relative_stretch"),("limitation","StretchFilter.get_cross_limited_stretch"),("loop wrap-around","Line iterators")],(),["displacement of each loop point"])
TC="gcodeutils/gcode_tempcal.py"
p("C23","A temperature gradient only adds safe temperature commands between layers",
 "Adding a temperature gradient (at least one step, minimum height 0 or more, heights not redefined by G92) keeps every line of the program in order and adds only hot-end temperature commands (M104), each directly before the first line of a layer above the minimum height. Every temperature set lies between the start and end temperatures and between 150 and 250 degrees, has one decimal and differs from the one set just before; if no layer lies above the minimum height or the heights do not form a range, it fails without writing anything.",
 ["programs","configurations"],"all height sequences, start/end temperatures, step counts, minimum heights and both gradient kinds within the bounds",
 "No test covers the calibration tool, which cannot even be imported on Python 3 at the pinned commit.",
 [TC],[("injection","GCodeTempGradient.write"),("range detection","GCodeTempGradient._parse_gcode"),("bounds","GCodeTempGradient.generate_temperature_gcode")],(),["output text"])
p("C24","The temperature gradient follows height as documented",
 "From the lowest height above the minimum to the highest printed height (with no G92 redefining heights), the continuous gradient sets at each layer the temperature linearly interpolated from start to end, and the stepped one divides the height range into steps+1 equal bands (a height on a limit may count in either band) whose temperatures go from exactly the start temperature to exactly the end temperature in equal increments. Temperature depends only on height, start/end temperature, step count and minimum height.",
 ["programs","configurations"],"all height sequences, temperature pairs (rising, falling, equal), step counts and minimum heights within the bounds",
 "No test covers the calibration tool.",
 [TC],[("continuous","GCodeContinuousTempGradient.get_temp_for_current_layer"),("stepped","GCodeStepTempGradient.get_temp_for_current_layer")],(),["M104 values before each layer"])
p("C25","Command-line tools apply exactly the requested changes, in any I/O form",
 "For every combination of options, each command-line tool writes the program obtained by applying the requested modifications one after the other and nothing else: gcode_mod with several options gives the same program as separate runs in the order translate, relative extrusion, pause, and with no option returns the program unchanged (for programs selecting their positioning mode before their extrusion mode). The output is the same whether input and output are files or standard streams, and arcs written in place equal those written to another file.",
 ["configurations","programs"],"all option subsets and values crossed with I/O forms and a family of programs, for gcode_mod, gcode_optimize_arcs, gcode_stretch and gcode_tempcal",
 "No test runs a command-line entry point.",
 ["gcodeutils/gcode_mod.py","gcodeutils/gcode_optimize_arcs.py","gcodeutils/gcode_stretch.py",TC],[("entry points","main of each tool")],(),["output file or standard output"])
p("C26","A run that fails never damages the user's program file",
 "When an in-place run (the in-place option of the arc optimiser, or the Cura plugins, which replace the file they are given) fails at any point before it starts writing the complete result, the file still holds the original program. When it succeeds, the file holds the complete result.",
 ["fault_sequences","crash_points"],"a failure injected at every step of reading, analysing and transforming, and every program the tool rejects",
 "No test runs a plugin, uses the in-place option or makes a step fail.",
 ["cura_plugins/stretch_plugin.py","cura_plugins/tempcal_plugin.py","gcodeutils/gcode_optimize_arcs.py",TC],[("order of reading, processing and opening for writing","plugins; gcode_optimize_arcs.main")],(),["file content after the run"])
p("C27","Print time estimates are consistent",
 "The estimated duration is never negative, is the sum of the layer durations (in whole seconds) and grows by exactly n milliseconds when a dwell of n ms (G4 P) is added anywhere. It depends only on the motion: writing the same motion with relative instead of absolute moves or with the coordinates re-numbered by G92 gives the same estimate. A linear move lasts at least its distance at the higher of its feed rate and the one before and at most twice its distance at its own feed rate; one going straight on at the same feed rate lasts exactly its distance at that rate.",
 ["programs","inputs"],"all sequences of moves, feed rates and dwells up to the bound, and their equivalent rewritings",
 "No test reads a duration.",
 [G],[("duration","GCode._preprocess, 'Compute duration'")],(),["GCode.duration","Layer.duration","GCode.estimate_duration"])
p("C28","A rewritten command means the same as the command it replaces",
 "Whenever a tool rewrites a move it has not changed, the rewritten line re-reads as the same command with the same set of arguments and other parameters, in the program's units, each value within the output precision (at least 3 decimals, 5 for E), and with its comment intact, for every combination of arguments and any magnitude or sign of values. Writing and re-reading a processed program never changes it any further.",
 ["inputs"],"all argument subsets of all move commands crossed with value families (signs, magnitudes, decimals), units, comments and extra parameters",
 "Tests compare a few rewritten lines through a tolerance of 0.001 and never look at comments, other parameters or inch programs.",
 [G,T,R],[("rewriting","gcoder.unsplit"),("parsing","gcoder.split, parse_coordinates")],(),["rewritten line text"])
p("C29","The program summary reports the figures of the program",
 "Summarising a program file (running gcodeutils.gcoder on it) succeeds on any program, leaves the file alone, and reports to two decimals the X/Y/Z extents with their differences, the filament used in millimetres, the number of printed layers and the estimated duration of that very program, whatever its modes, units, offsets and line ends.",
 ["programs","inputs"],"all command sequences of the bound mixing extruding and travel moves, heights, modes, units, G92, homing and dwells, crossed with line-end styles",
 "No test runs the summary, which could not even open its file on Python 3.11.",
 [G],[("report","gcoder.main"),("figures","GCode._preprocess")],(),["standard output of python -m gcodeutils.gcoder FILE"])
p("C30","Programs are processed independently of one another",
 "The result of analysing, filtering, editing, comparing or calibrating a program depends on that program and the options alone: it is the same in a new process, after any other programs were processed in the same process, and while other programs are being processed with other objects, whatever the interleaving of their steps.",
 ["histories","schedules"],"all ordered pairs of runs (operation and program) and all interleavings of their steps",
 "Tests process each program once, in one order, and never look for state left behind.",
 ["gcodeutils/filter/arc_optimizer.py","gcodeutils/filter/translate.py","gcodeutils/stretch/stretch.py",G,TC,"gcodeutils/visit/pause_at_layer.py"],
 [("per-run state","GCodeArcOptimizerFilter, StretchFilter, GCodeXYTranslateFilter, GCodeToRelativeExtrusionFilter, GCode instances"),("class-level defaults","GCode, GCodeArcOptimizerFilter.queue")],
 [("queue","class attribute shadowed by instances","GCodeArcOptimizerFilter"),("GCode class attributes","defaults of analysis state","GCode")],["result of every run"])
p("C31","How a program is spelled never changes what a tool does to it",
 "For every tool (translation, conversion to relative extrusion, pause insertion, temperature gradients, arc optimisation, stretching) the result on a program means the same, command by command and comment by comment, whether the program's plain commands are written in capital or small letters, with codes padded with zeros, with any spacing, line numbers, checksums, line ends or number spelling (signs, leading and trailing zeros), on all or only some of its lines. Comments added to lines change no command of the result (the arc optimiser, which keeps commented moves, aside).",
 ["inputs","programs"],"all tools crossed with a family of programs and all short command sequences, all spellings, and all patterns of spelled lines",
 "Tests run each tool on one or two files as slicers write them: capitals, single blanks, no line numbers or checksums.",
 [G,"gcodeutils/filter/translate.py","gcodeutils/filter/relative_extrusion.py",A,"gcodeutils/stretch/stretch.py",TC,"gcodeutils/visit/pause_at_layer.py"],
 [("tokenizer","gcoder.split, gcode_exp"),("rewriting","gcoder.unsplit"),("tests of raw text","filters and visitors reading line.raw or line.command")],(),["output of every tool"])
p("C32","Analysis callbacks follow the analysis and change nothing",
 "When a program is analysed with callbacks, at once or deferred, in full or light representation, the line callback is called exactly once for every non-blank line, in program order and with the line completely analysed (arguments, position, extrusion), and the layer callback exactly once for each layer another layer follows, in order, with the program and the layer's position, at the moment all the layer's lines and none of the next have been announced and its lines, height and duration are final. The outcome of the analysis is the same as without callbacks.",
 ["histories","programs","inputs"],"all command sequences of the bound and stacks of layers, crossed with ways of analysing, representations and home positions",
 "No test passes a callback or prepares a program later.",
 [G],[("callbacks","GCode._preprocess, layer_callback and line_callback"),("deferred preparation","GCode.prepare")],(),["arguments and order of the callbacks","the state of the program at each call"])
p("C33","Each command is recorded with its arguments and the settings in force",
 "After analysing any program, every G command carries exactly the X/Y/Z/E/F/I/J arguments it gives, in millimetres whatever the unit in force (G20, G21), and every move the tool (the last T command, 0 before any), the feed rate (the last F of a move), the positioning mode (G90/G91) and the extrusion mode (M82/M83, also selected by G90/G91) in force when it is executed. The program reports, in either representation, the tool, feed rate, modes, unit and extruder coordinate in force at its end.",
 ["programs","histories"],"all command sequences mixing moves with changes of tool, feed rate, modes and units, and all argument subsets, orders and values in each context",
 "No test reads an argument, a tool, a feed rate or a mode of a parsed line.",
 [G],[("argument parsing","gcoder.split, parse_coordinates"),("modes, tool and feed rate","GCode._preprocess")],
 [("relative, relative_e, imperial, current_tool, current_f","settings in force","GCode")],["attributes of every line","attributes of the program"])
p("C34","A filter sees every line once and its answers make the new program",
 "Filtering a program with any filter (a GCodeFilter answering to each line) presents every line to it exactly once, in program order, and leaves the program in which each line is kept where the filter answers None and replaced by what it answers otherwise (a line, or any number of lines, none removing it), in the same layer and order. A failure of the filter is passed on as it is and leaves the lines of the layer it occurs in, and of those after it, in place.",
 ["inputs","histories","fault_sequences"],"all sequences of answers of a filter to the lines of a program, and a failure of any kind at any line",
 "The tests run three filters on a few files; none removes lines, fails, or answers differently from line to line.",
 ["gcodeutils/filter/filter.py"],[("rebuilding of layers","GCodeFilter.parse_layer"),("walk","GCodeFilter.parse_gcode, GCodeFilter.filter")],(),["lines given to opcode_filter","GCode.all_layers","GCode.write output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
