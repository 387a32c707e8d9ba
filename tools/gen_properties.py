#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DM = "crates/dreammaker/src/"
DT = "crates/dmm-tools/src/"
DC = "crates/dreamchecker/src/"
LS = "crates/dm-langserver/src/"

p("C01", "Interval tree behaves as an ordered multimap and stays balanced",
  "After any sequence of insertions, removals, clears of a key and merges, every query on the interval tree (exact lookup, membership, minimum, maximum, full iteration, stabbing and range queries, consuming iteration) returns exactly the entries a plain ordered list of (interval, value) pairs would return, in ascending interval order and, for equal intervals, in insertion order. The depth of the tree stays within the AVL bound for its number of distinct intervals, and no operation sequence makes it panic.",
  ["histories", "inputs"], "every finite history of insert/remove/merge operations over every set of intervals, including duplicated, nested, touching and identical ones, and every query interval afterwards",
  "The tests run eleven hand-picked sequences with few nodes; rotations combined with removals and the cached subtree maximum can only go wrong in longer mixed histories.",
  ["crates/interval-tree/src/tree.rs", "crates/interval-tree/src/node.rs", "crates/interval-tree/src/iterators.rs"],
  [("rebalancing and cached subtree maximum", "crates/interval-tree/src/node.rs: rotate_if_necessary, update_height, insert, remove"), ("pruned range iteration", "crates/interval-tree/src/iterators.rs")],
  ["public API of the interval-tree crate"])

p("C02", "Printing a token stream and lexing it again gives the same tokens",
  "For every DreamMaker source text that lexes without diagnostics, the tool's own re-rendering of its token stream (the pretty-printer with explicit braces and semicolons, before or after indentation has been turned into blocks; its one-line form, used to show macro bodies, for streams without block structure; and the printed form of every single token) lexes back, without diagnostics, to the same sequence of tokens: identifiers, punctuation, integers exactly, floats to the six significant digits they are printed with, strings, resources and interpolated strings character for character (a bare quote inside an interpolated block string coming back escaped); line ends come back as semicolons and comments are dropped. The printer never panics, whatever the bracket structure.",
  ["inputs"], "every sequence of lexable tokens, in particular every finite 32-bit number, every string content and every nesting of interpolations and brackets",
  "The format tests print a dozen fixed snippets; float formatting, escaping and interpolation only fail for particular values and combinations.",
  [DM+"lexer.rs", DM+"lib.rs", DM+"indents.rs"],
  [("token display, float formatting and quoting", DM+"lexer.rs: impl Display for Token, FormatFloat, Quote"), ("pretty printer", DM+"lib.rs: pretty_print")],
  ["text produced by pretty_print and by Display of tokens"])

p("C03", "Every token carries the exact source position where it starts",
  "Every token, every statement and name in a proc body, and every lexical or preprocessing diagnostic of a source file carries that file's identity, and the 1-based line and 1-based column (counted in source bytes) of its first character in the original text, whatever comments, line continuations, tabs, carriage returns, multi-line strings, interpolations, block structure, includes and conditionals come before it; tokens produced by a macro carry the position of its use, and declarations are placed within the lines of their own declaration. Positions of successive tokens of one file never go backwards, also after indentation has been turned into blocks.",
  ["inputs"], "every arrangement of tokens, comments, continuation lines, strings and blank space up to the representable line and column limits",
  "Location tests check four fixed snippets; the counter is updated in many places of the lexer (escapes, continuations, nested comments) and each combination is a separate case.",
  [DM+"lexer.rs", DM+"error.rs"],
  [("line/column bookkeeping", DM+"lexer.rs: LocationTracker, Lexer::update_loc"), ("location arithmetic", DM+"error.rs: Location")],
  ["locations attached to lexer tokens", "locations attached to object tree entries and diagnostics"])

p("C04", "Conditional compilation keeps exactly the branches the conditions select",
  "For every well-formed nest of #if/#ifdef/#ifndef/#elif/#else/#endif with #define and #undef in active and inactive regions, the text that reaches the parser is exactly the text of the regions whose conditions hold, evaluated in order with the macros defined at that point; text and directives in unselected regions have no effect. Unbalanced or misplaced conditional directives are reported as errors rather than silently changing the selection or crashing.",
  ["inputs", "programs"], "every nesting of conditional directives, macro definitions between and inside them, and condition expressions over defined(), comparisons, arithmetic and logic",
  "Existing macro tests contain two or three conditional blocks; the skip state is a stack whose interplay with definitions inside skipped regions needs arbitrary nestings.",
  [DM+"preprocessor.rs"],
  [("stack of active conditionals", DM+"preprocessor.rs: Ifdef, is_disabled, real_next"), ("condition evaluation", DM+"preprocessor.rs: evaluate_inner, DefineMap")],
  ["token stream after preprocessing", "diagnostics"])

p("C05", "Macro expansion substitutes exactly and always terminates",
  "Expanding object-like and function-like macros (including variadic parameters, stringification, token pasting, nested and re-scanned uses, redefinition and undefinition) yields the same token sequence as textual substitution by the documented rules, with each argument substituted exactly where its parameter occurs. Self- or mutually-recursive macros and wrong argument counts end in bounded time with a diagnostic, never in a hang or crash.",
  ["inputs", "programs"], "every set of macro definitions and uses: arities, empty arguments, commas inside brackets, parameters inside strings, nested macro calls in arguments, recursion",
  "The macro tests cover around ten snippets; argument collection and parameter substitution are separate scanners whose interaction needs generated combinations.",
  [DM+"preprocessor.rs"],
  [("argument collection and substitution", DM+"preprocessor.rs: expand_macro, get_arguments / inner_next"), ("recursion bound", DM+"preprocessor.rs: MAX_RECURSION_DEPTH")],
  ["token stream after preprocessing", "diagnostics"])

p("C06", "Includes are spliced in place, once each, and missing ones are reported",
  "Preprocessing a project delivers the tokens of every included source file exactly at its include directive, resolved relative to the including file and then to the project's root, in directive order and at any depth; a file included again (also through a cycle, from itself, or under another spelling of the same relative path) contributes nothing a second time and is reported, unless it opts in to repeated inclusion. A missing or unreadable file yields a diagnostic at the directive and the rest of the project is processed unchanged; files that are not source code contribute no tokens.",
  ["inputs", "fault_sequences", "configurations"], "every include graph (chains, diamonds, cycles, repeated includes, directories), with any subset of the files missing or unreadable, and conditionals left open in any of them",
  "No existing test runs the include machinery on files at all.",
  [DM+"preprocessor.rs", DM+"error.rs"],
  [("include stack and once-only set", DM+"preprocessor.rs: IncludeStack, Include::File, prepare_include_file, include_locations"), ("file list", DM+"error.rs: FileList")],
  ["token stream after preprocessing", "diagnostics", "list of files of the context"])

p("C07", "Macro state can be queried exactly as of any point in the project",
  "After a project has been preprocessed, re-opening preprocessing at the start of any included file, or at the end, sees exactly the macro definitions (names, parameters, replacement text, and the earlier definitions they return to when undefined) that were in force when the original run first reached that point, and the recorded history lists each definition once, at its place, with the span from its definition to the undefinition that removed it.",
  ["histories", "programs"], "every sequence of defines, undefines and redefines spread over included files, and every file at which preprocessing is re-opened",
  "No test exercises the definition history; it relies on the interval tree, on locations and on include ordering together.",
  [DM+"preprocessor.rs", "crates/interval-tree/src/tree.rs"],
  [("definition history", DM+"preprocessor.rs: DefineHistory, DefineMap, branch_at_file, branch_at_end, finalize")],
  ["tokens produced by a preprocessor branched at a file", "history iteration"])

p("C08", "Indented blocks and braced blocks describe the same program",
  "Writing a block by indentation (any tab or space step used consistently within it, with blank lines, comments and parentheses spanning lines in between) or by braces and semicolons, on one line or over several indented ones, produces the same object tree: the same types, variables, values, procs, parameters and statement structure; so does writing every declaration under its absolute path. Inconsistent indentation is diagnosed and never crashes or hangs the parser.",
  ["programs", "inputs"], "every program with blocks of any nesting and every consistent layout of it",
  "The few parser tests use one layout each; equivalence over layouts is a relation between two runs which unit tests never compare.",
  [DM+"indents.rs", DM+"parser.rs"],
  [("indent-to-brace conversion", DM+"indents.rs: IndentProcessor"), ("block parsing", DM+"parser.rs: tree_block, block, statement")],
  ["object tree and proc syntax trees"])

p("C09", "Expressions parse with DM operator precedence and associativity",
  "Every expression parses to the tree that DreamMaker's precedence table and associativity prescribe (power, multiplicative, additive, comparison, shift, equality, bitwise and/xor/or, logical and/or, ternary, right-associative assignment, 'in'), with unary, postfix, member access, indexing and call suffixes binding tighter; adding redundant parentheses that follow that tree never changes it. The statement forms (if/else chains, loops, switch with ranges, try/catch, labels, del, goto, spawn, set) keep their parts in the order and position written.",
  ["inputs", "programs"], "every expression tree over the operators and suffixes of the language and every nesting of statement forms, under minimal and redundant parenthesisation",
  "Expression tests pin about twenty strings; the table interacts pairwise between dozens of operators.",
  [DM+"parser.rs", DM+"ast.rs"],
  [("precedence table and shunting", DM+"parser.rs: BINARY_OPS, expression_part, group, term")],
  ["syntax tree returned by the parser"])

p("C10", "Constant expressions evaluate to the value BYOND semantics give them",
  "Every constant initialiser built from literals, arithmetic, comparison, bitwise, shift and logical operators, ternaries, string concatenation, lists, type paths with variables, new(), the folded builtins (sin, cos, arcsin, arccos in degrees, rgb in its RGB, HSV and HSL forms with positional or named arguments, nameof), the constructors kept as calls (matrix, icon, sound, filter, file, generator, vector, newlist) and references to other variables (own, inherited, global, Type::name, and const members of a typed null) folds to the value obtained by evaluating the expression directly with 32-bit floats and 24-bit integer operations, regardless of declaration order. Initialisers that are not constant or refer to themselves are diagnosed at their own variable and get no value, all others get no diagnostic; nothing crashes, hangs or affects other variables.",
  ["inputs", "programs"], "every constant expression and every reference graph between constant variables including cycles",
  "Constant tests cover rgb() and a handful of expressions; operators times operand types times evaluation order are far more cases.",
  [DM+"constants.rs", DM+"objtree.rs"],
  [("constant folder", DM+"constants.rs: ConstantFolder, constant_ident_lookup, rgb"), ("recursion guard", DM+"constants.rs: being_evaluated")],
  ["constant values of object tree variables", "diagnostics"])

p("C11", "Printed constants read back as the same constant",
  "The textual form the tool prints for a constant value (number, string, resource, typed path with instance variables, list, null, new()) parses and evaluates back to an equal constant, for every finite number bit for bit and every string character for character. Constants that compare equal are interchangeable as map dictionary entries: they hash and order identically.",
  ["inputs"], "every finite 32-bit float, every string, and every nesting of lists, prefabs with variable overrides and associations",
  "No test prints a constant and reads it back; failures hide in particular floats and characters.",
  [DM+"constants.rs", DM+"lexer.rs"],
  [("constant display", DM+"constants.rs: impl Display for Constant, Pop"), ("number and string formatting", DM+"lexer.rs: FormatFloat, Quote")],
  ["Display output of Constant", "evaluate_str"])

p("C12", "The object tree resolves inheritance exactly as the declarations say",
  "For every set of type, variable and proc declarations, in whatever file order and nesting style they are written, each type's parent is the one given by its path or by an explicit parent_type, a variable or proc looked up on a type resolves to the nearest definition along that chain, declarations are found on the nearest declaring ancestor, the chain of calls to the parent implementation visits every override once in the right order, and subtype tests agree with the chain. Undefined types, duplicate declarations and cyclic or missing parents are reported and every walk up the tree still terminates.",
  ["programs", "inputs"], "every forest of declarations including re-opened types, redefinitions, overrides before definitions, explicit parent types and cyclic or dangling ones",
  "Few tests build more than one level of types; resolution depends on declaration order, path style and parent_type together.",
  [DM+"objtree.rs", DM+"parser.rs"],
  [("parent assignment", DM+"objtree.rs: assign_parent_types, finalize"), ("lookup along parents", DM+"objtree.rs: TypeRef, ProcRef"), ("registration", DM+"objtree.rs: add_var, register_proc, add_entry")],
  ["object tree API", "diagnostics"])

p("C13", "No source text makes the tools crash or hang",
  "Lexing, preprocessing, parsing, constant evaluation, static checking and annotation of any byte sequence, within fixed limits on size and nesting depth, terminate normally in time bounded by the input size: no panic, arithmetic overflow, out-of-bounds access or endless loop. Every diagnostic produced names a known file and a position inside that file.",
  ["inputs", "programs"], "every byte sequence of bounded size and nesting, from random bytes through mutated real programs to almost valid programs, in environments and single-file mode",
  "Tests only feed valid programs and a few errors; the parser has dozens of unwrap and assertion sites reachable only through malformed input.",
  [DM+"lexer.rs", DM+"preprocessor.rs", DM+"indents.rs", DM+"parser.rs", DM+"constants.rs", DM+"objtree.rs", DC+"lib.rs"],
  [("best-effort recovery", DM+"parser.rs: skip to next statement, error recovery"), ("limits", DM+"parser.rs, preprocessor.rs: recursion limits")],
  ["process outcome", "locations of diagnostics"])

p("C14", "A syntax error inside one proc leaves every other definition intact",
  "If the body of one proc contains invalid code whose brackets, braces and quotes are balanced, at least one error located within that proc is reported, and all other types, variables, proc declarations and proc bodies of the project are exactly what they are without that proc's error, so that checks of the remaining code report the same diagnostics.",
  ["programs", "fault_sequences"], "every program, every proc of it and every balanced corruption of that proc's body",
  "No test combines an invalid proc with assertions on the rest of the program.",
  [DM+"parser.rs"],
  [("delimited reading of proc bodies", DM+"parser.rs: read_any_tt, proc body sub-parser, error recovery")],
  ["object tree with and without the corruption", "diagnostics"])

p("C15", "Configured severities and filters decide exactly which diagnostics appear",
  "With any configuration, each registered diagnostic is kept or dropped, and given a severity, exactly as documented: an override for its diagnostic type replaces its severity, 'disabled' removes it, and the display threshold then drops everything less severe; diagnostics without a type are only subject to the threshold. A broken configuration file is itself reported and leaves the defaults in force.",
  ["configurations", "inputs"], "every combination of threshold, per-type override (all documented names and level spellings) and set of emitted diagnostics, and malformed configuration files",
  "No test loads a configuration file.",
  [DM+"config.rs", DM+"error.rs", "CONFIGURING.md"],
  [("severity override and threshold", DM+"config.rs: set_configured_severity, registerable_error"), ("registration", DM+"error.rs: Context::register_error, autodetect_config, force_config")],
  ["Context::errors", "output and exit status of dreamchecker"])

p("C16", "Documentation comments attach to the right item with their exact text",
  "Each documentation comment is attached to exactly the item it documents: one marked for the following item (/// or /**) to the next variable, proc, type or macro, also across blank lines, ordinary comments and conditional directives; one marked for the enclosing item (//! or /*!) to the item on its line or at the start of whose block it stands, or outside any item to its file; and comments in other places to nothing. The text collected for an item is its comments' content in order with only the comment markers and the decoration common to a comment's lines removed, so no other character of documentation is lost or added.",
  ["inputs", "programs"], "every mixture of line and block documentation comments, decorated or not, before, after and inside items of every kind, with any content",
  "No test checks documentation text or attachment.",
  [DM+"docs.rs", DM+"lexer.rs", DM+"parser.rs", DM+"preprocessor.rs"],
  [("comment collection and normalisation", DM+"docs.rs: DocComment, DocCollection"), ("attachment", DM+"parser.rs: doc_comment, preprocessor.rs: docs_in/docs_out")],
  ["docs of types, variables, procs, macros and modules"])

p("C17", "Saving a map and loading it again preserves the whole map",
  "Writing any map and reading it back gives a map of the same dimensions with, at every coordinate, the same list of objects in the same order with the same variable overrides (numbers to the six significant digits the format keeps); saving again produces byte-identical output. This holds for every dictionary size up to the format's limit, for every variable value and for every number of levels.",
  ["inputs", "histories"], "every map that can be represented: any dimensions, dictionary sizes across the key-length steps, and any variable values including strings with quotes, braces, escapes and newlines",
  "dmm-tools has no unit tests for the map format.",
  [DT+"dmm.rs", DT+"dmm/read.rs", DT+"dmm/save_tgm.rs"],
  [("writer", DT+"dmm/save_tgm.rs"), ("reader state machine", DT+"dmm/read.rs: parse_map"), ("key formatting", DT+"dmm.rs: FormatKey, adjust_key_length")],
  ["Map API", "bytes of the saved file"])

p("C18", "Reading a map file yields exactly the tiles the file describes",
  "For every well-formed map file, in classic or TGM layout, with any key length, row or column grid blocks, comments and blank space, each coordinate of the loaded map holds exactly the prefab list of the key written for it (with y counted from the bottom), the dimensions are those of the grid, and iteration over levels visits every tile exactly once under its right coordinate. Key codes and their text are in one-to-one correspondence over the whole key space.",
  ["inputs"], "every grid layout (one block per level, one per column, one per tile, several levels), every key length and every key",
  "dmm-tools has no unit tests for the map format.",
  [DT+"dmm.rs", DT+"dmm/read.rs"],
  [("grid reading", DT+"dmm/read.rs"), ("coordinate conversion", DT+"dmm.rs: Coord2, Coord3, ZLevel iterators"), ("key codes", DT+"dmm.rs: KeyType, BASE_52")],
  ["Map API"])

p("C19", "Damaged map and icon files are rejected cleanly",
  "Loading a map or icon file with arbitrary damage (truncation, changed, inserted or removed bytes or lines, bad numbers, unknown keys or directions, wrong sizes) either succeeds or returns an error value that the caller can report; it never panics, overflows, reads outside the image or hangs. A map load that succeeds never contains a tile whose key is missing from its dictionary.",
  ["inputs", "fault_sequences"], "every damaged variant of map text, icon metadata text and icon image bytes",
  "Only two metadata anomalies are tested; no test feeds damaged maps or images.",
  [DT+"dmm/read.rs", DM+"dmi.rs", DT+"dmi.rs"],
  [("map reader errors", DT+"dmm/read.rs"), ("metadata parser", DM+"dmi.rs: Metadata::meta_from_str"), ("image decoding", DT+"dmi.rs: IconFile, Image::from_file")],
  ["return values of the loaders", "process outcome"])

p("C20", "Icon metadata maps each state, direction and frame to its own cell",
  "For every icon sheet, each (state, direction, frame) triple maps to the cell obtained by laying out the states' frames in file order, frame-major and direction-minor, left to right and top to bottom; distinct triples never share a cell, missing directions fall back to the documented one, and state lookup by name returns the right occurrence when names repeat. The direction algebra (opposites, rotations, splitting and joining of diagonals) obeys its laws.",
  ["inputs"], "every list of states with 1, 4 or 8 directions, any frame counts and delays, duplicate names and every sheet width",
  "Two metadata tests check one file each; offsets accumulate over all preceding states.",
  [DM+"dmi.rs", DT+"dmi.rs"],
  [("metadata and frame lookup", DM+"dmi.rs: Metadata::rect_of, get_index_of_frame, index_of_dir, finalize"), ("Dir operations", DM+"dmi.rs: Dir")],
  ["Metadata API", "IconFile::rect_of"])

p("C21", "Rendered map images show exactly the map's sprites in drawing order",
  "The picture produced for a map rectangle equals painting every visible object's icon frame (right state, direction, colour, alpha and pixel offset), ordered by plane, then layer, then appearance order on the tile, with standard alpha blending onto a transparent canvas of 32 pixels per tile with the map's top row at the top. Rendering a sub-rectangle gives the corresponding crop of what is drawn for objects inside it, and sprites overhanging the canvas edges are clipped without error.",
  ["inputs", "configurations"], "every map, icon sheet and combination of icon, state, direction, layer, plane, colour, alpha, offset and underlay/overlay of its objects, and every sub-rectangle",
  "dmm-tools has no rendering tests.",
  [DT+"minimap.rs", DT+"dmi.rs", DT+"icon_cache.rs"],
  [("atom collection and ordering", DT+"minimap.rs: generate, get_atom_list, Sprite::from_vars"), ("blending", DT+"dmi.rs: Image::composite")],
  ["pixels of the generated image", "PNG written by the command-line tool"])

p("C22", "Icon export reproduces every frame of the icon state exactly",
  "Exporting an icon state produces an image whose directions appear side by side in the documented order and whose frames, order and delays are those of the metadata (repeating forever; states that rewind are played forward and then backward), with every pixel equal to the source cell (still images exactly, animations up to palette encoding of the same colours). States without animation produce still images and animated states produce animations. A failure to write the output is reported.",
  ["inputs"], "every icon sheet and state: 1, 4 or 8 directions, one or many frames, delays, loop counts, rewind",
  "There is no test of the exporter.",
  [DT+"dmi/render.rs", DT+"dmi.rs"],
  [("icon renderer", DT+"dmi/render.rs: IconRenderer, prepare_render, render_gif")],
  ["bytes of the exported image"])

p("C23", "Parallel work gives the same results as serial work, without data races",
  "Rendering any set of maps with any number of worker threads, and any interleaving of concurrent uses of the shared icon cache, produces the same output files, results, exit status and set of error reports as doing the work one at a time. There are no data races, deadlocks or lost results, each icon lookup returns the content of its own file, and a file once loaded is not loaded again.",
  ["schedules", "inputs"], "every schedule of worker threads over every set of maps, icons (including missing ones) and chunk requests",
  "No existing test uses more than one thread.",
  [DT+"icon_cache.rs", DT+"minimap.rs", "crates/dmm-tools-cli/src/main.rs"],
  [("icon cache locking", DT+"icon_cache.rs: IconCache"), ("parallel maps", "crates/dmm-tools-cli/src/main.rs: rayon iteration")],
  ["output files, printed results and thread-sanitizer reports"])

p("C24", "Render passes are selected by documented precedence and act only as described",
  "For any configuration file and command line, the set of active render passes is: a pass named to be enabled is on; otherwise one named to be disabled is off; otherwise 'all' enabling, then 'all' disabling applies, then the configuration file's choice, then the pass's default; unknown names change nothing. The hiding passes (space, areas, invisible objects, only cables, only pipes) remove exactly the objects whose type, or whose variables after the map's own values are applied, their description names, including their subtypes and no look-alike path; a configured hide list hides the listed types and their subtypes; and the layer of an object under fancy layering is that of the most specific configured type it belongs to, or the built-in order where none is configured.",
  ["configurations", "inputs"], "every subset of passes enabled and disabled by name, by 'all' and by configuration, and every object list shown to the passes",
  "No test selects or runs render passes.",
  [DT+"render_passes/mod.rs", "crates/dmm-tools-cli/src/main.rs", DM+"config.rs"],
  [("pass selection", DT+"render_passes/mod.rs: configure_list"), ("pass filters", DT+"render_passes/mod.rs: HideSpace, HideAreas, HideInvisible, FancyLayers, Overlays")],
  ["list of configured passes", "rendered pixels"])

p("C25", "Map comparison and map information report exactly what the maps contain",
  "Comparing two map files lists a coordinate as different if and only if the tiles there differ as ordered lists of typed objects with sets of variables, reports a size difference if and only if the dimensions differ, and a map compared with a re-encoded copy of itself (other layout, other keys, other order of variables, other spelling of values) shows no difference. The information command reports the true dimensions, key length and dictionary size of each map, and the map commands exit with failure if and only if some requested map could not be processed, however many could not.",
  ["inputs", "configurations", "fault_sequences"], "every pair of maps including different dimensions, dictionaries and key assignments, every list of readable and unreadable maps",
  "The command-line tool has no tests.",
  ["crates/dmm-tools-cli/src/main.rs", DT+"dmm.rs"],
  [("subcommands", "crates/dmm-tools-cli/src/main.rs: DiffMaps, MapInfo, Minimap, exit status")],
  ["standard output, JSON and exit status of the tool"])

p("C26", "Batch rendering answers every requested chunk, in order, with right bounds",
  "A batch render request with any number of files and chunks, naming readable maps and existing levels, is answered by one result per file and per chunk in request order; each chunk's file holds the picture a single render of the same level and bounds produces, also when maps share a name or are listed twice; omitted bounds default to the whole level and out-of-range bounds are clamped. The bounds and level options of the minimap command select exactly the same rectangles, clamped in the same way.",
  ["inputs", "configurations", "fault_sequences"], "every request document: files, levels, bounds present, absent or out of range, missing maps, any worker count",
  "The command-line tool has no tests.",
  ["crates/dmm-tools-cli/src/main.rs", DT+"minimap.rs"],
  [("render-many", "crates/dmm-tools-cli/src/main.rs: RenderMany, render_many"), ("bounds clamping", "crates/dmm-tools-cli/src/main.rs: Minimap")],
  ["JSON answer and files written"])

p("C27", "Override and parent-call directives are enforced through the whole hierarchy",
  "For every type hierarchy, a proc override is reported if and only if the directives in force on the definitions it overrides forbid it: overriding something that must not be overridden, never calling the parent implementation where that is required anywhere up the chain and not disabled in between, calling it where the overridden proc prohibits it, and redefining a proc without permission. Each such report names the proc at fault.",
  ["programs"], "every hierarchy of overrides, every placement of directives (enabled or disabled) on it, and every position of parent calls within bodies",
  "Directive tests check one hierarchy of depth two or three per directive.",
  [DC+"lib.rs"],
  [("directive tables", DC+"lib.rs: ProcDirective, AnalyzeObjectTree::check_proc_call_tree / gather_settings"), ("parent-call detection", DC+"lib.rs: AnalyzeProc, calls_parent")],
  ["diagnostics of the checker"])

p("C28", "Procs marked as non-sleeping or pure are proven so or reported",
  "Whatever procs promise not to sleep and in whatever order they stand, every proc that contains a sleeping operation and is reached by a chain of calls from a promised proc (through global procs, bare calls on the same object, procs of a statically typed receiver and any override the receiver's type allows, parent calls and constructors; not through detached execution, procs that return at once, procs allowed to sleep, or other promised procs, which answer for themselves) is reported for a promised proc that reaches it, a promised proc that itself sleeps is reported, and nothing is reported for a promised proc from which no such chain exists. A proc that promises to be pure is reported if it, or a proc its calls resolve to, directly or through further calls, changes a variable or object from outside itself or produces output, and is not reported when nothing its calls could run does; giving locals new values, changing lists and objects it made itself, and reading anything are pure. A bare call of a pure proc whose value is discarded is reported.",
  ["programs", "histories"], "every call graph over global and member procs with overrides, detached calls, exemptions, and any set and order of promised procs",
  "Sleep tests check four small graphs with a single promise each.",
  [DC+"lib.rs"],
  [("transitive search", DC+"lib.rs: AnalyzeObjectTree::check_proc_call_tree, CallStack, visited"), ("violation collection", DC+"lib.rs: ViolatingProcs, ViolatingOverrides")],
  ["diagnostics of the checker"])

p("C29", "Access rules for private, protected and final members are enforced exactly",
  "A use or override of a variable or proc is reported if and only if it violates the declared access: a private proc called, or a private variable accessed through an object, from any type other than the declaring one; a private proc or variable overridden in a descendant; a protected proc called or protected variable accessed from outside the declaring type and its descendants (from a global proc included); and a final variable overridden in a descendant at any depth. Uses and overrides that comply, bare uses of inherited variables among them, are never reported.",
  ["programs"], "every hierarchy, every placement of the declarations and every use site with a statically known receiver",
  "Access tests check one sibling and one child per rule.",
  [DC+"lib.rs", DM+"objtree.rs"],
  [("private/protected tables", DC+"lib.rs: ProcDirective private/protected, visit_follow var and proc access, final var check")],
  ["diagnostics of the checker"])

p("C30", "Random-number switches are checked for exact coverage",
  "For a switch on an integer random roll with constant bounds (in either order), a case value or range is reported as never triggering if and only if no integer in the roll's range lies in it, and a missing case is reported, naming a roll that has none, if and only if there is no default branch and some roll in the range has no case, considering single values, ranges, lists of them, overlaps and any order; cases whose value is not known never lead to a report. Analysing any bounds terminates without overflow.",
  ["inputs"], "every pair of bounds and every set of case values, ranges, overlaps and orders, including huge values",
  "Eight fixed switch statements are tested.",
  [DC+"switch_rand_range.rs"],
  [("range bookkeeping", DC+"switch_rand_range.rs: check_switch_rand_range")],
  ["diagnostics of the checker"])

p("C31", "Checking is deterministic and its exit status and reports agree",
  "Analysing the same project repeatedly gives the same diagnostics in the same order, the printed, counted and JSON-reported diagnostics describe the same set, and the process exit status signals failure if and only if a diagnostic of informational or higher severity was reported. Parse-only runs report exactly the diagnostics not coming from the checker.",
  ["inputs", "configurations", "schedules"], "every project and configuration, over repeated runs and hash seeds",
  "Tests run the checker in-process once per snippet and never run the program.",
  [DC+"main.rs", DC+"lib.rs", DM+"error.rs"],
  [("command line", DC+"main.rs"), ("ordered iteration", DC+"lib.rs: run"), ("error list", DM+"error.rs")],
  ["standard output, standard error and exit status of dreamchecker"])

p("C32", "Code reported as unreachable can never execute",
  "A statement, branch, do-while condition or range-loop body that the checker reports as unreachable or never reached is not reached by any run of the proc, whatever values its non-constant conditions take, over all branches, loops, labelled loops, switches, exception handlers, spawn blocks and early exits. The statement directly following a return or CRASH, or a branch all of whose arms (with an else) end in one, is reported, unless an earlier statement of the same block may break or continue.",
  ["programs", "inputs"], "every proc body over the statement forms and every outcome of its conditions",
  "Proc-flow tests check about ten bodies; soundness quantifies over all bodies and all executions of each.",
  [DC+"lib.rs"],
  [("control flow summary", DC+"lib.rs: ControlFlow, visit_block, visit_statement")],
  ["diagnostics of the checker"])

p("C33", "Member and variable uses are resolved against the static type, or reported",
  "A use of a variable, field, proc or type path in a proc body or a parameter default is reported as undefined exactly when it does not exist: an unqualified name when neither an enclosing scope, the type of the proc or its parents, nor the globals have it; a member when the statically declared type of its receiver (through declarations, parameters, loops, casts, ternaries, list elements, `::`, global access and declared return types) and its parents have none; and a member access or call through a receiver without a static type is reported as needing one, except through `:`. The type a chain of accesses resolves to is the declared one, local variables cover exactly their block, and members that exist are never reported.",
  ["programs"], "every hierarchy and every access chain over it",
  "Tests use one or two accesses over one type.",
  [DC+"lib.rs", DC+"type_expr.rs"],
  [("expression typing", DC+"lib.rs: visit_expression, visit_term, visit_follow, Analysis, StaticType"), ("declared return types", DC+"type_expr.rs")],
  ["diagnostics of the checker"])

p("C34", "Keyword arguments are checked against every possible override",
  "A call that passes arguments by name to a proc found through the static type of its receiver is reported if and only if that proc has no parameter of that name; and when it has, each override in a type below the receiver's static type that lacks the name is reported, listing exactly the types and names lacking and how often the names are used. Positional and well-named calls are never reported, nor are overrides on types that are not below the receiver's static type, exact calls (parent, self, global and constructor calls) are checked only against the proc they run, and calls looked up at run time (with a colon) are not checked. Calls of filter() are checked against the arguments and flags of the filter they name.",
  ["programs"], "every hierarchy of overrides with differing parameter lists and every call with named arguments",
  "Keyword tests check three small programs.",
  [DC+"lib.rs"],
  [("keyword bookkeeping", DC+"lib.rs: used_kwargs, check_kwargs, BadOverride")],
  ["diagnostics of the checker"])

p("C35", "Generated documentation is complete and all its local links resolve",
  "The generated site contains an entry with the documentation text of every documented variable, proc and macro, of every type documented by more than a note, and of every documented file including the Markdown and text files of its directories; the index and the file's page list them with their teaser and title, and nothing undocumented gets an entry. Every local link and anchor in any generated page points to a page and anchor that was generated, and every cross-reference in documentation that names an existing documented item becomes a link to that item. Headings of Markdown files have anchors named after them. A dry run writes nothing, reports every cross-reference that could not be resolved as written, and ends with a nonzero status exactly when there is one; a real run writes only into its output directory, and the same output every time.",
  ["programs", "configurations"], "every project: type hierarchies, macros, modules, overrides, names needing escaping, and every form of cross-reference in comments",
  "The documentation generator has no tests.",
  ["crates/dmdoc/src/main.rs", "crates/dmdoc/src/markdown.rs", "crates/dmdoc/src/template.rs"],
  [("substance and page selection", "crates/dmdoc/src/main.rs"), ("cross-reference resolution", "crates/dmdoc/src/main.rs: handle_crosslink / broken_link_fixer"), ("index tree", "crates/dmdoc/src/main.rs: build_index_tree")],
  ["files generated", "exit status"])

p("C36", "The language server's copy of a document always equals the editor's",
  "After any sequence of open, full or ranged change and close notifications, the language server's answers are those for exactly the text the editor holds after applying the same changes by the language server protocol's rules (UTF-16 columns, end of line clamping, several changes per notification applied in order). Invalid notifications are answered by an error message and leave every other document and the server itself intact.",
  ["histories", "inputs"], "every history of edits over every text including non-ASCII and non-BMP characters, and invalid edits in between",
  "The language server has no tests and is not even built by the test configuration.",
  [LS+"document.rs", LS+"main.rs"],
  [("document store", LS+"document.rs: DocumentStore, Document::change, total_offset"), ("notification handlers", LS+"main.rs: DidOpen/DidChange/DidClose")],
  ["language server responses over standard input and output"])

p("C37", "Go-to-definition, references and symbols agree with the program",
  "In a loaded project, asking for the definition of a use of a type, variable, proc, parameter, local variable, macro or parent call returns the position of the definition that name resolution selects, the innermost local of its name first and never a global for a member, and nothing where the name means nothing; the type definition is that of the variable's declared type. Asking for references of a type, member or global returns exactly its uses in the project's files, each once, and asking for implementations exactly its definitions and overrides. Outlines list exactly the definitions of the document nested as they are written, and workspace symbol searches exactly the matching declarations of the project, at their positions. Columns are those of text within ASCII; references of locals and parameters are not offered.",
  ["programs", "histories"], "every project and every identifier in it, also after edits of the open document that only move code",
  "The language server has no tests.",
  [LS+"main.rs", LS+"find_references.rs", LS+"symbol_search.rs", DM+"annotation.rs"],
  [("annotation lookup", DM+"annotation.rs: AnnotationTree"), ("resolution", LS+"main.rs: find_scoped_type, find_unscoped_var, GotoDefinition"), ("reference table", LS+"find_references.rs: ReferencesTable")],
  ["language server responses"])

p("C38", "Every request gets exactly one answer and bad messages never kill the server",
  "For any sequence of protocol messages, the language server answers every request exactly once with the request's id, in order, with a result or an error as the life-cycle state demands (error before initialisation and after shutdown), never answers notifications, and exits with the prescribed status on exit. Malformed JSON, unknown methods, wrong parameters and positions outside the document yield error answers or empty results, never a crash.",
  ["histories", "fault_sequences"], "every message sequence including batches, wrong types, unknown methods, positions out of range and messages split at any byte",
  "The language server has no tests.",
  [LS+"main.rs", LS+"jrpc_io.rs"],
  [("dispatch", LS+"main.rs: handle_input, handle_call, handle_method_call"), ("framing", LS+"jrpc_io.rs")],
  ["language server responses and exit status"])

p("C39", "Single-file analysis after edits equals analysis of the final text",
  "In single-file mode, the diagnostics the language server publishes after the last of any sequence of edits are exactly those it publishes for a fresh session opened on the final text, which are those the command-line checker's library reports for that text.",
  ["histories", "programs"], "every edit history over valid and invalid programs",
  "The language server has no tests.",
  [LS+"main.rs", DM+"error.rs"],
  [("clearing and republishing", LS+"main.rs: get_annotations, DidChangeTextDocument")],
  ["published diagnostics"])

p("C40", "The map editor's undo history always returns to the exact earlier state",
  "After any interleaving of edits, undos and redos, the edited value equals the result of applying the edits on the path from the start to the current point of the history: undo restores exactly the value before the edit, redo restores exactly the value after it, a new edit after undo starts a branch that later redo follows, and the dirty flag is set exactly when the current point differs from the last saved one.",
  ["histories"], "every history of edits, undos, redos and saves, with edits whose undo information depends on the state they are applied to",
  "The editor is not built or tested at all.",
  ["crates/spaceman-dmm/src/history.rs"],
  [("history tree", "crates/spaceman-dmm/src/history.rs: History::edit, undo, redo, mark_clean")],
  ["public methods of the history"])

p("C41", "Debugging sessions show the client the game, and the game what the client asked",
  "In every debugging session, with either engine, launched or attached, every request gets exactly one response, in order, and malformed or out-of-range requests are refused without ending the session. The breakpoints set in the game are at all times exactly those last asked for, per file and for functions, each at the instruction that begins the line in the proc or override covering it, and lines no proc covers are reported unverified; every step, continue, pause, evaluation and runtime setting reaches the game once. Each stop, runtime error, output and end in the game reaches the client once with its reason; stacks, scopes and variables are those of the stopped game, named after the right proc with its source and line, parameters and locals under their names. Losing the game, however, or receiving garbage from it ends the session with a terminated event, without a crash or a hang.",
  ["histories", "schedules"], "every interleaving of client requests and game events, every game state and loss of the link",
  "There are no debugger tests; what a session shows depends on the order of messages from two peers, the editor and the game.",
  [LS+"debugger/mod.rs", LS+"debugger/auxtools.rs", LS+"debugger/extools.rs", "crates/dap-types/src/lib.rs"],
  [("adapter", LS+"debugger/mod.rs"), ("game links", LS+"debugger/auxtools.rs, extools.rs")],
  ["debug adapter responses and events", "the messages the game receives", "the exit of the adapter process"])

ED="crates/spaceman-dmm/src/"
p("C42", "The map editor draws, edits and saves exactly the map it was given",
  "A map loaded into the editor's representation and saved at once holds the same prefabs on the same tiles, empty tiles included. Placing an instance adds it to its tile, replacing only a turf or area of the same kind as documented; deleting removes that instance and nothing else; undoing either restores every tile as it was. At every moment each live instance can be found by its id and is drawn exactly once, in the order of plane, layer and kind that its type and its own variables give it, with the quad, texture cell, colour and offset of its icon state and direction; nothing removed is drawn. A save with the loaded map as its base keeps the keys of tiles that did not change, and the saved file reads back as the saved map.",
  ["inputs", "histories"], "every map, set of types, icons and variable edits, and every history of placements, deletions, undos, redos, refreshes and saves",
  "The editor is not built or tested at all.",
  [ED+"map_repr.rs", ED+"map_renderer.rs", ED+"dmi.rs"],
  [("map representation", ED+"map_repr.rs: AtomMap::new, save, add_instance, remove_instance, undo_*, sort_level, iter_instances"), ("draw calls and pops", ED+"map_renderer.rs: RenderedMap, RenderPop"), ("icon cells", ED+"dmi.rs")],
  ["public methods of the map representation", "its vertex, index and draw call buffers", "saved maps"])

p("C43", "Declarations keep what was written, however they are nested",
  "A var or proc may be declared with its whole path on one line, nested below its type, below `var`, `proc`, `verb`, its flags or its type, or in a block of braces on several lines or one; every such way gives the same object tree. Each var keeps its flags, declared type, list dimensions, `as` type, value and line; each proc its kind, flags, parameters in order (with type, `as` type, default and `in` list), return type, every definition in the order written, its body and line; and nothing appears that was not written. A body that does not parse costs that body and nothing beside it.",
  ["inputs"], "every set of declarations over every mix of nesting, layout and flags",
  "Tests parse a few fixed snippets; the forms multiply with each other and with the order they are written in.",
  [DM+"parser.rs", DM+"ast.rs", DM+"objtree.rs"],
  [("entries of the tree", DM+"parser.rs: tree_entry, tree_block, tree_path, var_annotations, proc_params_and_body, proc_parameter"), ("flags and types of vars", DM+"ast.rs: VarTypeBuilder, VarTypeFlags, VarSuffix, ProcDeclBuilder"), ("registration", DM+"objtree.rs: declare_var, override_var, register_proc")],
  ["ObjectTree after parsing", "diagnostics"])

p("C44", "The language server always shows the project as it is now",
  "After each analysis of a project, at start or on request, the diagnostics the language server has last published for every file are exactly those the library reports for the files and configuration on disk at that moment, at the files' URLs whatever their names, with severity, code, source and notes; files without any have none left, and nothing of an earlier or overtaken analysis is published after them. The object tree sent, or asked for type by type, is the present one with every type's vars, procs and positions. Whatever history of changes on disk, reparses, and opened, edited and closed documents came before, the server then answers feature requests as one just started with the same documents open; answers about files outside the environment name the document they came from.",
  ["histories", "schedules"], "every history of file and configuration changes, reparses in quick succession and edits of open documents",
  "The language server has no tests.",
  [LS+"main.rs", LS+"extras.rs", DM+"error.rs", DM+"annotation.rs"],
  [("analysis", LS+"main.rs: parse_environment, Initialized, Reparse"), ("published diagnostics", LS+"main.rs: DiagnosticsTracker"), ("object tree panel", LS+"main.rs: update_objtree, objtree_with_vars_and_procs, QueryObjectTree"), ("document caches", LS+"main.rs: get_annotations")],
  ["published diagnostics", "object tree notifications and answers", "answers to feature requests"])

p("C45", "Completion, hover and signature help tell what the program declares",
  "While a document of a project is written, the language server offers, for a name begun, after a member access, in a type path or in the head of an override, exactly the visible locals, parameters, members with those inherited, globals, child types and macros whose names contain what was written, each once, as the definition nearest in inheritance gives it, with its kind, its origin and constant value, its documentation and the text to insert; within calls, and calls within calls, it shows the parameters of the proc that would be called, as last defined on the nearest type, and the argument being written; hovering over a use or a declaration shows the declaration with its type, flags, kind, parameters and values of the overrides, linked to where each was written, and documentation of that name only; includes and resources link to the files they name.",
  ["inputs", "positions"], "every project, document and position in it",
  "The language server has no tests.",
  [LS+"main.rs", LS+"completion.rs", DM+"annotation.rs", DM+"parser.rs"],
  [("completion", LS+"completion.rs"), ("requests", LS+"main.rs: HoverRequest, Completion, SignatureHelpRequest, DocumentLinkRequest"), ("annotations of incomplete code", DM+"parser.rs: annotate_precise, arguments")],
  ["answers to completion, hover, signature help and document link requests"])

p("C46", "Smoothed objects and cables join exactly the neighbours they connect to",
  "With a smoothing pass (2016, 2020 or 2025) active, every object whose flags ask for smoothing is drawn joined on exactly the sides, and the corners between two joined sides, where the neighbouring tile holds something it smooths with: one of the listed types (with subtypes where the flags say so) or one of the listed groups, its own type where no list is given, the map's border where the flags say so, and nothing while it is a movable that can be unanchored and is; as four corner pieces, one of the diagonal pairs or the bitmask state, from its smoothing icon, at its place; a diagonal wall shows the floor of the tile opposite, left or right of that, plating or space beneath it. Cables connect to the cables of their layer on the four sides, but not between an SMES and a terminal, with a node where they end at a machine. Everything else keeps its own appearance, and what surrounds the rendered part of the map counts as if it were rendered.",
  ["inputs"], "every map, set of types and rendered part of a map",
  "The render passes have no tests.",
  [DT+"render_passes/icon_smoothing.rs", DT+"render_passes/icon_smoothing_2020.rs", DT+"render_passes/icon_smoothing_2025.rs", DT+"render_passes/smart_cables.rs", DT+"minimap.rs"],
  [("joins", "icon_smoothing*.rs: calculate_adjacencies, find_type_in_direction"), ("appearance", "cardinal_smooth, diagonal_smooth, bitmask_smooth, diagonal_underlay"), ("neighbours", DT+"minimap.rs: generate, Neighborhood")],
  ["sprites added for each object by the pass", "whether the object's own appearance was kept"])

p("C47", "Settings of procs count only where they may stand, and any other is reported",
  "A setting of a proc is accepted without a report exactly if it stands at the top of the body, is a known one and has a value of its kind (a truth value, a text, an invisibility from 0 to 100); a linter setting moreover only at the declaration if it belongs there, not on global procs if it concerns overriding or access, not as false if it cannot be disabled, and once per proc. Any other is reported at its line, once and for that reason, and linter settings so rejected have no effect: calls from outside and overrides are reported as violating exactly the accepted ones.",
  ["programs"], "every placement, combination and value of settings over declarations, overrides and global procs",
  "Tests try eight single settings.",
  [DC+"lib.rs"],
  [("settings", DC+"lib.rs: gather_settings, add_directive_or_error, ProcDirective::insert"), ("placement", DC+"lib.rs: visit_block")],
  ["diagnostics of the checker"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
