#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":s,"meaning":s,"where":files[0]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PD="copra/src/phase_driver.c"; DC="copra/src/dynamic_core.c"; FE="cocogen/frontend/"; DB="cocogen/dynamic_backend/"
p("P01","Actions run in declared order, on the tree the previous action left",
 "Running a compiler built from an accepted specification performs, depth first and in the written order, exactly the passes and traversals reachable from the start phase, each once per occurrence. Every action receives the tree that the previous action returned. A phase whose gate yields false performs none of its actions (nested phases included), and the gate is asked once each time the phase is reached, before any of its actions.",
 ["programs","inputs"],"every phase/cycle/gate structure the language can express and every sequence of gate answers and tree replacements",
 "The test-suite only checks that four fixed specifications are accepted; no test runs a user-defined phase structure, a false gate or an action that replaces the root.",
 [PD,"cocogen/phase_driver/gen_ids_table.c","cocogen/phase_driver/gen_action_array.c","cocogen/phase_driver/gen_action_array_header.c","cocogen/phase_driver/gen_gate_header.c",DB+"gen_pass_table.c",DB+"gen_trav_table.c",DB+"gen_enums.c"],
 [("phase start / dispatch loop",PD+":StartPhase,CCNdispatchAction"),("action tables",'cocogen/phase_driver/*.c')],
 ["sequence of user pass/traversal/gate function calls in a compiled generated compiler, with the tree each one receives"],["stack of active phases and positions","current tree"])
p("P02","Cycles repeat until a quiet iteration or the configured limit",
 "A cycle performs its whole body again exactly as long as the iteration just finished signalled that something changed and fewer iterations than the configured maximum (100 unless set, and changeable at any time) have been made; it always makes at least one. A change signalled anywhere in the body, including inside nested phases, traversals and cycles, counts for the enclosing cycle's current iteration. Nested phases and cycles neither hide such signals from the enclosing cycle nor affect its iteration count.",
 ["programs","histories"],"every nesting of cycles and phases, every pattern of change signals over time and every maximum",
 "No test runs a cycle at all: the only cycle in the repository is never reached by an executed phase, and nesting and signal patterns are unbounded.",
 [PD],[("fixed-point loop",PD+":StartPhase"),("change signal",PD+":CCNcycleNotify"),("limit",PD+":CCNsetCycles")],
 ["sequence of user function calls of a compiled generated compiler under scripted change signals"],["per active cycle: iteration count, changed flag"])
p("P03","Error signals stop compilation exactly at the promised boundary",
 "After an action error is signalled the current action completes and no further action is performed; after a phase error is signalled the rest of the innermost phase it was signalled in is still performed (nested phases included) and nothing after that phase. In both cases the process ends with a failure status. Without any signal or recorded inconsistency the run completes and never ends in failure.",
 ["programs","fault_sequences"],"every phase structure and every placement of error signals, alone or combined, in passes, traversals and repeated executions",
 "Tests never signal an error from a user action; the boundary depends on nesting, cycles and later phases.",
 [PD,"palm/src/ctinfo.c"],[("error flags",PD+":CCNdispatchAction,StartPhase"),("abort","palm/src/ctinfo.c:CTIabortCompilation")],
 ["sequence of user function calls up to process exit and the exit status"],["pending phase error per phase, pending action error"])
p("P04","Action numbers and breakpoints identify exactly one place in the run",
 "Every occurrence of an action in the structure has a fixed number, its position in the depth-first listing starting at 1 for the start phase; the number current while an action runs equals it regardless of skipped gates and repeated cycles, and the printed structure lists every occurrence below the start phase with that number and its nesting depth. A breakpoint set by number, or by a path (a name, preceded by names of phases around it from the outside in, some of which may be left out), lets the run proceed unchanged up to and including the first completion of a designated action, then calls the breakpoint handler once with the current tree and ends the process successfully without any further action. A breakpoint that designates nothing leaves the run unchanged.",
 ["programs","inputs"],"every structure, every breakpoint number and every phase.phase.action path, in any letter case",
 "No test uses breakpoints or reads action numbers, and off-by-one drift only shows with skipped nested phases or repeated cycles.",
 [PD],[("numbering",PD+":CCNdispatchAction,SkipPhase,StartPhase"),("path matching",PD+":Checkbreakpoint"),("listing",PD+":ShowTree")],
 ["current action number in user functions, handler calls, printed structure, exit status"],["action counter"])
p("P05","The consistency check enforces lifetimes and child types at every action",
 "Before each action, and nowhere else, the whole tree reachable through children is checked, and the run is aborted with a failure exactly when some node, child or attribute in it violates one of the lifetimes declared for it at that action, or some child holds a node whose type is not the declared node or a member of the declared nodeset. A lifetime covers the actions between its bounds as mathematical intervals (bounds included or excluded as written, a missing bound meaning start or end, a phase standing for all its actions, an action name meaning its first occurrence unless qualified), and every declared lifetime of an element is enforced. Switching checking off suppresses it entirely.",
 ["programs","histories"],"every combination of lifetime kinds, bounds and phase structures and every evolution of the tree across actions",
 "Tests only check that one bad node lifetime is rejected; none executes a check on a tree that violates a lifetime.",
 [DB+"gen_check_traversal.c",FE+"lifetimes/assign_id_to_actions.c",FE+"lifetimes/map_id_to_lifetimes.c",FE+"lifetimes/check_lifetimes.c",PD],
 [("generated checker",DB+"gen_check_traversal.c"),("bounds to action numbers",FE+"lifetimes/map_id_to_lifetimes.c"),("when checked",PD+":CCNdispatchAction")],
 ["whether a compiled generated compiler aborts, and before which action, for a scripted evolution of the tree"],["tree","action counter"])
p("P06","Traversals reach every targeted node once, in tree order",
 "Starting a traversal on a tree calls the user's function for exactly those targeted nodes that can be reached by descending through all children of nodes that are not targeted and through the children a user function chooses to descend into, once each time, in depth-first declared child order. A traversal without an explicit node set targets every node type, absent children are skipped, and whatever a node's function returns replaces that node in its parent's child. Nodes that are not targeted are never altered except for such replacements in their children.",
 ["programs","inputs"],"every combination of node types, nodesets, target sets and trees, including recursive and mutually recursive types, and every choice of descents and replacements by user functions",
 "Self-regeneration exercises one fixed grammar; a missed path only appears for particular type graphs, nodeset nesting and target sets.",
 [DC,FE+"reachability.c",DB+"gen_trav_v_table.c",DB+"gen_node_trav_table.c",DB+"gen_traversal_functions.c",DB+"gen_trav_table.c"],
 [("dispatch",DC+":TRAVdo,TRAVopt,TRAVchildren"),("reachability analysis",FE+"reachability.c"),("tables",DB+"gen_node_trav_table.c")],
 ["sequence of user traversal function entries/exits with node identities, and the resulting tree"],["tree heap","call stack"])
p("P07","Nested traversals have private, fresh data and dispatch",
 "Each start of a traversal, however deeply nested in others including itself, gets its own traversal data, whose fields hold their default values when the user's initialiser runs, and which stays intact until the user's finaliser has run exactly once at the end of that traversal. While it is the innermost active traversal every dispatch goes to its functions and its data is the one accessible; when it ends, the enclosing traversal's functions and data are current again, unchanged.",
 ["programs","histories"],"every nesting of traversals started from user functions and passes and every sequence of data updates",
 "The only test with traversal data checks acceptance; interference needs several live instances of one traversal.",
 [DC,DB+"gen_trav_data_ctors.c",DB+"gen_trav_data_tables.c",DB+"gen_trav_data_getters.c",DB+"gen_trav_structs.c",DB+"gen_trav_data_union.c"],
 [("traversal stack",DC+":TRAVpush,TRAVpop,TRAVstart"),("data tables",DB+"gen_trav_data_tables.c")],
 ["values of traversal data read by user functions, initialiser/finaliser calls"],["stack of active traversals with data"])
p("P08","Copying yields an equal, fully independent tree",
 "Copying a node produces a tree of newly created nodes with the same types, children and source positions, in which every plain attribute has the same value, strings are separate copies, references to other nodes point to the very same nodes as the original's, and attribute-grammar results are not carried over. The original is unchanged by copying, and later changing or releasing either tree never affects the other.",
 ["programs","inputs","histories"],"every node declaration, every tree and every later sequence of updates and releases of the two trees",
 "The generator itself copies only identifier leaves; aliasing shows only after a later update or release.",
 [DB+"gen_copy_traversal.c",DB+"gen_constructor_call.c",DC,DB+"gen_system_traversals.c"],
 [("copy generation",DB+"gen_copy_traversal.c"),("entry point",DC+":CCNcopy")],
 ["projection of both trees after each operation of a scripted history"],["heap of nodes"])
p("P09","Releasing a tree frees exactly what the tree owns, once",
 "Releasing a node frees that node, all nodes below it through children, and every string and file name they own, each exactly once, so that nothing of the tree stays allocated. Nodes only referenced through attributes are neither released nor touched, and absent children or strings are harmless. A completed run releases the final tree in this way.",
 ["programs","inputs","histories"],"every node declaration and tree, with absent parts, node references and values set or replaced after construction",
 "cocogen never checks its own memory (leak detection is switched off) and exits soon after.",
 [DB+"gen_free_traversal.c",DC,PD,"palm/src/memory.c"],[("free generation",DB+"gen_free_traversal.c"),("end of run",PD+":CCNrun")],
 ["allocation/release calls of a compiled generated program, bracketed around construction and release"],["set of live blocks"])
p("P10","Constructed nodes and their accessors mean what was declared",
 "A node's constructor takes the children and then the attributes marked for it, in declaration order, stores each in the field of that name, and leaves every other child absent and every other attribute at its type's default (zero, false, absent, or the enum's null value). Reading a field through its accessor, or through an accessor of any nodeset that declares it, yields the last value stored through any of them, fields never influence each other, and the node reports its own type. Enums contain a null value first and then the declared values in order, with distinct values.",
 ["programs","histories"],"every set of node, nodeset and enum declarations over all attribute types and every sequence of writes and reads",
 "Tests never construct or access a node of a user-defined grammar.",
 [DB+"gen_node_constructor.c",DB+"gen_node_init_funcs.c",DB+"gen_node_structs.c",DB+"gen_node_macros.c",DB+"gen_node_access_funcs.c",DB+"gen_nodeset_access_funcs.c",DB+"gen_node_base_and_union.c",DB+"gen_enum_values.c",DB+"gen_enums.c","cocogen/gen_helpers/format.c"],
 [("constructor",DB+"gen_node_constructor.c"),("accessors",DB+"gen_node_macros.c"),("enum values",DB+"gen_enum_values.c")],
 ["field values read back through every accessor of a compiled generated program"],["heap of nodes"])
p("P11","Specifications are accepted iff names and references are well-formed",
 "A specification is rejected with a failure status and at least one error message if it has not exactly one root node and one start phase, reuses a name or unique identifier (compared without regard to case), repeats a child, attribute, enum value, enum prefix or traversal-data name where it must be unique, uses a reserved name, prefix or identifier, or refers to an undefined or wrongly-kinded node, nodeset, enum, action, lifetime bound or attribute. Otherwise, given well-formed attribute equations, it is accepted with a success status. Processing always terminates with one of these two outcomes.",
 ["inputs","programs"],"every specification, in particular every single-fault variation of a well-formed one at every position",
 "Eighteen fixed invalid files cover one position of each fault; missed checks depend on the position among siblings and the order of definitions.",
 [FE+"buildsymboltable.c",FE+"check_existance.c",FE+"check_attributes.c",FE+"symboltable.c",FE+"lifetimes/check_lifetimes.c","cocogen/frontend/scanAndParse/dsl-parser.y"],
 [("symbol table",FE+"buildsymboltable.c"),("existence checks",FE+"check_existance.c"),("attribute checks",FE+"check_attributes.c")],
 ["exit status and error messages of cocogen"])
p("P12","Node set expressions denote their set-algebra value",
 "Wherever a set expression is written, in a nodeset or as the targets of a traversal, the resulting set of node types is the value of the expression under union, intersection and difference with left-to-right grouping and parentheses, with references standing for the referenced nodeset whatever the order of definition. Exactly the members of a nodeset are admitted in a child of that nodeset, and exactly the members of a target set are handled by the traversal. Circular nodeset definitions and traversals whose target set is empty are rejected.",
 ["programs"],"every acyclic system of nodeset definitions and set expressions over any number of node types, in any order of definition",
 "Tests check acceptance of a few unions only; membership is never observed.",
 [FE+"unwrap_setexpr.c","cocogen/sets/set.c","cocogen/sets/literal_union.c","cocogen/sets/literal_intersect.c","cocogen/sets/literal_difference.c","cocogen/sets/literal_insert.c","cocogen/sets/literal_lookup.c",DB+"gen_check_traversal.c"],
 [("expression evaluation",FE+"unwrap_setexpr.c"),("set operations","cocogen/sets/*.c")],
 ["which node types the generated consistency check admits and which ones a generated traversal handles"])
p("P13","Nodeset attributes belong to every member, with one signature",
 "Every attribute declared in a nodeset exists, with its type and kind, in every node type that is a member directly or through nested nodesets, and is reachable there through the node's and the nodeset's accessor. A member may repeat such an attribute only with the same type and kind, in order to add constructor use; any clash of signatures, and any attribute on a nodeset built with intersection or difference, or constructor use in a nodeset, is rejected. Attributes never spread to non-members.",
 ["programs"],"every acyclic nodeset structure, every placement of attributes and every repetition in members",
 "Tests hold a handful of fixed nodeset attribute files; transitive propagation and clash detection depend on order and nesting.",
 [FE+"nodesets/propagate_attributes.c",FE+"nodesets/nodeset_child_table.c",FE+"check_attributes.c"],
 [("propagation",FE+"nodesets/propagate_attributes.c"),("nested references",FE+"nodesets/nodeset_child_table.c")],
 ["acceptance by cocogen, and which field accessors exist and work in the generated code"])
p("P14","Attribute evaluation respects dependencies and covers every instance",
 "For every accepted attribute grammar and every tree consistent with it, one evaluation started at the root computes every synthesized and inherited attribute instance in the tree exactly once, by the equation that defines it and only after all attribute instances that equation names. Each equation receives, in the written order, the values of exactly those instances; when optional children are absent the variant for exactly those absent children is used, without their values. The value later read from the tree is the one the equation returned.",
 ["programs","inputs"],"every accepted grammar (nodesets, optional children, mixed classic attributes, multi-visit dependencies) and every tree shape",
 "Tests contain no executed attribute grammar; order errors need particular dependency patterns combined with particular trees.",
 [FE+"attribute_scheduler/*.c",DB+"gen_visit_source.c",DB+"gen_ag_source.c",DB+"gen_visit_header.c",DB+"gen_equation_functions.c",DB+"collect_children.c"],
 [("scheduling",FE+"attribute_scheduler/schedule_attribute_visits.c"),("visit generation",FE+"attribute_scheduler/generate_visits.c"),("visit code",DB+"gen_visit_source.c")],
 ["sequence of equation calls with argument values and final attribute values in a compiled generated program"],["set of evaluated attribute instances"])
p("P15","Attribute grammars must be complete and free of circularity",
 "A grammar is rejected if a synthesized attribute of a node or an inherited attribute of a child lacks an equation, has several, or an equation defines or uses an attribute that may not be defined or used there, or if the root node has inherited attributes, or if some tree exists in which an attribute instance depends on itself. Complete grammars whose attributes can all be computed in one left-to-right walk are accepted.",
 ["programs"],"every attribute grammar over any number of node types, nodesets and attributes",
 "One test rejects a root inherited attribute; circularity arises through combinations of productions that no sample enumerates.",
 [FE+"check_product_rules.c",FE+"check_attributes.c",FE+"attribute_scheduler/schedule_attribute_visits.c",FE+"attribute_scheduler/graph.c",FE+"attribute_scheduler/partition_nodes.c"],
 [("completeness",FE+"check_product_rules.c"),("circularity",FE+"attribute_scheduler/graph.c")],
 ["exit status and messages of cocogen"])
p("P16","Accepted specifications generate code that builds and starts",
 "For every accepted specification, the generated sources together with the runtime and a definition, with the documented name and signature, of each function the user has to write (passes, traversal handlers, initialisers and finalisers of traversal data, gates, attribute equations with their variants for absent children, the breakpoint handler) compile and link without errors and the result starts; the generated headers declare these functions so, and the generated skeletons define each of them (except gates and the breakpoint handler) exactly once. Generating again from the same specification yields the same code, whatever an earlier, also an interrupted or different, generation left in the directory.",
 ["programs"],"every accepted specification over all language features and their combinations whose names, combined as generated code combines them, are not those of the runtime, of the C library or of two different user functions; every state of the output directory",
 "Tests stop at acceptance; generated code of the sample specifications is never compiled except cocogen's own.",
 [DB+"*.c","cocogen/phase_driver/*.c","cocogen/main.c"],[("code generation",DB+"*.c")],
 ["result of compiling and linking the generated files; comparison of two generations"])
p("P17","The hash table is a finite map under every operation sequence",
 "Lookups return the value most recently associated with an equal key (by content for string and integer keys, identity for pointer keys) or nothing if none was inserted or it was removed or cleared; inserting, removing, clearing, mapping, folding and iterating act on exactly the current associations, and the element count is always their number. Copies are independent, and iteration visits each association once and can replace its value.",
 ["histories"],"every sequence of operations, key kind, table size and collision pattern",
 "palm's only test inserts a handful of keys without asserting removal, clearing, or collisions.",
 ["palm/src/hash_table.c","palm/include/palm/hash_table.h"],[("table operations","palm/src/hash_table.c")],
 ["return values of every operation in a recorded history"],["finite map"])
p("P18","String helpers compute what they document for all strings",
 "Copying (whole, a given number of characters, or a part), concatenation, formatting, comparison (with or without case, or of the first characters), prefix, suffix and containment tests, replacing every occurrence of a word, case conversion and tokenising return the documented result for all argument strings, including absent and empty ones and lengths beyond their end, without modifying their arguments. Tokenising returns, over successive calls, exactly the pieces between successive separator characters in order, empty ones included, and then nothing.",
 ["inputs","histories"],"all strings over an alphabet with separators and letters of both cases, all counts and positions, all call sequences of the tokeniser",
 "No test calls these functions with empty, overlapping or boundary arguments.",
 ["palm/src/str.c","palm/include/palm/str.h"],[("string functions","palm/src/str.c")],
 ["results of recorded calls"],["tokeniser position"])
p("P19","Diagnostics are counted per severity and decide the exit status",
 "After any sequence of reported messages, the numbers of errors and warnings equal the messages of that severity reported since start, and nothing else changes them. Aborting on error ends the process with a failure status iff at least one error is pending, and otherwise continues; a requested abort always ends it with a failure status. Every message is printed once, completely and in order, with its severity and given location.",
 ["histories"],"every sequence of messages of all severities and forms, and abort requests",
 "No test drives the diagnostics library directly; the tests look only at whether cocogen fails.",
 ["palm/src/ctinfo.c","palm/include/palm/ctinfo.h"],[("counters and abort","palm/src/ctinfo.c")],
 ["counters, standard error output and exit status in a recorded history"],["error and warning counters"])
p("P20","Misuse of a node's accessors stops a debug build at that access",
 "In a compiler built with assertions, reading or writing something through an accessor of a node type or nodeset the node does not belong to, reading a synthesized or inherited attribute that has not been evaluated (in a copy of an evaluated node neither), or traversing a child the node's type does not have ends the program at that very access, naming the accessor and the expected type, the attribute, or the child; misuse of accessors of nodes also names the place of the access. Evaluating attributes from a node that has inherited attributes, or nothing to evaluate, is refused with an error. No other access is ever stopped.",
 ["programs","histories"],"every accepted specification, and every sequence of creations, attachments, copies, evaluations and accesses on nodes of all types through all accessors",
 "No test misuses an accessor, and none runs generated code; the checks are generated separately per node, nodeset, child and attribute.",
 [DB+"gen_node_access_funcs.c",DB+"gen_node_access_funcs_error.c",DB+"gen_nodeset_access_funcs.c",DB+"gen_nodeset_access_funcs_error.c",DB+"gen_traversal_functions.c",DB+"gen_copy_traversal.c","copra/src/dynamic_core.c"],
 [("accessors",DB+"gen_node_access_funcs.c"),("errors",DB+"gen_node_access_funcs_error.c"),("nodeset accessors",DB+"gen_nodeset_access_funcs.c")],
 ["how a compiled generated program ends after a sequence of accesses, and what it says"],["types of nodes, which attributes have values"])
p("P21","The command line of cocogen does what its help says",
 "For every argument list, cocogen reads options from the left, anywhere among the operands and up to a --; the first of --help, --version, --show-structure, an unknown option, a missing or unwanted value, or an unusable number or backend decides what it does. Help, version and structure are printed with success; a wrong option ends in failure with a message. Otherwise exactly one specification must be named, or the usage is shown and the run fails. Its code goes to the directory last given by --gen-dir (ccngen when none is, made when absent, below the current directory) and nowhere else, and is the same whatever other options (-v, -b, --show-ast, ...) are given. A specification that is absent, unreadable or wrong, or a directory that can not be made, ends in failure with a message.",
 ["inputs","configurations"],"every list of arguments, together with every state of the files and directories they name",
 "The test-suite calls cocogen with one option only (--gen-dir) and one order of arguments.",
 ["cocogen/commandline.c","cocogen/main.c","cocogen/filesystem/utils.c","cocogen/frontend/scanAndParse/scan_parse.c"],
 [("options","cocogen/commandline.c"),("output directories","cocogen/filesystem/utils.c")],
 ["exit status, standard output and error, and all files of the directory before and after a run of cocogen"],["arguments read so far and configuration"])
p("P22","Success is reported only when all generated code has been written",
 "Whatever operations on files fail while cocogen runs (making directories, opening, reading, writing, closing; once, repeatedly or for good), and whatever is in the way in its output directory, it exits with success only if every file of the generated code is there and complete; otherwise it ends by itself with the status of a failure and a message. Without a failed operation it does not fail, and files of an earlier run never show in the new code.",
 ["fault_sequences","inputs"],"every accepted specification, every file operation that may fail at any point, and every previous content of the output directory",
 "No test makes an operation fail or generates into a directory holding something; a full disk meets one of thousands of writes.",
 ["cocogen/generator/generator.c","cocogen/filesystem/utils.c","cocogen/main.c","palm/src/filesystem.c","cocogen/frontend/scanAndParse/scan_parse.c"],
 [("writing","cocogen/generator/generator.c"),("directories","cocogen/filesystem/utils.c")],
 ["exit status, messages, files and system calls of runs of cocogen under injected faults"],["length of every file","has an operation failed"])
p("P23","Running out of memory ends a program with a message, never with a crash",
 "Whenever a request for memory by cocogen, by palm or by a compiler built from generated code (constructors, copies, traversals and their data, evaluation of attributes, hash tables, strings, the parser) is refused, the program has done exactly what it would have done up to there and then ends by itself with the status of a failure and a message; it never crashes, goes on with missing memory, or accepts a specification it would otherwise reject. Memory that is obtained is its owner's: MEMmalloc gives a block apart from all others or NULL for no bytes, MEMrealloc keeps contents up to the smaller size, MEMcopy copies them, MEMfree yields NULL, and no other block is changed by any of them.",
 ["fault_sequences","programs","histories"],"every request for memory that may be refused (once or from then on), in every run of cocogen, of generated compilers and of programs using palm",
 "No test runs out of memory; there are thousands of requests in a single run of cocogen.",
 ["palm/src/memory.c","palm/src/hash_table.c","palm/src/ctinfo.c","palm/src/str.c","copra/src/dynamic_core.c","cocogen/frontend/scanAndParse/dsl-parser.y","cocogen/frontend/scanAndParse/dsl-lexer.l",DB+"gen_node_constructor.c"],
 [("requests","palm/src/memory.c"),("out of memory message","palm/src/ctinfo.c:CTIabortOutOfMemory")],
 ["events, exit status and messages of runs in which the n-th request is refused, against the undisturbed run"],["blocks and their contents","has memory been refused"])
p("P24","Exactly the sentences of the language are read, whatever their layout",
 "cocogen reads a text as a specification iff its tokens form a sentence of the language. Blanks, line ends and comments separate tokens and mean nothing else: two texts with the same tokens are both accepted, with identical generated code, or both refused. Within the values of an enum words of the language and of C are names; elsewhere they are not. A text that is no sentence (a missing, superfluous or exchanged token, a character or number that is no token, a C keyword as name, an unterminated string or comment) ends cocogen with a failure and a message that gives line and column of the first token with which no sentence goes on, and any source line shown is that line.",
 ["inputs","programs"],"all texts without zero bytes",
 "Tests hold one file per feature, in one layout, and look at the exit status only; every position in a text is a different input.",
 ["cocogen/frontend/scanAndParse/dsl-parser.y","cocogen/frontend/scanAndParse/dsl-lexer.l","palm/src/ctinfo.c"],
 [("position","cocogen/frontend/scanAndParse/dsl-lexer.l"),("what is to come","cocogen/frontend/scanAndParse/dsl-parser.y")],
 ["exit status, position in the first message, and code generated for a text"],["what may still come (a stack)","line and column"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
