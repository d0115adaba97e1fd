"""What each property's check runs."""
MC = "model_checking"
CHECKS = {
    "C02": dict(level=MC, parts=[dict(kind="cpp", src="c02.cpp", share=0.7), dict(kind="cpp", src="c02.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["chain1", "tree3", "tree4<9216", "turns<12000", "large", "samples"])],
                rule="case = robot (tree shape x joint kinds x naming); every case is solved for all listed angle vectors and base poses; "
                     "a state is a distinct (robot, angles, base) configuration, a transition is one pose query",
                technique="exhaustive enumeration of kinematic trees up to 5 links against an independent reference",
                level_note="All trees to 5 links, joint kinds, axis directions, zero patterns and configurations of the listed finite alphabets, and large robots to 420 links; floating point to 1e-9."),
    "C03": dict(level=MC, parts=[dict(kind="cpp", src="c03.cpp", share=0.7), dict(kind="cpp", src="c03.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["first", "tree3<1936", "lists", "large", "samples"])],
                rule="case = robot (tree shape x joint kinds x naming x inertial data); every link, request order, rotation type and base option is "
                     "compared with the exact (dual number) derivative; a state is a distinct (robot, angles, base), a transition one Jacobian query",
                technique="exhaustive enumeration of kinematic trees, request orders and orientations against exact derivatives",
                level_note="All combinations of the listed finite alphabets; end effector RPY within 0.8 degrees of the singularity is skipped."),
    "C01": dict(level=MC, parts=[dict(kind="cpp", src="c01.cpp", share=0.7), dict(kind="cpp", src="c01.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["history-robot0<9723", "history-robot1<9723", "history-robot2<9723", "history-core", "base-moves<10000", "repeated<756", "samples"])],
                rule="case = sequence of model operations (all sequences over 21 operations to depth 4, all core sequences of length 5, pairs on the sample robots); "
                     "each answer on the way and all answers at the end are compared with a history-free reference; a state is a distinct "
                     "(angles, base, added links), a transition one operation",
                technique="exhaustive enumeration of operation histories against a history-free reference model",
                level_note="All histories up to the stated depth over the stated operations and arguments."),
    "C04": dict(level=MC, parts=[dict(kind="cpp", src="c04.cpp", share=0.7), dict(kind="cpp", src="c04.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["tree3<3168", "subsets", "lists", "large", "samples"])],
                rule="case = robot (tree x joint kinds x which links have inertial data of which kind x naming), queried after loading, in two configurations and "
                     "after adding links, in varying order; a state is a distinct (configuration, added links, mass), a transition one query",
                technique="exhaustive enumeration of mass distributions over small trees against exact mass-weighted averages and derivatives",
                level_note="All combinations of the listed finite alphabets; models of zero total mass are out of scope."),
    "C05": dict(level=MC, parts=[dict(kind="cpp", src="c05.cpp", share=0.7), dict(kind="cpp", src="c05.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["two-links", "tree4", "large", "samples"])],
                rule="case = robot with inertia tensors, inertial frames and joint kinds from finite alphabets; value, symmetry, translation invariance and "
                     "rotation covariance are checked in several configurations; a state is a distinct (robot inertias, configuration), a transition one query",
                technique="exhaustive enumeration of inertial data over small trees against the composite rigid body formula",
                level_note="All combinations of the listed finite alphabets; models of zero total mass are out of scope."),
    "C09": dict(level=MC, parts=[dict(kind="cpp", src="c09.cpp", share=0.7), dict(kind="cpp", src="c09.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["additions-*<5376", "many", "names", "samples"])],
                rule="case = sequence of link additions (every choice of parents among described, helper and added links, several offsets) with queries, "
                     "configuration changes and rejected additions in between; a state is a distinct (model, configuration), a transition one addition",
                technique="exhaustive enumeration of link-addition histories against a reference model",
                level_note="All parent choices for 3 (thorough 4) additions on five robots, all zero patterns of two offsets, pairs of 29 odd names, and up to 300 additions in a row."),
    "C24": dict(level=MC, parts=[dict(kind="cpp", src="c24.cpp", share=0.7), dict(kind="cpp", src="c24.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["copies-*<2000", "samples"])],
                rule="case = sequence over operations on two models (10 operations each, copy construction, assignment both ways, destruction); a state is a distinct pair of "
                     "model states, a transition one operation",
                technique="exhaustive enumeration of operation histories on a model and its copies against reference models",
                level_note="All histories to depth 4 (thorough 5) from several starting situations."),
    "C11": dict(level=MC, parts=[dict(kind="cpp", src="c11.cpp", share=0.7), dict(kind="cpp", src="c11.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["long", "numbers-base1", "base0-all", "base1-all<91", "base3-sem"])],
                rule="case = description with a first deviation (optional part left out, other value, other order or spelling) from a plain one; all second deviations are "
                     "enumerated inside; every document is parsed and compared field by field with its meaning, and the built model with the kinematic reference; "
                     "a state is a distinct document text, a transition one load",
                technique="exhaustive enumeration of all documents within 2 deviations from plain ones against their meaning",
                level_note="All documents with at most two deviations of the listed kinds (one for the two largest robots in the quick tier), and runs of up to 300000 characters at buffer sizes."),
    "C12": dict(level=MC, parts=[dict(kind="cpp", src="c12.cpp", share=0.7), dict(kind="cpp", src="c12.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["invalid0", "invalid1", "invalid3<60", "truncated*", "tags*", "graph-1-*", "graph-2-*", "graph-3-*", "graph-4-2", "graph-4-3", "big-6", "big-9", "junk"])],
                rule="case = valid description (with one deviation from a plain one) in which every single invalid change of the listed kinds is made in turn, also with every single "
                     "formatting deviation; every cut of it and every mismatch of its tags; every labelled graph of joints over few links; every joint of robots to 260 links hung elsewhere, renamed or left out; a state is a distinct text, a transition one attempted load",
                technique="exhaustive enumeration of single faults in descriptions, of truncations and of all small joint graphs",
                level_note="All single faults of the listed kinds; shapes and materials, and laxities of the XML reader other than truncation and mismatched tags, are outside the property."),
    "C10": dict(level=MC, parts=[dict(kind="cpp", src="c10.cpp", share=0.7), dict(kind="cpp", src="c10.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["names<4096", "limits<20000", "many"]), dict(kind="py", src="c10.py")],
                rule="case = robot with every assignment of distinct names from an alphabet with collisions, prefixes and special characters, any set of links with inertial data, or "
                     "joints of every type with limits from an alphabet; every lookup order and many unknown names; a state is a distinct set of names or limits, a transition one lookup",
                technique="exhaustive enumeration of naming and limit assignments against the description",
                level_note="All name assignments from 8 (thorough 12) names to three links, all limit assignments of the finite alphabet to three joints."),
    "C14": dict(level=MC, parts=[dict(kind="cpp", src="c14.cpp", share=0.7), dict(kind="cpp", src="c14.cpp", variant="asan", env=dict(MC_SMALL="1"), only=["base0", "base1", "values<180", "rotations", "samples"])],
                rule="case = description (all with at most two semantic deviations from five plain ones; every value of an alphabet at every numeric place and pair of places; every "
                     "rotation of a grid; sample and large robots) that is parsed, exported, printed, parsed again and compared field by field with its meaning, twice over; "
                     "a state is a distinct exported text, a transition one round trip",
                technique="exhaustive enumeration of descriptions and values through the export round trip against their meaning",
                level_note="All documents and values of the listed finite alphabets, to six printed digits; rotations within 1.2 degrees of the RPY singularity are skipped; materials and visual names are outside."),
    "C16": dict(level=MC, parts=[dict(kind="cpp", src="c16.cpp")],
                rule="case = element of a complete grid of roll-pitch-yaw triples (including neighbourhoods of the singularity and of half turns), quaternions, vectors, and all pairs and "
                     "triples of 64 rotations with positions; a state is a distinct rotation or operand tuple, a transition one evaluated law",
                technique="exhaustive evaluation of the algebraic laws on complete operand grids against extended-precision matrices",
                level_note="All operands of the listed finite grids; floating point tolerances 1e-9 to 1e-12."),
    "C23": dict(level=MC, parts=[dict(kind="cpp", src="c23.cpp", variant="asan")],
                rule="case = sequence of operations on the containers (all sequences over 7 stack operations to depth 7 and over 10 cache operations to depth 6, for every small capacity and "
                     "three element types, including copies); sequences that leave the capacity are skipped; a state is a distinct operation history, a transition one operation",
                technique="exhaustive enumeration of operation sequences on the containers against list and map models",
                level_note="All operation sequences up to the stated depth for capacities 0 to 4, built with address and undefined-behaviour sanitizers."),
    "C13": dict(level=MC, parts=[dict(kind="cpp", src="c13.cpp", variant="asan", stall=15)],
                rule="case = byte string: every string over 38 tokens in each of 18 contexts, every pair of bytes, every cut of and every single-byte change at every position of robot descriptions in "
                     "unknown, UTF-8 and legacy encoding, every value of an alphabet at every attribute, long repetitions of every token; parsed from exact-size buffers under address and "
                     "undefined-behaviour sanitizers with allocation balance and a hang watchdog; a state is a distinct input, a transition one input parsed by all selected entry points",
                technique="exhaustive enumeration of token strings, byte strings and single faults through the sanitized parser",
                level_note="All strings up to the stated token depth and all single faults of the listed documents; element nesting below a thousand levels."),
    "C15": dict(level=MC, parts=[dict(kind="cpp", src="c15.cpp", variant="asan")],
                rule="case = sequence of tree edits (every operation with every choice of parent, child and inserted node, including nodes of the same tree), sequence of attribute operations, or string "
                     "over 33 characters and character groups with special meaning, printed in five ways and parsed in four; a state is a distinct tree or text, a transition one edit or round trip",
                technique="exhaustive enumeration of edit sequences against an ordered-tree model and of texts through the print/parse round trip",
                level_note="All edit sequences to depth 3 (thorough 4) and all texts to 3 (thorough 4) tokens of the listed alphabets, with address and undefined-behaviour sanitizers."),
    "C22": dict(level=MC, parts=[dict(kind="cpp", src="c22.cpp")],
                rule="case = description (five plain ones with every single deviation, every number replaced by values that locales spell differently, the sample robots) under one of 11 process "
                     "locales (C++ facets, C locale, both, thread locale; decimal comma, grouping, Turkish case rules); what is parsed, computed and exported must equal what it is under the classic "
                     "locale bit for bit; a state is a distinct (text, locale), a transition one parse/export/load round",
                technique="exhaustive enumeration of descriptions times locales against the result under the classic locale",
                level_note="All listed locales and documents; locales of the system are compiled by the check with localedef."),
    "C25": dict(level=MC, parts=[dict(kind="cpp", src="c25.cpp", variant="asan")],
                rule="case = attribute text (all strings of 11 tokens), number to set, list of children with handles over it, tree with refusing visitor, text with line breaks and tabs, file content, or list of "
                     "nodes of all kinds that is parsed, printed in five ways, read back and copied; each answer is compared with one computed from the text or the list; a state is a distinct input, a transition one case",
                technique="exhaustive enumeration of attribute texts, child lists, visitors, file contents and node lists against independent models",
                level_note="All inputs of the listed finite alphabets to the stated length; numbers followed by other characters and words that begin with a boolean are not specified."),
    "C17": dict(level=MC, parts=[dict(kind="cpp", src="c17.cpp"), dict(kind="cpp", src="c17t.cpp", more=["rt_sched.cpp"], variant="acc")],
                rule="part 1: case = interleaving of operation scripts on two and three models in one thread, each model's answers against the same script run alone; part 2: case = pair of scripts on two "
                     "models in two threads; serial runs record every memory access of the library, every schedule with up to two preemptions at accesses to memory written by one thread and used by the "
                     "other is run, and one preemption at every function entry (call site); a state is a distinct schedule or interleaving, a transition one operation or memory access",
                technique="stateless exploration of the real code under a deterministic scheduler with conflict-based partial-order reduction",
                level_note="Two threads, up to two preemptions; without shared written memory all interleavings are equivalent to the serial ones, which the access record decides."),
    "C06": dict(level=MC, parts=[dict(kind="py", src="c06.py", share=0.7), dict(kind="py", src="c06.py", variant="asan", env=dict(MC_SMALL="1"), only=["batches<6144", "shapes", "long", "near", "large", "types", "repeats"])], 
                rule='case = batch (robot x joint list x base type x rotation type x Jacobian option x list of up to three links with repeats x list of configurations x earlier history x form of the argument); every row and block is compared with an independent solution of that configuration alone, then the state left behind; a state is a distinct case, a transition one request',
                technique='exhaustive enumeration of batch requests to the real Python package against a one-at-a-time reference in numpy',
                level_note='All batches over the listed alphabets (lists up to length three, six joint lists per robot, five array layouts), every zero pattern, batches to 70001 rows and 77357 results, eleven number types, a robot of 60 links. The extension module is the real wrapper compiled against a stand-in for pybind11.'),
    "C07": dict(level=MC, parts=[dict(kind="py", src="c07.py", share=0.7), dict(kind="py", src="c07.py", variant="asan", env=dict(MC_SMALL="1"), only=["batches<6144", "pairs", "far", "long", "near", "large", "types", "coincident", "repeats"])], 
                rule='case = request (robot x joint list x base type x gradient option x list of link pairs x list of configurations x earlier history x form); values and gradients are compared with an independent reference; a state is a distinct case, a transition one request',
                technique='exhaustive enumeration of pair lists and batches through the real Python package against a reference in numpy',
                level_note='All pair lists up to length two (and some of three) over three links, all batches up to length two (thorough three); all pairs of links of three robots. Stand-in for pybind11 as in C06.'),
    "C08": dict(level=MC, parts=[dict(kind="py", src="c08.py", share=0.7), dict(kind="py", src="c08.py", variant="asan", env=dict(MC_SMALL="1"), only=["batches<6144", "histories", "one", "long", "near", "large", "types", "repeats"])], 
                rule='case = request (robot x joint list x base type x Jacobian option x list of action links and forces x batch x form) or a history of up to two (thorough three) of 18 requests followed by inertia and centre-of-mass requests; each is compared with an independent reference; a state is a distinct case, a transition one request',
                technique='exhaustive enumeration of batches, force lists and request histories through the real Python package against a reference in numpy',
                level_note='All combinations of the listed alphabets; models of zero total mass are out of scope. Stand-in for pybind11 as in C06.'),
    "C18": dict(level=MC, parts=[dict(kind="py", src="c18.py", share=0.7), dict(kind="py", src="c18.py", variant="asan", env=dict(MC_SMALL="1"), only=["histories", "long<8192", "values", "planar", "repeats"])], 
                rule='case = history of set, solve, add and reset requests (all of 50-60 to depth 2, of about 14 to depth 4) with read-back of every joint list and base type after each step, or a pair of planar and floating requests; a state is a distinct configuration, a transition one request',
                technique='exhaustive enumeration of request histories through the real Python package against a reference state, and of paired planar/floating requests',
                level_note='All histories to the stated depth over the stated requests. Base pitch within about a degree of the singularity is out of scope. Stand-in for pybind11 as in C06.'),
    "C19": dict(level=MC, parts=[dict(kind="py", src="c19.py", share=0.7), dict(kind="py", src="c19.py", variant="asan", env=dict(MC_SMALL="1"), only=["all<7000", "lineage<6912", "texts<4704", "values", "large"])], 
                rule='case = history of requests, in-place changes of arguments, and copies (pickle, copy, deepcopy, copies of copies, up to five models); afterwards every model is compared with its own reference in configuration, links, and all solvers; a state is a distinct tuple of model states, a transition one request or copy',
                technique='exhaustive enumeration of histories over a growing set of copied models of the real Python package against reference models',
                level_note='All histories with at least one copy to depth 3 over 11 requests and 6 kinds of copies, to depth 4 over a core, to depth 6 over additions and copies. Stand-in for pybind11 as in C06.'),
    "C20": dict(level=MC, parts=[dict(kind="py", src="c20.py", variant="asan")], 
                rule='case = ill-formed request (entry point x base type x joint list x wrong length, unknown id at each position, inconsistent lists, taken or unknown names) in a history, or a pair of them around a well-formed one; it must raise, leave the complete state as it was, and later requests and copies must work; runs under AddressSanitizer; a state is a distinct case, a transition one request',
                technique='exhaustive enumeration of ill-formed requests to the real Python package in histories, with memory checking and a reference state',
                level_note='All lengths up to eight too many, all listed wrong ids and positions. Stand-in for pybind11 as in C06; its argument conversions replace those of pybind11.'),
    "C21": dict(level=MC, parts=[dict(kind="py", src="c21.py")], 
                rule='case = fate of a first import (one for every directory content its kills and download failures can leave) and budget of kills and failures for the imports which follow; all interleavings of their file system calls and download steps are explored with state matching (directory content and what every process observed); steps on files no other process can name are not interleaved; a state is a distinct such state, a transition one step of a process',
                technique='explicit-state exploration of real importing processes under a controlled scheduler with kill and download-fault injection',
                level_note='Two imports at a time after a first one, up to two faults in sequence and one in concurrent imports (thorough: three at a time, up to three faults). Kills happen before file system calls and between blocks of a download; a lost buffer of the operating system is not modelled.'),
}
