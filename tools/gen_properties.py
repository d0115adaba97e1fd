#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable in diffs)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe or [], "hook_needed": hook}})

KIN="src/kinematics.cpp"; TF="src/tinyfk.cpp"; WR="src/wrapper.cpp"; PY="python/tinyfk/__init__.py"
H="include/tinyfk.hpp"; DS="include/data_structure.hpp"; POSE="urdf_parser/include/urdf_model/pose.h"
JH="urdf_parser/include/urdf_model/joint.h"; MH="urdf_parser/include/urdf_model/model.h"
JC="urdf_parser/src/joint.cpp"; LC="urdf_parser/src/link.cpp"; MC="urdf_parser/src/model.cpp"; PC="urdf_parser/src/pose.cpp"
TX="urdf_parser/tinyxml/tinyxml.cpp"; TXP="urdf_parser/tinyxml/tinyxmlparser.cpp"; TXH="urdf_parser/tinyxml/tinyxml.h"

p("C01", "Answers depend on the current configuration, never on the call history",
  "After any sequence of joint-angle changes, base-pose changes, resets, cache clears, link additions and queries, every link pose, Jacobian, centre of mass and inertia that is asked for equals what a freshly loaded model put straight into the same joint angles, base pose and added links answers. The same query asked twice without a change in between gives the same answer. Only the setter documented as not clearing the cache, and an explicit use_cache request, may see older values.",
  ["histories"], "every sequence of public operations, in every order, on every robot",
  "The tests follow one fixed order (set all, query each link once); staleness needs a query, then a particular change, then a query of a related link.",
  [H, KIN, TF, DS], [("transform cache cleared by every setter", TF), ("cache lookup while walking to the root", KIN), ("cache extended and cleared when a link is added", DS)],
  [("transform_cache_", "memoised root-to-link transforms", H), ("joint_angles_, base_pose_", "current configuration", H), ("transform_stack_", "scratch stack of the walk to the root", H)],
  ["get_link_pose", "get_jacobian", "get_com", "get_com_jacobian", "get_total_inertia_matrix"])

p("C02", "Link poses are the product of the transforms along the kinematic chain",
  "For every loaded robot, joint vector and base pose, the reported pose of every link is the base pose composed with, for each joint from the root down, the joint origin followed by the joint motion: a rotation by the angle about the (unit) axis for revolute and continuous joints, a translation along the axis for prismatic ones, nothing for fixed ones. The reported rotation is a unit quaternion, and joints that are not ancestors of a link have no influence on its pose.",
  ["configurations", "inputs"], "every tree of revolute, continuous, prismatic and fixed joints with any origins and unit axes, every joint vector, every base pose",
  "One robot (PR2), one joint vector, ten links.",
  [KIN, TF, JH, POSE, PC], [("walk to the root and composition on the way back", KIN), ("joint motion", JH), ("pose composition", PC)],
  [("joint_angles_", "joint values by joint id", H)], ["get_link_pose", "solve_fk"])

p("C03", "Jacobians are the derivative of the reported pose",
  "Every Jacobian equals the derivative of the reported coordinates (position; with RPY also roll, pitch, yaw; with XYZW also the reported quaternion) with respect to the requested joints, in the order in which they were requested, followed by the base position and base roll-pitch-yaw when base columns are asked for. Columns of joints that do not move the link are exactly zero. This holds for every configuration whose base and link orientations are away from the RPY singularity, including orientations near half a turn and base angles outside the principal range.",
  ["configurations", "inputs"], "every robot, link, list of joint ids, rotation type, base option and non-singular configuration",
  "One configuration of the PR2 and one link; wrap-around, sign and column-order errors are invisible there.",
  [KIN, TF, WR], [("geometric Jacobian and rotation-rate conversion", KIN), ("joint-link relevance table", TF), ("numerical base columns", KIN)],
  [("rptable_", "which joints move which links", H)], ["get_jacobian", "solve_fk with_jacobian"])

p("C04", "Centre of mass and its Jacobian are mass-weighted averages",
  "The centre of mass is the average, weighted by link mass, of the world positions of the inertial origins of all links that have inertial data, and the total mass is the sum of their masses. The centre-of-mass Jacobian is the derivative of that position, column for column as for link Jacobians. Neither asking for them nor adding links without inertial data changes any of these values.",
  ["configurations", "inputs", "histories"], "every robot with positive total mass, every subset of links with inertial data, every configuration",
  "No test calls them directly in C++, none in Python.",
  [KIN, TF], [("helper links at the inertial origins", TF), ("weighted sums", KIN)],
  [("com_dummy_links_", "one helper link per link with inertial data", H), ("total_mass_", "sum of masses", H)], ["get_com", "get_com_jacobian", "total_mass"])

p("C05", "Total inertia is the composite rigid-body inertia about the centre of mass",
  "The total inertia matrix is the sum over all links with inertial data of the link's inertia tensor, rotated from its inertial frame (including the rpy of the inertial origin) into the world, plus the parallel-axis term about the current centre of mass. It is symmetric, unaffected by translating the base, and transforms as R I R^T when the base is rotated.",
  ["configurations", "inputs"], "every robot with inertial data, every configuration and base pose",
  "One robot in its zero configuration whose inertial origins have no rotation.",
  [KIN, TF], [("sum of rotated tensors and parallel-axis terms", KIN)], None, ["get_total_inertia_matrix", "compute_total_inertia_matrix"])

p("C06", "Batched forward kinematics equals solving one item at a time",
  "For any list of configurations, links, joint ids, rotation type and base option, the batched solver returns for configuration i and link j, in row i*n_links+j (and the matching block of Jacobian rows), exactly what a single solve of that configuration and link returns, whether or not Jacobians are requested and whatever was computed before. Afterwards the model is in the last configuration of the batch, and joints that were not listed keep their values.",
  ["inputs", "histories"], "every batch shape, link list with repeats, joint order, rotation and base type",
  "One batch of ten random configurations of the PR2 with one base type.",
  [WR, PY, KIN], [("loop over configurations and links filling row blocks", WR), ("planar base expanded to six coordinates and reduced again", PY)], None, ["solve_fk"])

p("C07", "Inter-link squared distances and their gradients",
  "For every configuration i and link pair j of the request the returned value is the squared distance between the two link origins, and the returned gradient is its derivative with respect to the listed joints and, if requested, the base coordinates; rows are ordered configuration-major. A pair of a link with itself gives zero value and gradient, and swapping a pair changes nothing.",
  ["inputs", "configurations"], "every list of configurations, link pairs and joints, every base type",
  "One configuration and seven pairs of PR2 links with one base type.",
  [WR, PY, KIN], [("difference of positions and of Jacobians", WR)], None, ["compute_inter_link_sqdists"])

p("C08", "Batched centre of mass with external vertical forces",
  "For every configuration of a batch the batched centre-of-mass solver returns the centre of mass of exactly that configuration; with forces f_k applied at links k it returns (m*com + sum f_k p_k) / (m + sum f_k) where m is the total mass, and the Jacobian is the derivative of that point. Configurations of one batch do not influence each other, for every base type.",
  ["inputs", "configurations", "histories"], "every batch, base type, set of action links and forces, and every earlier call",
  "No test calls it.",
  [WR, PY, KIN], [("per-configuration joint update and force-weighted sum", WR)], None, ["solve_com_fk", "compute_total_inertia_matrix"])

p("C09", "Adding links extends the model without disturbing it",
  "A link added under any existing link, itself possibly added, gets the next free id and is from then on at the fixed offset (position, rpy) from its parent in every configuration, with the Jacobian of a point rigidly attached there. Ids, names, poses, Jacobians, mass and inertia of everything else stay unchanged. A name that is already taken is rejected with an exception and leaves the model exactly as it was.",
  ["histories", "inputs"], "every sequence of link additions, of any depth and branching, interleaved with configuration changes and queries",
  "The tests add one link and repeat it once.",
  [TF, KIN, DS], [("link registration, cache extension, relevance table rebuild", TF)],
  [("links_, link_ids_", "links by id and ids by name", H)], ["add_new_link", "get_link_names", "get_link_ids"])

p("C10", "Names, ids and limits agree with the robot description",
  "Link names and link ids form a bijection, as do joint names and joint ids, over exactly the links (described links, one centre-of-mass helper per link with inertial data, added links) and exactly the movable joints; looking names up returns their ids in the order asked, and any other name is rejected with an exception. The position, velocity and effort limits reported for a joint are those written in its limit element, and for continuous joints an unlimited (None in Python, infinite in C++) position range whatever their limit element says and infinite velocity and effort limits if they have none.",
  ["inputs"], "every robot description, name list and joint list",
  "A handful of PR2 names and three joints.",
  [TF, H, PY, JC], [("numbering of links and joints while loading", TF), ("limit accessors", TF)], None, ["get_link_ids", "get_joint_ids", "get_link_names", "get_joint_names", "get_joint_limits"])

p("C11", "Loading is faithful to the description and independent of its formatting",
  "The model built from a valid URDF has exactly the links, joints, parents, origins, axes, joint types, limits, masses and inertias that the document states, with the documented defaults for omitted optional parts. The order of elements and attributes, quoting style, white space between tokens, comments, character references and equivalent spellings of numbers make no difference, and loading from a file equals loading its text.",
  ["inputs"], "every valid robot description and every equivalent spelling of it",
  "Three URDF files in one formatting.",
  [MC, JC, LC, PC, TXP, TF, "urdf_parser/include/urdf_model/utils.h"], [("element-by-element parsing", JC), ("XML parsing", TXP), ("number parsing", "urdf_parser/include/urdf_model/utils.h")], None, ["parseURDF", "KinematicModel(xml)", "load_urdf"])

p("C12", "Invalid robot descriptions are rejected with an exception",
  "Building a model from a text that is not a valid robot description throws an exception. Invalid are: truncated XML, mismatched or unclosed tags, repeated attributes; in the kinematic and inertial data (links, joints, origins, axes, limits, masses, inertias) a missing required element or attribute, a malformed number, a duplicate name, an unknown or unsupported joint type, a reference to an undefined link; and links and joints that do not form a single tree in which every link but the root is the child of exactly one joint. It never crashes, never hangs and never silently yields a model; every valid description is accepted.",
  ["inputs", "configurations"], "every joint graph over a set of links and every way of damaging a valid description",
  "No test loads an invalid description.",
  [TF, MC, MH, JC, LC], [("null model on any parse error", MC), ("tree and root construction", MH), ("joint type check", TF)], None, ["KinematicModel(xml)", "parseURDF"])

p("C13", "The XML reader is memory-safe and terminates on every input",
  "Parsing any byte string as XML or as a robot description, in UTF-8 or legacy encoding, finishes in time proportional to a low power of its length, reads and writes no memory outside its buffers, and leaks nothing. It ends with either a document tree or a reported error.",
  ["inputs"], "every byte string, with truncation at every byte (element nesting below a thousand levels)",
  "Only well-formed files are parsed in tests.",
  [TXP, TX, TXH, MC], [("recursive descent over a NUL-terminated buffer", TXP), ("character stepping by UTF-8 lead byte", TXH)], None, ["TiXmlDocument::Parse", "parseURDF"])

p("C14", "Exporting a model and loading it again preserves the robot",
  "Exporting any parsed robot description to XML and parsing the result gives the same robot: the same links, joints, parents and children, joint types, joint origins, axes, limits, safety, calibration, mimic and dynamics data, inertial data, and visual and collision geometry with their origins, up to the printed precision of six significant digits (rotations within about a degree of the RPY singularity up to half a degree). Exporting does not modify the model, and exporting the reloaded model states the same robot again. Materials and the names of visuals are not part of this.",
  ["inputs"], "every robot description accepted by the parser, with every combination of optional parts",
  "Nothing tests the exporter.",
  [JC, LC, MC, PC], [("one exporter per parsed element", JC)], None, ["exportURDF", "parseURDF"])

p("C15", "The XML tree keeps its structure and its text through edits and reprinting",
  "After any sequence of insertions, replacements, removals, clones and attribute changes, the children of every document or element form a consistent doubly linked list with correct parent links, in the order an ordinary list would have, and attributes behave as an ordered map. Any text (outside comments and CDATA) or attribute value without null characters, whatever markup characters it contains, comes back unchanged when the document is printed and parsed again, except that by default white space in text is condensed.",
  ["histories", "inputs"], "every sequence of tree edits and every text over the characters that need escaping",
  "Nothing tests the XML library.",
  [TX, TXH, TXP], [("sibling and parent pointer updates", TX), ("entity encoding and decoding", TX)], None, ["TiXmlNode/TiXmlElement API", "TiXmlPrinter"])

p("C16", "Rotation and pose algebra is consistent",
  "Rotations set from roll-pitch-yaw are unit quaternions equal to Rz(yaw)Ry(pitch)Rx(roll); reading roll-pitch-yaw back gives angles that reproduce the rotation, to within 1e-9 radian away from the RPY singularity and within half a degree at it. Composition of poses is associative, agrees with rotating and translating points, has the identity as neutral element, and the inverse of a pose composed with it on either side is the identity; cross products and vector operators agree with their definitions.",
  ["inputs"], "all rotations and poses, including half turns and the neighbourhood of the singularity",
  "One pair of poses.",
  [POSE, PC], [("quaternion formulas", POSE)], None, ["Rotation", "Pose", "pose_transform", "cross_product"])

p("C17", "Models built independently never influence each other",
  "Operations on different models, whether built from the same or different descriptions, interleaved in any order in one thread or run at the same time in different threads, give each model exactly the results it gives when used alone.",
  ["schedules", "histories"], "every interleaving of operations on two models, at call granularity and between any two function calls inside the library",
  "The tests use one model at a time, in one thread.",
  [KIN, TF, H, DS, TXP, MC], [("all scratch state is per model", H)],
  [("transform_stack_, transform_cache_", "scratch state per model", H)], ["all KinematicModel methods", "constructor"])

p("C18", "Python configuration round trip and base types",
  "After setting a configuration with any base type, reading it back with the same base type returns the same values (base angles in the principal range), joints not listed keep their values, and a fixed-base request leaves the base where it was. Every solver called with a planar base gives the values of the same call with a floating base at zero height, roll and pitch, and the corresponding columns of its Jacobian.",
  ["histories", "inputs"], "every sequence of set and solve calls, every base type and joint subset",
  "One set/get with one base type; planar Jacobian tested for one configuration.",
  [PY, WR], [("base expansion and column extraction", PY), ("base pose conversion", WR)], None, ["set_q", "get_q", "solve_fk", "solve_com_fk", "compute_inter_link_sqdists"])

p("C19", "Pickled and copied models equal the original and stay independent",
  "A model obtained by pickling and unpickling, copy.copy or copy.deepcopy, at any point of any history and also from another copy, has the same links, joints, configuration, base pose and answers as the original at that point. Making the copy leaves the original unchanged, later operations on either do not affect the other, and later in-place changes of arrays that were passed in earlier affect neither.",
  ["histories"], "every history of operations including copies of copies",
  "One link addition, one set_q, one deepcopy.",
  [PY, WR], [("replayed histories of link additions and configuration changes", PY)],
  [("_add_new_link_history, _set_joint_angles_history", "what is replayed when unpickling", PY)], ["pickle", "copy"])

p("C20", "Ill-formed Python requests are rejected without effect",
  "A request whose configuration length does not match the joints and base type, whose sizes are inconsistent, whose link name is taken, or that names an unknown link or joint raises an exception, reads no memory out of bounds, and leaves joint angles, base pose, links and later copies exactly as they were. A well-formed request (a list or two-dimensional array of configurations) never raises, also right after a rejected one.",
  ["inputs", "histories"], "every combination of base type and wrong length for every entry point, before and after any other calls",
  "No test makes an invalid request except one duplicate link name in C++.",
  [PY, WR, TF], [("length assertions", PY), ("dof check", WR)], None, ["set_q", "solve_fk", "solve_com_fk", "compute_inter_link_sqdists", "compute_total_inertia_matrix", "add_new_link", "get_link_ids", "get_joint_ids"])

p("C21", "The sample-robot download cache survives failures and races",
  "Whenever importing the Python package succeeds, both sample robot files are present and complete in the cache directory. This holds after any number of earlier imports that were killed or whose download failed at any point, and when several processes import at the same time; an import never fails for a reason other than its own download failing, and once both files are there an import downloads nothing.",
  ["crash_points", "schedules", "fault_sequences"], "every crash point and download failure of an import, and every interleaving of two imports",
  "Tests run with the cache already there.",
  [PY], [("existence check, directory creation and downloads at import", PY)],
  [("~/.tinyfk", "download cache", PY)], ["import tinyfk", "pr2_urdfpath", "fetch_urdfpath"])

p("C22", "Reading and writing robot descriptions ignores the process locale",
  "Parsing, exporting and loading give identical results whatever C or C++ locale the host program has installed, including locales with a decimal comma or digit grouping.",
  ["configurations"], "every global locale",
  "Tests run in the C locale only.",
  ["urdf_parser/include/urdf_model/utils.h", PC, JC, LC], [("classic locale imbued for number conversion", "urdf_parser/include/urdf_model/utils.h")], None, ["parseURDF", "exportURDF", "KinematicModel(xml)"])

p("C23", "The bounded stack and the cache container behave as their abstract types",
  "For every sequence of operations within capacity, the stack returns elements last-in first-out with correct size and emptiness, and reset empties it. The cache returns for each id the value last stored since the last clear or extension, or nothing; extension adds one id and empties it.",
  ["histories"], "every operation sequence within capacity",
  "One sequence of eleven stack operations; the cache is not tested.",
  [DS], [("index and validity-bit bookkeeping", DS)], None, ["SizedStack", "SizedCache"])

p("C24", "Copying a C++ model gives an independent equal model",
  "A copy of a model (copy construction or assignment) answers every query like the original, and afterwards changing joint angles, base pose or links of either one never changes the answers of the other and never makes a later operation on it fail.",
  ["histories"], "every sequence of operations on an original and its copies",
  "The tests never use a model after copying it.",
  [H, TF], [("member-wise copy of the model", H)], [("links_, joints_", "shared pointers to link and joint objects", H)], ["KinematicModel copy"])

p("C25", "Documents: typed attributes, handles, visitors, positions, files, copies and reprinting agree with the text",
  "For every XML document: asking for an attribute as a whole number, real number, boolean or text gives its value, reports a missing attribute or a value of the wrong type as such and then leaves the answer untouched; a number stored in an attribute reads back (reals to the six digits that are written). Handles and child lookups by name and index return exactly the matching child, or nothing when a step is missing. A visitor sees every node once in document order, and a refusal skips exactly the children or the following siblings. Elements, attributes, comments and instructions report the line and column where they start, counting tabs, the three line endings and UTF-8 characters, and the place of an error moves with the text before it. Loading a file gives the document of its text with line endings normalised and the byte order mark remembered; a missing or empty file is reported as an error; saving and loading again gives the same document, and no file is left open. Comments, CDATA, instructions and declarations survive each of the five ways of printing; copies and assignments of documents and nodes are equal and independent.",
  ["inputs", "histories"], "every document, attribute text, file content, handle path and refusing visitor over the listed alphabets",
  "The tests read attributes only through URDF files.",
  [TX, TXP, TXH, "urdf_parser/tinyxml/tinyxmlerror.cpp"], [("typed queries, handles, files, copies, printing", TX), ("positions and parsing", TXP)], None, ["TiXmlDocument", "TiXmlElement", "TiXmlAttribute", "TiXmlHandle", "TiXmlVisitor", "TiXmlPrinter"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
