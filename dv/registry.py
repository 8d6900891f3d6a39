"""Which properties have obligations, and what assurance they give."""
BASE = (" Trusted: the VC generator in dv/ (Python semantics of the constructs it accepts; anything else is an error, never silently skipped), "
        "z3 and cvc5. Assumes that calls terminate (partial correctness), mathematical integers and reals, no recursion limit. "
        "The generated cases only supply failing inputs.")
PROOFS = {
 "V01": {"module": "versions", "note": "Every comparison method of SpineVersion, for all version texts; __init__ through its contract (V02)." + BASE + " Numbers of a version are parsed by the model of int() on decimal texts."},
 "V02": {"module": "versions", "note": "SpineVersion.__init__ for all strings, against a grammar of its own; parts that int() accepts without being plain decimal numbers (' 5', '1_0', '-1') are left unspecified." + BASE},
 "M01": {"module": "mapping", "note": "from_spine_id and to_spine_id composed, for all names and kinds (string theory)." + BASE},
 "G01": {"module": "graph", "note": "Representation invariant of DAGraph preserved by every public operation from every state that satisfies it (hence after every history), with a frame goal for each, normal and exceptional exits." + BASE},
 "G02": {"module": "graph", "note": "add_node and the id generator from every state satisfying the invariant; loops by invariants and unbounded." + BASE},
 "G03": {"module": "graph", "note": "heads and tails of every graph." + BASE},
 "G04": {"module": "graph", "note": "Sequential order of execution of every graph that has a rank function (equivalent to acyclic for finite graphs: a fact that is assumed, not proved)." + BASE},
 "G05": {"module": "graph", "note": "Validation of every graph; the recursive search goes by its contract, induction over the stack. A finite graph is acyclic iff it has a rank function (assumed)." + BASE},
 "M03": {"module": "graph", "note": "Pruning heads and leaves of every graph, all kinds, against the least fixed point of the pruning rule." + BASE},
 "S01": {"module": "data", "note": "build and to_json of every class, each against its contract over the kinds' table (rt/schema.py), then the composition for every document of version 3.8 or later with at least one bone. Keys of documents are ASCII texts." + BASE},
 "S03": {"module": "data", "note": "Exceptional paths of build for every class: raises iff there is an unsupported or a missing required attribute." + BASE},
 "S04": {"module": "data", "note": "clean_invalid_keys of every class and every depth, by its contract." + BASE},
 "E07": {"module": "editor", "note": "scale_animation for every skeleton with exactly one bone named root; export and graph construction go by contract (S01, M02)." + BASE},
 "E01": {"module": "editor", "note": "_erase_raw_animations_data and erase_animations for every skeleton and every list of distinct names, strict or not, safe or not; clean_animation goes by its contract (it keeps the animations' names and order; proved under E04)." + BASE + " Lists with a repeated name are covered by generated cases only."},
 "E02": {"module": "editor", "note": "remove_offsets_with_ids for every setup order, every valid keyframe (offsets of distinct slots, distinct places within the list) and every list or set of removed names; every keyframe of every animation gets it once, with the slots of the setup pose as they were before the removal (remove_slots, clean_animation); the offsets describe one order only." + BASE + " The order of the offsets in a keyframe is kept, so it is the setup order if it was."},
 "E04": {"module": "editor", "note": "remove_slots and remove_attachments with everything they call, for every skeleton and every list of names; clean_animation as a composition over their contracts and over that of the graph (M02, M03) and of the search for unused parts (E03)." + BASE + " Assumes a valid skeleton: names are distinct texts and entries of skins belong to slots."},
 "E05": {"module": "editor", "note": "remove_skin for every skeleton and every name; erase_skins, over that contract and those of cleaning, export and graph, for every list of names." + BASE + " Assumes that skin names are distinct texts and that a linked mesh whose mesh is in the erased skin finds it there, as a mesh. The graph's image nodes are those of the exported document (M02)."},
 "E06": {"module": "images", "note": "get_images_references for every skeleton; loading, erase_animations, erase_skins, clean_animation and the two helpers over it. Invariant: the references are exactly the images used." + BASE + " os.path.join is uninterpreted; the custom scale of a slot goes by its contract (E09); image names are texts; the graph's image nodes are those of the exported document (M02)."},
 "E08": {"module": "editor", "note": "erase_animations, erase_skins (safe or not), clean_animation, remove_skin: what stays is compared field by field with the state before, from every state (hence after any earlier scaling)." + BASE + " Same assumptions on the skeleton as E04 and E05."},
 "E03": {"module": "unused", "note": "Which slots each animation may show and what it uses there, for every skeleton and every animation; the search for unused parts over all animations and skins, by contract; clean_animation over that." + BASE + " Assumes a valid skeleton: slot names are distinct, non-empty texts, timelines and skin entries belong to slots, colours are hexadecimal texts (int(text, 16) is an uninterpreted number of the text; transparent means a multiple of 256). Which slots the graph counts as leaves goes by its contract (M02, M03)."},
}
BOUNDED = {}

S = "Bounded stand-in: the property as an executable contract on the real functions, over generated documents and histories of up to about 6 elements per collection; oracle: the definition in rt/props.py, written from the statement and not from the code. "
HOW = {
 "V01": "`contracts/versions.py`. Every comparison operator of SpineVersion is executed for two arbitrary versions (right side a version or a text) and compared with the lexicographic order on (major, minor, patch); trichotomy, agreement and transitivity are goals over those contracts. About 100 obligations, 6 s.",
 "V02": "`contracts/versions.py`. `SpineVersion.__init__` for every text in z3's string theory, against the grammar N.N or N.N.N: accepted texts yield the numbers and the text, the others ValueError. 33 obligations, 8 s.",
 "M01": "`contracts/mapping.py`. `to_spine_id(from_spine_id(kind, name)) == name` for every string and every kind, and two kinds never share an id. String theory, 85 obligations.",
 "G01": "`contracts/graph.py`. Representation invariant (two-sided edges, no dangling neighbours, filed under own id, no loops) as precondition and postcondition of every public operation of DAGraph and SpamNode, with a frame goal naming exactly the nodes and edges that change; exceptional exits restore everything. An arbitrary history is an induction over those steps. 586 obligations, 18 s.",
 "G02": "As G01, for `add_node` and the generator: fresh, never given before, retrievable, nothing else changed. The retry loop goes by an invariant over the counter. 553 obligations, 22 s.",
 "G03": "As G01: `heads`/`tails` list each node without parents/children exactly once, for every graph, cycles included; no writes.",
 "G04": "As G01: sequential order, loop invariant over the set of visited nodes and the rank; assumes the rank function.",
 "G05": "As G01: the recursive colouring goes by its own contract (a path from the start to the current node; black nodes have only black children), used at the recursive call; reports iff there is no rank function. Heads of the wrong type are exactly the unconnected ones. 431 obligations, 22 s.",
 "M03": "As G01: prune_heads / prune_leaves. The loop invariant states that each removed node is in the least fixed point of the rule (given as an inductive predicate with a rank) and that everything that stays is untouched. 195 obligations.",
 "S01": "`contracts/data.py`. For each class, `build` and `to_json_data` against the kinds' table: for every document the object holds `filled(document)` and the export is `export(object)`; then the composition `export(filled(doc))` is doc up to defaults, for all depths, by the kinds' structure. Names, order of lists and keys and header included. About 2,900 obligations, 9 s.",
 "S03": "The exceptional paths of the same builds: raises SpineParsingException iff there is an unsupported attribute or a required one is missing. 146 obligations.",
 "S04": "`clean_invalid_keys` of every class, contract per kind, for every target version. 285 obligations.",
 "E07": "`contracts/editor.py`. scale_animation on an arbitrary loaded skeleton: per bone the exact new scale, everything else unchanged; composition (twice = product) is arithmetic over that contract. Precondition: one bone called root.",
 "E01": "`contracts/editor.py`. Which animations stay, in which order, with which content, for every list of names, strict or not; TypeError for other arguments before any write; in safe mode the whole remaining state is compared.",
 "E02": "`contracts/draworder.py`. `_reorder_slots_with_offset` by loop invariants (ghost: the setup place of each slot in the list, and the list position of each setup slot), giving the order that the offsets define; `remove_offsets_with_ids` over that contract: new offsets applied to the filtered setup order give the filtered old order (all four clauses of the definition). Lemmas: the definition describes one order only (least position where two differ), and a one-to-one map between ranges keeps their length (induction). `contracts/editor.py`: every keyframe of every animation is treated exactly once with the old setup order.",
 "E04": "`contracts/editor.py`. The state after `remove_slots` and `remove_attachments` is given field by field for an arbitrary skeleton: skins, deforms, slot timelines, draw order and setup attachments are exactly the old ones without what was removed; everything else unchanged. `clean_animation` composes those contracts.",
}
PROOFS["E09"] = {"module": "scale", "note": "get_slot_custom_scale, get_bone_custom_scale_recursive (loop invariant: what was multiplied times the product of the bone it is at) and get_slot for every skeleton of any depth; get_images_references puts that scale on images. Reading tags goes by its contract (T01)." + BASE + " Distinct bone names, every bone but the root has its parent among the bones, and the product along the bones exists (no cycle). Floats are taken as reals."}
PROOFS["T01"] = {"module": "tags", "note": "get_tags_from_name for every text with no word of the grammar, with one, and with two or more; the pattern in the source accepts exactly the words of the grammar (equivalence of regular expressions). get_scale_in_name of bones and slots over that contract." + BASE}
HOW["E09"] = "`contracts/scale.py`. A ghost function gives the product of the tags from a bone to the root, by its recursion over the parents; the walk in get_bone_custom_scale_recursive keeps (multiplied so far) x (product of the current bone); the slot's scale is its own tag times that. The image references take that scale (`contracts/images.py`). Unbounded in depth."
HOW["T01"] = "`contracts/tags.py`. An own grammar of tags; the regular expression of the source is proved equivalent to it, words of the grammar are proved not to overlap, so findall finds exactly those. The function is executed on an arbitrary word (built from its parts, string theory), on none, and on two followed by any number: value, ValueError, nothing, exactly as stated."
PROOFS["M02"] = {"module": "mirror", "note": "The graph made from every valid document (exactly its nodes, each with place and data of its element; exactly the edges of bones, slots, attachments and images), and the conversion of every such graph back, its nodes in any order." + BASE + " Valid: element names are distinct texts, the first bone alone has no parent and parents precede their children, slots hang from bones that exist. The methods of the graph go by the contracts of G01 and G02, graph ids by M01; constraints may hang from anything (not stated by the property). sorted goes by its contract, with the obligation that the keys are the places 0, 1, 2, ..."}
HOW["M02"] = "`contracts/mirror.py`. Construction: each loop of the source over the document goes by an invariant that states the node and edge sets exactly (everything of the elements done so far, nothing else); obligations at every add_node and add_edge (new id, right kind, place and data, both ends exist). The end state is compared with a description written from the statement. Conversion: any graph satisfying that description, nodes in any order, gives the lists back in order and unchanged. About 535 obligations, 17 s."
PROOFS["S02"] = {"module": "owner", "note": "Ownership contracts of every constructor, of filling in defaults, of the export of every class and of the traversal, then of loading, exporting, the editor and erase_animations: what is returned is reachable from nothing of the caller's, of the editor's or of the tables of the classes, and nothing of it is kept." + BASE + " That no other operation reaches a document of the caller is the frame rule: the editor holds no reference to one (proved), and the verifier rejects every write to a table of a class or module."}
HOW["S02"] = "`contracts/owner.py`. Symbolic heap with addresses: `Apart(x)` says that everything reachable from x lies outside given addresses and the tables of the classes; JSON values that are no objects carry a ghost owner, and only copies (deepcopy, the traversal, by its own contract) are owned by the result. Obligations per class for constructor, defaults and export; then for load, export, editor and erase_animations. History: invariant `the editor holds no reference to a document handed in or out`, established and preserved."
HOW["E05"] = "`contracts/editor.py`, `contracts/images.py`. The state after `remove_skin`: the erased skin gone, the others in order; each linked mesh that took its mesh from it is a mesh with every field given; everything else equal to before. The exceptional path changes nothing. `erase_skins` loops over that contract with an invariant (exactly the names so far are erased). 246 obligations, 7 s."
HOW["E06"] = "`contracts/images.py`. `get_images_references` lists exactly the images of the definition, for every skeleton (nested loops over skins, slots, attachments). The editor's invariant - references are exactly the images in use - is established by loading and preserved by each operation. The loop of `erase_skins` carries: what has been collected is used by a skin erased so far; a reported image is used by no skin that stays."
HOW["E08"] = "`contracts/editor.py`, `contracts/images.py`. Frame goals of the four operations: bones, constraints, events and header equal to before; slots an increasing selection of the old ones, each unchanged."
HOW["E03"] = "`contracts/unused.py`. `shows(animation, slot)` and `uses(animation, slot, attachment)` are written from the statement; get_slots_with_alpha_zero, get_slots_not_visible_in_setup_pose and get_visible_slots_and_attachments are proved to compute them for every animation (sets accumulated by loops are summarised exactly), get_unused_slots_and_attachments to return exactly the slots no animation may show and the attachments that are unused and not the key of a mesh of a slot that stays. `clean_animation` removes those, and otherwise only slots left without any attachment."
PROOFS["F01"] = {"module": "files", "note": "to_json, save_images_json and from_json_file for every skeleton, every file name and every state of the file system in which the name can be written, over a ghost file system. The export goes by its contract (S01)." + BASE + " The contracts of open, os.path, os.makedirs and json are assumed, among them that json.load gives back what json.dump wrote; names are compared as texts; permissions, full disks and crashes are left out. Loading again exports the same document by S01 over these contracts."}
HOW["F01"] = "`contracts/files.py`. A ghost file system (folders, files with the document each holds) with contracts of open, close, json.dump, os.makedirs and the like that raise what the libraries raise. Saving: ends normally from every state in which the name can be written (no folder named, folder there, folder missing), the file holds exactly the export (or the references), no other file changes, only its folder is made, the editor is unchanged. Loading: one editor, made from exactly the document in the file."
PROOFS["G06"] = {"module": "paths", "note": "get_all_paths and its nested search for every graph that satisfies the invariant (G01), every start, end and maximum depth; validate goes by its contract (G05). A ghost counter says how often an arbitrary list of nodes was found." + BASE + " A valid graph has a rank function (equivalent to acyclic for finite graphs: assumed, not proved)."}
HOW["G06"] = "`contracts/paths.py`. For one arbitrary list q of nodes, a ghost counter of its occurrences among the found paths. Contract of the nested search: from a node that its path leads to, q is found once when it continues the path along edges to the end within the depth, and otherwise not at all; path and visited nodes are restored. The body is verified with recursive calls by contract; the loop over the children by a sum rule (q goes on to one child at most). Two lemmas by induction over q: ranks grow along a path; the recursive predicate is `each node is a parent of the next`."
for _p in "".split():
    HOW.setdefault(_p, S)
