"""Writes /verif/properties.jsonl (the property list, in one readable place)."""
import json
P = []
L = "spine_json_lib/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [L + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": L + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
DOC = ("A valid skeleton document is a Spine JSON export of version 3.8 or later made of features the library supports: "
       "names unique, every reference resolving, bones listed parent first under a bone called root.")
ED, AD, BT, SN, DG = "spine_animation_editor.py", "data/spine_anim_data.py", "data/data_types/base_type.py", "deserializer/spine_nodes.py", "graph/dagraph.py"
DT = ["data/data_types/%s.py" % n for n in "animation base_type bone deform draworder events ik path skin slot transform".split()]

p("S01", "Loading and exporting a skeleton loses and invents nothing",
  "For every valid skeleton document, exporting it right after loading gives back the same document: every name and timeline is kept, every list keeps its order, and every attribute of every object has the same effective value, where an attribute that is absent or null has the default its kind of object declares for that version (attributes whose value equals that default may be left out or spelled out). The skeleton header is returned verbatim. Exporting an exported document changes nothing more.",
  ["inputs"], "All valid skeleton documents. " + DOC,
  "One 8-slot document is compared after a round trip; it exercises a handful of the 25 kinds of object and few of their attributes.",
  [AD] + DT, [("parse into typed objects", AD + ":SpineAnimationData.__init__"), ("fill in defaults", BT + ":SpineData.set_default_values_from_version"), ("export, leaving defaults out", BT + ":SpineData.to_spine_data_ignoring_default_values"), ("recursive traversal", BT + ":SpineData.traverse_spine_data")],
  ["SpineAnimationEditor(doc).to_json_data()"])
p("S02", "The caller's documents are never shared with the editor",
  "Loading a document does not change it, and no later operation on the editor changes it either. A document returned by an export shares no mutable part with the editor or with the default tables: changing it afterwards has no effect on later exports of this or of any other skeleton.",
  ["inputs", "histories"], "All valid documents, all sequences of editor operations interleaved with arbitrary changes to the documents passed in and handed out.",
  "No test looks at the input after loading or changes a returned document.",
  [AD, BT, ED], [("deep copy of the input", AD + ":SpineAnimationData.__init__"), ("deep copy of the header", AD + ":JsonSpineAnimationData"), ("deep copy of default tables", BT + ":SpineData.default_values"), ("fresh containers on export", BT + ":SpineData.traverse_spine_data")],
  ["the document passed to SpineAnimationEditor", "the results of to_json_data and erase_animations"])
p("S03", "Unknown or missing attributes are rejected, never dropped",
  "Loading a document in which some object of the skeleton has an attribute the library does not support for that kind of object raises a SpineParsingException, and so does an object that lacks an attribute required for its kind (a bone's name, a slot's name or bone, the offset of a draw order entry). A document made only of supported attributes with the required ones present is accepted.",
  ["inputs"], "All documents that differ from a valid one by added unsupported attributes or removed required ones, at any object at any depth.",
  "A single missing attribute at a single place is tested.",
  [BT] + DT, [("known and required attribute check", BT + ":SpineData.__init__")],
  ["SpineAnimationEditor(doc) or the constructor of a single data type"])
p("S04", "Attributes an older version lacks are removed, and nothing else",
  "Asking to clean the attributes unsupported by a target version older than 3.8 empties, on every object of the skeleton at any depth, exactly the attributes its kind declares as unsupported there, and leaves every other attribute of every object unchanged. For a target version of 3.8 or later nothing changes.",
  ["inputs", "configurations"], "All loaded skeletons and all target versions.",
  "No test cleans for an older version.",
  [BT, "data/spine_version_type.py"], [("recursive removal", BT + ":SpineData.remove_unsupported_attributes"), ("recursive traversal", BT + ":SpineData.traverse_spine_data")],
  ["SpineAnimationData.clean_unsupported_attributes(version)"])
p("V01", "Spine versions are ordered numerically, most significant part first",
  "Comparing two Spine versions, either of which on the right may be given as a string, orders them by major number, then minor, then patch, a missing patch counting as 0. So exactly one of <, == and > holds for any two versions, <=, >= and != agree with them, and the order is transitive.",
  ["inputs"], "All pairs (and triples) of valid versions.",
  "No test compares versions.",
  ["data/spine_version_type.py"], [("comparison operators", "data/spine_version_type.py:SpineVersion")],
  ["the operators of SpineVersion"])
p("V02", "A version string is parsed exactly or rejected",
  "A string of two or three dot-separated decimal numbers is accepted as a version and yields exactly those numbers (patch 0 when absent) and its original text. A string with another number of parts, or with a part that is not a number, raises ValueError.",
  ["inputs"], "All strings.",
  "Only the versions in the sample documents are ever parsed.",
  ["data/spine_version_type.py"], [("validation", "data/spine_version_type.py:SpineVersion.validate"), ("splitting", "data/spine_version_type.py:SpineVersion.split_version")],
  ["SpineVersion(s)"])
p("G01", "Graph edges stay two-sided and never dangle",
  "After any sequence of adding and removing nodes and edges, a node lists another as its child exactly when that other lists it as its parent, every neighbour is a node that is still in the graph, nodes are filed under their own id, and no node is its own neighbour. Each operation changes only the nodes and edges it names: removing a node removes exactly it and its edges, adding or removing an edge affects exactly that edge. An operation that raises leaves all nodes and edges as they were.",
  ["histories", "inputs"], "All sequences of graph operations, including failing ones, with all ids and node types.",
  "Tests remove one isolated node and never remove an edge or look at the neighbours of a removed node.",
  [DG, "graph/spamnode.py"], [("edge insertion", DG + ":DAGraph.add_edge"), ("edge removal", DG + ":DAGraph.remove_edge"), ("node removal", DG + ":DAGraph.remove_node_by_id"), ("half edges", "graph/spamnode.py:SpamNode._add_child/_add_parent")],
  ["children and parents of every node of a DAGraph"])
p("G02", "Node ids are unique and generated ids are fresh",
  "An id the graph generates is never the id of a node in the graph and never one it generated before. Adding a node under an id already in use raises ValueError and changes no node; adding one under a new or generated id adds exactly that node, retrievable by the id, with no edges.",
  ["histories", "inputs"], "All sequences of graph operations, with callers free to pick ids that look like generated ones.",
  "One fixed sequence is tested.",
  [DG], [("id generator", DG + ":DAGraph.generate_unique_id"), ("duplicate check", DG + ":DAGraph.add_node")],
  ["DAGraph.add_node, get_node, generate_unique_id"])
p("G03", "Heads and tails are exactly the nodes without parents or children",
  "The heads of a graph are exactly the nodes that have no parent and its tails exactly the nodes that have no child, each listed once, whatever the shape of the graph, cyclic ones included. Asking changes nothing.",
  ["inputs"], "All graphs whose longest chain fits the recursion limit of the interpreter.",
  "Tests use one chain of four nodes and check only that the listed heads have no parents.",
  [DG], [("search for border nodes", DG + ":DAGraph.__get_nodes")],
  ["DAGraph.get_heads_id, get_tails_id"])
p("G04", "The order of execution respects every dependency",
  "For every acyclic graph, the sequential order of execution lists every node exactly once and every node after all its parents.",
  ["inputs"], "All acyclic graphs, with any number of heads, whose longest chain fits the recursion limit of the interpreter.",
  "Two graphs with a single head are tested.",
  [DG], [("depth-first ordering", DG + ":DAGraph.sequential_order_of_execution")],
  ["DAGraph.sequential_order_of_execution"])
p("G05", "Circular references are reported exactly when there is a cycle",
  "Validating a graph reports circular references if and only if the graph has a directed cycle, and reports as unconnected exactly the nodes without parents whose type is not the input root type. Validation changes nothing.",
  ["inputs"], "All graphs whose longest chain fits the recursion limit of the interpreter.",
  "Two cyclic graphs of three nodes are tested, and acyclic ones only through the path search.",
  ["graph/graph_validator.py", DG], [("back edge search", "graph/graph_validator.py:GraphValidator.get_circular_dependencies"), ("heads", "graph/graph_validator.py:GraphValidator.get_unconnected_nodes")],
  ["DAGraph.validate"])
p("G06", "The path search returns every path exactly once",
  "For every valid graph (acyclic, heads of the input root type), the path search from one node to another returns exactly the directed paths between them that have at most the maximum depth of nodes, each exactly once. It raises ValueError for an invalid graph or an unknown node.",
  ["inputs"], "All valid graphs, start and end nodes and maximum depths.",
  "Three graphs of four nodes, never reaching the depth limit, are tested.",
  [DG], [("bounded depth-first search", DG + ":DAGraph.get_all_paths")],
  ["DAGraph.get_all_paths"])
p("M01", "Graph ids are reversible and never collide across kinds",
  "Converting the name of a skeleton element of some kind to its graph id and back gives the name unchanged, for every string, including names that themselves contain a kind. Two elements get the same graph id only if they have the same kind and the same name.",
  ["inputs"], "All names and all pairs of kinds.",
  "Names in the sample documents never contain the name of a kind.",
  [SN], [("id encoding", SN + ":SpineGraphParser._to_graph_id"), ("id decoding", SN + ":SpineGraphParser._to_base_id")],
  ["graph node ids; the slots and attachments reported as removed"])
p("M02", "The skeleton graph mirrors the skeleton and converts back unchanged",
  "Building the graph of a valid skeleton document and converting it back yields the document's bones, slots and IK constraints, with all their data and in their order. In the graph every bone hangs from its parent bone, every slot from its bone, every skin attachment from its slots and every image from the attachments that use it, and there are no other bone, slot and attachment relations.",
  ["inputs"], "All valid skeleton documents.",
  "One document is converted and compared without regard to order; its edges are not checked.",
  [SN, "spine_graph_container.py"], [("graph construction", SN + ":SpineGraphParser.create_from_json_data"), ("conversion back, sorted by index", SN + ":SpineGraphParser.to_json_data")],
  ["SpineGraphParser.create_from_json_data, to_json_data"])
p("M03", "Pruning removes all border nodes of a kind and only those",
  "Pruning the heads (or leaves) of one kind from a skeleton graph removes nodes of that kind only, repeats until no head (or leaf) of that kind is left, and reports exactly the names of the removed nodes, each once. Every other node stays, and keeps its edges to the nodes that stay.",
  ["inputs", "histories"], "All skeleton graphs and kinds.",
  "Only the totals of two cleaned documents are compared.",
  ["spine_graph_container.py", DG], [("pruning loops", "spine_graph_container.py:SpineGraphContainer.remove_heads_of_type/remove_leafs_of_type")],
  ["SpineGraphContainer.remove_heads_of_type, remove_leafs_of_type"])
p("E01", "Erasing animations erases exactly the named animations",
  "Erasing animations removes the named animations and no other, and keeps the order of the rest. With strict mode on, naming an animation that is not in the skeleton raises ValueError; with it off, unknown names are ignored. An argument that is not a list raises TypeError before anything changes, and in safe mode nothing but the set of animations changes.",
  ["inputs", "histories"], "All valid skeletons and lists of names.",
  "One erasure of four known names in strict mode is tested.",
  [ED], [("removal by name", ED + ":SpineAnimationEditor._erase_raw_animations_data"), ("entry point", ED + ":SpineAnimationEditor.erase_animations")],
  ["SpineAnimationEditor.erase_animations and to_json_data"])
p("E02", "Removing slots preserves the draw order of the remaining ones",
  "When slots are removed from a skeleton, every draw order keyframe still makes the remaining slots draw in the same order as before. That is, applying the exported offsets to the remaining slots gives the order that the original offsets gave with the removed slots taken out, and the exported offsets name only remaining slots, in setup order.",
  ["inputs"], "All lists of slots, all valid draw order offsets (distinct slots in setup order, distinct target positions in range) and all sets of removed slots.",
  "The sample with draw orders loses no slot that appears between reordered ones, so the offsets hardly change.",
  ["data/data_types/draworder.py", "data/data_types/animation.py", ED], [("apply the offsets", "data/data_types/draworder.py:DrawOrderTimeline._reorder_slots_with_offset"), ("recompute the offsets", "data/data_types/draworder.py:DrawOrderTimeline._adjust_draw_oder_offset_with_erased_slots")],
  ["drawOrder timelines of the exported document"])
p("E03", "Cleaning never removes what some animation shows",
  "Cleaning a skeleton with at least one animation never removes a slot, other than one left without any attachment, that at least one remaining animation may show: one that the animation leaves alone and the setup pose shows (it has an attachment, a colour, a dark colour or a blend mode, and its colour is not fully transparent), or whose keyframes in that animation are more than a single hiding keyframe, give it a colour if its setup colour is fully transparent, and use an attachment if it has none of those four. It never removes an attachment that such an animation uses in such a slot, by keyframe or by the setup pose, nor a mesh of a slot that stays merely because the mesh is unused. Slots that no animation may show are removed, and so are unused attachments whose key is not that of such a mesh.",
  ["inputs"], "All valid skeletons with at least one animation.",
  "Two documents are cleaned and compared with stored results.",
  [AD, "data/data_types/slot.py"], [("visibility", AD + ":SpineAnimationData.get_visible_slots_and_attachments"), ("unused elements", AD + ":SpineAnimationData.get_unused_slots_and_attachments"), ("keyframe rules", "data/data_types/slot.py:SlotTimeline.is_empty")],
  ["slots and skins of the exported document after erase_animations"])
p("E04", "Cleaning leaves no reference to what it removed",
  "After slots are removed, no skin, slot timeline, deform timeline or draw order of the exported document mentions them, and after attachments are removed no skin or deform timeline mentions them and no remaining slot has one of them as its setup attachment. Everything else in skins and animations (other slots, attachments, timelines and keyframes) is kept unchanged.",
  ["inputs"], "All valid skeletons and all sets of removed slots and attachments.",
  "Two documents are cleaned and compared with stored results; deform and draw order references to removed slots do not occur in them.",
  [ED, "data/data_types/animation.py"], [("skins", ED + ":SpineAnimationEditor._clean_slots_in_skins/_clean_attachments_in_skins"), ("animations", ED + ":SpineAnimationEditor._clean_slots_in_animations"), ("deforms", "data/data_types/animation.py:Animation.remove_deforms_using_slots/remove_deforms_with_attachments_on_skin")],
  ["the exported document after erase_animations or erase_skins"])
p("E05", "Erasing a skin leaves the other skins complete",
  "Erasing a skin removes exactly that skin and its deform timelines, and raises SpineJsonEditorError, changing nothing, when there is no such skin. A linked mesh of another skin that took its mesh from the erased skin becomes a mesh of its own with that geometry, keeping its own name, path, size and colour, so no linked mesh refers to the erased skin any more. All other attachments of all other skins are unchanged.",
  ["inputs"], "All valid skeletons and skins.",
  "The erased skin of the one sample is not the source of any linked mesh whose key differs from its parent's.",
  [AD], [("skin removal", AD + ":SpineAnimationData.remove_skin")],
  ["skins of the exported document after erase_skins"])
p("E06", "Image references are exactly the images still in use",
  "After loading, and after every erasure of animations or skins, the image references list exactly the images used by the attachments of the remaining skins, path attachments aside; an attachment's image is its path, else its name, else its key. Each entry's file path is the image name under the skeleton's images folder. The images an erasure of skins reports as removed were used by an erased skin and are used by no remaining one.",
  ["inputs", "histories"], "All valid skeletons and all sequences of erasures that start from loading.",
  "Three stored results are compared; none has attachments that share a key but not an image.",
  [ED, AD], [("collection", ED + ":SpineAnimationEditor.get_images_references"), ("cleaning", ED + ":SpineAnimationEditor.erase_skins/clean_animation")],
  ["SpineAnimationEditor.images_references"])
p("E07", "Scaling multiplies exactly the bones that need it, once",
  "Scaling an animation multiplies the x and y scale of the root bone and of every bone that does not inherit scale (noScale, noScaleOrReflection, onlyTranslation) by the given factors, once each, and changes nothing else in the skeleton. So scaling twice equals scaling once by the products, and scaling by 1 changes nothing.",
  ["inputs", "histories"], "All valid skeletons and factors.",
  "Scaling is not tested at all.",
  [ED, "data/data_types/bone.py"], [("scaling", ED + ":SpineAnimationEditor.scale_animation"), ("one bone", "data/data_types/bone.py:Bone.scale")],
  ["bones of the exported document"])
p("E08", "Erasing keeps bones, constraints, events and earlier scaling",
  "Erasing animations or skins, with or without cleaning, never removes, reorders or changes a bone, an IK, transform or path constraint, or an event definition, including bones scaled earlier through the editor. The slots that stay keep their order and their attributes.",
  ["histories", "inputs"], "All valid skeletons and all sequences of scaling and erasing.",
  "No test scales, and none erases twice.",
  [ED, SN], [("cleaning through the graph", ED + ":SpineAnimationEditor.clean_animation"), ("conversion back", SN + ":SpineGraphParser.to_json_data")],
  ["bones, ik, transform, path, events and slots of the exported document"])
p("E09", "A slot's custom scale is the product along its bones",
  "The custom scale of a slot is the scale tag in its name times the scale tags in the names of its bone and of all that bone's ancestors below the root, a missing tag counting as 1. The image reference of an attachment carries that scale when it is not 1 and no scale otherwise.",
  ["inputs"], "All valid skeletons with any scale tags, at any depth of bones.",
  "No sample document has a scale tag in a name.",
  [AD, ED], [("walk to the root", AD + ":SpineAnimationData.get_bone_custom_scale_recursive"), ("product", AD + ":SpineAnimationData.get_slot_custom_scale")],
  ["SpineAnimationEditor.images_references"])
p("T01", "Tags in names are read exactly or rejected",
  "A tag is a name (letters, digits, _ and -) and a value (letters, digits, _, . and spaces) with a colon between them, in square brackets. Reading the tags of a name returns the value of its scale tag as a number, and nothing when the name has no tag. A name with a tag twice, a tag other than scale, or a scale that is not a number raises ValueError.",
  ["inputs"], "All names.",
  "Eight names are tested; none repeats a tag.",
  ["utils.py"], [("tag scanner", "utils.py:get_tags_from_name"), ("conversion", "utils.py:cast_element")],
  ["get_tags_from_name"])
p("F01", "Saving to any path writes exactly the exported document",
  "Saving the skeleton or its image references writes to the named file, creating its folder when it does not exist and accepting names without a folder, exactly the data that the export returns. Loading a saved skeleton gives an editor that exports the same document.",
  ["inputs"], "All valid skeletons and all writable paths: bare file names, existing folders and missing nested ones.",
  "No test saves anything.",
  [ED], [("skeleton", ED + ":SpineAnimationEditor.to_json"), ("image references", ED + ":SpineAnimationEditor.save_images_json"), ("load", ED + ":SpineAnimationEditor.from_json_file")],
  ["files written by to_json and save_images_json"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
