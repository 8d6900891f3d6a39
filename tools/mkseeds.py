"""Makes /verif/seeded/<id>/ from (id, property, file, old, new, demo, needs, breaks).  Run by hand; no check uses it."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(i, prop, f, edits, demo, needs, breaks):
    S.append((i, prop, f, edits if isinstance(edits, list) else [edits], demo, needs, breaks))
L = "spine_json_lib/"
DOC = '''
def doc(**k):
    d = {"skeleton": {"spine": "3.8.99", "images": "./images/"}, "bones": [{"name": "root"}], "slots": [], "skins": [{"name": "default", "attachments": {}}], "animations": {}}
    d.update(k); return d
from spine_json_lib.spine_animation_editor import SpineAnimationEditor as E
import contextlib, io
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
'''
seed("V01-packed-equality", "V01", L + "data/spine_version_type.py", ('''        return (
            self.major == _other.major
            and self.minor == _other.minor
            and self.patch == _other.patch
        )
''', '''        return self._int_version == _other._int_version
'''), '''
from spine_json_lib.data.spine_version_type import SpineVersion as V
assert not (V("3.8.1000") == "3.9"); assert V("3.8.1000") != V("3.9.0"); assert V("3.8.5") == "3.8.5"
''', "a patch or minor number of 1000 or more", "== compares the packed integer, in which 3.8.1000 and 3.9.0 coincide")
seed("V02-empty-patch", "V02", L + "data/spine_version_type.py", ('''        return int(major), int(minor), int(patch)''', '''        return int(major), int(minor), int(patch or 0)'''), '''
from spine_json_lib.data.spine_version_type import SpineVersion as V
try:
    V("3.8.")
except ValueError: pass
else: raise SystemExit("accepted '3.8.'")
assert V("3.8").patch == 0 and V("3.8.7").patch == 7
''', "a version string with an empty third part", "'3.8.' is accepted")
seed("G02-two-taken-ids", "G02", L + "graph/dagraph.py", ('''        while str(self.nodes_id_generator) in self._nodes.keys():
            self.nodes_id_generator += 1
''', '''        if str(self.nodes_id_generator) in self._nodes.keys():
            self.nodes_id_generator += 1
'''), '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph(); g.add_node("3"); g.add_node("4"); n = len(g._nodes); g.add_node(); g.add_node()
assert len(g._nodes) == n + 2, g._nodes
''', "two consecutive numeric ids taken by hand", "the generated id is already in use and the node under it is overwritten")
seed("G04-single-parent", "G04", L + "graph/dagraph.py", ('''                if parent not in visited:
                    visit(self.get_node(parent))
''', '''                # An only parent is where the node was reached from
                if parent not in visited and node.num_parents > 1:
                    visit(self.get_node(parent))
'''), '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph()
for n in "AXBC": g.add_node(n)
g.add_edge("A", "X"); g.add_edge("B", "X"); g.add_edge("C", "B")
o = g.sequential_order_of_execution()
assert sorted(o) == list("ABCX") and o.index("C") < o.index("B") < o.index("X"), o
''', "a node with two parents, one of which has a single parent that was not expanded yet", "a node is listed before its only parent")
seed("G05-cycle-beside-head", "G05", L + "graph/graph_validator.py", ('''        for node_id, node_data in graph._nodes.items():
            circle_references += visit(node_data)
''', '''        heads = [graph.get_node(head_id) for head_id in graph.get_heads_id()]
        for node_data in heads or graph._nodes.values():
            circle_references += visit(node_data)
'''), '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph()
for n in "abc": g.add_node(n, node_type="INPUT_ROOT_NODE_TYPE")
g.add_edge("b", "c"); g.add_edge("c", "b")
assert any("CIRCULAR_REFS" in e for e in g.validate().errors)
''', "a cycle no head leads to, beside a head", "the cycle is not reported")
seed("G06-dead-ends", "G06", L + "graph/dagraph.py", [('''            visited.add(start)
            path.append(start)

            for child_id in graph._nodes[start].children:
                if child_id not in visited:
''', '''            visited.add(start)
            path.append(start)
            found = len(paths)

            for child_id in graph._nodes[start].children:
                if child_id not in visited and child_id not in dead_ends:
'''), ('''            visited.remove(start)
            path.remove(start)
''', '''            if len(paths) == found:
                dead_ends.add(start)

            visited.remove(start)
            path.remove(start)
'''), ('''        paths = list()
        visited = set()

        def _look''', '''        paths = list()
        visited = set()
        dead_ends = set()

        def _look''')], '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph()
for n in "sabe": g.add_node(n, node_type="INPUT_ROOT_NODE_TYPE")
g.add_edge("s", "a"); g.add_edge("a", "b"); g.add_edge("s", "b"); g.add_edge("b", "e")
assert g.get_all_paths("s", "e", maximum_depth=3) == [["s", "b", "e"]]
assert len(g.get_all_paths("s", "e")) == 2
''', "a node first reached too deep for the maximum depth and then again nearer the start", "the path through that node is missed")
seed("M01-trailing-underscore", "M01", L + "deserializer/spine_nodes.py", ('''        _suffix = NodeType[node_type_name].name
        return "{}_{}".format(node_base_id, _suffix)''', '''        _suffix = NodeType[node_type_name].name
        return "{}_{}".format(str(node_base_id).rstrip("_"), _suffix)'''), '''
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser as P
for n in ("a", "a_", "_", "x_SLOT_"):
    assert P._to_base_id("SLOT", P._to_graph_id("SLOT", n)) == n
''', "a name that ends with an underscore", "two names share a graph id and the name does not come back")
seed("M02-image-name-first", "M02", L + "deserializer/spine_nodes.py", ('''            image_id = _data.get("path") or _data.get("name") or _id''', '''            image_id = _data.get("name") or _data.get("path") or _id'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root"}], skins=[{"name": "default", "attachments": {"s": {"k": {"name": "n", "path": "p"}}}}])
g = E(d).spine_graph.graph
assert g.get_node("p_IMAGE") and not g.get_node("n_IMAGE")
''', "an attachment with both a name and a path", "the graph hangs the wrong image from it")
seed("M03-one-level", "M03", L + "spine_graph_container.py", ('''                for s_id in root_node
            ]

            root_node = self.get_heads_with_type(node_type=type_name)
        return nodes_removed''', '''                for s_id in root_node
            ]

            candidates = self.get_heads_with_type(node_type=type_name)
            root_node = [n for n in candidates if not self.graph.get_node(n).num_children]
        return nodes_removed'''), DOC + '''
d = doc(bones=[{"name": "root"}, {"name": "a", "parent": "root"}, {"name": "b", "parent": "a"}])
c = E(d).spine_graph
assert sorted(c.remove_heads_of_type("BONE")) == ["a", "b", "root"] and not c.graph._nodes
''', "a chain of three nodes of the kind", "pruning stops while a head of the kind is left")
seed("S01-zero-mix", "S01", L + "data/data_types/ik.py", ('''        self.mix = values.get("mix")''', '''        self.mix = values.get("mix") or None'''), DOC + '''
d = doc(ik=[{"name": "i", "bones": ["root"], "target": "root", "mix": 0}])
assert E(d).to_json_data()["ik"][0]["mix"] == 0
''', "an IK constraint with mix 0", "mix 0 is dropped on export")
seed("S02-header", "S02", L + "data/spine_anim_data.py", ('''        json_data["skeleton"] = copy.deepcopy(self.skeleton)''', '''        json_data["skeleton"] = dict(self.skeleton)'''), DOC + '''
d = doc(); d["skeleton"]["extra"] = {"audio": []}
e = E(d); e.to_json_data()["skeleton"]["extra"]["audio"].append(1)
assert e.to_json_data()["skeleton"]["extra"] == {"audio": []}
''', "a skeleton header with a nested value", "changing an exported document changes later exports")
seed("S03-null-attribute", "S03", L + "data/data_types/base_type.py", ('''            if k not in initialized_keys:''', '''            if k not in initialized_keys and values[k] is not None:'''), DOC + '''
try: E(doc(bones=[{"name": "root", "skinn": None}]))
except Exception as e: assert type(e).__name__ == "SpineParsingException"
else: raise SystemExit("accepted")
''', "an unsupported attribute that is null", "it is dropped without an error")
seed("S04-stops-at-lists", "S04", L + "data/data_types/base_type.py", ('''                and k in obj.UNSUPPORTED_VALUES_OLD_VERSION
            ):
                # Removing unsupported param
                obj.__setattr__(k, None)''', '''                and k in obj.UNSUPPORTED_VALUES_OLD_VERSION
                and v != obj.SPINE_3_8_DEFAULT_VALUES.get(k)
            ):
                # Removing unsupported param
                obj.__setattr__(k, None)'''), DOC + '''
from spine_json_lib.data.spine_version_type import SpineVersion
d = doc(slots=[{"name": "s", "bone": "root"}], animations={"a": {"slots": {"s": {"color": [{"time": 0, "color": "ffffffff", "c3": 1}]}}}})
x = E(d).spine_anim_data.data; x.clean_unsupported_attributes(SpineVersion("3.7"))
assert x.animations["a"].slots["s"].color[0].c3 is None
''', "an unsupported attribute that has its default value", "it stays set, and an older version's export has it")
seed("E01-order", "E01", L + "spine_animation_editor.py", ('''        for animation_name in animations_to_erase:
            if animation_name in self.spine_anim_data.data.animations:
                del self.spine_anim_data.data.animations[animation_name]
            else:
                not_found_animations.append(animation_name)
''', '''        animations = self.spine_anim_data.data.animations
        for animation_name in animations_to_erase:
            if animation_name not in animations:
                not_found_animations.append(animation_name)
        kept = animations.keys() - set(animations_to_erase)
        self.spine_anim_data.data.animations = {name: animations[name] for name in sorted(kept)}
'''), DOC + '''
d = doc(animations={"b": {}, "a": {}, "c": {}})
assert list(quiet(E(d).erase_animations, ["c"]).result_data_json["animations"]) == ["b", "a"]
''', "animations whose names are not in alphabetical order", "the remaining animations are reordered")
seed("E03-two-color", "E03", L + "data/data_types/slot.py", ('''        return len(self.color) > 0 or len(self.twoColor) > 0''', '''        return len(self.color) > 0'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root", "color": "ffffff00", "attachment": "k"}], skins=[{"name": "default", "attachments": {"s": {"k": {}}}}],
        animations={"a": {"slots": {"s": {"twoColor": [{"time": 0, "light": "ffffffff", "dark": "ff0000"}]}}}})
assert [s["name"] for s in quiet(E(d).erase_animations, []).result_data_json["slots"]] == ["s"]
''', "a transparent slot made visible only by a two-colour timeline", "a slot that an animation shows is removed")
seed("E05-first-deform", "E05", L + "data/spine_anim_data.py", ('''                del anim_data.deform[skin_name]
''', '''                del anim_data.deform[skin_name]
                break
'''), DOC + '''
m = {"type": "mesh", "uvs": [0, 0], "vertices": [0, 0], "triangles": [0]}
df = {"b": {"s": {"k": [{"time": 1, "vertices": [1, 2]}]}}}
d = doc(slots=[{"name": "s", "bone": "root", "attachment": "k"}], skins=[{"name": "default", "attachments": {}}, {"name": "b", "attachments": {"s": {"k": m}}}], animations={"x": {"deform": df}, "y": {"deform": df}})
e = E(d); quiet(e.erase_skins, ["b"], is_safe_mode=True); r = e.to_json_data()
assert not any("b" in a.get("deform", {}) for a in r["animations"].values())
''', "two animations that deform the erased skin", "the second animation keeps the deforms of the erased skin")
seed("E07-only-translation", "E07", L + "spine_animation_editor.py", ('''            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:''', '''            if bone.transform.startswith("no") and bone.transform != "normal" or bone.transform == "onlyTranslation":'''), DOC + '''
d = doc(bones=[{"name": "root"}, {"name": "a", "parent": "root", "transform": "noRotationOrReflection"}])
e = E(d); e.scale_animation(2, 2)
assert e.to_json_data()["bones"][1].get("scaleX", 1) == 1
''', "a bone with transform noRotationOrReflection", "a bone that inherits scale is scaled too")
seed("T01-inner-space", "T01", L + "utils.py", ('''        tag_value = tag_value.strip()
''', '''        tag_value = tag_value.replace(" ", "")
'''), '''
from spine_json_lib.utils import get_tags_from_name as t
assert t("a[scale: 0.5 ]") == {"scale": 0.5}
try: t("a[scale:1 2]")
except ValueError: pass
else: raise SystemExit("accepted")
''', "a tag value with a space inside", "'1 2' is read as 12")
seed("F01-nested-folder", "F01", L + "spine_animation_editor.py", ('''            os.makedirs(base_dir)

        with open(images_json, "w") as outfile:''', '''            os.mkdir(base_dir)

        with open(images_json, "w") as outfile:'''), DOC + '''
import json, os, tempfile
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "a", "b", "i.json"); e = E(doc())
    e.save_images_json(p); assert json.load(open(p)) == e.images_references
''', "a folder two levels below an existing one", "saving fails")
seed("F01-appends", "F01", L + "spine_animation_editor.py", ('''        with open(output_json, "w") as outfile:
            json.dump(self.to_json_data(), outfile, indent=4)''', '''        with open(output_json, "r+" if os.path.exists(output_json) else "w") as outfile:
            json.dump(self.to_json_data(), outfile, indent=4)'''), DOC + '''
import json, os, tempfile
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "o.json"); E(doc(bones=[{"name": "root"}, {"name": "a", "parent": "root"}])).to_json(p); e = E(doc()); e.to_json(p)
    assert json.load(open(p)) == e.to_json_data()
''', "saving over a longer file", "the end of the old file stays behind the new document")

seed("G01-half-edge", "G01", L + "graph/spamnode.py", ('''        if child.node_type in self._child_types_forbidden:
            raise TypeError(CHILD_TYPE_FORBIDDEN)

        if child is self:
            raise ValueError(CIRCULAR_PARENTSHIP_NODE_ERROR.format("child"))

        if child.id not in self.children:
            self.children[child.id] = child''', '''        if child is self:
            raise ValueError(CIRCULAR_PARENTSHIP_NODE_ERROR.format("child"))

        if child.id not in self.children:
            self.children[child.id] = child

        if child.node_type in self._child_types_forbidden:
            raise TypeError(CHILD_TYPE_FORBIDDEN)'''), '''
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.deserializer.spine_nodes import SpineNodeFactory
g = DAGraph(SpineNodeFactory()); g.add_node("a", {}, "SLOT"); g.add_node("b", {}, "BONE")
try: g.add_edge("a", "b")
except TypeError: pass
assert not g.get_node("a").children and not g.get_node("b").parents
''', "an edge whose child type the parent forbids", "the rejected edge stays on the parent's side")
seed("G01-last-child", "G01", L + "graph/dagraph.py", ('''        if node1:
            del node1.children[child_id]
        del node2.parents[parent_id]''', '''        if node1 and node2.num_parents > 1:
            del node1.children[child_id]
        del node2.parents[parent_id]'''), '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph()
for n in "ab": g.add_node(n)
g.add_edge("a", "b"); g.remove_edge("a", "b")
assert not g.get_node("b").parents and not g.get_node("a").children
''', "removing the edge from the only parent of a node", "the parent keeps the child")
seed("G03-isolated", "G03", L + "graph/dagraph.py", ('''            if not related_nodes:
                result_nodes.append(node.id)
                return
''', '''            if not related_nodes:
                # A node on its own is no border of a larger graph
                if node.children or node.parents or self.nodes_counter < 5:
                    result_nodes.append(node.id)
                return
'''), '''
from spine_json_lib.graph.dagraph import DAGraph
g = DAGraph()
for n in "abcdef": g.add_node(n)
for n in "abcd": g.add_edge(n, "e")
assert sorted(g.get_heads_id()) == list("abcdf") and sorted(g.get_tails_id()) == list("ef")
''', "a node without edges in a graph of five or more nodes", "the node is neither head nor tail")
seed("S01-empty-names", "S01", L + "data/data_types/base_type.py", ('''            for k, v in obj.items():
                result[k] = SpineData.traverse_spine_data(v, func, **kwargs)
''', '''            for k, v in obj.items():
                item = SpineData.traverse_spine_data(v, func, **kwargs)
                if item != {} or isinstance(v, SpineData):
                    result[k] = item
'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root"}], skins=[{"name": "default", "attachments": {"s": {}}}])
assert E(d).to_json_data()["skins"][0].get("attachments", {}).get("s") == {}
''', "a skin that lists a slot without attachments", "the name disappears on export")
seed("E02-unsorted-inserts", "E02", L + "data/data_types/draworder.py", ('''        sorted_operations = sorted(operations, key=lambda x: x["new_index"])
        for cached in sorted_operations:
''', '''        for cached in operations:
'''), '''
from spine_json_lib.data.data_types.draworder import DrawOrderTimeline as D
from spine_json_lib.data.data_types.slot import Slot
slots = [Slot({"name": n, "bone": "root"}) for n in "abcd"]
t = D({"offsets": [{"slot": "a", "offset": 2}, {"slot": "c", "offset": -2}]})   # c b a d
t.remove_offsets_with_ids([], slots)
assert {o.slot: o.offset for o in t.offsets} == {"a": 2, "c": -2}, {o.slot: o.offset for o in t.offsets}
''', "two offsets whose slots swap places", "the order applied to the remaining slots differs")
seed("E04-deform-without-timeline", "E04", L + "spine_animation_editor.py", ('''                if slot_id in slots_ids:
                    del anim_data_slots[slot_id]
            anim_data.slots = anim_data_slots
            anim_data.remove_deforms_using_slots(slots_ids)''', '''                if slot_id in slots_ids:
                    del anim_data_slots[slot_id]
                    anim_data.remove_deforms_using_slots(slots_ids)
            anim_data.slots = anim_data_slots'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root", "color": "ffffff00", "attachment": "k"}], skins=[{"name": "default", "attachments": {"s": {"k": {"type": "mesh", "uvs": [0, 0], "vertices": [0, 0], "triangles": [0]}}}}],
        animations={"a": {"deform": {"default": {"s": {"k": [{"time": 1, "vertices": [1, 2]}]}}}}})
r = quiet(E(d).erase_animations, []).result_data_json
assert not r.get("slots") and "s" not in r["animations"]["a"].get("deform", {}).get("default", {}), r
''', "an animation that deforms a removed slot without a slot timeline for it", "the deform timeline of a removed slot stays")
seed("E06-no-folder", "E06", L + "spine_animation_editor.py", ('''                        image_path = os.path.join(images_folder, relative_path)''', '''                        image_path = images_folder.rstrip("/") + "/" + relative_path'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root"}], skins=[{"name": "default", "attachments": {"s": {"k": {}}}}]); d["skeleton"]["images"] = ""
assert E(d).images_references["k"]["path"] == "k"
''', "a skeleton whose images folder is empty", "the file path becomes absolute")
seed("E09-rounded", "E09", L + "spine_animation_editor.py", ('''                            paths[relative_path]["scale"] = scale''', '''                            paths[relative_path]["scale"] = round(scale, 3)'''), DOC + '''
d = doc(slots=[{"name": "s[scale:0.0625]", "bone": "root"}], skins=[{"name": "default", "attachments": {"s[scale:0.0625]": {"k": {}}}}])
assert E(d).images_references["k"]["scale"] == 0.0625
''', "a scale with more than three decimals", "the reference carries a rounded scale")

seed("E06-later-skin", "E06", L + "spine_animation_editor.py", ('''                        paths[relative_path] = {"path": image_path}
''', '''                        if "//" not in image_path and relative_path == relative_path.strip():
                            paths[relative_path] = {"path": image_path}
                        else:
                            paths[relative_path.strip()] = {"path": image_path}
                            continue
'''), DOC + '''
d = doc(slots=[{"name": "s", "bone": "root"}], skins=[{"name": "default", "attachments": {"s": {" k": {}}}}])
assert set(E(d).images_references) == {" k"}
''', "an image whose name begins with a space", "the reference is listed under another name")
seed("E08-ik-without-bones", "E08", L + "spine_animation_editor.py", ('''[Ik(i) for i in output_json_data["ik"]]''', '''[
            Ik(i) for i in output_json_data["ik"] if i.get("bones")
        ]'''), DOC + '''
d = doc(ik=[{"name": "i", "bones": [], "target": "root"}], slots=[{"name": "s", "bone": "root"}])
assert [i["name"] for i in quiet(E(d).erase_animations, []).result_data_json["ik"]] == ["i"]
''', "an IK constraint with no bones yet, then cleaning", "the constraint is removed")

if __name__ == "__main__":
    W = "/tmp/w/seedrepo"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    only = sys.argv[1:]
    for i, prop, f, edits, demo, needs, breaks in S:
        if only and i not in only: continue
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
        p = os.path.join(W, f); s = open(p).read()
        for a, b in edits:
            assert s.count(a) == 1, (i, s.count(a), a)
            s = s.replace(a, b)
        D = os.path.join(HERE, "seeded", i); os.makedirs(D, exist_ok=True)
        open(D + "/demo.sh", "w").write("#!/bin/bash\nexec python3 -B - <<'PY'\nimport sys\nsys.path.insert(0, '.')\n" + demo.strip() + "\nPY\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", D + "/demo.sh"], cwd=W, capture_output=True, text=True)
        open(p, "w").write(s)
        d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
        open(D + "/patch.diff", "w").write(d)
        r1 = subprocess.run(["bash", D + "/demo.sh"], cwd=W, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "spine_json_lib"], cwd=W, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(i, "ok" if ok else "BAD", r0.returncode, r1.returncode, t.returncode, "" if ok else (r0.stderr[-300:], t.stdout[-300:]), flush=True)
    shutil.rmtree(W, ignore_errors=True)
