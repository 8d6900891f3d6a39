"""Edits that keep the behaviour: the proofs should stay accepted.  Usage: refactorings.py SCRATCH_REPO [name ...]"""
import json, os, subprocess, sys
A, D, G = "spine_json_lib/spine_animation_editor.py", "spine_json_lib/data/spine_anim_data.py", "spine_json_lib/graph/"
T, N, C = "spine_json_lib/data/data_types/", "spine_json_lib/deserializer/spine_nodes.py", "spine_json_lib/spine_graph_container.py"
R = []
def r(name, pids, file, *pairs): R.append((name, pids.split(), file, pairs))
r("get_slot-next", "E09 E06 S01", D, ('''        for slot in self.slots:
            if slot.name == slot_id:
                return slot
        return None
''', '''        return next((slot for slot in self.slots if slot.name == slot_id), None)
'''))
r("get_bone-negated", "E09 E07", D, ('''            if bone.name == bone_id:
                return bone
        return None
''', '''            if bone.name != bone_id:
                continue
            return bone
        return None
'''))
r("alpha-helper", "E03", D, ('''            if slot.color is not None:
                alpha_value = int("0x{}".format(slot.color), 16) & 0xFF
                if alpha_value == 0:
                    not_visible_slots.append(slot.name)
''', '''            if slot.color is None:
                continue
            if self._alpha(slot.color) == 0:
                not_visible_slots.append(slot.name)
'''), ('''    def get_slots_not_visible_in_setup_pose(self)''', '''    @staticmethod
    def _alpha(color):
        return int("0x{}".format(color), 16) & 0xFF

    def get_slots_not_visible_in_setup_pose(self)'''))
r("alpha-plain-hex", "E03", D, ('''int("0x{}".format(slot.color), 16) & 0xFF''', '''int(slot.color, 16) & 0xFF'''))
r("alpha-mod", "E03", D, ('''int("0x{}".format(slot.color), 16) & 0xFF''', '''int("0x" + slot.color, 16) % 256'''))
r("setup-pose-comprehension", "E03", D, ('''        no_attachment_slot = []
        for slot in self.slots:
            if (
                slot.attachment is None
                and slot.dark is None
                and slot.blend is None
                and slot.color is None
            ):
                no_attachment_slot.append(slot.name)

        return no_attachment_slot
''', '''        return [
            slot.name
            for slot in self.slots
            if slot.attachment is None
            and slot.dark is None
            and slot.blend is None
            and slot.color is None
        ]
'''))
r("setup-pose-all", "E03", D, ('''            if (
                slot.attachment is None
                and slot.dark is None
                and slot.blend is None
                and slot.color is None
            ):
''', '''            if all(x is None for x in (slot.attachment, slot.dark, slot.blend, slot.color)):
'''))
r("visible-flag", "E03", D, ('''            if (
                slot_data.is_empty()
                or (slot_id in alpha_zero_slots and not slot_data.has_color())
                or (slot_id in no_attachment_slots and not slot_used_attachments)
            ):
''', '''            stays_transparent = slot_id in alpha_zero_slots and not slot_data.has_color()
            shows_nothing = slot_id in no_attachment_slots and not slot_used_attachments
            hidden = slot_data.is_empty() or stays_transparent or shows_nothing
            if hidden:
'''))
r("visible-sets", "E03", D, ('''anim_visible_slots -= frozenset([slot_id])''', '''anim_visible_slots = anim_visible_slots - {slot_id}'''), ('''anim_visible_slots |= frozenset([slot_id])''', '''anim_visible_slots = anim_visible_slots | {slot_id}'''))
r("used-loop", "E03", D, ('''            l_attachments_used |= functools.reduce(
                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
            )
''', '''            for used in anim_used_attachments.values():
                l_attachments_used |= used
'''))
r("used-union", "E03", D, ('''            l_attachments_used |= functools.reduce(
                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
            )
''', '''            l_attachments_used = l_attachments_used.union(*anim_used_attachments.values())
'''))
r("unused-items", "E03", D, ('''                attachments_ids = attachment_data.keys()

                for attachment_id in attachments_ids:
                    if attachment_id not in l_attachments_used:
                        # Avoid removing skinmeshes if parent slot is visible...
                        if (
                            isinstance(attachment_data[attachment_id], SkinMesh)
                            and slot_id not in invisible_slots
                        ):
                            meshes_to_keep |= frozenset([attachment_id])
                            continue
                        attachments_to_remove |= frozenset([attachment_id])
''', '''                for attachment_id, attachment in attachment_data.items():
                    if attachment_id in l_attachments_used:
                        continue
                    if isinstance(attachment, SkinMesh) and slot_id not in invisible_slots:
                        meshes_to_keep |= {attachment_id}
                    else:
                        attachments_to_remove |= {attachment_id}
'''))
r("remove_skin-order", "E05 E06", D, ('''        # Remove deforms with references to skin we want to remove <skin_name>
        # it should be in any case validated before going into this point as deforms add
        # a performance overhead to the game runtime
        for anim_data in self.animations.values():
            if anim_data.deform and skin_name in anim_data.deform.keys():
                del anim_data.deform[skin_name]

        self.skins = skins
''', '''        self.skins = skins

        for anim_data in self.animations.values():
            if anim_data.deform and skin_name in anim_data.deform:
                del anim_data.deform[skin_name]
'''))
r("remove_skin-pop", "E05 E06", D, ('''            if anim_data.deform and skin_name in anim_data.deform.keys():
                del anim_data.deform[skin_name]
''', '''            if anim_data.deform:
                anim_data.deform.pop(skin_name, None)
'''))
r("remove_skin-loop", "E05 E06", D, ('''                        copied_mesh.name = slot_data.name
                        copied_mesh.path = slot_data.path
                        copied_mesh.width = slot_data.width
                        copied_mesh.height = slot_data.height
                        copied_mesh.color = slot_data.color
''', '''                        for attr in ("name", "path", "width", "height", "color"):
                            setattr(copied_mesh, attr, getattr(slot_data, attr))
'''))
r("remove_skin-any", "E05 E06", D, ('''        skins = [skin for skin in self.skins if skin.name != skin_name]
        if len(skins) == len(self.skins):
            raise''', '''        skins = [skin for skin in self.skins if skin.name != skin_name]
        if not any(skin.name == skin_name for skin in self.skins):
            raise'''))
r("remove_skin-list-items", "E05", D, ('''            for attachment_id, attachment in skin.attachments.items():
                attachment_data = copy.deepcopy(attachment)
                for slot_id, slot_data in attachment_data.items():
''', '''            for attachment_id, attachment in skin.attachments.items():
                for slot_id, slot_data in list(attachment.items()):
'''))
r("refs-update", "E06 E09", A, ('''                        paths[relative_path] = {"path": image_path}
                        if scale != 1.0:
                            paths[relative_path]["scale"] = scale
''', '''                        reference = {"path": image_path}
                        if scale != 1.0:
                            reference["scale"] = scale
                        paths[relative_path] = reference
'''))
r("refs-items", "E06", A, ('''                for sub_part_key in skin_data[part_name]:
                    skin_sub_part_instance = skin_data[part_name][sub_part_key]
                    if not isinstance(skin_sub_part_instance, SkinPath):
                        relative_path = (
                            skin_sub_part_instance.path
                            or skin_sub_part_instance.name
                            or sub_part_key
                        )

                        image_path = os.path.join(images_folder, relative_path)
                        paths[relative_path] = {"path": image_path}
                        if scale != 1.0:
                            paths[relative_path]["scale"] = scale
''', '''                for sub_part_key, attachment in skin_data[part_name].items():
                    if isinstance(attachment, SkinPath):
                        continue
                    relative_path = attachment.path or attachment.name or sub_part_key
                    paths[relative_path] = {"path": os.path.join(images_folder, relative_path)}
                    if scale != 1.0:
                        paths[relative_path]["scale"] = scale
'''))
r("refs-helper", "E06", A, ('''                        relative_path = (
                            skin_sub_part_instance.path
                            or skin_sub_part_instance.name
                            or sub_part_key
                        )
''', '''                        relative_path = self._image_of(skin_sub_part_instance, sub_part_key)
'''), ('''    def save_images_json(self''', '''    @staticmethod
    def _image_of(attachment, key):
        if attachment.path:
            return attachment.path
        if attachment.name:
            return attachment.name
        return key

    def save_images_json(self'''))
r("clean-refs-comprehension", "E06 E08", A, ('''        copy_json = copy.deepcopy(self.images_references)
        removed_images = []
        for img_id, img_abs_path in self.images_references.items():
            if img_id in images_ids:
                removed_images.append(img_id)
                del copy_json[img_id]
''', '''        removed_images = [img_id for img_id in self.images_references if img_id in images_ids]
        copy_json = {
            img_id: copy.deepcopy(data)
            for img_id, data in self.images_references.items()
            if img_id not in images_ids
        }
'''))
r("erase-raw-pop", "E01", A, ('''            if animation_name in self.spine_anim_data.data.animations:
                del self.spine_anim_data.data.animations[animation_name]
            else:
                not_found_animations.append(animation_name)
''', '''            if animation_name not in self.spine_anim_data.data.animations:
                not_found_animations.append(animation_name)
                continue
            self.spine_anim_data.data.animations.pop(animation_name)
'''))
r("erase-raw-local", "E01", A, ('''        not_found_animations = []
        for animation_name in animations_to_erase:
            if animation_name in self.spine_anim_data.data.animations:
                del self.spine_anim_data.data.animations[animation_name]
''', '''        not_found_animations = []
        animations = self.spine_anim_data.data.animations
        for animation_name in animations_to_erase:
            if animation_name in animations:
                del animations[animation_name]
'''))
r("skins-filter", "E04 E08", A, ('''            skin_attachment = {
                idx: data.attachments[idx]
                for idx in data.attachments
                if idx not in slots_ids
            }
            skins_data[index_skin].attachments = skin_attachment
''', '''            skins_data[index_skin].attachments = {
                slot_id: attachments
                for slot_id, attachments in data.attachments.items()
                if slot_id not in slots_ids
            }
'''))
r("slots-anim-comprehension", "E04 E08", A, ('''            anim_data_slots = copy.deepcopy(anim_data.slots)
            for slot_id, slots_data in anim_data.slots.items():
                if slot_id in slots_ids:
                    del anim_data_slots[slot_id]
            anim_data.slots = anim_data_slots
''', '''            anim_data.slots = {
                slot_id: timeline
                for slot_id, timeline in anim_data.slots.items()
                if slot_id not in slots_ids
            }
'''))
r("slots-anim-values", "E04", A, ('''        for anim_id, anim_data in self.spine_anim_data.data.animations.items():
            anim_data_slots''', '''        for anim_data in self.spine_anim_data.data.animations.values():
            anim_data_slots'''))
r("attachment-and", "E04", A, ('''            if default_attachment_id is not None:
                if default_attachment_id in attachments_ids:
                    copy_slots_data[slot_idx].attachment = None
''', '''            if default_attachment_id is not None and default_attachment_id in attachments_ids:
                copy_slots_data[slot_idx].attachment = None
'''))
r("attachment-zip", "E04", A, ('''        for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
            default_attachment_id = slot_data.get("attachment")
            if default_attachment_id is not None:
                if default_attachment_id in attachments_ids:
                    copy_slots_data[slot_idx].attachment = None
''', '''        for slot_data in copy_slots_data:
            default_attachment_id = slot_data.attachment
            if default_attachment_id is not None:
                if default_attachment_id in attachments_ids:
                    slot_data.attachment = None
'''))
r("clean-reorder", "E03 E04 E06 E08", A, ('''        self.spine_graph.remove_slots(list(slots_to_remove))

        self.spine_graph.remove_attachments(list(attachments_to_remove))
''', '''        graph = self.spine_graph
        graph.remove_slots(slots_ids=list(slots_to_remove))
        graph.remove_attachments(list(attachments_to_remove))
'''))
r("clean-helper", "E03 E04 E06 E08 S02", A, ('''        # Convert spine graph back to json data
        output_json_data = self.spine_graph.graph.to_json_data(SpineGraphParser)
        self.spine_anim_data.data.bones = [Bone(b) for b in output_json_data["bones"]]
        self.spine_anim_data.data.slots = [Slot(s) for s in output_json_data["slots"]]
        self.spine_anim_data.data.ik = [Ik(i) for i in output_json_data["ik"]]
        self.spine_anim_data.data.set_default_values(self.spine_version)
''', '''        self._load_graph_data()
'''), ('''    def remove_slots(self, slots_ids, original_slots):''', '''    def _load_graph_data(self):
        output_json_data = self.spine_graph.graph.to_json_data(SpineGraphParser)
        data = self.spine_anim_data.data
        data.ik = [Ik(i) for i in output_json_data["ik"]]
        data.bones = [Bone(b) for b in output_json_data["bones"]]
        data.slots = [Slot(s) for s in output_json_data["slots"]]
        data.set_default_values(self.spine_version)

    def remove_slots(self, slots_ids, original_slots):'''))
r("scale-tuple", "E07", A, ('''            if bone is root_bone:
                continue

            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
                bone.scale(scaleX=scaleX, scaleY=scaleY)
''', '''            if bone is not root_bone and bone.transform in ("noScale", "noScaleOrReflection", "onlyTranslation"):
                bone.scale(scaleX, scaleY)
'''))
r("scale-list", "E07", A, ('''        for bone in spine_data.bones:
            if bone is root_bone:
                continue

            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
                bone.scale(scaleX=scaleX, scaleY=scaleY)
        root_bone.scale(scaleX=scaleX, scaleY=scaleY)
''', '''        not_inheriting = [
            bone
            for bone in spine_data.bones
            if bone is not root_bone
            and bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]
        ]
        for bone in not_inheriting:
            bone.scale(scaleX=scaleX, scaleY=scaleY)
        root_bone.scale(scaleX=scaleX, scaleY=scaleY)
'''))
r("scale-merged", "E07", A, ('''            if bone is root_bone:
                continue

            if bone.transform in''', '''            if bone is root_bone or bone.transform in'''), ('''                bone.scale(scaleX=scaleX, scaleY=scaleY)
        root_bone.scale(scaleX=scaleX, scaleY=scaleY)
''', '''                bone.scale(scaleX=scaleX, scaleY=scaleY)
'''))
r("erase-skins-any", "E05 E06", A, ('''            images_skins_refs += skin_removed_images
''', '''            images_skins_refs.extend(skin_removed_images)
'''))
r("erase-skins-comprehension", "E06", A, ('''        images_to_remove = []

        for img in images_skins_refs:
            image_graph_id = SpineGraphParser._to_graph_id(
                node_type_name=NodeType.IMAGE.name, node_base_id=img
            )
            if not self.spine_graph.graph.get_node(image_graph_id):
                images_to_remove.append(img)
''', '''        images_to_remove = [
            img
            for img in images_skins_refs
            if not self.spine_graph.graph.get_node(
                SpineGraphParser._to_graph_id(NodeType.IMAGE.name, img)
            )
        ]
'''))
r("save-helper", "F01", A, ('''        base_dir = os.path.dirname(output_json)
        if base_dir and not os.path.isdir(base_dir):
            os.makedirs(base_dir)
''', '''        self._make_folder(output_json)
'''), ('''    def get_images_references(self''', '''    @staticmethod
    def _make_folder(path):
        folder = os.path.dirname(path)
        if folder:
            os.makedirs(folder, exist_ok=True)

    def get_images_references(self'''))
r("scale-walk-local", "E09", D, ('''            b_scale = iter_bone.get_scale_in_name()
            result_scale *= b_scale
            iter_bone = self.get_bone(iter_bone.parent)
''', '''            result_scale = result_scale * iter_bone.get_scale_in_name()
            iter_bone = self.get_bone(iter_bone.parent)
'''))
r("scale-walk-break", "E09", D, ('''        while iter_bone.name != "root":
            b_scale''', '''        while True:
            if iter_bone.name == "root":
                break
            b_scale'''))
r("constructor-helper", "S01 S02 S03", D, ('''        self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
''', '''        self.slots: List[Slot] = list(map(Slot, _data.get("slots", [])))
        self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
'''))
r("constructor-items", "S01 S02 S03", D, ('''            key: Events(_data["events"][key]) for key in _data.get("events", {})
''', '''            key: Events(value) for key, value in _data.get("events", {}).items()
'''))
r("constructor-loop", "S01 S02 S03", D, ('''        self.animations: Dict[str, Animation] = {
            key: Animation(_data["animations"][key])
            for key in _data.get("animations", {})
        }
''', '''        self.animations: Dict[str, Animation] = {}
        for key, value in _data.get("animations", {}).items():
            self.animations[key] = Animation(value)
'''))
r("heads-comprehension", "M03 E04", C, ('''        return list(
            filter(
                lambda n: self.graph.get_node(n).node_type == node_type,
                heads_nodes,
            )
        )
''', '''        return [n for n in heads_nodes if self.graph.get_node(n).node_type == node_type]
'''))
r("prune-helper", "M03", C, ('''            nodes_removed += [
                SpineGraphParser._to_base_id(
                    node_type_name=type_name,
                    graph_id=self.graph.remove_node_by_id(s_id).id,
                )
                for s_id in root_node
            ]
''', '''            for s_id in root_node:
                removed = self.graph.remove_node_by_id(s_id)
                nodes_removed.append(
                    SpineGraphParser._to_base_id(node_type_name=type_name, graph_id=removed.id)
                )
'''))
r("prune-while-true", "M03", C, ('''        root_node = self.get_heads_with_type(node_type=type_name)
        while root_node:
            nodes_removed''', '''        while True:
            root_node = self.get_heads_with_type(node_type=type_name)
            if not root_node:
                break
            nodes_removed'''), ('''                for s_id in root_node
            ]

            root_node = self.get_heads_with_type(node_type=type_name)
''', '''                for s_id in root_node
            ]
'''))
r("graph-id-fstring", "M01 M02", N, ('''        _suffix = NodeType[node_type_name].name
        return "{}_{}".format(node_base_id, _suffix)''', '''        return f"{node_base_id}_{NodeType[node_type_name].name}"'''))
r("graph-id-concat", "M01", N, ('''        if graph_id.endswith(_suffix):
            return graph_id[: -len(_suffix)]
        return graph_id''', '''        if not graph_id.endswith(_suffix):
            return graph_id
        return graph_id[: len(graph_id) - len(_suffix)]'''))
r("graph-add-helper", "M02", N, ('''        graph.add_node(
            node_type=spine_ik_data.node_type,
            node_id=spine_ik_data.node_id,
            node_data=spine_ik_data.node_data,
        )
''', '''        SpineGraphParser._add(graph, spine_ik_data)
'''), ('''    @classmethod
    def create_from_json_data(''', '''    @staticmethod
    def _add(graph, data):
        graph.add_node(node_type=data.node_type, node_id=data.node_id, node_data=data.node_data)

    @classmethod
    def create_from_json_data('''))
r("graph-items", "M02", N, ('''        for _id in skin_attachment:
            _data = skin_attachment[_id]
''', '''        for _id, _data in dict(skin_attachment).items():
'''))
r("graph-sort", "M02", N, ('''            json_result[json_id] = sorted(
                json_result[json_id], key=lambda node_data: node_data["idx"]
            )
            json_result[json_id] = [
                node_info["data"] for node_info in json_result[json_id]
            ]
''', '''            in_order = sorted(json_result[json_id], key=lambda info: info["idx"])
            json_result[json_id] = [info["data"] for info in in_order]
'''))
r("graph-type-eq", "M02", N, ('''            if node.node_type is NodeType.ATTACHMENT.name or node.node_type is NodeType.IMAGE.name:
''', '''            if node.node_type in (NodeType.ATTACHMENT.name, NodeType.IMAGE.name):
'''))
r("dag-order", "G01 G02", G + "dagraph.py", ('''        self.nodes_counter += 1
        self._nodes[_id_node] = new_node
        return new_node''', '''        self._nodes[_id_node] = new_node
        self.nodes_counter += 1
        return new_node'''))
r("dag-remove-values", "G01 M03", G + "dagraph.py", ('''        for _, child in node.children.items():
            del child.parents[node_id]

        for _, parent in node.parents.items():
            del parent.children[node_id]
''', '''        for parent in node.parents.values():
            del parent.children[node_id]

        for child in node.children.values():
            del child.parents[node_id]
'''))
r("dag-in-nodes", "G06 G02", G + "dagraph.py", ('''if node_start not in self._nodes.keys():''', '''if node_start not in self._nodes:'''), ('''if node_end not in self._nodes.keys():''', '''if node_end not in self._nodes:'''))
r("paths-no-mutation", "G06", G + "dagraph.py", ('''                    _look_for_paths(
                        start=child_id, end=end, path=path, depth=depth + 1, graph=graph
                    )

            visited.remove(start)
            path.remove(start)
''', '''                    _look_for_paths(
                        start=child_id, end=end, path=path + [start], depth=depth + 1, graph=graph
                    )

            visited.remove(start)
'''), ('''            visited.add(start)
            path.append(start)
''', '''            visited.add(start)
'''))
r("version-tuple", "V01", "spine_json_lib/data/spine_version_type.py")
def run(scratch, x):
    name, pids, file, pairs = x
    subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "."], check=True)
    p = os.path.join(scratch, file)
    s = open(p).read()
    for a, b in pairs:
        if s.count(a) < 1: print("%-28s PATTERN NOT FOUND %r" % (name, a[:60])); return
        s = s.replace(a, b, 1)
    open(p, "w").write(s)
    t = subprocess.run([sys.executable, "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "spine_json_lib"], cwd=scratch, capture_output=True, text=True)
    if " failed" in t.stdout or "error" in t.stdout.lower(): print("%-28s TESTS FAIL %s" % (name, t.stdout[-300:]))
    for pid in pids:
        o = "/tmp/refactorings.json"
        try:
            subprocess.run(["python3-vt", "-m", "dv.prove", pid, o], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=scratch), timeout=420, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            q = json.load(open(o))
            bad = [y for y in q["obligations"] if not y["ok"]]
            print("%-28s %s %s" % (name, pid, "ok %d" % len(q["obligations"]) if not bad else "FAILED %d: %s | %s" % (len(bad), bad[0]["name"][:110], bad[0]["detail"][:160].replace("\n", " "))), flush=True)
            os.remove(o)
        except subprocess.TimeoutExpired: print("%-28s %s TIMEOUT" % (name, pid), flush=True)
    subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "."], check=True)
if __name__ == "__main__":
    for x in R:
        if x[3] and (not sys.argv[2:] or x[0] in sys.argv[2:]): run(sys.argv[1], x)
