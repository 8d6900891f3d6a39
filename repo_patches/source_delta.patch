From 4d9fd4b246571a6307ad4d53e16b0a71861fa108 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 01/17] fix: compare spine versions by major, then minor, then
 patch

---
 spine_json_lib/data/spine_version_type.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c84d8f6 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -48,40 +48,40 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
+        return (self.major, self.minor, self.patch) < (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
+        return (self.major, self.minor, self.patch) > (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
+        return (self.major, self.minor, self.patch) <= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
+        return (self.major, self.minor, self.patch) >= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __cmp__(self, other):
-- 
2.43.0


From 9566bd2db67db112e0fd77354e15dbc29b9432c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 02/17] fix: list every node once and after all its parents in
 the order of execution

---
 spine_json_lib/graph/dagraph.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..7702fb0 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -213,7 +213,10 @@ class DAGraph(object):
 
         result_nodes = []
 
+        expanded = set()
+
         def visit(node: SpamNode) -> None:
+            # Every ancestor goes before the node itself
             visited.add(node.id)
 
             for parent in node.parents:
@@ -221,12 +224,19 @@ class DAGraph(object):
                     visit(self.get_node(parent))
 
             result_nodes.append(node.id)
+
+        def expand(node: SpamNode) -> None:
+            expanded.add(node.id)
+
+            if node.id not in visited:
+                visit(node)
+
             for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+                if child not in expanded:
+                    expand(self.get_node(child))
 
         for head_id in self.get_heads_id():
-            visit(self.get_node(head_id))
+            expand(self.get_node(head_id))
 
         return result_nodes
 
-- 
2.43.0


From b2ff064423d61fffe7da72ca4c59366da5049751 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 03/17] fix: strip only the trailing node type when converting
 a graph id back

---
 spine_json_lib/deserializer/spine_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..fac9b15 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,6 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        if graph_id.endswith(_suffix):
+            return graph_id[: -len(_suffix)]
+        return graph_id
-- 
2.43.0


From 77a29f69666abcf07ee178e57996a72eb86e84f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 04/17] fix: clean animations in which no slot is visible

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..e88af30 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -295,7 +295,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From b434c3becd103ee15f6d8a6820764b44a0e1305f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 05/17] fix: resolve linked meshes by their parent mesh when
 erasing its skin

---
 spine_json_lib/data/spine_anim_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e88af30..8974ce6 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -146,20 +146,21 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or "default") == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent or slot_id]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From 9b26f8362e5c35f47a639e99c474005002f6b638 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 06/17] fix: report the images of erased attachments that are
 named by their key

---
 spine_json_lib/data/spine_anim_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 8974ce6..9ab9d36 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -170,12 +170,12 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
+                    image_path = slot_data.path or slot_data.name or slot_id
                     if image_path is not None:
                         removed_attachments.setdefault(attachment_id, {})
                         removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
-- 
2.43.0


From 0d607320dc0c3a1cf75f1ec8d1f30f6934bfd08d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 07/17] fix: scale a root bone that does not inherit scale only
 once

---
 spine_json_lib/spine_animation_editor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..fc43e27 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -203,11 +203,14 @@ class SpineAnimationEditor(object):
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
         # attributes as these don't inherit scale from parent roots
         spine_data = self.spine_anim_data.data
+        root_bone = spine_data.get_bone("root")
         for bone in spine_data.bones:
+            if bone is root_bone:
+                continue
 
             if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-        spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
+        root_bone.scale(scaleX=scaleX, scaleY=scaleY)
 
     @property
     def spine_version(self):
-- 
2.43.0


From cefd8b8480357ec7a9525178bc252f7601900866 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 08/17] fix: keep the scale of the animation when cleaning it
 afterwards

---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index fc43e27..f0853b0 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -212,6 +212,10 @@ class SpineAnimationEditor(object):
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
         root_bone.scale(scaleX=scaleX, scaleY=scaleY)
 
+        # The graph keeps its own copy of the bones
+        json_data = self.spine_anim_data.to_json_data()
+        self.spine_graph = SpineGraphContainer(json_data)
+
     @property
     def spine_version(self):
         return self.spine_anim_data.spine_version
-- 
2.43.0


From 53933fc357d3ba14d65c813f0f1ee2a8b6ee7fef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 09/17] fix: save to a file name without a directory

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index f0853b0..3c4cdfa 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -225,7 +225,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -261,7 +261,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From 0368ccb23183e97368911a0bd779bd24398d2abf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 10/17] fix: keep draw order offsets of zero, which pin a slot
 in place

---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From c1275684faf208798ee3b61f058cca81726c15d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 11/17] fix: do not treat a slot without keyframes as hidden by
 the animation

---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From 9ddca9981142ce1ed78b511205d602ad6257d582 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 12/17] fix: drop the references to images that no remaining
 attachment uses

---
 spine_json_lib/spine_animation_editor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 3c4cdfa..5d7f160 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -98,6 +98,7 @@ class SpineAnimationEditor(object):
         else:
             removed_data = self.clean_animation()
         self._clean_images_references(images_ids=images_to_remove)
+        self._clean_unused_images_references()
 
         return removed_data, images_to_remove
 
@@ -187,6 +188,7 @@ class SpineAnimationEditor(object):
 
         # Remove reference to region attachments in images json file
         self._clean_images_references(images_ids=images_node)
+        self._clean_unused_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -298,6 +300,16 @@ class SpineAnimationEditor(object):
 
         self.images_references = copy_json
 
+    def _clean_unused_images_references(self) -> None:
+        # Attachments with the same id share a node of the graph, so an image can
+        # still hang from it when the attachment that used the image is gone
+        used_images = self.get_images_references()
+        self._clean_images_references(
+            images_ids=[
+                img_id for img_id in self.images_references if img_id not in used_images
+            ]
+        )
+
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
         for index_skin, data in enumerate(self.spine_anim_data.data.skins):
-- 
2.43.0


From 5970fa418a855ee1f9ba6a63d1863fa71a7b50a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 13/17] fix: keep the meshes of visible slots that share their
 id with an unused attachment

---
 spine_json_lib/data/spine_anim_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 9ab9d36..a8f280d 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -302,6 +302,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        meshes_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -315,7 +316,9 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            meshes_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        # Attachments are removed by id from every slot
+        return invisible_slots, attachments_to_remove - meshes_to_keep
-- 
2.43.0


From db07bdd3b89d8c1be000c13ff8a69d490969615a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 14/17] fix: clear the setup attachment of a slot when it is
 removed

---
 spine_json_lib/spine_animation_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5d7f160..60084fd 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -346,10 +346,7 @@ class SpineAnimationEditor(object):
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
             if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
+                if default_attachment_id in attachments_ids:
                     copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
-- 
2.43.0


From 9ae7a783e940e8937d8491166ae7e30821b59fa9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:18 +0000
Subject: [PATCH 15/17] fix: compare the type of head nodes by value

---
 spine_json_lib/graph/graph_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From 12431968464cc5a5a0165eba1031f90dae351342 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:49 +0000
Subject: [PATCH 16/17] fix: load skeletons exported without slots

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index a8f280d..992b727 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -62,7 +62,7 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From 08d837472eea7c6af0838139a00d7434328271f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:50 +0000
Subject: [PATCH 17/17] fix: load IK constraints that name no bones

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index fac9b15..dae76e3 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -268,7 +268,7 @@ class SpineGraphParser(IGraphParser):
         )
 
         # Getting optional parents for ik
-        for child_bone_id in ik_data["bones"]:
+        for child_bone_id in ik_data.get("bones", []):
             child_id = SpineGraphParser._to_graph_id(
                 node_type_name=NodeType.BONE.name, node_base_id=child_bone_id
             )
-- 
2.43.0

