"""What the contracts say about every kind of skeleton object: its attributes, which of them hold
further objects, which are required, which an older version lacks, and the default values the kind
declares (old = before 3.8, new = from 3.8 on).  This is specification: it was written from the
documentation and the declarations of the pinned commit and is never read back from /repo."""

def K(fields, old, new=None, kids=None, req=(), unsup=()):
    return dict(fields=fields.split(), old=old, new=old if new is None else new,
                kids=kids or {}, req=list(req), unsup=list(unsup))

C = {"c2": 0, "c3": 1, "c4": 1}
# child shapes: ("list", kind) ("dict", shape) ("obj", kind)
def lst(k): return ("list", ("obj", k))
def dct(s): return ("dict", s)

KINDS = {
 "SpineAnimationData": K("bones slots skins events ik transform path animations",
    {"bones": [], "slots": [], "events": {}, "ik": [], "transform": [], "path": [], "animations": {}},
    kids={"bones": lst("Bone"), "slots": lst("Slot"), "skins": lst("Skin38"), "events": dct(("obj", "Events")),
          "ik": lst("Ik"), "transform": lst("Transform"), "path": lst("Path"), "animations": dct(("obj", "Animation"))}),
 "Bone": K("name parent color scaleX transform shearY scaleY inheritRotation length y x rotation shearX inheritScale",
    {"x": 0, "y": 0, "scaleX": 1.0, "scaleY": 1.0, "shearX": 0, "shearY": 0, "transform": "normal",
     "inheritRotation": False, "rotation": 0, "length": 0, "inheritScale": False}, req=["name"]),
 "Slot": K("name bone attachment color dark blend", {}, req=["name", "bone"]),
 "Skin38": K("name attachments", {"name": "", "attachments": {}},
    kids={"attachments": dct(dct(("attachment",)))}),
 "SkinAttachment": K("x y rotation width height scaleX scaleY name path color",
    {"x": 0, "y": 0, "rotation": 0, "scaleX": 1.0, "scaleY": 1.0}),
 "SkinMesh": K("hull uvs vertices height width edges type triangles name path color",
    {"uvs": [], "vertices": [], "edges": [], "triangles": []}),
 "SkinPath": K("lengths vertexCount type name vertices color closed constantSpeed",
    {"lengths": [], "vertexCount": 0, "vertices": [], "constantSpeed": True, "closed": False}),
 "SkinLinkedMesh": K("path height width name parent deform color skin type", {}, {"deform": True}),
 "SkinBoundingBox": K("vertexCount vertices color", {}),
 "SkinPoint": K("x y rotation color", {"x": 0, "y": 0, "rotation": 0}),
 "SkinClipping": K("end vertexCount vertices color", {"vertexCount": 0, "vertices": []}),
 "Events": K("int float string", {"int": 0, "float": 0, "string": ""}),
 "Ik": K("name order bones target mix bendPositive softness compress stretch uniform",
    {"name": "", "order": 0, "bones": [], "target": "", "bendPositive": True, "softness": 0,
     "compress": False, "stretch": False, "uniform": False}),
 "Transform": K("name order bone bones target rotation x y scaleX scaleY shearX shearY rotateMix translateMix scaleMix shearMix local relative",
    {"name": "", "order": 0, "bone": "", "target": "", "rotation": 0, "x": 0, "y": 0, "scaleX": 1.0,
     "scaleY": 1.0, "shearX": 0, "shearY": 0}),
 "Path": K("name order skin bones target positionMode spacingMode rotateMode rotation position spacing rotateMix translateMix",
    {"name": "", "bones": [], "target": "", "positionMode": "", "spacingMode": "", "rotateMode": "", "rotation": 0,
     "position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1, "skin": False}),
 "Animation": K("ik drawOrder bones slots events transform path deform",
    {"ik": {}, "drawOrder": [], "bones": {}, "slots": {}, "events": [], "transform": {}, "deform": {}, "path": {}},
    kids={"ik": dct(lst("IkTimeline")), "drawOrder": lst("DrawOrderTimeline"), "bones": dct(("obj", "BoneTimeline")),
          "slots": dct(("obj", "SlotTimeline")), "events": lst("EventTimeline"), "transform": dct(lst("TransformTimeline")),
          "path": dct(dct(lst("PathTimeline"))), "deform": dct(dct(dct(lst("Deform"))))}),
 "BoneTimeline": K("rotate translate scale shear", {"rotate": [], "translate": [], "scale": [], "shear": []},
    kids={"rotate": lst("BoneRotateAndScaleKeyframe"), "translate": lst("BoneTranslateAndShearKeyframe"),
          "scale": lst("BoneRotateAndScaleKeyframe"), "shear": lst("BoneTranslateAndShearKeyframe")}),
 "BoneTranslateAndShearKeyframe": K("time curve angle x y c2 c3 c4", {"curve": []},
    dict(C, curve=[], angle=0, time=0, x=0, y=0), unsup=["c2", "c3", "c4"]),
 "BoneRotateAndScaleKeyframe": K("time curve angle x y c2 c3 c4", {"curve": []},
    dict(C, curve=[], angle=0, time=0, x=1, y=1), unsup=["c2", "c3", "c4"]),
 "SlotTimeline": K("attachment color twoColor", {"attachment": [], "color": [], "twoColor": []},
    kids={"attachment": lst("SlotKeyframe"), "color": lst("SlotKeyframe"), "twoColor": lst("SlotKeyframe")}),
 "SlotKeyframe": K("name time curve color dark light c2 c3 c4", {"curve": [], "name": None},
    dict(C, curve=[], name=None, time=0), unsup=["c2", "c3", "c4"]),
 "DrawOrderTimeline": K("time offsets", {"offset": []}, {"time": 0, "offset": []},
    kids={"offsets": lst("DrawOrderTimelineOffset")}),
 "DrawOrderTimelineOffset": K("slot offset", {"slot": ""}, req=["offset"]),
 "EventTimeline": K("time name int float string audio volume balance", {"name": "", "int": 0, "float": 0, "string": ""},
    {"time": 0, "name": "", "int": 0, "float": 0, "string": "", "audio": "", "volume": 1, "balance": 0}),
 "IkTimeline": K("time mix bendPositive curve c2 c3 c4 compress stretch", {"bendPositive": True, "curve": []},
    dict(C, time=0, bendPositive=True, stretch=False, curve=[], compress=False), unsup=["c2", "c3", "c4"]),
 "TransformTimeline": K("time rotateMix translateMix scaleMix shearMix curve c2 c3 c4", {"curve": []},
    dict(C, curve=[], time=0)),
 "PathTimeline": K("time position spacing rotateMix translateMix curve c2 c3 c4",
    {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1},
    dict(C, position=0, spacing=1, rotateMix=1, translateMix=1, curve=[])),
 "Deform": K("vertices time curve offset c2 c3 c4", {"vertices": [], "curve": []},
    dict(C, time=0, vertices=[], curve=[], offset=[])),
}
# attachment type -> kind; no type means a region
ATTACHMENTS = {None: "SkinAttachment", "path": "SkinPath", "mesh": "SkinMesh", "linkedmesh": "SkinLinkedMesh",
               "point": "SkinPoint", "clipping": "SkinClipping", "boundingbox": "SkinBoundingBox"}

MISSING = object()

def defaults(kind, new=True):
    return KINDS[kind]["new" if new else "old"]

def norm(shape, v, new=True):
    """Effective value: attributes that are absent, null or equal to their default are dropped."""
    if shape[0] == "list":
        return [norm(shape[1], x, new) for x in v]
    if shape[0] == "dict":
        return {k: norm(shape[1], x, new) for k, x in v.items()}
    kind = ATTACHMENTS[v.get("type")] if shape[0] == "attachment" else shape[1]
    k = KINDS[kind]
    out = {}
    for a, x in v.items():
        if a in k["kids"]:
            if x is None:
                continue
            x = norm(k["kids"][a], x, new)
            if x:                                   # an empty collection is the same as none
                out[a] = x
        elif x is not None and x != defaults(kind, new).get(a):
            out[a] = x
    return out

def norm_doc(doc, new=True):
    d = {k: v for k, v in doc.items() if k != "skeleton"}
    return norm(("obj", "SpineAnimationData"), d, new), doc["skeleton"]

def objects(shape, v, path=()):
    """Every object of a raw document with its kind and path."""
    if shape[0] == "list":
        for i, x in enumerate(v):
            yield from objects(shape[1], x, path + (i,))
    elif shape[0] == "dict":
        for k, x in v.items():
            yield from objects(shape[1], x, path + (k,))
    else:
        kind = ATTACHMENTS[v.get("type")] if shape[0] == "attachment" else shape[1]
        yield kind, path, v
        for a, s in KINDS[kind]["kids"].items():
            if v.get(a) is not None:
                yield from objects(s, v[a], path + (a,))

def doc_objects(doc):
    yield from objects(("obj", "SpineAnimationData"), {k: v for k, v in doc.items() if k != "skeleton"})
