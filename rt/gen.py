"""Generators of valid skeleton documents and graphs.  Every choice comes from the given Random."""
import copy
from rt.schema import KINDS

TAGS = ["[scale:2]", "[scale:0.5]", "[ scale : 4 ]", "[scale:1]", "[scale:0.25]", "[scale:8.0]", "[scale: 2 ]", "[scale:1.5]"]
STEMS = ["a", "b", "c", "arm", "leg", "eye", "root2", "ROOT", "x_BONE", "BONE", "_BONE", "a_SLOT", "SLOT_a", "b_IMAGE", "IMAGE",
         "a_ATTACHMENT", "ATTACHMENT_x", "IK", "leg_IK", "a_IK_b", "DEFAULT", "a_DEFAULT", "default", "skin", "é", "日本", "a b", " a", "a ",
         "a.b", "a-b", "a_b", "0", "1", "10", "A", "Arm", "arm_1", "slot", "bone", "images", "name", "path", "attachment",
         "hand_PATH", "x_SLOT_SLOT", "a_IMAGE_IMAGE", "*", "%s", "{}", "\\d", "none", "null", "True"]
CURVES = [[0.25, 0, 0.75, 1], "stepped", 0.25, 0, [], [0.5, 0.5, 0.5, 0.5], 1]
NUMS = [0, 1, 2, -1, 0.5, -0.25, 3.75, 10, 100, 1.0, 0.0, -0.0, 1e-3, 123456.5, 2.0, 4, 0.125]
HEX8 = ["ffffffff", "ff00ff00", "00000000", "FFFFFF00", "ffffff01", "000000ff", "12345680", "ffffff0f", "ffffff10", "fffffff0"]
VERSIONS = ["3.8", "3.8.0", "3.8.59", "3.8.99", "3.8.100", "3.9.1", "3.10.0", "3.10", "4.0.1", "4.0", "4.1.24", "4.2.33", "10.0.0", "4.0.0", "3.8.1", "5.1"]
HEADS = [{}, {"images": "./images/"}, {"images": "./img/"}, {"images": "img"}, {"images": "a/b/"}, {"images": ""}, {"images": "../x/"}]
MODES = ["normal", "noScale", "noScaleOrReflection", "onlyTranslation", "noRotationOrReflection"]
BOOLS = {"inheritRotation", "inheritScale", "bendPositive", "compress", "stretch", "uniform", "local", "relative",
         "closed", "constantSpeed", "deform", "skin"}
VLISTS = {"vertices", "uvs", "edges", "triangles", "lengths"}
STRS = {"string", "audio", "positionMode", "spacingMode", "rotateMode"}


class Gen:
    def __init__(self, rng, lits=None, size=3, tags=True):
        self.r = rng
        self.lits = lits or {"str": [], "num": []}
        self.size = size
        self.tags = tags

    # ---- primitive values
    def coin(self, p=0.5):
        return self.r.random() < p

    def n(self, lo, hi):
        r = self.r
        if self.lits["num"] and r.random() < 0.08:
            c = r.choice(self.lits["num"])
            if isinstance(c, int):
                c += r.choice([-1, 0, 1])
                if lo <= c <= 14:
                    return c
        return r.randint(lo, hi)

    def num(self):
        if self.lits["num"] and self.coin(0.1):
            return self.r.choice(self.lits["num"])
        return self.r.choice(NUMS) if self.coin(0.8) else self.r.randint(-1000, 1000) / self.r.choice([1, 2, 4, 8])

    def stem(self):
        r = self.r
        if self.lits["str"] and r.random() < 0.3:
            s = r.choice(self.lits["str"])
            if s and "[" not in s and s not in ("None",):
                return r.choice([s, "a" + s, s + "b", "a" + s + "b"])
        return r.choice(STEMS) if r.random() < 0.7 else "n%d" % r.randint(0, 30)

    def fresh(self, used, tag=False, stem=None):
        for _ in range(60):
            s = stem() if stem else self.stem()
            if tag and self.tags and "[" not in s and self.coin(0.3):
                t = self.r.choice(TAGS)
                s = self.r.choice([s + " " + t, s + t, t + s])
            if s and s not in used and s not in ("root", "None"):
                used.add(s)
                return s
        i = len(used)
        while "z%d" % i in used:
            i += 1
        used.add("z%d" % i)
        return "z%d" % i

    def value(self, kind, f):
        r = self.r
        k = KINDS[kind]
        d = k["new"].get(f, k["old"].get(f))
        x = r.random()
        if x < 0.15 and f in k["new"]:
            return copy.deepcopy(k["new"][f])
        if x < 0.20:
            return None
        if x < 0.24 and self.lits["num"] + self.lits["str"]:
            v = r.choice(self.lits["num"] + self.lits["str"])
            if f not in ("color", "dark", "light", "path", "name"):
                if isinstance(v, str) == isinstance(d, str):
                    return v
        if f in BOOLS:
            return r.random() < 0.5
        if f == "curve":
            return copy.deepcopy(r.choice(CURVES))
        if f in ("c2", "c3", "c4"):
            return r.choice([0, 1, 0.25, 0.75, 0.5])
        if f in VLISTS:
            return [self.num() for _ in range(r.choice([0, 1, 2, 4, 6]))]
        if f == "offset" and kind == "Deform":
            return r.choice([0, 2, 4, []])
        if f in STRS:
            return r.choice(["", "percent", "tangent", "x", "length", "proportional"])
        if f in ("color", "light"):
            return r.choice(HEX8)
        if f == "dark":
            return r.choice(["ffffff", "000000", "ff8800"])
        if f == "blend":
            return r.choice(["normal", "additive", "multiply", "screen"])
        if f == "transform":
            return r.choice(MODES)
        if f in ("hull", "vertexCount", "width", "height", "order", "int"):
            return r.choice([0, 1, 2, 3, 32, 100])
        if f == "time":
            return r.choice([0, 0.0, 0.25, 0.5, 1, 2])
        return self.num()

    def fill(self, kind, skip=(), p=None):
        p = self.r.choice([0.1, 0.4, 0.8]) if p is None else p
        fs = [f for f in KINDS[kind]["fields"] if f not in skip and f not in KINDS[kind]["kids"]]
        if self.coin(0.3):
            self.r.shuffle(fs)
        return {f: self.value(kind, f) for f in fs if self.coin(p)}

    def key(self, kind, **kw):
        o = self.fill(kind, skip=("name",))
        o.update(kw)
        return o

    # ---- documents
    def doc(self, min_anims=0):
        r, s = self.r, self.size
        d = {"skeleton": dict({"hash": "h", "spine": r.choice(VERSIONS)}, **r.choice(HEADS))}
        if self.coin(0.3):
            d["skeleton"].update({"width": 10.5, "audio": "", "fps": 30, "extra": {"deep": [1, {"x": []}]}})
        # bones, parents first
        bones, used = [dict(self.fill("Bone", ("name", "parent")), name="root")], {"root"}
        chain = self.coin(0.3)
        for _ in range(self.n(0, s + 2)):
            par = bones[-1]["name"] if chain else r.choice(bones)["name"]
            b = self.fill("Bone", ("name", "parent"))
            b["name"], b["parent"] = self.fresh(used, tag=True), par
            bones.append(b)
        if bones[0].get("color", 0) is None:
            del bones[0]["color"]
        bn = [b["name"] for b in bones]
        d["bones"] = bones
        # slots
        slots, sused = [], set()
        for _ in range(self.n(0 if self.coin(0.1) else 1, s + 1)):
            o = self.fill("Slot", ("name", "bone", "attachment"), p=0.25)
            o["name"], o["bone"] = self.fresh(sused, tag=True, stem=(lambda: r.choice(bn)) if self.coin(0.15) else None), r.choice(bn)
            slots.append(o)
        sn = [o["name"] for o in slots]
        d["slots"] = slots
        # skins
        skins, kused = [], set()
        atts = {x: [] for x in sn}               # slot -> attachment keys anywhere
        meshes = []                              # (skin, slot, key)
        pool = [self.fresh(set()) for _ in range(self.n(1, s + 1))]
        for i in range(self.n(0 if self.coin(0.05) else 1, max(2, s))):
            if i == 0 and self.coin(0.8):
                name = "default"
                kused.add(name)
            else:
                name = self.fresh(kused)
            sk = {"name": name, "attachments": {}}
            for slot in sn:
                if not self.coin(0.75):
                    continue
                tab = sk["attachments"][slot] = {}
                for _ in range(self.n(0, 2) if self.coin(0.9) else 3):
                    key = r.choice(pool) if self.coin(0.8) else self.fresh(set())
                    if key in tab:
                        continue
                    tab[key] = self.attachment(name, slot, key, meshes, pool)
                    if tab[key].get("type") == "mesh":
                        meshes.append((name, slot, key))
                    atts[slot].append(key)
                if not tab and self.coin(0.5):
                    del sk["attachments"][slot]
            skins.append(sk)
        # linked meshes may also point forward
        order = list(range(len(skins)))
        if self.coin(0.3):
            r.shuffle(order)
        d["skins"] = [skins[i] for i in order]
        for o in slots:
            if atts[o["name"]] and self.coin(0.7):
                o["attachment"] = r.choice(atts[o["name"]])
            elif self.coin(0.1):
                o["attachment"] = None
        # constraints and events
        if self.coin(0.6):
            evs = set()
            d["events"] = {self.fresh(evs): self.fill("Events") for _ in range(self.n(0, 2))}
        cn = {}
        for kind, f in (("Ik", "ik"), ("Transform", "transform"), ("Path", "path")):
            if not self.coin(0.5):
                continue
            d[f], u = [], set()
            for _ in range(self.n(0, 2)):
                o = self.fill(kind, ("name", "bones", "target", "bone"))
                o["name"] = self.fresh(u)
                others = [b for b in bn]
                r.shuffle(others)
                k = r.randint(1, max(1, min(2, len(others) - 1)))
                o["bones"] = others[:k]
                o["target"] = r.choice(sn) if kind == "Path" and sn else (others[k] if len(others) > k else others[0])
                if kind == "Transform" and self.coin(0.3):
                    o["bone"] = o.pop("bones")[0]
                elif kind == "Ik" and self.coin(0.1):
                    o["bones"] = []
                    if self.coin():
                        del o["bones"]
                d[f].append(o)
            cn[f] = [o["name"] for o in d[f]]
        # animations
        d["animations"] = {}
        au = set()
        for _ in range(self.n(min_anims, max(min_anims, s))):
            d["animations"][self.fresh(au)] = self.animation(d, bn, sn, atts, cn, meshes)
        if not d["animations"] and self.coin(0.3):
            del d["animations"]
        if self.coin(0.3):
            ks = list(d)
            r.shuffle(ks)
            d = {k: d[k] for k in ks}
        return d

    def attachment(self, skin, slot, key, meshes, pool):
        r = self.r
        x = r.random()
        img = lambda o: o.update({f: (r.choice(pool) if self.coin(0.4) else r.choice(["img/", "f/g/", ""]) + self.stem())
                                  for f in ("path", "name") if self.coin(0.35)})
        if x < 0.45:
            o = self.fill("SkinAttachment", ("path", "name"))
            img(o)
        elif x < 0.7:
            o = self.fill("SkinMesh", ("path", "name", "type"))
            o["type"] = "mesh"
            img(o)
        elif x < 0.88:
            tgt = [m for m in meshes if m[1] == slot and m[0] != skin or (m[0] == skin and m[1] == slot and m[2] != key)]
            if not tgt:
                return self.attachment(skin, slot, key, meshes, pool)
            o = self.fill("SkinLinkedMesh", ("path", "name", "type", "skin", "parent"))
            o["type"] = "linkedmesh"
            m = r.choice(tgt)
            if m[0] != "default" or self.coin(0.4):
                o["skin"] = m[0]
            if m[2] != key or self.coin(0.7):
                o["parent"] = m[2]
            img(o)
        else:
            o = self.fill("SkinPath", ("type", "name"))
            o["type"] = "path"
        return o

    def animation(self, d, bn, sn, atts, cn, meshes):
        r = self.r
        a = {}
        sub = lambda xs, p: [x for x in xs if self.coin(p)]
        if self.coin(0.7) and bn:
            a["bones"] = {}
            for b in sub(bn, 0.4):
                t = a["bones"][b] = {}
                for f, k in (("rotate", "BoneRotateAndScaleKeyframe"), ("translate", "BoneTranslateAndShearKeyframe"),
                             ("scale", "BoneRotateAndScaleKeyframe"), ("shear", "BoneTranslateAndShearKeyframe")):
                    if self.coin(0.4):
                        t[f] = [self.fill(k) for _ in range(self.n(0, 2))]
        if self.coin(0.85):
            a["slots"] = {s: self.slot_timeline(atts[s]) for s in sub(sn, 0.6)}
        if self.coin(0.4) and cn.get("ik"):
            a["ik"] = {k: [self.fill("IkTimeline") for _ in range(self.n(0, 2))] for k in sub(cn["ik"], 0.7)}
        if self.coin(0.4) and cn.get("transform"):
            a["transform"] = {k: [self.fill("TransformTimeline") for _ in range(self.n(0, 2))] for k in sub(cn["transform"], 0.7)}
        if self.coin(0.4) and cn.get("path"):
            a["path"] = {k: {m: [self.fill("PathTimeline") for _ in range(self.n(0, 2))] for m in sub(["position", "spacing", "mix"], 0.6)}
                         for k in sub(cn["path"], 0.7)}
        if self.coin(0.5) and d.get("events"):
            a["events"] = [self.key("EventTimeline", name=r.choice(list(d["events"]))) for _ in range(self.n(0, 2))]
        if self.coin(0.5):
            df = a["deform"] = {}
            for sk in d["skins"]:
                if not self.coin(0.6):
                    continue
                df[sk["name"]] = {}
                for slot, tab in sk["attachments"].items():
                    if not self.coin(0.7):
                        continue
                    df[sk["name"]][slot] = {k: [self.fill("Deform") for _ in range(self.n(0, 2))] for k in tab if self.coin(0.6)}
        if self.coin(0.5) and sn:
            a["drawOrder"] = [self.draw_order(sn) for _ in range(self.n(0, 2))]
        if self.coin(0.3):
            ks = list(a)
            r.shuffle(ks)
            a = {k: a[k] for k in ks}
        return a

    def slot_timeline(self, keys):
        r = self.r
        x = r.random()
        none = lambda: r.choice([{"name": None}, {}, {"name": None}])
        t0 = lambda: r.choice([{}, {"time": 0}, {"time": 0.0}, {"time": 0.5}, {"time": None}])
        if x < 0.07:
            return {}
        if x < 0.4:
            t = {"attachment": [dict(none(), **t0())]}
            if self.coin(0.25):
                t["attachment"] = [dict(none(), **t0()) for _ in range(2)]
            if self.coin(0.2):
                t[r.choice(["color", "twoColor"])] = [self.fill("SlotKeyframe", ("name",)) for _ in range(self.n(0, 2))]
            return t
        t = {}
        if self.coin(0.7):
            t["attachment"] = []
            for _ in range(self.n(0, 3)):
                k = dict(t0(), **self.fill("SlotKeyframe", ("name", "time"), p=0.1))
                if keys and self.coin(0.6):
                    k["name"] = r.choice(keys)
                else:
                    k.update(none())
                t["attachment"].append(k)
        if self.coin(0.3):
            t["color"] = [self.fill("SlotKeyframe", ("name",)) for _ in range(self.n(0, 2))]
        if self.coin(0.2):
            t["twoColor"] = [self.fill("SlotKeyframe", ("name",)) for _ in range(self.n(0, 2))]
        return t

    def draw_order(self, sn):
        r = self.r
        o = {} if self.coin(0.15) else {"time": r.choice([0, 0.5, 1])}
        if self.coin(0.15):
            return o
        o["offsets"] = self.offsets(sn)
        return o

    def offsets(self, sn):
        """Distinct slots in setup order with distinct target positions in range."""
        r = self.r
        n = len(sn)
        moved = [i for i in range(n) if self.coin(r.choice([0.2, 0.5, 0.9]))]
        targets = r.sample(range(n), len(moved))
        if self.coin(0.15):
            targets = list(moved)                 # every offset zero
        return [{"slot": sn[i], "offset": t - i} for i, t in zip(moved, targets)]

    # ---- graphs
    def dag(self, n=None, types=None, dens=None):
        r = self.r
        n = self.n(1, self.size * 2) if n is None else n
        ids = []
        used = set()
        for _ in range(n):
            ids.append(self.fresh(used))
        pos = list(range(n))
        r.shuffle(pos)
        dens = r.choice([0.1, 0.25, 0.5, 0.9]) if dens is None else dens
        if r.random() < 0.2:
            edges = [[ids[i], ids[i + 1]] for i in range(n - 1)]
            edges += [[ids[i], ids[j]] for i in range(n) for j in range(i + 2, n) if r.random() < dens / 2]
        else:
            edges = [[ids[i], ids[j]] for i in range(n) for j in range(i + 1, n) if r.random() < dens]
        r.shuffle(edges)
        order = [ids[i] for i in pos]
        return {"nodes": order, "edges": edges}

    def digraph(self, n=None):
        g = self.dag(n)
        r = self.r
        ids = g["nodes"]
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            if len(ids) >= 2:
                a, b = r.sample(ids, 2)
                g["edges"].append([a, b])
        return g
