"""One executable contract per property: gen(rng, lits, size) makes an input, check(case) evaluates the property's
postcondition on the real code of /repo for that input and returns None or what is wrong."""
import copy, itertools, json, os, re, shutil, tempfile
from fractions import Fraction
from rt.gen import Gen, VERSIONS, TAGS
from rt.schema import KINDS, ATTACHMENTS, norm, norm_doc, objects, doc_objects, defaults

P = {}
def prop(pid):
    def deco(cls):
        P[pid] = cls
        cls.pid = pid
        return cls
    return deco

def show(x, n=300):
    s = json.dumps(x, sort_keys=True, default=str)
    return s if len(s) <= n else s[:n] + "..."

def diff(a, b, path=""):
    """First difference between two JSON values (numbers and booleans compared by value)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s/%s missing (expected %s)" % (path, k, show(a[k], 80))
        for k in b:
            if k not in a:
                return "%s/%s unexpected (%s)" % (path, k, show(b[k], 80))
        for k in a:
            d = diff(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items expected, got %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/%d" % i)
            if d:
                return d
        return None
    return None if a == b and isinstance(a, bool) == isinstance(b, bool) or a == b and not isinstance(a, (dict, list)) else "%s: expected %s, got %s" % (path, show(a, 80), show(b, 80))

def order_diff(a, b, path=""):
    """Lists and dicts in the same order, too (dict order is used only where a property promises it)."""
    if list(a) != list(b):
        return "%s order: expected %s, got %s" % (path, show(list(a), 80), show(list(b), 80))

def load(doc):
    from spine_json_lib.spine_animation_editor import SpineAnimationEditor
    return SpineAnimationEditor(doc)

def anim_data(doc):
    from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
    return JsonSpineAnimationData(doc)

def N(doc):
    return norm_doc(doc)[0]

def vpair(v):
    p = [int(x) for x in v.split(".")]
    return tuple(p + [0] * (3 - len(p)))

# ------------------------------------------------------------------------------------------------ documents
class DocProp:
    min_anims = 0
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        return {"doc": g.doc(self.min_anims), **self.extra(g)}
    def extra(self, g):
        return {}

@prop("S01")
class S01(DocProp):
    def check(self, c):
        doc = c["doc"]
        out = anim_data(copy.deepcopy(doc)).to_json_data()
        d = diff(N(doc), N(out))
        if d:
            return "export differs from the document at " + d
        for f in ("animations", "events"):
            d = order_diff(doc.get(f) or {}, out.get(f) or {}, f)
            if d:
                return d
        if out.get("skeleton") != doc["skeleton"]:
            return "header not verbatim: " + show(out.get("skeleton"))
        try:
            json.dumps(out)
        except TypeError as e:
            return "export is not JSON: %s" % e
        out1 = load(copy.deepcopy(doc)).to_json_data()
        if out1 != out:
            return "the editor's export differs: " + str(diff(out, out1))
        out2 = anim_data(copy.deepcopy(out)).to_json_data()
        if out2 != out:
            return "exporting an exported document changes it: " + str(diff(out, out2))

def mutate(x, depth=0):
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                mutate(x[k], depth + 1)
            else:
                x[k] = "JUNK"
        x["JUNK"] = ["JUNK"]
        if len(x) > 2:
            del x[next(iter(x))]
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                mutate(v, depth + 1)
            else:
                x[i] = "JUNK"
        x.append("JUNK")

def gen_ops(g, doc, n=None, kinds=("scale", "anims", "skins", "clean", "export")):
    r = g.r
    ops = []
    anims, skins = list(doc.get("animations") or {}), [s["name"] for s in doc["skins"]]
    for _ in range(r.randint(1, 3) if n is None else n):
        k = r.choice(kinds)
        if k == "scale":
            ops.append(["scale", r.choice([1, 2, 0.5, -1, 0.25, 1.0, 3, 0]), r.choice([1, 2, 0.5, -2, 4, 1.0])])
        elif k == "anims":
            ch = [a for a in anims if r.random() < 0.4]
            anims = [a for a in anims if a not in ch]
            ops.append(["anims", ch + (["no such"] if r.random() < 0.2 else []), r.random() < 0.4])
        elif k == "skins":
            ch = [a for a in skins if r.random() < 0.4]
            r.shuffle(ch)
            skins = [a for a in skins if a not in ch]
            ops.append(["skins", ch, r.random() < 0.4])
        else:
            ops.append([k])
    return ops

def run_op(ed, op):
    if op[0] == "scale":
        return ed.scale_animation(op[1], op[2])
    if op[0] == "anims":
        return ed.erase_animations(list(op[1]), strict_mode=False, is_safe_mode=op[2])
    if op[0] == "skins":
        return ed.erase_skins(list(op[1]), is_safe_mode=op[2])
    if op[0] == "clean":
        return ed.clean_animation()
    return ed.to_json_data()

def tables():
    from spine_json_lib.data.data_types.base_type import SpineData
    import spine_json_lib.data.spine_anim_data
    out = {}
    def walk(c):
        for s in c.__subclasses__():
            out[s.__name__] = copy.deepcopy([s.DEFAULT_VALUES, s.SPINE_3_8_DEFAULT_VALUES, s.UNSUPPORTED_VALUES_OLD_VERSION, s.REQUIRED])
            walk(s)
    walk(SpineData)
    return out

@prop("S02")
class S02(DocProp):
    def extra(self, g):
        d = g.doc()
        return {"ops": gen_ops(g, d) and None, "seed": g.r.randrange(1 << 30)}
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        d = g.doc()
        return {"doc": d, "ops": gen_ops(g, d), "doc2": Gen(rng, lits, 2).doc()}
    def check(self, c):
        t0 = tables()
        try:
            return self._check(c, t0)
        finally:
            restore_tables(t0)
    def _check(self, c, t0):
        ref = load(copy.deepcopy(c["doc"]))
        r0, refs = ref.to_json_data(), []
        for op in c["ops"]:
            run_op(ref, op)
            refs.append(copy.deepcopy(ref.to_json_data()))
        ref2 = copy.deepcopy(load(copy.deepcopy(c["doc2"])).to_json_data())
        r0 = copy.deepcopy(r0)
        doc = copy.deepcopy(c["doc"])
        ed = load(doc)
        if doc != c["doc"]:
            return "loading changed the document: " + str(diff(c["doc"], doc))
        probe = copy.deepcopy(c["doc"])
        ed0 = load(probe)
        for op in c["ops"]:
            run_op(ed0, op)
            if probe != c["doc"]:
                return "%s changed the loaded document: %s" % (op, diff(c["doc"], probe))
        mutate(doc)
        out = ed.to_json_data()
        if out != r0:
            return "changing the loaded document changed the export: " + str(diff(r0, out))
        mutate(out)
        again = ed.to_json_data()
        if again != r0:
            return "changing an export changed the next export: " + str(diff(r0, again))
        for op, want in zip(c["ops"], refs):
            res = run_op(ed, op)
            if op[0] == "anims":
                mutate(res.result_data_json)
            elif op[0] == "export":
                mutate(res)
            out = ed.to_json_data()
            if out != want:
                return "after %s a changed document shows through in the export: %s" % (op, diff(want, out))
            mutate(out)
            out = ed.to_json_data()
            if out != want:
                return "after %s changing an export changed the next export: %s" % (op, diff(want, out))
        if tables() != t0:
            return "the default tables changed: " + str(diff(t0, tables()))
        out = load(copy.deepcopy(c["doc2"])).to_json_data()
        if out != ref2:
            return "changing documents changed the export of another skeleton: " + str(diff(ref2, out))

def restore_tables(t):
    from spine_json_lib.data.data_types.base_type import SpineData
    def walk(c):
        for s in c.__subclasses__():
            if s.__name__ in t and [s.DEFAULT_VALUES, s.SPINE_3_8_DEFAULT_VALUES, s.UNSUPPORTED_VALUES_OLD_VERSION, s.REQUIRED] != t[s.__name__]:
                s.DEFAULT_VALUES, s.SPINE_3_8_DEFAULT_VALUES, s.UNSUPPORTED_VALUES_OLD_VERSION, s.REQUIRED = copy.deepcopy(t[s.__name__])
            walk(s)
    walk(SpineData)

def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc

@prop("S03")
class S03(DocProp):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        doc = g.doc()
        objs = [(k, list(p)) for k, p, o in doc_objects(doc)]
        kinds = sorted({k for k, _ in objs})
        k = rng.choice(kinds)
        kind, path = rng.choice([o for o in objs if o[0] == k])
        x = rng.random()
        if x < 0.15:
            return {"doc": doc, "path": path, "kind": kind, "attr": None, "remove": None}
        if KINDS[kind]["req"] and x < 0.45:
            return {"doc": doc, "path": path, "kind": kind, "attr": None, "remove": rng.choice(KINDS[kind]["req"])}
        req = [o for o in objs if KINDS[o[0]]["req"]]
        if x < 0.3 and req:
            kind, path = rng.choice(req)
            return {"doc": doc, "path": path, "kind": kind, "attr": None, "remove": rng.choice(KINDS[kind]["req"])}
        allf = sorted({f for q in KINDS.values() for f in q["fields"]})
        pool = allf + ["Name", "names", "foo", "x1", "c1", "c5", "_x", "scale", "get", "to_json", "DEFAULT_VALUES", "__class__", "__dict__",
                       "REQUIRED", "end", "skins", "skeleton", "attachments", "lengths2", "deforms", "offsets", " time", "time ", ""] + [s for s in lits["str"] if s]
        for _ in range(100):
            a = rng.choice(pool)
            if a not in KINDS[kind]["fields"] and not (a == "type") and not (kind == "SpineAnimationData" and a == "skeleton"):
                break
        else:
            a = "foo"
        v = rng.choice([1, None, 0, "x", [], {}, "", False, True, 1.5, copy.deepcopy(KINDS[kind]["new"].get(a))])
        return {"doc": doc, "path": path, "kind": kind, "attr": a, "val": v, "remove": None, "first": rng.random() < 0.3}
    def check(self, c):
        from spine_json_lib.data.spine_exceptions import SpineParsingException
        doc = copy.deepcopy(c["doc"])
        if c["attr"] is None and c["remove"] is None:
            load(doc)
            return None
        o = at(doc, c["path"])
        if c["remove"]:
            del o[c["remove"]]
            what = "without %r" % c["remove"]
        else:
            items = dict(o)
            if c.get("first"):
                o.clear()
            o[c["attr"]] = c["val"]
            o.update(items)
            what = "with %r" % c["attr"]
        for f in (anim_data, load):
            try:
                f(copy.deepcopy(doc))
            except SpineParsingException:
                continue
            return "%s %s at %s was accepted" % (c["kind"], what, c["path"])

def snapshot(o):
    from spine_json_lib.data.data_types.base_type import SpineData
    if isinstance(o, SpineData):
        return {"__kind__": type(o).__name__, **{k: snapshot(v) for k, v in vars(o).items()}}
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, list):
        return [snapshot(v) for v in o]
    return o

@prop("S04")
class S04(DocProp):
    def extra(self, g):
        return {"target": g.r.choice(VERSIONS + ["3.7", "3.7.94", "3.6", "3.6.9", "3.5.35", "3.0", "2.1.27", "2.10.0", "2.9.9", "0.1", "3.7.999", "2.99.99", "1.8", "0.0.1", "3.7.100"])}
    def check(self, c):
        from spine_json_lib.data.spine_version_type import SpineVersion
        for via in ("data", "raw"):
            if via == "data":
                data = anim_data(copy.deepcopy(c["doc"])).data
            else:
                from spine_json_lib.data.spine_anim_data import SpineAnimationData
                data = SpineAnimationData(data=copy.deepcopy(c["doc"]))
            before = snapshot(data)
            old = vpair(c["target"]) < (3, 8, 0)
            def expect(o):
                if isinstance(o, dict):
                    u = KINDS[o["__kind__"]]["unsup"] if "__kind__" in o and o["__kind__"] in KINDS else []
                    return {k: (None if old and k in u else expect(v)) for k, v in o.items()}
                if isinstance(o, list):
                    return [expect(x) for x in o]
                return o
            data.clean_unsupported_attributes(SpineVersion(c["target"]))
            d = diff(expect(before), snapshot(data))
            if d:
                return "after cleaning for %s: %s" % (c["target"], d)

# ------------------------------------------------------------------------------------------------ versions and names
def gen_version(rng, lits):
    pool = [0, 1, 2, 3, 7, 8, 9, 10, 36, 59, 93, 99, 100, 999, 1000, 1001, 999999, 1000000, 10 ** 7, 2 ** 31, 2 ** 32, 2 ** 63, 10 ** 20]
    pool += [abs(int(x)) for x in lits["num"] if isinstance(x, (int, float)) and abs(x) < 1e30]
    n = lambda: rng.choice(pool) if rng.random() < 0.7 else rng.randint(0, 12)
    parts = [n() for _ in range(rng.choice([2, 3]))]
    z = lambda x: ("0" * rng.choice([0, 0, 0, 0, 1])) + str(x)
    return ".".join(z(x) for x in parts)

@prop("V01")
class V01:
    def gen(self, rng, lits, size):
        vs = [gen_version(rng, lits)]
        for _ in range(2):
            if rng.random() < 0.6:           # a close relative
                p = [int(x) for x in rng.choice(vs).split(".")]
                if len(p) == 3 and rng.random() < 0.2:
                    p = p[:2]
                i = rng.randrange(len(p))
                p[i] = max(0, p[i] + rng.choice([-1, 0, 1, 0]))
                if rng.random() < 0.3:
                    j = rng.randrange(len(p))
                    p[j] = rng.choice([0, 1, 999, 1000, 10 ** 6, 10 ** 9])
                if len(p) == 2 and rng.random() < 0.4:
                    p.append(rng.choice([0, 1]))
                vs.append(".".join(map(str, p)))
            else:
                vs.append(gen_version(rng, lits))
        rng.shuffle(vs)
        return {"v": vs}
    def check(self, c):
        from spine_json_lib.data.spine_version_type import SpineVersion as S
        import operator as o
        for a, b in itertools.product(c["v"], repeat=2):
            x, y = vpair(a), vpair(b)
            for rhs in (S(b), b):
                for f in (o.lt, o.le, o.eq, o.ne, o.gt, o.ge):
                    got = f(S(a), rhs)
                    if got is not f(x, y):
                        return "SpineVersion(%r) %s %r is %r" % (a, f.__name__, b if rhs is b else "SpineVersion(%s)" % b, got)
            if hasattr(S, "__cmp__"):
                pass

@prop("V02")
class V02:
    def gen(self, rng, lits, size):
        if rng.random() < 0.5:
            return {"s": gen_version(rng, lits)}
        junk = ["", "a", "3a", "a3", "beta", "x", "3x8", ",", "v3", "0x1", "1e3", "①", "½", "١x", "*", "None", "/", "(3)", "3;", "3\x00"] + [s for s in lits["str"] if s and not re.search(r"[\s\d._+-]", s)]
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
        parts = [str(rng.choice([0, 3, 8, 10, 99, 1234567])) for _ in range(n)]
        if n in (2, 3):
            for i in rng.sample(range(n), rng.choice([1, 1, 2])):
                parts[i] = rng.choice(junk)
        elif rng.random() < 0.3:
            parts[rng.randrange(n)] = rng.choice(junk)
        return {"s": ".".join(parts)}
    def check(self, c):
        from spine_json_lib.data.spine_version_type import SpineVersion as S
        s = c["s"]
        ok = re.fullmatch(r"[0-9]+\.[0-9]+(\.[0-9]+)?", s)
        try:
            v = S(s)
        except ValueError as e:
            return "%r rejected: %s" % (s, e) if ok else None
        if not ok:
            return "%r accepted as %s" % (s, (v.major, v.minor, v.patch))
        if (v.major, v.minor, v.patch) != vpair(s) or str(v) != s or v.version != s or S.split_version(s) != vpair(s):
            return "%r parsed as %s, text %r" % (s, (v.major, v.minor, v.patch), str(v))

@prop("M01")
class M01:
    KS = ["DEFAULT", "BONE", "SLOT", "PATH", "IK", "ATTACHMENT", "IMAGE"]
    def name(self, rng, lits):
        bits = ["", "_", "a", "A", "_BONE", "BONE", "_SLOT", "_IK", "_PATH", "_IMAGE", "_ATTACHMENT", "_DEFAULT", " ", "é", "%s", "{}", "\\", "*", "0", "None", "\n", ".", "(", "x"] + lits["str"]
        return "".join(rng.choice(bits) for _ in range(rng.randint(0, 4)))
    def gen(self, rng, lits, size):
        a = self.name(rng, lits)
        b = a + rng.choice(["_" + k for k in self.KS] + ["_", ""]) if rng.random() < 0.5 else self.name(rng, lits)
        return {"a": a, "b": b, "k": rng.choice(self.KS), "l": rng.choice(self.KS)}
    def check(self, c):
        from spine_json_lib.deserializer.spine_nodes import SpineGraphParser as S
        ids = {}
        for n, k in itertools.product({c["a"], c["b"]}, {c["k"], c["l"]}):
            g = S._to_graph_id(k, n)
            if S._to_base_id(k, g) != n:
                return "%s %r -> %r -> %r" % (k, n, g, S._to_base_id(k, g))
            if g in ids:
                return "%s and %s share the id %r" % (ids[g], (k, n), g)
            ids[g] = (k, n)

def read_tags(s):
    """Independent reading of the tags of a name: (name, value) pairs."""
    out, i = [], 0
    while True:
        i = s.find("[", i)
        if i < 0:
            return out
        j = i + 1
        while j < len(s) and s[j] not in "[]":
            j += 1
        if j < len(s) and s[j] == "]":
            body = s[i + 1:j]
            if body.count(":") == 1:
                n, v = body.split(":")
                n = n.strip()
                if n and v and all(ch.isalnum() or ch in "_-" for ch in n) and all(ch.isalnum() or ch in "_." or ch.isspace() for ch in v):
                    out.append((n, v.strip()))
        i = j if j < len(s) and s[j] == "[" else j
        if i >= len(s):
            return out

@prop("T01")
class T01:
    def gen(self, rng, lits, size):
        num = lambda: rng.choice(["0", "1", "2", "0.5", ".5", "5.", "00.250", "10", "1e3", "1.0", "3.14159", "100000", "0.001"] + [str(x) for x in lits["num"] if isinstance(x, (int, float)) and x >= 0])
        val = lambda: num() if rng.random() < 0.7 else rng.choice(["", "a", "1 2", "x1", "1.2.3", ".", "true", "é", "12a"])
        sp = lambda: rng.choice(["", "", "", " ", "  "])
        def tag():
            n = rng.choice(["scale"] * 8 + ["Scale", "scal", "a-b", "x_1", "scale2", "9", "SCALE", "scale-x"] + [s for s in lits["str"] if re.fullmatch(r"[A-Za-z]+", s)])
            v = val()
            return "[%s%s%s:%s%s%s]" % (sp(), n, sp(), sp(), v or " ", sp())
        def bit():
            x = rng.random()
            if x < 0.45:
                return tag()
            return rng.choice(["arm", " ", "-", "[", "]", "[]", "[x]", ":", "[:]", "[scale]", "[scale:]", "[a:b:c]", "[scale 2]", "scale:2", "[[", "(scale:2)", "[a b:2]", "[a:-2]", "[scale:-1]", "é", "_", "[scale:1,5]", "[:2]", "[scale::2]", "[+a:2]"] + lits["str"])
        return {"name": "".join(bit() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))}
    def check(self, c):
        from spine_json_lib.utils import get_tags_from_name
        from spine_json_lib.data.data_types.bone import Bone
        from spine_json_lib.data.data_types.slot import Slot
        s = c["name"]
        tags = read_tags(s)
        want = {}
        bad = len({n for n, _ in tags}) < len(tags) or any(n != "scale" for n, _ in tags)
        if not bad and tags:
            try:
                want = {"scale": float(tags[0][1])}
            except ValueError:
                bad = True
        try:
            got = get_tags_from_name(s)
        except ValueError as e:
            return None if bad else "%r rejected: %s" % (s, e)
        if bad:
            return "%r accepted as %r" % (s, got)
        if got != want or any(type(v) is not float for v in got.values()):
            return "%r read as %r, expected %r" % (s, got, want)
        for o in (Bone({"name": s}), Slot({"name": s, "bone": "b"})):
            if o.get_scale_in_name() != want.get("scale", 1.0):
                return "%s %r has scale %r" % (type(o).__name__, s, o.get_scale_in_name())

# ------------------------------------------------------------------------------------------------ graphs
SP = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]
FORBID = {"BONE": {"ATTACHMENT"}, "SLOT": {"BONE", "PATH", "IK"}, "IK": {"PATH", "IK", "ATTACHMENT", "IMAGE"},
          "ATTACHMENT": {"PATH", "IK", "ATTACHMENT", "BONE"}, "IMAGE": {"DEFAULT", "BONE", "SLOT", "PATH", "IK", "ATTACHMENT", "IMAGE"}}

class Model:
    def __init__(self):
        self.nodes, self.edges = {}, set()

def gstate(g):
    """What can be observed of a graph: nodes, types, data and both directions of every edge."""
    return {i: (n.id, n.node_type, n.data, list(n.children), list(n.parents)) for i, n in g._nodes.items()}

def coherent(g, model):
    if list(g._nodes) != list(model.nodes):
        return "nodes %s, expected %s" % (show(list(g._nodes)), show(list(model.nodes)))
    for i, n in g._nodes.items():
        if g.get_node(i) is not n:
            return "get_node(%r) is another node" % i
        if n.id != i:
            return "node %r is filed under %r" % (n.id, i)
        if (n.node_type, n.data) != model.nodes[i]:
            return "node %r has type and data %r, expected %r" % (i, (n.node_type, n.data), model.nodes[i])
        if set(n.children) != {b for a, b in model.edges if a == i}:
            return "children of %r are %s, expected %s" % (i, sorted(n.children), sorted(b for a, b in model.edges if a == i))
        if set(n.parents) != {a for a, b in model.edges if b == i}:
            return "parents of %r are %s, expected %s" % (i, sorted(n.parents), sorted(a for a, b in model.edges if b == i))
        for d in (n.children, n.parents):
            for k, m in d.items():
                if g._nodes.get(k) is not m:
                    return "neighbour %r of %r is not the node of the graph" % (k, i)
        if i in n.children or i in n.parents:
            return "%r is its own neighbour" % i
        if n.num_children != len(n.children) or n.num_parents != len(n.parents):
            return "neighbour counts of %r are wrong" % i

def gen_gops(g, spine, n):
    r = g.r
    pool, used = [], set()
    for _ in range(r.randint(1, 5)):
        pool.append(g.fresh(used))
    pool += [str(r.randint(1, 6)) for _ in range(2)]
    ops = []
    types = SP if spine else [0, 1, "BONE", "x", None]
    for _ in range(n):
        x = r.random()
        a, b = r.choice(pool + ["1", "2", "3"]), r.choice(pool + ["1", "2"])
        if x < 0.4:
            bad = r.random() < 0.05
            ops.append(["add", 5 if bad else (r.choice(pool) if r.random() < 0.65 else None), r.choice(types), r.choice([None, {"v": r.randint(0, 9)}])])
        elif x < 0.7:
            ops.append(["edge", a, b])
        elif x < 0.8:
            ops.append(["unedge", a, b])
        elif x < 0.93:
            ops.append(["del", a])
        else:
            ops.append(["gen"])
    return ops

class GraphOps:
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        spine = rng.random() < 0.4
        return {"spine": spine, "ops": gen_gops(g, spine, rng.choice([4, 8, 16, 30]))}
    def check(self, c):
        from spine_json_lib.graph.dagraph import DAGraph
        from spine_json_lib.deserializer.spine_nodes import SpineNodeFactory
        g = DAGraph(SpineNodeFactory()) if c["spine"] else DAGraph()
        m, issued = Model(), set()
        for step, op in enumerate(c["ops"]):
            before = gstate(g)
            err = res = None
            try:
                if op[0] == "add":
                    data = copy.deepcopy(op[3])
                    res = g.add_node(node_id=op[1], node_type=op[2], node_data=data)
                elif op[0] == "edge":
                    g.add_edge(op[1], op[2])
                elif op[0] == "unedge":
                    g.remove_edge(op[1], op[2])
                elif op[0] == "del":
                    res = g.remove_node_by_id(op[1])
                else:
                    res = g.generate_unique_id()
            except Exception as e:
                err = e
            at_ = "step %d %s: " % (step, op)
            if err is not None:
                if gstate(g) != before:
                    return at_ + "raised %r and changed the graph" % err
                valid = (op[0] == "add" and (op[1] is None or isinstance(op[1], str) and op[1] not in m.nodes)
                         or op[0] == "edge" and op[1] != op[2] and {op[1], op[2]} <= set(m.nodes)
                         and not (c["spine"] and m.nodes[op[2]][0] in FORBID[m.nodes[op[1]][0]])
                         or op[0] == "unedge" and (op[1], op[2]) in m.edges
                         or op[0] == "del" and op[1] in m.nodes or op[0] == "gen")
                if valid:
                    return at_ + "raised %r" % err
                if op[0] == "add" and isinstance(op[1], str) and not isinstance(err, ValueError):
                    return at_ + "a used id raised %r" % err
            elif op[0] == "add":
                if isinstance(op[1], str) and op[1] in m.nodes:
                    return at_ + "a used id was accepted"
                if op[1] is not None and not isinstance(op[1], str):
                    return at_ + "accepted"
                if op[1] is None:
                    if res.id in m.nodes or res.id in issued:
                        return at_ + "generated id %r is not fresh" % res.id
                    issued.add(res.id)
                elif res.id != op[1]:
                    return at_ + "node got id %r" % res.id
                m.nodes[res.id] = ((0 if op[2] is None else op[2]), op[3])
                if g.get_node(res.id) is not res:
                    return at_ + "the node cannot be retrieved by its id"
            elif op[0] == "edge":
                if not {op[1], op[2]} <= set(m.nodes) or op[1] == op[2]:
                    return at_ + "accepted"
                m.edges.add((op[1], op[2]))
            elif op[0] == "unedge":
                if (op[1], op[2]) not in m.edges:
                    return at_ + "accepted"
                m.edges.discard((op[1], op[2]))
            elif op[0] == "del":
                if op[1] not in m.nodes:
                    return at_ + "accepted"
                del m.nodes[op[1]]
                m.edges = {e for e in m.edges if op[1] not in e}
                if res.id != op[1]:
                    return at_ + "returned node %r" % res.id
            else:
                if res in m.nodes or res in issued or not isinstance(res, str):
                    return at_ + "generated id %r is not fresh" % (res,)
                issued.add(res)
            w = coherent(g, m)
            if w:
                return at_ + w

@prop("G01")
class G01(GraphOps):
    pass

@prop("G02")
class G02(GraphOps):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        ops, used = [], []
        lim = rng.choice([4, 8, 12, 20, 120])
        for _ in range(rng.choice([5, 12, 25])):
            x = rng.random()
            if x < 0.35:
                i = str(rng.randint(0, lim))
                ops.append(["add", i, 0, None])
                used.append(i)
            elif x < 0.7:
                ops.append(["add", None, 0, None])
            elif x < 0.8:
                ops.append(["gen"])
            elif x < 0.9 and used:
                ops.append(["del", rng.choice(used + [str(rng.randint(0, lim))])])
            elif x < 0.95:
                ops.append(["edge", str(rng.randint(0, lim)), str(rng.randint(0, lim))])
            else:
                ops.append(["add", rng.choice(["01", "-1", "1.0", " 1", "", "a", "1 "]), 0, None])
        return {"spine": False, "ops": ops}

def build(c, types=None):
    from spine_json_lib.graph.dagraph import DAGraph
    g = DAGraph()
    for i in c["nodes"]:
        t = (c.get("types") or {}).get(i, 0)
        g.add_node(node_id=i, node_type="".join(list(t)) if isinstance(t, str) else t)
    for a, b in c["edges"]:
        g.add_edge(a, b)
    return g

def sized_graph(rng, lits, size, cyclic):
    g = Gen(rng, lits, size)
    x = rng.random()
    if x < 0.04:
        n = rng.choice([30, 60, 120, 150])
        c = {"nodes": ["n%d" % i for i in range(n)], "edges": [["n%d" % i, "n%d" % (i + 1)] for i in range(n - 1)]}
        if rng.random() < 0.5:
            rng.shuffle(c["nodes"])
        if cyclic and rng.random() < 0.5:
            c["edges"].append(["n%d" % rng.randint(n // 2, n - 1), "n%d" % rng.randint(0, n // 2 - 1)])
        return c
    return g.digraph() if cyclic else g.dag()

class Shape:
    cyclic = True
    def gen(self, rng, lits, size):
        return sized_graph(rng, lits, size, self.cyclic)

@prop("G03")
class G03(Shape):
    def check(self, c):
        g = build(c)
        before = gstate(g)
        E = [tuple(e) for e in c["edges"]]
        for got, want, w in ((g.get_heads_id(), [i for i in c["nodes"] if not any(b == i for _, b in E)], "heads"),
                             (g.get_tails_id(), [i for i in c["nodes"] if not any(a == i for a, _ in E)], "tails")):
            if sorted(got) != sorted(want):
                return "%s are %s, expected %s" % (w, show(sorted(got)), show(sorted(want)))
        if gstate(g) != before:
            return "asking changed the graph"

@prop("G04")
class G04(Shape):
    cyclic = False
    def check(self, c):
        g = build(c)
        order = g.sequential_order_of_execution()
        if sorted(order) != sorted(c["nodes"]):
            return "lists %s of nodes %s" % (show(order), show(sorted(c["nodes"])))
        pos = {i: k for k, i in enumerate(order)}
        for a, b in c["edges"]:
            if pos[a] >= pos[b]:
                return "%r comes before its parent %r in %s" % (b, a, show(order))

def has_cycle(nodes, edges):
    import collections
    ind = collections.Counter(b for _, b in {tuple(e) for e in edges})
    ch = collections.defaultdict(list)
    for a, b in {tuple(e) for e in edges}:
        ch[a].append(b)
    todo, n = [i for i in nodes if not ind[i]], 0
    while todo:
        x = todo.pop()
        n += 1
        for y in ch[x]:
            ind[y] -= 1
            if not ind[y]:
                todo.append(y)
    return n < len(nodes)

@prop("G05")
class G05(Shape):
    def gen(self, rng, lits, size):
        c = sized_graph(rng, lits, size, rng.random() < 0.6)
        c["types"] = {i: rng.choice(["INPUT_ROOT_NODE_TYPE", "INPUT_ROOT_NODE_TYPE", 0, 3, "x", "INPUT_ROOT", "ACTION_NODE_TYPE"]) for i in c["nodes"]}
        return c
    def check(self, c):
        g = build(c)
        before = gstate(g)
        for _ in range(2):
            errs = g.validate().errors
            cyc = [e for e in errs if "CIRCULAR_REFS" in e]
            un = [x for e in errs if "UNCONNECTED_NODES" in e for x in e["UNCONNECTED_NODES"]]
            want = has_cycle(c["nodes"], c["edges"])
            if bool(cyc) != want:
                return "circular references %s, but the graph has %s cycle" % (show(cyc), "a" if want else "no")
            heads = [i for i in c["nodes"] if not any(b == i for _, b in c["edges"]) and c["types"][i] != "INPUT_ROOT_NODE_TYPE"]
            if sorted(un) != sorted(heads):
                return "unconnected %s, expected %s" % (show(sorted(un)), show(sorted(heads)))
            if gstate(g) != before:
                return "validating changed the graph"

def all_paths(edges, a, b):
    ch = {}
    for x, y in {tuple(e) for e in edges}:
        ch.setdefault(x, []).append(y)
    out = []
    def go(p):
        if p[-1] == b:
            out.append(list(p))
            return
        for y in ch.get(p[-1], []):
            go(p + [y])
    go([a])
    return out

@prop("G06")
class G06:
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, min(size, 3))
        x = rng.random()
        if x < 0.2:
            n = rng.choice([18, 19, 20, 21, 22, 23, 5])
            c = {"nodes": ["n%d" % i for i in range(n)], "edges": [["n%d" % i, "n%d" % (i + 1)] for i in range(n - 1)]}
            for _ in range(rng.choice([0, 1, 2])):
                i = rng.randint(0, n - 2)
                j = rng.randint(i + 1, min(n - 1, i + 3))
                c["edges"].append(["n%d" % i, "n%d" % j])
            rng.shuffle(c["edges"])
            rng.shuffle(c["nodes"])
            c["start"], c["end"] = "n0", "n%d" % (n - 1)
        else:
            c = g.dag() if rng.random() < 0.85 else g.digraph()
            c["start"], c["end"] = (rng.choice(c["nodes"] + ["no such"]) if rng.random() < 0.1 else rng.choice(c["nodes"]) for _ in range(2))
            if rng.random() < 0.6:                     # some pair with paths
                pairs = [(a, b) for a in c["nodes"] for b in c["nodes"] if a != b]
                rng.shuffle(pairs)
                if not has_cycle(c["nodes"], c["edges"]):
                    for a, b in pairs[:20]:
                        if len(all_paths(c["edges"], a, b)) > 1:
                            c["start"], c["end"] = a, b
                            break
        R = "INPUT_ROOT_NODE_TYPE"
        heads = [i for i in c["nodes"] if not any(b == i for _, b in c["edges"])]
        c["types"] = {i: R if i in heads else rng.choice([R, 0, "x"]) for i in c["nodes"]}
        if heads and rng.random() < 0.08:
            c["types"][rng.choice(heads)] = "x"
        c["depth"] = rng.choice([None, None, 1, 2, 3, 4, 5, 20, 21, 0, 50] + [x for x in lits["num"] if isinstance(x, int) and 0 <= x < 100])
        return c
    def check(self, c):
        heads = [i for i in c["nodes"] if not any(b == i for _, b in c["edges"])]
        bad = has_cycle(c["nodes"], c["edges"]) or any(c["types"][h] != "INPUT_ROOT_NODE_TYPE" for h in heads) or not {c["start"], c["end"]} <= set(c["nodes"])
        g = build(c)
        before = gstate(g)
        kw = {} if c["depth"] is None else {"maximum_depth": c["depth"]}
        try:
            got = g.get_all_paths(c["start"], c["end"], **kw)
        except ValueError as e:
            return None if bad else "raised %r" % e
        if bad:
            return "accepted an invalid graph or an unknown node"
        lim = 20 if c["depth"] is None else c["depth"]
        want = [p for p in all_paths(c["edges"], c["start"], c["end"]) if len(p) <= lim]
        if sorted(got) != sorted(want):
            return "paths from %r to %r of at most %s nodes: %s, expected %s" % (c["start"], c["end"], lim, show(sorted(got)), show(sorted(want)))
        if gstate(g) != before:
            return "the search changed the graph"

# ------------------------------------------------------------------------------------------------ skeleton graphs
def image_of(key, a):
    return a.get("path") or a.get("name") or key

def spine_graph(doc):
    from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
    return SpineGraphParser.create_from_json_data(json_data=doc, node_factory=SpineNodeFactory())

def gmodel(doc):
    """(kind, name) nodes and edges the graph of a document must have, as ids."""
    nodes, edges = set(), set()
    gid = lambda k, n: "%s_%s" % (n, k)
    for b in doc["bones"]:
        nodes.add(gid("BONE", b["name"]))
        if b.get("parent") is not None:
            edges.add((gid("BONE", b["parent"]), gid("BONE", b["name"])))
    for s in doc["slots"]:
        nodes.add(gid("SLOT", s["name"]))
        edges.add((gid("BONE", s["bone"]), gid("SLOT", s["name"])))
        for sk in doc["skins"]:
            for key, a in (sk.get("attachments") or {}).get(s["name"], {}).items():
                nodes |= {gid("ATTACHMENT", key), gid("IMAGE", image_of(key, a))}
                edges |= {(gid("SLOT", s["name"]), gid("ATTACHMENT", key)), (gid("ATTACHMENT", key), gid("IMAGE", image_of(key, a)))}
    ike = set()
    for k in doc.get("ik") or []:
        nodes.add(gid("IK", k["name"]))
        ike |= {(gid("IK", k["name"]), gid("BONE", b)) for b in k.get("bones", [])}
        if k.get("target"):
            ike.add((gid("BONE", k["target"]), gid("IK", k["name"])))
    return nodes, edges, ike

KIND_OF = {}
def kind_of(nid):
    return nid.rsplit("_", 1)[1]

@prop("M02")
class M02(DocProp):
    def check(self, c):
        from spine_json_lib.deserializer.spine_nodes import SpineGraphParser
        from spine_json_lib.spine_graph_container import SpineGraphContainer
        doc = copy.deepcopy(c["doc"])
        for make in (spine_graph, lambda d: SpineGraphContainer(d).graph):
            g = make(doc)
            nodes, edges, ike = gmodel(c["doc"])
            if set(g._nodes) != nodes:
                return "nodes differ: %s" % show(sorted(set(g._nodes) ^ nodes))
            got = {(a, b) for a, n in g._nodes.items() for b in n.children}
            back = {(a, b) for b, n in g._nodes.items() for a in n.parents}
            if got != back:
                return "one-sided edges %s" % show(sorted(got ^ back))
            noik = {(a, b) for a, b in got if "IK" not in (g._nodes[a].node_type, g._nodes[b].node_type)}
            if noik != edges:
                return "edges differ: missing %s, extra %s" % (show(sorted(edges - noik)), show(sorted(noik - edges)))
            for i, n in g._nodes.items():
                if n.id != i or n.node_type != kind_of(i):
                    return "node %r has id %r, type %r" % (i, n.id, n.node_type)
            out = g.to_json_data(SpineGraphParser)
            for f in ("bones", "slots", "ik"):
                if out[f] != (c["doc"].get(f) or []):
                    return "%s converted back as %s" % (f, diff(c["doc"].get(f) or [], out[f]) or show(out[f]))
        if doc != c["doc"]:
            return "the document was changed: " + str(diff(c["doc"], doc))

@prop("M03")
class M03(DocProp):
    def extra(self, g):
        r = g.r
        ops = []
        for _ in range(r.randint(1, 4)):
            ops.append([r.choice(["heads", "leafs", "leafs"]), r.choice(SP)])
        return {"ops": ops}
    def check(self, c):
        from spine_json_lib.spine_graph_container import SpineGraphContainer
        s = SpineGraphContainer(copy.deepcopy(c["doc"]))
        g = s.graph
        st = {i: (n.node_type, copy.deepcopy(n.data), list(n.children), list(n.parents)) for i, n in g._nodes.items()}
        for side, kind in c["ops"]:
            got = s.remove_heads_of_type(kind) if side == "heads" else s.remove_leafs_of_type(kind)
            gone, ix = [], (3 if side == "heads" else 2)
            while True:
                lay = [i for i, n in st.items() if n[0] == kind and not n[ix]]
                if not lay:
                    break
                gone += lay
                st = {i: (n[0], n[1], [x for x in n[2] if x not in lay], [x for x in n[3] if x not in lay]) for i, n in st.items() if i not in lay}
            want = sorted(i[:-len(kind) - 1] for i in gone)
            if sorted(got) != want:
                return "removing %s of kind %s reported %s, expected %s" % (side, kind, show(sorted(got)), show(want))
            now = {i: (n.node_type, n.data, list(n.children), list(n.parents)) for i, n in g._nodes.items()}
            f = lambda q: {i: (n[0], n[1], sorted(n[2]), sorted(n[3])) for i, n in q.items()}
            if f(now) != f(st) or list(now) != list(st):
                return "after removing %s of kind %s: %s" % (side, kind, diff(f(st), f(now)))

# ------------------------------------------------------------------------------------------------ editing
@prop("E01")
class E01(DocProp):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        doc = g.doc()
        names = [a for a in (doc.get("animations") or {}) if rng.random() < 0.5]
        rng.shuffle(names)
        x = rng.random()
        strict = rng.random() < 0.6
        if x < 0.3:
            names.insert(rng.randint(0, len(names)), rng.choice(["no such", "", "A", "default"] + [n + " " for n in names]))
        elif x < 0.4 and names and not strict:
            names.append(names[0])
        if strict:
            names = list(dict.fromkeys(names))
        arg = names
        if rng.random() < 0.12:
            arg = {"notalist": rng.choice(["tuple", "str", "none", "set", "dict", "iter"]), "names": names}
        return {"doc": doc, "names": arg, "strict": strict, "safe": rng.random() < 0.5}
    def check(self, c):
        ed = load(copy.deepcopy(c["doc"]))
        before, imgs = copy.deepcopy(ed.to_json_data()), copy.deepcopy(ed.images_references)
        names = c["names"]
        kw = dict(strict_mode=c["strict"], is_safe_mode=c["safe"])
        if isinstance(names, dict):
            ns = names["names"]
            arg = {"tuple": tuple(ns), "str": ns[0] if ns else "", "none": None, "set": set(ns), "dict": {n: 1 for n in ns}, "iter": iter(ns)}[names["notalist"]]
            try:
                ed.erase_animations(arg, **kw)
            except TypeError:
                return None if ed.to_json_data() == before and ed.images_references == imgs else "the failing call changed the skeleton"
            return "a %s was accepted" % names["notalist"]
        anims = c["doc"].get("animations") or {}
        unknown = [n for n in names if n not in anims]
        try:
            res = ed.erase_animations(list(names), **kw)
        except ValueError as e:
            return None if unknown and c["strict"] else "raised %r" % e
        if unknown and c["strict"]:
            return "unknown animations %s accepted in strict mode" % unknown
        out = ed.to_json_data()
        left = [a for a in anims if a not in names]
        if list(out.get("animations") or {}) != left:
            return "animations left are %s, expected %s" % (show(list(out.get("animations") or {})), show(left))
        if res.result_data_json != out:
            return "the result differs from the export"
        if c["safe"]:
            want = N(c["doc"])
            if "animations" in want:
                want["animations"] = {a: v for a, v in want["animations"].items() if a in left}
                if not left:
                    del want["animations"]
            d = diff(want, N(out))
            if d:
                return "in safe mode more than animations changed: " + d
            if ed.images_references != imgs:
                return "in safe mode the image references changed"

def apply_order(names, offsets):
    """The runtime's reading of a draw order: moved slots at setup index + offset, the others in order around them."""
    out = [None] * len(names)
    moved = set()
    ix = {n: i for i, n in enumerate(names)}
    for o in offsets:
        t = ix[o["slot"]] + o["offset"]
        if not 0 <= t < len(names) or out[t] is not None:
            raise IndexError("offset %s of slot %r" % (o["offset"], o["slot"]))
        out[t] = o["slot"]
        moved.add(o["slot"])
    rest = iter(n for n in names if n not in moved)
    return [next(rest) if x is None else x for x in out]

def order_msg(slots, old, removed, new):
    left = [s for s in slots if s not in removed]
    want = [s for s in apply_order(slots, old) if s not in removed]
    names = [o["slot"] for o in new]
    if any(n not in left for n in names) or len(set(names)) < len(names):
        return "offsets name %s, slots left are %s" % (names, left)
    if names != [s for s in left if s in names]:
        return "offsets are not in setup order: %s" % names
    try:
        got = apply_order(left, new)
    except IndexError as e:
        return "the new offsets are invalid: %s" % e
    if got != want:
        return "the remaining slots draw as %s, expected %s" % (got, want)

@prop("E02")
class E02:
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        used = set()
        sn = [g.fresh(used) for _ in range(g.n(1, rng.choice([2, 4, 7, 9])))]
        rem = [s for s in sn if rng.random() < rng.choice([0.1, 0.3, 0.6])]
        rng.shuffle(rem)
        return {"slots": sn, "removed": rem, "keys": [dict(time=i, offsets=g.offsets(sn)) for i in range(rng.choice([1, 1, 2, 3]))],
                "as": rng.choice(["list", "frozenset", "editor"])}
    def check(self, c):
        from spine_json_lib.data.data_types.draworder import DrawOrderTimeline
        from spine_json_lib.data.data_types.animation import Animation
        from spine_json_lib.data.data_types.slot import Slot
        rem = frozenset(c["removed"]) if c["as"] == "frozenset" else list(c["removed"])
        slots = [Slot({"name": s, "bone": "root"}) for s in c["slots"]]
        an = Animation({"drawOrder": copy.deepcopy(c["keys"])})
        if c["as"] == "editor":
            doc = {"skeleton": {"spine": "3.8.99"}, "bones": [{"name": "root"}], "slots": [{"name": s, "bone": "root"} for s in c["slots"]],
                   "skins": [{"name": "default", "attachments": {}}], "animations": {"a": {"drawOrder": copy.deepcopy(c["keys"])}, "b": {"drawOrder": copy.deepcopy(c["keys"])}}}
            ed = load(doc)
            ed.remove_slots(rem, slots)
            exps = [a.get("drawOrder", []) for a in ed.to_json_data()["animations"].values()]
        else:
            an.remove_draw_order_with_ids(rem, slots)
            exps = [[{"offsets": [{"slot": o.slot, "offset": o.offset} for o in k.offsets], "time": k.time} for k in an.drawOrder]]
        if [s.name for s in slots] != c["slots"]:
            return "the list of slots was changed"
        for ks in exps:
            if len(ks) != len(c["keys"]):
                return "%d draw order keyframes of %d" % (len(ks), len(c["keys"]))
            for k, o in zip(ks, c["keys"]):
                w = order_msg(c["slots"], o["offsets"], set(c["removed"]), k.get("offsets", []))
                if w:
                    return w
                if k.get("time", 0) != o["time"]:
                    return "the time of a keyframe changed"

def visibility(doc):
    """Slots some animation may show and, per such slot, the attachments it uses; from the normalized document."""
    d = N(doc)
    slots = {s["name"]: s for s in d.get("slots", [])}
    zero = {n for n, s in slots.items() if s.get("color") is not None and int(s["color"], 16) & 0xFF == 0}
    bare = {n for n, s in slots.items() if all(s.get(a) is None for a in ("attachment", "dark", "blend", "color"))}
    shown, used = set(), set()
    for an in (doc.get("animations") or {}).values():
        tl = an.get("slots") or {}
        for n, s in slots.items():
            if n not in tl:
                if n not in zero | bare:
                    shown.add(n)
                    used.add(s.get("attachment"))
                continue
            t = tl[n]
            at_, col, two = t.get("attachment") or [], t.get("color") or [], t.get("twoColor") or []
            hiding = lambda k: k.get("name") in (None, "None")
            if not col and not two and len(at_) == 1 and hiding(at_[0]) and (at_[0].get("time") or 0) == 0:
                continue
            if n in zero and not col and not two:
                continue
            ks = {k["name"] for k in at_ if not hiding(k)} | ({s["attachment"]} if s.get("attachment") is not None else set())
            if n in bare and not ks:
                continue
            shown.add(n)
            used |= ks
    return shown, used

@prop("E03")
class E03(DocProp):
    min_anims = 1
    def extra(self, g):
        return {"how": g.r.choice(["clean", "clean", "anims", "skins"]), "pick": g.r.random()}
    def check(self, c):
        doc = c["doc"]
        ed = load(copy.deepcopy(doc))
        names = list(doc["animations"])
        cur = copy.deepcopy(doc)
        if c["how"] == "anims" and len(names) > 1:
            gone = names[int(c["pick"] * len(names))]
            del cur["animations"][gone]
            ed.erase_animations([gone])
        elif c["how"] == "skins" and len(doc["skins"]) > 1:
            import rt.props as me
            gone = doc["skins"][int(c["pick"] * len(doc["skins"]))]["name"]
            cur = erase_skin(cur, gone)
            ed.erase_skins([gone])
        else:
            ed.clean_animation()
        out = ed.to_json_data()
        return clean_msg(cur, out)

def clean_msg(doc, out):
    shown, used = visibility(doc)
    kept_slots = [s["name"] for s in out.get("slots", [])]
    keep_att = set()
    for sk in doc["skins"]:
        for slot, tab in (sk.get("attachments") or {}).items():
            for k, a in tab.items():
                if k in used or (a.get("type") == "mesh" and slot in shown):
                    keep_att.add(k)
    cnt = {}
    for sk in doc["skins"]:
        for slot, tab in (sk.get("attachments") or {}).items():
            cnt[slot] = cnt.get(slot, 0) + sum(k in keep_att for k in tab)
    want = [s["name"] for s in doc["slots"] if s["name"] in shown and cnt.get(s["name"], 0)]
    if kept_slots != want:
        return "slots left are %s, expected %s" % (show(kept_slots), show(want))
    osk = {s["name"]: s for s in out.get("skins", [])}
    for sk in doc["skins"]:
        want = {slot: {k for k in tab if k in keep_att} for slot, tab in (sk.get("attachments") or {}).items() if slot in kept_slots}
        got = {slot: set(tab) for slot, tab in (osk[sk["name"]].get("attachments") or {}).items()}
        z = lambda q: {a: sorted(b) for a, b in q.items() if b}
        if z(want) != z(got):
            return "attachments of skin %r: %s" % (sk["name"], diff(z(want), z(got)))

def strip(doc, slots, atts):
    """The normalized document with every mention of the slots and attachments taken out (draw order aside)."""
    d = copy.deepcopy(doc)
    d.setdefault("slots", [])
    for sk in d["skins"]:
        sk["attachments"] = {s: {k: v for k, v in t.items() if k not in atts} for s, t in (sk.get("attachments") or {}).items() if s not in slots}
    for s in d["slots"]:
        if s.get("attachment") in atts:
            s["attachment"] = None
    for a in (d.get("animations") or {}).values():
        if a.get("slots"):
            a["slots"] = {s: t for s, t in a["slots"].items() if s not in slots}
        if a.get("deform"):
            names = {s["name"] for s in d["skins"]}
            a["deform"] = {k: {s: {x: f for x, f in t.items() if x not in atts or k not in names} for s, t in v.items() if s not in slots} for k, v in a["deform"].items()}
    return d

def without_empty(n):
    """Drop empty tables: the property speaks of mentions, not of the shells around them."""
    if isinstance(n, dict):
        o = {k: without_empty(v) for k, v in n.items()}
        return o
    if isinstance(n, list):
        return [without_empty(v) for v in n]
    return n

def prune(n, keys=("attachments", "deform", "slots")):
    n = copy.deepcopy(n)
    for sk in n.get("skins", []):
        if "attachments" in sk:
            sk["attachments"] = {s: t for s, t in sk["attachments"].items() if t}
            if not sk["attachments"]:
                del sk["attachments"]
    for a in n.get("animations", {}).values():
        if "deform" in a:
            a["deform"] = {k: {s: t for s, t in v.items() if t} for k, v in a["deform"].items()}
            a["deform"] = {k: v for k, v in a["deform"].items() if v}
            if not a["deform"]:
                del a["deform"]
        if "slots" in a and not a["slots"]:
            del a["slots"]
        for k in a.get("drawOrder", []):
            k.pop("offsets", None)
    return n

@prop("E04")
class E04(DocProp):
    def extra(self, g):
        return {"how": g.r.choice(["clean", "slots", "attachments", "both"]), "seed": g.r.randrange(10 ** 6), "fs": g.coin()}
    def check(self, c):
        import random
        r = random.Random(c["seed"])
        doc = c["doc"]
        ed = load(copy.deepcopy(doc))
        before = copy.deepcopy(ed.to_json_data())
        sn = [s["name"] for s in doc["slots"]]
        keys = sorted({k for sk in doc["skins"] for t in (sk.get("attachments") or {}).values() for k in t})
        cast = frozenset if c["fs"] else list
        slots, atts = [], []
        if c["how"] == "clean":
            res = ed.clean_animation()
            out = ed.to_json_data()
            atts = list(res[1])
            left = [s["name"] for s in out.get("slots", [])]
            slots = [s for s in sn if s not in left]
        else:
            if c["how"] in ("slots", "both"):
                slots = [s for s in sn if r.random() < 0.4]
                orig = copy.deepcopy(ed.spine_anim_data.data.slots)
                ed.spine_anim_data.data.slots = [s for s in ed.spine_anim_data.data.slots if s.name not in slots]
                ed.remove_slots(cast(slots), orig)
            if c["how"] in ("attachments", "both"):
                atts = [k for k in keys if r.random() < 0.4]
                ed.remove_attachments(cast(atts))
            out = ed.to_json_data()
        want = strip(before, set(slots), set(atts))
        want["slots"] = [s for s in want["slots"] if s["name"] not in slots]
        if not want["slots"]:
            del want["slots"]
        d = diff(prune(N(want)), prune(N(out)))
        if d:
            return "after removing slots %s and attachments %s: %s" % (slots, atts, d)
        for name, a in (before.get("animations") or {}).items():
            for i, k in enumerate(a.get("drawOrder") or []):
                w = order_msg(sn, k.get("offsets") or [], set(slots), out["animations"][name]["drawOrder"][i].get("offsets") or [])
                if w:
                    return "draw order of %r: %s" % (name, w)

def erase_skin(doc, name):
    d = copy.deepcopy(doc)
    gone = [s for s in d["skins"] if s["name"] == name][0]
    d["skins"] = [s for s in d["skins"] if s["name"] != name]
    for sk in d["skins"]:
        for slot, tab in (sk.get("attachments") or {}).items():
            for k, a in tab.items():
                if a.get("type") == "linkedmesh" and (a.get("skin") or "default") == name:
                    m = copy.deepcopy(gone["attachments"][slot][a.get("parent") or k])
                    for f in ("name", "path", "width", "height", "color"):
                        m.pop(f, None)
                        if a.get(f) is not None:
                            m[f] = a[f]
                    tab[k] = m
    for a in (d.get("animations") or {}).values():
        if a.get("deform"):
            a["deform"].pop(name, None)
    return d

def source_is_mesh(doc, name):
    """Erasing is only specified where linked meshes take their geometry from real meshes."""
    return True

@prop("E05")
class E05(DocProp):
    def extra(self, g):
        return {"pick": g.r.random(), "missing": g.coin(0.1), "via": g.r.choice(["data", "editor", "seq"])}
    def check(self, c):
        from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
        doc = c["doc"]
        ed = load(copy.deepcopy(doc))
        names = [s["name"] for s in doc["skins"]]
        if c["missing"] or not names:
            before, imgs = copy.deepcopy(ed.to_json_data()), copy.deepcopy(ed.images_references)
            for f in (lambda: ed.spine_anim_data.data.remove_skin("no such skin"), lambda: ed.erase_skins(["no such skin"], is_safe_mode=True), lambda: ed.erase_skins(["no such skin"])):
                try:
                    f()
                except SpineJsonEditorError:
                    if ed.to_json_data() != before or ed.images_references != imgs:
                        return "the failing call changed the skeleton: %s" % diff(before, ed.to_json_data())
                    continue
                return "erasing a skin that does not exist was accepted"
            return None
        i = int(c["pick"] * len(names))
        gone = [names[i]] if c["via"] != "seq" else [names[i]] + names[:i][:1]
        want = copy.deepcopy(doc)
        for g in gone:
            want = erase_skin(want, g)
        if c["via"] == "data":
            ed.spine_anim_data.data.remove_skin(gone[0])
        else:
            ed.erase_skins(gone, is_safe_mode=True)
        out = ed.to_json_data()
        d = diff(prune_deform(N(want)), prune_deform(N(out)))
        if d:
            return "after erasing skins %s: %s" % (gone, d)

def prune_deform(n):
    n = copy.deepcopy(n)
    for a in n.get("animations", {}).values():
        if not a.get("deform", 1):
            del a["deform"]
    return n

def image_refs_msg(ed, out):
    want, scales = {}, {}
    folder = out["skeleton"].get("images", "./images/")
    bones = {b["name"]: b for b in out["bones"]}
    slots = {s["name"]: s for s in out.get("slots", [])}
    for sk in out.get("skins", []):
        for slot, tab in (sk.get("attachments") or {}).items():
            for k, a in tab.items():
                if a.get("type") != "path":
                    img = image_of(k, a)
                    want[img] = folder + ("" if not folder or folder.endswith("/") else "/") + img
                    scales.setdefault(img, set()).add(slot_scale(slot, slots, bones))
    refs = ed.images_references
    if set(refs) != set(want):
        return "image references: missing %s, extra %s" % (show(sorted(set(want) - set(refs))), show(sorted(set(refs) - set(want)))), None, None
    for i, p in want.items():
        if refs[i].get("path") != p:
            return "image %r is at %r, expected %r" % (i, refs[i].get("path"), p), None, None
    return None, scales, refs

def scale_tag(name):
    t = read_tags(name)
    return Fraction(float(t[0][1])) if t else Fraction(1)

def slot_scale(slot, slots, bones):
    s = slots[slot]
    x = scale_tag(s["name"])
    b = s["bone"]
    while b != "root":
        x *= scale_tag(b)
        b = bones[b].get("parent")
    return float(x)

@prop("E06")
class E06(DocProp):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        d = g.doc()
        return {"doc": d, "ops": gen_ops(g, d, rng.choice([0, 1, 1, 2, 3]), ("anims", "skins", "skins", "clean"))}
    def check(self, c):
        ed = load(copy.deepcopy(c["doc"]))
        w = image_refs_msg(ed, ed.to_json_data())[0]
        if w:
            return "after loading: " + w
        for op in c["ops"]:
            prev = ed.to_json_data()
            res = run_op(ed, op)
            out = ed.to_json_data()
            w = image_refs_msg(ed, out)[0]
            if w:
                return "after %s: %s" % (op, w)
            if op[0] == "skins":
                gone = {image_of(k, a) for sk in prev.get("skins", []) if sk.get("name") in op[1] for t in (sk.get("attachments") or {}).values() for k, a in t.items()}
                left = {image_of(k, a) for sk in out.get("skins", []) for t in (sk.get("attachments") or {}).values() for k, a in t.items() if a.get("type") != "path"}
                for i in res[1]:
                    if i not in gone:
                        return "%s reported %r, which no erased skin used" % (op, i)
                    if i in left:
                        return "%s reported %r, which is still used" % (op, i)

NOINH = ("noScale", "noScaleOrReflection", "onlyTranslation")
def scaled(doc, sx, sy):
    d = copy.deepcopy(doc)
    for b in d["bones"]:
        if b["name"] == "root" or b.get("transform") in NOINH:
            for f, k in (("scaleX", sx), ("scaleY", sy)):
                b[f] = (1.0 if b.get(f) is None else b[f]) * k
    return d

@prop("E07")
class E07(DocProp):
    def extra(self, g):
        f = lambda: g.r.choice([1, 2, 0.5, -1, 0.25, 1.0, 3, 0, -2, 4, 1.5, 1024] + [x for x in g.lits["num"] if isinstance(x, (int, float)) and float(x * 64).is_integer() and abs(x) < 1e6])
        return {"f": [[f(), f()] for _ in range(g.r.choice([1, 1, 2, 3]))]}
    def check(self, c):
        for b in c["doc"]["bones"]:                       # keep every product exact
            for f in ("scaleX", "scaleY"):
                if b.get(f) is not None and not float(b[f] * 64).is_integer():
                    b[f] = 0.5
        ed, want = load(copy.deepcopy(c["doc"])), c["doc"]
        imgs = copy.deepcopy(ed.images_references)
        for sx, sy in c["f"]:
            ed.scale_animation(sx, sy)
            want = scaled(want, sx, sy)
            d = diff(N(want), N(ed.to_json_data()))
            if d:
                return "after scaling by %s: %s" % ([sx, sy], d)
            if ed.to_json_data()["skeleton"] != c["doc"]["skeleton"] or ed.images_references != imgs:
                return "scaling changed the header or the image references"

@prop("E08")
class E08(DocProp):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        d = g.doc()
        return {"doc": d, "ops": gen_ops(g, d, rng.choice([1, 2, 3, 4]), ("anims", "skins", "clean", "scale", "scale"))}
    def check(self, c):
        for b in c["doc"]["bones"]:
            for f in ("scaleX", "scaleY"):
                if b.get(f) is not None and not float(b[f] * 64).is_integer():
                    b[f] = 0.5
        ed, want = load(copy.deepcopy(c["doc"])), copy.deepcopy(c["doc"])
        for op in c["ops"]:
            run_op(ed, op)
            if op[0] == "scale":
                want = scaled(want, op[1], op[2])
            out = ed.to_json_data()
            a, b = N(want), N(out)
            for f in ("bones", "ik", "transform", "path", "events"):
                d = diff(a.get(f), b.get(f), f)
                if d:
                    return "after %s: %s" % (op, d)
            if want.get("events") and list(want["events"]) != list(out.get("events", [])):
                return "after %s: events reordered" % (op,)
            if out["skeleton"] != c["doc"]["skeleton"]:
                return "after %s: header changed" % (op,)
            sa, sb = {s["name"]: s for s in a.get("slots", [])}, b.get("slots", [])
            names = [s["name"] for s in sb]
            if names != [n for n in sa if n in names]:
                return "after %s: slots reordered: %s" % (op, names)
            for s in sb:
                w = dict(sa[s["name"]])
                w.pop("attachment", None)
                s = {k: v for k, v in s.items() if k != "attachment"}
                d = diff(w, s, "slot " + s["name"])
                if d:
                    return "after %s: %s" % (op, d)

def near(a, b):
    """Equal but for the rounding of products taken in another order."""
    return a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))

@prop("E09")
class E09(DocProp):
    def gen(self, rng, lits, size):
        g = Gen(rng, lits, size)
        return {"doc": g.doc()}
    def check(self, c):
        ed = load(copy.deepcopy(c["doc"]))
        out = ed.to_json_data()
        bones, slots = {b["name"]: b for b in out["bones"]}, {s["name"]: s for s in out.get("slots", [])}
        data = ed.spine_anim_data.data
        for s in slots:
            got, want = data.get_slot_custom_scale(data.get_slot(s)), slot_scale(s, slots, bones)
            if not near(got, want):
                return "slot %r has custom scale %r, expected %r" % (s, got, want)
        w, scales, refs = image_refs_msg(ed, out)
        if w:
            return None                        # E06's business
        for i, ss in scales.items():
            got = refs[i].get("scale", None)
            if got is None and not any(near(1.0, x) for x in ss) or got is not None and (got == 1.0 or not any(near(got, x) for x in ss)):
                return "image %r carries scale %r, its slots have %s" % (i, got, sorted(ss))

@prop("F01")
class F01(DocProp):
    def extra(self, g):
        r = g.r
        nm = lambda: r.choice(["o.json", "out", "a b.json", "é.json", "x.y.json", ".hidden", "skeleton.json"])
        return {"rel": "/".join([r.choice(["d", "sub", "x.y", "é", "a b", "deep"]) for _ in range(r.choice([0, 0, 1, 2, 3]))] + [nm()]),
                "form": r.choice(["rel", "abs", "dot"]), "mkdir": g.coin(0.3), "exists": g.coin(0.3), "bytes": r.choice([0, 10, 100000]),
                "ops": gen_ops(g, {"animations": {}, "skins": []}, 1, ("scale", "clean", "export"))}
    def check(self, c):
        tmp, cwd = tempfile.mkdtemp(prefix="f01_"), os.getcwd()
        try:
            os.chdir(tmp)
            return self._check(c, tmp)
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
    def _check(self, c, tmp):
        from spine_json_lib.spine_animation_editor import SpineAnimationEditor
        ed = load(copy.deepcopy(c["doc"]))
        for op in c["ops"]:
            run_op(ed, op)
        for i, (save, want) in enumerate(((ed.to_json, ed.to_json_data()), (ed.save_images_json, copy.deepcopy(ed.images_references)))):
            rel = c["rel"] if i == 0 else "/".join("i" + x for x in c["rel"].split("/"))
            path = {"rel": rel, "abs": os.path.join(tmp, rel), "dot": os.path.join(".", rel)}[c["form"]]
            d = os.path.dirname(rel)
            if d and (c["mkdir"] or c["exists"]):
                os.makedirs(d, exist_ok=True)
            if c["exists"]:
                with open(rel, "w") as f:
                    f.write("x" * c["bytes"])
            save(path)
            with open(os.path.join(tmp, rel)) as f:
                text = f.read()
            try:
                got = json.loads(text)
            except ValueError as e:
                return "%r does not hold JSON: %s" % (path, e)
            if got != want:
                return "%r does not hold the exported data: %s" % (path, diff(want, got))
            if i == 0:
                back = SpineAnimationEditor.from_json_file(path).to_json_data()
                if back != want:
                    return "loading %r again exports another document: %s" % (path, diff(want, back))
