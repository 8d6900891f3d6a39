"""Saving and loading (F01), over a ghost file system: folders and files by name, as the contracts of open, os and json describe it."""
from contracts.data import *
from contracts.editor import ED, Ed
from dv.source import ClassV
from dv.builtins_ import ExcType
from dv.core import Poison

DIRNAME = z3.Function("dirname", V, V)
ABOVE = z3.Function("isAbove", V, V, Bool)          # a folder is in the path of another
NOFILE = lit("")

class FileH:
    """An open file: its name, its mode, and the cell of the ghost state that holds what was written."""
    def __init__(self, path, mode, cell): self.path, self.mode, self.cell = path, mode, cell
class TextV:
    """The JSON text of a document."""
    def __init__(self, doc): self.doc = doc

class Files:
    """The ghost file system.  In the heap: {dirs: set of names, files: name -> document}."""
    def __init__(self, W):
        self.vm = vm = W.vm
        self.isdir0, self.isfile0, self.doc0 = z3.Function("isdir", V, Bool), z3.Function("isfile", V, Bool), z3.Function("holds", V, V)
        self.fs = vm.alloc(Rec(ClassV("file system", None, None), {"dirs": SetC(lambda x: self.isdir0(x)), "files": DictC({}, lambda k: self.isfile0(k), lambda k: self.doc0(k), order=("files",))}))
        v = bvar("v", V)
        vm.assume(ForAll([v], smt.kind(DIRNAME(v)) == smt.K_STR, [DIRNAME(v)]))
        vm.assume(And(Not(self.isdir0(NOFILE)), Not(self.isfile0(NOFILE)), ForAll([v], Not(And(self.isdir0(v), self.isfile0(v))), [self.isdir0(v)])))
        for n in ("open", "json.dump", "json.dumps", "json.load", "json.loads", "os.path.dirname", "os.path.isdir", "os.path.exists", "os.path.isfile", "os.makedirs", "os.mkdir"):
            vm.contracts[n] = getattr(self, n.replace(".", "_").replace("open", "open_"))
        vm.contracts["os.path.split"] = vm.contracts["os.path.abspath"] = self.unknown
        vm.with_rule = self.with_rule
        old = vm.method
        vm.method = lambda o, m, a, kw: self.method(o, m, a, kw) if isinstance(o, FileH) else old(o, m, a, kw)
    def unknown(self, vm, f, args, kw): raise Unsupported("a library function about files that has no contract")
    def get(self, a): return self.vm.st.heap[self.fs.addr].fields[a]
    def put(self, a, c):
        r = self.vm.st.heap[self.fs.addr]
        self.vm.log_write(self.fs.step(("f", a)), "slot")
        self.vm.st.heap[self.fs.addr] = Rec(r.cls, dict(r.fields, **{a: c}))
    def name(self, x):
        x = toV(x)
        if not self.vm.entails(smt.kind(x) == smt.K_STR): raise Unsupported("a file name that is no text")
        return x
    def isdir(self, p): return pick(self.get("dirs"), lambda c: c.mem(p))
    def isfile(self, p): return pick(self.get("files"), lambda c: b2(c.has(p)))
    def one(self, args, kw, n): return args[0] if args else kw[n]
    # os
    def os_path_dirname(self, vm, f, args, kw): return DIRNAME(self.name(self.one(args, kw, "p")))
    def os_path_isdir(self, vm, f, args, kw): return self.isdir(self.name(self.one(args, kw, "s")))
    def os_path_isfile(self, vm, f, args, kw): return self.isfile(self.name(self.one(args, kw, "path")))
    def os_path_exists(self, vm, f, args, kw):
        p = self.name(self.one(args, kw, "path"))
        return Or(self.isdir(p), self.isfile(p))
    def raise_if(self, cond, what):
        if self.vm.choose(cond): raise PyExc(ExcType(what))
    def os_makedirs(self, vm, f, args, kw):
        a = dict(zip(("name", "mode", "exist_ok"), args), **kw)
        p = self.name(a["name"])
        ok = a.get("exist_ok", False)
        if not isinstance(ok, bool): raise Unsupported("exist_ok")
        self.raise_if(p == NOFILE, "FileNotFoundError")
        if not ok: self.raise_if(self.isdir(p), "FileExistsError")
        self.raise_if(self.isfile(p), "FileExistsError")
        v = bvar("v", V)
        self.raise_if(Exists([v], And(ABOVE(v, p), self.isfile(v))), "NotADirectoryError")
        old = self.get("dirs")
        self.put("dirs", SetC(lambda x, old=old, p=p: Or(pick(old, lambda c: c.mem(x)), x == p, ABOVE(x, p))))
    def os_mkdir(self, vm, f, args, kw):
        p = self.name(self.one(args, kw, "path"))
        self.raise_if(p == NOFILE, "FileNotFoundError")
        self.raise_if(Or(self.isdir(p), self.isfile(p)), "FileExistsError")
        self.raise_if(And(DIRNAME(p) != NOFILE, Not(self.isdir(DIRNAME(p)))), "FileNotFoundError")
        old = self.get("dirs")
        self.put("dirs", SetC(lambda x, old=old, p=p: Or(pick(old, lambda c: c.mem(x)), x == p)))
    # files
    def open_(self, vm, f, args, kw):
        a = dict(zip(("file", "mode", "buffering", "encoding"), args), **kw)
        p, mode = self.name(a.pop("file")), a.pop("mode", "r")
        if a.pop("encoding", None) not in (None, "utf-8", "utf8", "UTF-8"): raise Unsupported("encoding of a file")
        if not isinstance(mode, str) or set(a) - {"newline"}: raise Unsupported("open")
        mode = mode.replace("t", "")
        if mode == "r":
            self.raise_if(Not(self.isfile(p)), "FileNotFoundError")
            return FileH(p, "r", None)
        if mode == "a":
            self.raise_if(self.isdir(p), "IsADirectoryError")
            self.raise_if(And(DIRNAME(p) != NOFILE, Not(self.isdir(DIRNAME(p)))), "FileNotFoundError")
            if vm.choose(self.isfile(p)): return FileH(p, "w", vm.alloc(Rec(ClassV("file", None, None), {"doc": Poison("what was there, and more")})))
            mode = "w"
        if mode not in ("w", "x"): raise Unsupported("a file opened for %r" % mode)
        if mode == "x": self.raise_if(Or(self.isfile(p), self.isdir(p)), "FileExistsError")
        self.raise_if(self.isdir(p), "IsADirectoryError")
        self.raise_if(And(DIRNAME(p) != NOFILE, Not(self.isdir(DIRNAME(p)))), "FileNotFoundError")
        self.commit(p, Poison("nothing was written"))
        return FileH(p, "w", vm.alloc(Rec(ClassV("file", None, None), {"doc": Poison("nothing was written")})))
    def commit(self, p, doc):
        old = self.get("files")
        self.put("files", DictC({}, lambda k, old=old, p=p: Or(pick(old, lambda c: b2(c.has(k))), k == p),
                                lambda k, old=old, p=p: doc if k is p or z3.eq(toV(k), p) else self.other(k, p, old), order=("files",)))
    def other(self, k, p, old):
        if not self.vm.entails(toV(k) != p): raise Unsupported("which file it is")
        return pick(old, lambda c: c.get(k))
    def written(self, h, doc):
        if h.mode != "w": raise Unsupported("a file opened for reading is written")
        old = self.vm.st.heap[h.cell.addr]
        if "closed" in old.fields: raise PyExc(ExcType("ValueError"))
        d = old.fields["doc"]
        first = isinstance(d, Poison) and d.why == "nothing was written"
        self.vm.st.heap[h.cell.addr] = Rec(old.cls, {"doc": doc if first else Poison("written twice")})
    def close(self, h):
        if h.mode != "w": return
        old = self.vm.st.heap[h.cell.addr]
        if "closed" in old.fields: return
        self.vm.st.heap[h.cell.addr] = Rec(old.cls, dict(old.fields, closed=True))
        self.commit(h.path, old.fields["doc"])
    def with_rule(self, vm, v):
        if not isinstance(v, FileH): raise Unsupported("with")
        return v, lambda: self.close(v)
    def method(self, h, m, a, kw):
        if m == "close": return self.close(h)
        if m == "write" and len(a) == 1 and isinstance(a[0], TextV): return self.written(h, a[0].doc)
        if m == "read" and not a and h.mode == "r": return TextV(self.held(h))
        if m == "flush": return None
        raise Unsupported("file.%s" % m)
    def held(self, h): return pick(self.get("files"), lambda c: c.get(h.path))
    # json
    def options(self, kw):
        if set(kw) - {"indent", "sort_keys", "ensure_ascii", "separators", "check_circular"} or kw.get("separators") not in (None, (",", ":"), (", ", ": "), (",", ": ")) or kw.get("ensure_ascii", True) is not True:
            raise Unsupported("options of JSON")
    def document(self, x):
        """A copy of what a value holds."""
        vm = self.vm
        if isinstance(x, Loc):
            l, c = vm.canon(x)
            vm.log_read(l, True)
            return vm.snapshot(c)
        return x
    def json_dump(self, vm, f, args, kw):
        a = dict(zip(("obj", "fp"), args), **kw)
        o, h = a.pop("obj"), a.pop("fp")
        self.options(a)
        if not isinstance(h, FileH): raise Unsupported("json.dump")
        self.written(h, self.document(o))
    def json_dumps(self, vm, f, args, kw):
        self.options(kw)
        return TextV(self.document(args[0]))
    def parsed(self, c):
        if isinstance(c, Poison): raise Unsupported("a file that holds no document")
        return self.vm.alloc(c) if isinstance(c, STRUCT) and not isinstance(c, Ref) else c
    def json_load(self, vm, f, args, kw):
        if kw or len(args) != 1 or not isinstance(args[0], FileH) or args[0].mode != "r": raise Unsupported("json.load")
        return self.parsed(self.held(args[0]))
    def json_loads(self, vm, f, args, kw):
        if kw or len(args) != 1 or not isinstance(args[0], TextV): raise Unsupported("json.loads")
        return self.parsed(args[0].doc)

def b2(x): return (T if x else F) if isinstance(x, bool) else x
def pick(c, f):
    if isinstance(c, IteC):
        x, y = pick(c.a, f), pick(c.b, f)
        return If(c.c, x, y) if isinstance(x, z3.BoolRef) else mk_ite(c.c, x, y)
    return f(c)

def writable(fs, p):
    """No folder has the name; its folder is there, or can be made, or none is named."""
    d, v = DIRNAME(p), bvar("v", V)
    return And(smt.kind(p) == smt.K_STR, p != NOFILE, Not(fs.isdir0(p)),
               Or(d == NOFILE, fs.isdir0(d), And(Not(fs.isfile0(d)), ForAll([v], Implies(ABOVE(v, d), Not(fs.isfile0(v)))))),
               ForAll([v], Implies(And(d != NOFILE, fs.isdir0(d), ABOVE(v, d)), fs.isdir0(v))),      # a folder is in folders
               ForAll([v], Implies(Or(v == p, fs.isfile0(v)), And(v != d, Not(ABOVE(v, d))))))

def prove_save(P, fn, what):
    W = Ed(P)
    vm = W.vm
    W.contract_export()
    fs = Files(W)
    p = z3.Const("path", V)
    vm.assume(writable(fs, p))
    d = DIRNAME(p)
    f = vm.fn(ED, "SpineAnimationEditor." + fn)
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        want = W.whole_export(vm.load(W.data)) if what == "export" else W.refs0
        held = pick(fs.get("files"), lambda c: c.get(p))
        k = fresh("name", V)
        g = [("the file is there", fs.isfile(p))]
        g.append(("it holds what the export returns", F if isinstance(held, Poison) else A.f(held, want)))
        g.append(("no other file appears or goes", Implies(k != p, fs.isfile(k) == fs.isfile0(k))))
        vm.assume(k != p)
        g.append(("no other file changes", A.f(pick(fs.get("files"), lambda c: c.get(k)), fs.doc0(k))))
        g.append(("only its folder is made, when it is missing", fs.isdir(k) == Or(fs.isdir0(k), And(d != NOFILE, Not(fs.isdir0(d)), Or(k == d, ABOVE(k, d))))))
        ed = vm.st.heap[W.ed.addr]
        g += [("the editor is unchanged: " + a, A.f(ed.fields[a], W.ed0.fields[a])) for a in W.ed0.fields] + [("the references are unchanged", A.f(A.at(W.refs), W.refs0))]
        return g + W.unchanged()
    P.functions |= {"SpineAnimationEditor." + fn, "SpineAnimationEditor.to_json_data"} if what == "export" else {"SpineAnimationEditor." + fn}
    P.run("%s(path)" % fn, vm, lambda: vm.inline(f, [W.ed, p], {}), post)
    P.note(P.last)

def prove_load(P):
    W = Ed(P)
    vm = W.vm
    fs = Files(W)
    p = z3.Const("path", V)
    vm.assume(And(smt.kind(p) == smt.K_STR, fs.isfile0(p)))
    made = []
    def make(vm, cls, args, kw):
        made.append((list(args), dict(kw)))
        return W.ed
    vm.contracts["SpineAnimationEditor"] = make
    f = vm.fn(ED, "SpineAnimationEditor.from_json_file")
    def run():
        made.clear()
        return vm.inline(f, [p], {})
    def post(vm, out):
        if out[0] != "normal": return [("ends normally, not %r" % (out[1],), F)]
        A = Agree(vm)
        x = made[0][0][0] if made and made[0][0] else made[0][1].get("json_data") if made else None
        k = fresh("name", V)
        return [("one editor is made", T if len(made) == 1 else F), ("and returned", T if isinstance(out[1], Loc) and out[1].addr == W.ed.addr else F),
                ("from the document that the file holds", F if x is None else A.f(x, fs.doc0(p))),
                ("no file changes", And(fs.isfile(k) == fs.isfile0(k), A.f(pick(fs.get("files"), lambda c: c.get(k)), fs.doc0(k)))), ("no folder is made", fs.isdir(k) == fs.isdir0(k))]
    P.functions.add("SpineAnimationEditor.from_json_file")
    P.run("from_json_file(path)", vm, run, post)
    P.note(P.last)

def tasks_F01():
    return [("to_json", lambda P: prove_save(P, "to_json", "export")), ("save_images_json", lambda P: prove_save(P, "save_images_json", "references")), ("from_json_file", prove_load)]
