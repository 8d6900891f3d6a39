"""The program under verification: the ASTs of /repo's current source, mechanically read on every run, nothing dropped."""
import ast, os
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "spine_json_lib")

class FuncDef:
    def __init__(self, node, module, cls, qual):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual
    def __repr__(self):
        return "FuncDef(%s)" % self.qual

class ClassV:
    """A class of the program."""
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.attrs, self.is_enum, self.members = [], {}, False, {}
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out
    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None
    def subclass_of(self, other):
        return other in self.mro()
    def exc_names(self):
        out = [c.name for c in self.mro()]
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out
    def __repr__(self):
        return "<class %s>" % self.name

class ModuleV:
    def __init__(self, name, env=None):
        self.name, self.env = name, env if env is not None else {}
    def __repr__(self):
        return "<module %s>" % self.name

class Program:
    def __init__(self, root=None):
        self.root = root or PKG
        self.trees, self.files = {}, {}
        for d, dirs, fs in os.walk(self.root):
            dirs[:] = [x for x in dirs if x not in ("test", "tests", "__pycache__")]
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(self.root))[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.files[rel] = p
    def tree(self, mod):
        if mod not in self.trees:
            with open(self.files[mod]) as f:
                self.trees[mod] = ast.parse(f.read())
        return self.trees[mod]
