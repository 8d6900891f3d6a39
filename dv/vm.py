"""The verifier's machine: evaluator, loops, program state."""
from dv.interp import *
from dv.evalx import EvalMixin
from dv.loops import LoopMixin
from dv.strs import StrMixin, RegexV, MatchV

class VM(StrMixin, LoopMixin, EvalMixin, Interp):
    carried = LoopMixin.carried
    def __init__(self, program=None):
        Interp.__init__(self, program)
        self.qstack = ["?"]
        self.accs, self.inplace = {}, set()
        for f in sorted(self.prog.files): self.module(f)
        for m in list(self.mods.values()):
            for n, v in list(m.env.items()):
                try:
                    if isinstance(v, LazyGlobal): self.glob(m, n)
                    elif isinstance(v, ClassV):
                        for a in v.attrs.values():
                            if isinstance(a, LazyGlobal): self.cls_attr(a, v)
                except Unsupported: pass
        self.st.heap.update(self.static)
    def fn(self, mod, qual):
        """The function object for a qualified name of the program."""
        m = self.module("spine_json_lib." + mod)
        parts = qual.split(".")
        v = m.env[parts[0]]
        if isinstance(v, LazyGlobal): v = self.glob(m, parts[0])
        for p in parts[1:]:
            v, _ = v.find(p)
        while isinstance(v, (StaticV, PropV, ClsMethV)): v = v.f
        return v
    def cls(self, mod, name):
        return self.module("spine_json_lib." + mod).env[name]
