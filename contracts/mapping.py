"""M01: graph ids (spine_json_lib/deserializer/spine_nodes.py)"""
import z3
from dv import smt
from dv.smt import V, Int, Bool, Str, And, Or, Not, If, Implies
from dv.core import *

TRUST = ["str.format with '{}' fields inserts the text, str.endswith and slicing behave as documented (Python)"]

def prove_M01(P):
    P.functions |= {"SpineGraphParser._to_graph_id", "SpineGraphParser._to_base_id", "SpineNodeData.__init__"}
    P.trusted += TRUST
    kinds = sorted(P.vm().cls("deserializer.spine_nodes", "NodeType").members)
    P.add("the kinds of skeleton elements are declared", {"BONE", "SLOT", "PATH", "IK", "ATTACHMENT", "IMAGE"} <= set(kinds), str(kinds))
    S = "deserializer.spine_nodes"
    name, name2 = z3.String("name"), z3.String("name2")
    for k in kinds:
        vm = P.vm()
        to, back = vm.fn(S, "SpineGraphParser._to_graph_id"), vm.fn(S, "SpineGraphParser._to_base_id")
        P.run("%s: name -> graph id -> name" % k, vm,
              lambda: vm.call(back, [k, vm.call(to, [k, name], {})], {}),
              lambda vm, out: [("gives the name unchanged", vm.eq(out[1], name) if out[0] == "normal" else False)])
        kind = vm.cls(S, "NodeType").members[k]
        P.run("%s: graph node" % k, vm,
              lambda: (vm.construct(vm.cls(S, "SpineNodeData"), [vm.new_list([]), kind, name], {}), vm.call(to, [k, name], {})),
              lambda vm, out: [("is filed under the graph id of its name", vm.eq(vm.getattr(out[1][0], "node_id"), out[1][1]) if out[0] == "normal" else False)])
        for k2 in kinds:
            if k2 < k: continue
            P.run("%s, %s: equal graph ids" % (k, k2), vm,
                  lambda: (vm.call(to, [k, name], {}), vm.call(to, [k2, name2], {})),
                  lambda vm, out: [("only for the same kind and name", Implies(vm.eq(*out[1]), And(z3.BoolVal(k == k2), name == name2)) if out[0] == "normal" else False)])
