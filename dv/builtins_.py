"""Names of the language and of the libraries the program uses, as the verifier knows them."""
class Builtin:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<%s>" % self.name
EXC = {"BaseException": [], "Exception": ["BaseException"], "ValueError": ["Exception"], "TypeError": ["Exception"], "KeyError": ["LookupError"],
       "IndexError": ["LookupError"], "LookupError": ["Exception"], "AttributeError": ["Exception"], "NotImplementedError": ["RuntimeError"],
       "RuntimeError": ["Exception"], "OSError": ["Exception"], "FileNotFoundError": ["OSError"], "FileExistsError": ["OSError"], "IsADirectoryError": ["OSError"], "NotADirectoryError": ["OSError"], "ZeroDivisionError": ["ArithmeticError"],
       "ArithmeticError": ["Exception"], "StopIteration": ["Exception"], "RecursionError": ["RuntimeError"], "AssertionError": ["Exception"]}
def exc_ancestors(n):
    out = [n]
    for b in EXC.get(n, []):
        out += exc_ancestors(b)
    return out
class ExcType:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<exception %s>" % self.name
NAMES = {n: Builtin(n) for n in ("len isinstance issubclass type str int float bool list dict set frozenset tuple range enumerate zip sorted "
         "reversed filter map print getattr hasattr setattr any all min max sum super object abs round open iter next id property classmethod staticmethod repr").split()}
NAMES.update({n: ExcType(n) for n in EXC})
NAMES.update({"True": True, "False": False, "None": None, "NotImplemented": Builtin("NotImplemented"), "__name__": "module"})
