"""Abstract models of Python's builtins and of the library functions the package uses."""
import ast

import lark

from . import regex
from .lark_models import LarkModels
from .vals import *  # noqa
from .vals import Entity, Cell

BUILTIN_TYPES = {
    "object": None, "type": "object", "int": "object", "bool": "int", "float": "object",
    "str": "object", "bytes": "object", "list": "object", "tuple": "object", "dict": "object",
    "set": "object", "frozenset": "object", "function": "object", "module": "object",
    "NoneType": "object", "slice": "object", "range": "object", "BaseException": "object",
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "NameError": "Exception", "AssertionError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "RecursionError": "RuntimeError", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OSError": "Exception", "ImportError": "Exception", "UnicodeError": "ValueError", "complex": "object",
    "property": "object", "Enum": "object", "ABC": "object", "ABCMeta": "type", "deque": "object",
}
BUILTIN_ORDER = [
    "object", "type", "int", "bool", "float", "complex", "str", "bytes", "list", "tuple", "dict", "set",
    "frozenset", "function", "module", "NoneType", "slice", "range", "BaseException", "Exception",
    "ValueError", "TypeError", "LookupError", "KeyError", "IndexError", "AttributeError",
    "NameError", "AssertionError", "RuntimeError", "NotImplementedError", "StopIteration",
    "RecursionError", "ArithmeticError", "ZeroDivisionError", "OSError", "ImportError", "UnicodeError",
    "property", "Enum", "ABC", "ABCMeta", "deque",
]
HIDDEN = {"function", "module", "NoneType", "Enum", "ABC", "ABCMeta", "deque", "property"}
BUILTIN_FUNCS = (
    "len isinstance issubclass all any map filter zip enumerate reversed sorted sum min max iter next "
    "getattr hasattr setattr delattr dir vars hash id print callable super abs format ord chr repr "
    "property classmethod staticmethod divmod round pow open exec eval input __import__"
).split()

METHODS = {
    "list": "append extend insert pop remove index count reverse sort copy clear __contains__ __len__ __getitem__ __iter__ __eq__ __init__",
    "deque": "append extend insert pop remove index count reverse copy clear popleft appendleft extendleft __contains__ __len__",
    "iter": "__next__ __iter__ send close",
    "dict": "get setdefault pop items keys values update copy clear popitem __contains__ __len__ __getitem__ __setitem__ __delitem__ __iter__ __eq__",
    "set": "add discard remove update union intersection difference issubset issuperset copy pop isdisjoint clear symmetric_difference __contains__ __len__ __iter__ __or__ __and__ __sub__ __eq__ difference_update intersection_update",
    "tuple": "index count __contains__ __len__ __getitem__ __iter__ __eq__ __add__ __hash__",
    "str": "join format startswith endswith upper lower strip lstrip rstrip isupper islower split rsplit replace isidentifier isalpha isdigit isalnum isspace title capitalize encode index find count partition rpartition removeprefix removesuffix splitlines __contains__ __len__ __eq__ __add__ __hash__ __str__ zfill ljust rjust center swapcase casefold",
    "int": "bit_length __add__ __eq__ __bool__ __hash__",
}
METHODS = {k: set(v.split()) for k, v in METHODS.items()}
METHODS["frozenset"] = METHODS["set"] - {"add", "discard", "remove", "update", "pop", "clear"} | {"__hash__"}

BINOPS = {
    "Add": "add", "Sub": "sub", "Mult": "mul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
    "RShift": "rshift", "LShift": "lshift", "Mod": "mod", "FloorDiv": "floordiv", "Div": "truediv",
    "Pow": "pow", "MatMult": "matmul",
}
CMPS = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
STR_OPS = {"str", "repr", "strmeth", "repr_addr", "clsname", "strcat"}
OBJECT_ATTRS = {
    "__init__", "__new__", "__hash__", "__eq__", "__ne__", "__str__", "__repr__", "__getstate__",
    "__setattr__", "__delattr__", "__getattribute__", "__class__", "__doc__", "__dict__", "__reduce__",
    "__reduce_ex__", "__init_subclass__", "__module__", "__format__", "__dir__", "__sizeof__",
    "__subclasshook__",
}


class Models(LarkModels):
    """Mixin of the interpreter."""

    def setup_builtins(self):
        self.builtin_cls = {}
        self.classes = []
        for n in BUILTIN_ORDER:
            b = BUILTIN_TYPES[n]
            self.builtin_cls[n] = Cls(
                n, [self.builtin_cls[b]] if b else [], {}, None, "builtins", None, True
            )
        bc = self.builtin_cls
        bc["ABC"].meta = bc["ABCMeta"]
        bc["EnumMeta"] = Cls("EnumMeta", [bc["type"]], {}, None, "enum", None, True)
        bc["Enum"].meta = bc["EnumMeta"]
        self.ext_classes = {
            "abc.ABC": bc["ABC"], "abc.ABCMeta": bc["ABCMeta"], "enum.Enum": bc["Enum"],
            "collections.deque": bc["deque"], "collections.OrderedDict": bc["dict"],
            "enum.EnumMeta": bc["EnumMeta"],
        }
        self.ext_cls_cache = {}
        self.holes = {}
        self.setup_lark()
        self.dunder_names = set()

    def builtin_name(self, name):
        if name in self.builtin_cls and name not in HIDDEN:
            return self.builtin_cls[name]
        if name in BUILTIN_FUNCS:
            return Ext("builtins." + name)
        if name == "NotImplemented":
            return NOTIMPL
        if name == "Ellipsis":
            return K(Ellipsis)
        if name == "__debug__":
            return TRUE
        return None

    def ext_module(self, name):
        return Ext(name)

    def ext_attr(self, m, attr):
        full = f"{m.name}.{attr}"
        if full in self.ext_classes:
            return self.ext_classes[full]
        if m.name == "builtins":
            r = self.builtin_name(attr)
            if r is not None:
                return r
        return Ext(full)

    def as_class(self, v):
        """Base of a class statement."""
        if isinstance(v, Cls):
            return v
        if isinstance(v, Ext):
            if v.name.startswith("typing."):
                if v.name in ("typing.NamedTuple",):
                    raise Undecided("NamedTuple")
                return None
            c = self.ext_cls_cache.get(v.name)
            if c is None:
                c = Cls(v.name, [self.builtin_cls["object"]], {}, None, None, None, True)
                c.external = True
                self.ext_cls_cache[v.name] = c
            return c
        if isinstance(v, App):
            return None
        raise Undecided(f"base class {v!r}", self.where)

    # ------------------------------------------------------------ typing of values

    def is_str(self, b):
        if isinstance(b, K):
            return isinstance(b.value, str)
        if isinstance(b, Str):
            return True
        if isinstance(b, App):
            return b.op in STR_OPS
        if isinstance(b, Sym):
            return b.cls is not None and b.cls.sub(self.builtin_cls["str"])
        return False

    def class_of(self, b, st):
        """Exact class, or None if unknown."""
        bc = self.builtin_cls
        if isinstance(b, B):
            return bc["bool"]
        if isinstance(b, K):
            n = type(b.value).__name__
            return bc.get(n)
        if isinstance(b, Tup):
            return bc["tuple"]
        if isinstance(b, FSet):
            return bc["frozenset"]
        if isinstance(b, Str):
            return bc["str"]
        if isinstance(b, App) and b.op in STR_OPS:
            return bc["str"]
        if isinstance(b, App) and b.op == "exc":
            return b.args[0]
        if isinstance(b, App) and b.op == "__dict__":
            return bc["dict"]
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                return r.cls
            if isinstance(r, HList):
                return bc["list"] if r.kind == "list" else (bc["deque"] if r.kind == "deque" else None)
            if isinstance(r, HMap):
                return bc[r.kind]
        if isinstance(b, New):
            return b.cls
        if isinstance(b, EnumM):
            return b.cls
        if isinstance(b, Cls):
            return b.meta or bc["type"]
        if isinstance(b, (Fn, Bound, Part, Dispatch, BMeth)):
            return bc["function"]
        if isinstance(b, Sym) and b.exact:
            return b.cls
        return None

    def concrete_subs(self, c):
        return [k for k in self.classes if k.sub(c)]

    def never(self, c, kinds):
        """Can a value that is of none of the kinds not be of class c either?  An intermediate class that is not
        instantiated itself is covered by its subclasses."""
        if any(c.sub(k) for k in kinds):
            return True
        subs = [k for k in self.classes if k.sub(c) and k is not c]
        if not subs or not (c.name.startswith("_") or self.abstract_methods(c)):
            return False
        return all(
            any(k.sub(n) for n in kinds) or k.name.startswith("_") or bool(self.abstract_methods(k)) for k in subs
        )

    def isinst1(self, b, c, st):
        """isinstance(b, c) as a BDD; c a base value."""
        if isinstance(c, Tup):
            return self.bdd.or_(*[self.isinst(b, x, st) for x in c.items])
        if isinstance(c, Ext):
            k = self.class_of(b, st)
            n = c.name.split(".")[-1]
            table = {
                "Sequence": ("list", "tuple", "str", "deque", "range"),
                "Iterable": ("list", "tuple", "str", "dict", "set", "frozenset", "deque"),
                "Collection": ("list", "tuple", "str", "dict", "set", "frozenset", "deque"),
                "Container": ("list", "tuple", "str", "dict", "set", "frozenset", "deque"),
                "Mapping": ("dict",), "MutableMapping": ("dict",), "AbstractSet": ("set", "frozenset"),
                "Set": ("set", "frozenset"), "MutableSet": ("set",), "Dict": ("dict",), "List": ("list",),
                "Tuple": ("tuple",), "Callable": ("function",), "Hashable": (),
            }
            if n in table and k is not None and n != "Hashable":
                return int(any(k.sub(self.builtin_cls[t]) for t in table[n]))
            if n == "Set" and c.name.startswith("typing") and k is not None:
                return int(k.sub(self.builtin_cls["set"]))
            if c.name == "lark.Token":
                if isinstance(b, Sym):
                    return int(b.name.startswith("tok:"))
                if isinstance(b, (New, Ref, Tup, K, B)):
                    return 0
            if k is not None and self.ext_cls_cache.get(c.name) is not None:
                return int(k.sub(self.ext_cls_cache[c.name]))
            if k is not None and not getattr(k, "external", False) and not any(
                getattr(x, "external", False) for x in k.mro
            ):
                return 0
            return self.atom("isinst", self.canon(b, st), c)
        if not isinstance(c, Cls):
            raise Undecided(f"isinstance with {c!r}", self.where)
        k = self.class_of(b, st)
        if k is not None:
            return int(k.sub(c))
        if isinstance(b, Sym) and b.cls is not None:
            if b.cls.sub(c):
                return 1
            if not c.sub(b.cls) and not any(k.sub(c) for k in self.concrete_subs(b.cls)):
                return 0
            kinds = b.attrs.get("#not")
            if kinds is not None and self.never(c, kinds):
                return 0
        if isinstance(b, (Mod, Ext)):
            return 0
        return self.atom("isinst", self.canon(b, st), c)

    def isinst(self, b, cv, st):
        out = 0
        for g, c in self.alts(cv, 1 if not isinstance(cv, Alt) else st.pc):
            out = self.bdd.or_(out, self.bdd.and_(g, self.isinst1(b, c, st)))
        return out

    # ------------------------------------------------------------ canonical terms

    def canon(self, b, st):
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                if r.new is not None:
                    return r.new
                if r.content is not None and r.cls.sub(self.builtin_cls["str"]):
                    return r.content
                return App(
                    "inst", r.cls,
                    *[Tup((K(k), self.canon_v(v, st))) for k, v in sorted(r.attrs.items())
                      if not k.endswith("__hash") and not self.memo_attr(r.cls, k)],
                )
            if isinstance(r, HList):
                return App("list", self.canon_v(r.content, st))
            if isinstance(r, HMap):
                if r.opaque is not None and not r.entries:
                    return r.opaque
                return App(r.kind, *[Tup((self.canon_v(k, st), self.canon_v(v, st) if v else NONE, B(g))) for k, v, g in r.entries])
        if isinstance(b, Tup):
            return Tup(self.canon_v(x, st) for x in b.items)
        if isinstance(b, FSet):
            return App("frozenset", *sorted((Tup((self.canon_v(k, st), B(g))) for k, g in b.entries), key=repr))
        return b

    def built(self, b, st):
        """Note the attributes of an instance when its initialiser has returned."""
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                core = self.core.setdefault(r.cls, set())
                for k, v in r.attrs.items():
                    if k not in core and not (isinstance(v, K) and k in self.late()):
                        core.add(k)
        return b

    def memo_attr(self, c, k):
        """An attribute that is not part of the value of an instance: set by methods after the initialiser only."""
        core = self.core.get(c)
        return core is not None and k not in core and k in self.late()

    def late(self):
        """Names of attributes that are assigned outside initialisers, in the modules analysed."""
        n = len(self.modules)
        if self.late_names[0] != n:
            out = set()

            def go(node, cls, fn):
                if isinstance(node, ast.ClassDef):
                    cls, fn = node.name, None
                elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fn = fn or node.name
                if fn is not None and fn not in ("__init__", "__new__", "__post_init__", "__setstate__"):
                    name = None
                    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
                        name = node.attr
                    elif isinstance(node, ast.Call) and getattr(node.func, "attr", getattr(node.func, "id", "")) in ("setattr", "__setattr__"):
                        for a in node.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                name = a.value
                    elif isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str):
                        name = node.slice.value
                    if name is not None:
                        out.add(f"_{cls.lstrip('_')}{name}" if cls and name.startswith("__") and not name.endswith("__") else name)
                for c in ast.iter_child_nodes(node):
                    go(c, cls, fn)

            for m in self.modules.values():
                tree = getattr(m, "tree", None)
                if tree is not None:
                    go(tree, None, None)
            self.late_names = (n, frozenset(out))
        return self.late_names[1]

    def canon_v(self, v, st):
        if isinstance(v, Alt):
            return Alt(tuple((g, self.canon(b, st)) for g, b in v.alts))
        return self.canon(v, st)

    # ------------------------------------------------------------ truth, equality, order

    def truth(self, v, st):
        """Truth value as a BDD (valid under st.pc)."""
        if not st.pc:
            return 0
        if isinstance(v, B):
            return v.bdd
        if isinstance(v, Alt):
            out = 0
            for g, b in self.alts(v, st.pc):
                out = self.bdd.or_(out, self.bdd.and_(g, self.truth(b, St_view(st, g))))
            return out
        return self.truth1(v, st)

    def truth1(self, b, st):
        bdd = self.bdd
        if isinstance(b, K):
            return int(bool(b.value)) if b.value is not NotImplemented else 1
        if isinstance(b, Str):
            if any(isinstance(p, str) and p for p in b.parts):
                return 1
            return bdd.or_(*[self.atom("truth", p) for p in b.parts if not isinstance(p, str)])
        if isinstance(b, Tup):
            return int(len(b.items) > 0)
        if isinstance(b, FSet):
            return bdd.or_(*[g for _, g in b.entries])
        if isinstance(b, (Entity, EnumM, Ext, Bound, Part, BMeth, Wrap)):
            return 1
        if isinstance(b, App) and b.op == "matched":
            return 1
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HList):
                if r.kind == "iter":
                    return 1
                return self.nonempty(r.content, st)
            if isinstance(r, HMap):
                o = bdd.or_(*[g for _, _, g in r.entries])
                if r.opaque is not None:
                    o = bdd.or_(o, self.atom("truth", r.opaque))
                return o
            if isinstance(r, HInst):
                for m in ("__bool__", "__len__"):
                    f, _ = r.cls.lookup(m)
                    if f is not None:
                        return self.truth(self.call(f, [b], {}, st), st)
                if r.content is not None:
                    if r.cls.sub(self.builtin_cls["str"]):
                        return self.truth(r.content, st)
                    return self.nonempty(r.content, st)
                return 1
        if isinstance(b, New):
            if b.cls.lookup("__bool__")[0] is None and b.cls.lookup("__len__")[0] is None:
                return 1
            return self.truth1(self.materialise(b, st), st)
        if isinstance(b, Sym) and b.cls is not None and not b.cls.builtin:
            if not any(
                k.lookup("__bool__")[0] is not None or k.lookup("__len__")[0] is not None
                for k in self.concrete_subs(b.cls) + [b.cls]
            ):
                return 1
        return self.atom("truth", self.canon(b, st))

    def nonempty(self, content, st):
        out = 0
        for g, t in self.alts(content, st.pc):
            if isinstance(t, Tup):
                if t.items:
                    out = self.bdd.or_(out, g)
            else:
                out = self.bdd.or_(out, self.bdd.and_(g, self.atom("nonempty", t)))
        return out

    def eq_atom(self, a, b, st):
        a, b = self.canon(a, st), self.canon(b, st)
        if a == b:
            return 1
        if repr(b) < repr(a):
            a, b = b, a
        return self.atom("eq", a, b)

    def eqv(self, a, b, st):
        """Equality of two V as a BDD (may analyse user-defined __eq__)."""
        out = 0
        for g, x in self.alts(a, st.pc):
            for h, y in self.alts(b, g):
                s = St_view(st, h)
                out = self.bdd.or_(out, self.bdd.and_(h, self.eq(x, y, s)))
        return out

    def unstr(self, b, st):
        """Unwrap an instance of a subclass of str."""
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst) and r.content is not None and r.cls.sub(self.builtin_cls["str"]):
                return r.content
        return b

    def eq(self, a, b, st):
        bdd = self.bdd
        a, b = self.unstr(a, st), self.unstr(b, st)
        if isinstance(a, Alt) or isinstance(b, Alt):
            return self.eqv(a, b, st)
        if isinstance(a, B) and isinstance(b, B):
            return bdd.iff(a.bdd, b.bdd)
        if isinstance(a, B):
            a, b = b, a
        if isinstance(b, B):
            if isinstance(a, K):
                if isinstance(a.value, (int, float)) and a.value in (0, 1):
                    return b.bdd if a.value else bdd.not_(b.bdd)
                return 0
            if isinstance(a, App) and a.op in ("call", "item", "attr"):
                # opaque compared with a boolean
                if b.bdd == 1:
                    return self.atom("eqtrue", self.canon(a, st))
                if b.bdd == 0:
                    return self.atom("eqfalse", self.canon(a, st))
            if self.instance(a, st):
                return self.eq_user(a, b, st)
            return self.eq_atom(a, b, st)
        if a == b:
            return 1
        if self.is_str(a) and self.is_str(b):
            return self.str_eq(a, b, st)
        if isinstance(a, K) and isinstance(b, K):
            return int(a.value == b.value)
        if isinstance(a, (EnumM, Entity, Ext)) and isinstance(b, (EnumM, Entity, Ext, K, Tup, FSet, Str, Wrap)):
            return 0
        if isinstance(b, (EnumM, Entity, Ext)) and isinstance(a, (K, Tup, FSet, Str, Wrap)):
            return 0
        if isinstance(a, App) and a.op == "type" and isinstance(b, Cls):
            return self.exact_atom(a.args[0], b, st)
        if isinstance(b, App) and b.op == "type" and isinstance(a, Cls):
            return self.exact_atom(b.args[0], a, st)
        if isinstance(a, (Part, Bound)) and isinstance(b, (Part, Bound)):
            return int(a == b)
        ca, cb = self.coll(a, st), self.coll(b, st)
        if ca and cb:
            if ca[0] != cb[0]:
                return 0
            if ca[0] in ("tuple", "list"):
                return self.eq_seq(ca[1], cb[1], st)
            if ca[0] == "set":
                return self.eq_set(ca[1], cb[1], st)
            if ca[0] == "dict":
                return self.eq_dict(ca[1], cb[1], st)
        ia, ib = self.instance(a, st), self.instance(b, st)
        if ia and ib:
            return self.eq_user(a, b, st)
        if ia or ib:
            x, y = (a, b) if ia else (b, a)
            if isinstance(y, (K, Tup, FSet, Str, EnumM, Entity)) or self.coll(y, st):
                # known value of another kind: user-defined __eq__ of the instance decides
                return self.eq_user(x, y, st) if x is a else self.eq_user(x, y, st)
        if (ca or isinstance(a, (K, B))) and (cb or isinstance(b, (K, B))):
            return 0
        # at least one side is opaque
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.cls is not None:
                k = self.class_of(y, st)
                if isinstance(y, Sym) and y.cls is not None and not y.exact:
                    if not any(
                        c.sub(y.cls) for c in self.concrete_subs(x.cls) + [x.cls]
                    ) and not any(c.sub(x.cls) for c in self.concrete_subs(y.cls)):
                        if not x.cls.builtin or not y.cls.builtin or not (x.cls.sub(y.cls) or y.cls.sub(x.cls)):
                            return 0
                elif k is not None and not x.cls.sub(k) and not k.sub(x.cls):
                    if not any(c.sub(x.cls) and c.sub(k) for c in self.classes):
                        if not (k.builtin and x.cls.builtin):
                            return 0
                if x.attrs.get("#not") is not None and k is not None:
                    if self.never(k, x.attrs["#not"]):
                        return 0
        return self.eq_atom(a, b, st)

    def exact_atom(self, x, c, st):
        if isinstance(x, Sym) and x.cls is not None:
            if not c.sub(x.cls) and not any(k is c for k in self.concrete_subs(x.cls)):
                return 0
            n = x.attrs.get("#not")
            if n is not None and self.never(c, n):
                return 0
        return self.atom("exact", self.canon(x, st), c)

    def instance(self, b, st):
        if isinstance(b, New):
            return True
        return isinstance(b, Ref) and isinstance(self.rec(st, b.id), HInst)

    def eq_user(self, a, b, st):
        r = self.dunder(a, "__eq__", [b], st)
        if r is None:
            r = self.dunder(b, "__eq__", [a], st) if self.instance(b, st) else None
            if r is None:
                return int(a == b)
        out = 0
        for g, v in self.alts(r, st.pc):
            if v == NOTIMPL:
                r2 = self.dunder(b, "__eq__", [a], St_view(st, g)) if self.instance(b, st) else None
                t = 0 if r2 is None else self.bdd.or_(
                    *[self.bdd.and_(h, self.truth(w, St_view(st, h))) for h, w in self.alts(r2, g) if w != NOTIMPL]
                )
                if a == b:
                    t = 1
            else:
                t = self.truth(v, St_view(st, g))
            out = self.bdd.or_(out, self.bdd.and_(g, t))
        return out

    def coll(self, b, st):
        """(kind, content) of a known collection."""
        if isinstance(b, Tup):
            return ("tuple", b)
        if isinstance(b, FSet):
            return ("set", b.entries)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HList) and r.kind != "iter":
                return ("list", r.content)
            if isinstance(r, HMap) and r.opaque is None:
                if r.kind == "set":
                    return ("set", tuple((k, g) for k, _, g in r.entries))
                return ("dict", r.entries)
            if isinstance(r, HInst) and r.content is not None and r.cls.sub(self.builtin_cls["list"]):
                if r.cls.lookup("__eq__")[0] is None:
                    return ("list", r.content)
        if isinstance(b, App) and b.op == "__dict__":
            return ("dict", tuple(self.map_entries(b, st)))
        return None

    def eq_seq(self, a, b, st):
        out = 0
        for g, x in self.alts(a, st.pc):
            for h, y in self.alts(b, g):
                if isinstance(x, Tup) and isinstance(y, Tup):
                    if len(x.items) != len(y.items):
                        continue
                    s = St_view(st, h)
                    t = h
                    for p, q in zip(x.items, y.items):
                        if not t:
                            break
                        s.pc = t
                        t = self.bdd.and_(t, self.eqv(p, q, s))
                    out = self.bdd.or_(out, t)
                elif x == y:
                    out = self.bdd.or_(out, h)
                else:
                    out = self.bdd.or_(out, self.bdd.and_(h, self.eq_atom(x, y, st)))
        return out

    def eq_set(self, a, b, st):
        bdd = self.bdd
        t = 1
        for xs, ys in ((a, b), (b, a)):
            for k, g in xs:
                t = bdd.and_(
                    t,
                    bdd.implies(g, bdd.or_(*[bdd.and_(h, self.eqv(k, j, st)) for j, h in ys])),
                )
        return t

    def eq_dict(self, a, b, st):
        bdd = self.bdd
        t = 1
        for xs, ys in ((a, b), (b, a)):
            for k, v, g in xs:
                m = bdd.or_(
                    *[bdd.and_(h, self.eqv(k, j, st), self.eqv(v, w, st)) for j, w, h in ys]
                )
                t = bdd.and_(t, bdd.implies(g, m))
        return t

    def str_eq(self, a, b, st):
        pa = list(a.parts) if isinstance(a, Str) else [a.value if isinstance(a, K) else a]
        pb = list(b.parts) if isinstance(b, Str) else [b.value if isinstance(b, K) else b]
        for rev in (False, True):
            while pa and pb:
                i = -1 if rev else 0
                x, y = pa[i], pb[i]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if n == 0:
                        if not x:
                            del pa[i]
                        else:
                            del pb[i]
                        continue
                    if (x[-n:] if rev else x[:n]) != (y[-n:] if rev else y[:n]):
                        return 0
                    x2 = x[:-n] if rev else x[n:]
                    y2 = y[:-n] if rev else y[n:]
                    if x2:
                        pa[i] = x2
                    else:
                        del pa[i]
                    if y2:
                        pb[i] = y2
                    else:
                        del pb[i]
                elif x == y:
                    del pa[i]
                    del pb[i]
                else:
                    break
        if not pa and not pb:
            return 1
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(x, str) and x for x in rest):
                return 0
        x, y = mkstr(pa), mkstr(pb)
        return self.eq_atom(x, y, st)

    def is_(self, a, b, st):
        """Identity as a BDD."""
        if isinstance(a, B) and isinstance(b, B):
            return self.bdd.iff(a.bdd, b.bdd)
        if a == b:
            return 1
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == "type" and isinstance(y, Cls):
                return self.exact_atom(x.args[0], y, st)
        known = (K, B, Tup, FSet, EnumM, Entity, Ref, Str, Bound, Part, New)
        if isinstance(a, known) and isinstance(b, known):
            if isinstance(a, New) and isinstance(b, New):
                return self.atom("is", *sorted((a, b), key=repr))
            return 0
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.cls is not None:
                k = self.class_of(y, st)
                if k is not None and not isinstance(y, (App, Ext)) and (x.exact and k is not x.cls or (
                    x.attrs.get("#not") is not None and self.never(k, x.attrs["#not"])
                )):
                    return 0
                if isinstance(y, K) and not x.cls.builtin:
                    return 0
                if y == NONE and x.cls.builtin:
                    return 0
            if isinstance(x, App) and y == NONE and x.op in STR_OPS | {"__dict__", "type", "inst", "hash"}:
                return 0
            if isinstance(x, App) and y == NONE and x.op == "match":
                return self.bdd.not_(self.atom("truth", x))
        if isinstance(a, B) or isinstance(b, B):
            x, y = (a, b) if isinstance(b, B) else (b, a)
            if y.bdd in (0, 1) and isinstance(x, App):
                return self.atom("eqtrue" if y.bdd else "eqfalse", self.canon(x, st))
        x, y = sorted((self.canon(a, st), self.canon(b, st)), key=repr)
        return self.atom("is", x, y)

    def compare(self, op, a, b, st):
        bdd = self.bdd
        if not st.pc:
            return BOT

        def go(x, s1):
            def go2(y, s2):
                if op == "Eq":
                    return B(self.eq(x, y, s2))
                if op == "NotEq":
                    if self.instance(x, s2) and self.user_attr(x, "__ne__", s2) is not None:
                        return B(self.truth(self.dunder(x, "__ne__", [y], s2), s2))
                    return B(bdd.not_(self.eq(x, y, s2)))
                if op == "Is":
                    return B(self.is_(x, y, s2))
                if op == "IsNot":
                    return B(bdd.not_(self.is_(x, y, s2)))
                if op == "In":
                    return B(self.contains(y, x, s2))
                if op == "NotIn":
                    return B(bdd.not_(self.contains(y, x, s2)))
                return self.order(op, x, y, s2)

            return self.each(b, s1, go2)

        return self.each(a, st, go)

    def order(self, op, x, y, st):
        import operator as o

        x, y = self.num(x), self.num(y)
        fn = {"Lt": o.lt, "LtE": o.le, "Gt": o.gt, "GtE": o.ge}[op]
        if isinstance(x, K) and isinstance(y, K):
            try:
                return B(int(fn(x.value, y.value)))
            except TypeError:
                return self.error(st, "TypeError", "comparison")
        if isinstance(x, Alt) or isinstance(y, Alt):
            return self.each(x, st, lambda p, s1: self.each(y, s1, lambda q, s2: self.order(op, p, q, s2)))
        sx, sy = self.coll(x, st), self.coll(y, st)
        if sx and sy and sx[0] == sy[0] == "set":
            sub = lambda a, b: self.bdd.and_(*[self.bdd.implies(g, self.bdd.or_(*[self.bdd.and_(h, self.eqv(k, j, st)) for j, h in b])) for k, g in a])
            le, ge = sub(sx[1], sy[1]), sub(sy[1], sx[1])
            nt = self.bdd.not_
            return B({"LtE": le, "GtE": ge, "Lt": self.bdd.and_(le, nt(ge)), "Gt": self.bdd.and_(ge, nt(le))}[op])
        r = self.dunder(x, f"__{CMPS[op]}__", [y], st)
        if r is not None:
            return r
        return App(CMPS[op], self.canon(x, st), self.canon(y, st))

    def num(self, b):
        if isinstance(b, B):
            return self.as_int(b)
        return b

    # ------------------------------------------------------------ containers

    def seq_content(self, b, st):
        """V of Tup of a known sequence, or None."""
        if isinstance(b, Tup):
            return b
        if isinstance(b, K) and isinstance(b.value, str):
            return Tup(K(c) for c in b.value)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HList):
                return r.content
            if isinstance(r, HInst) and r.content is not None and r.cls.sub(self.builtin_cls["list"]):
                return r.content
        return None

    def shapes(self, entries, st):
        """V of Tup of the present entries [(value, guard)], in order."""
        acc = Tup(())
        for v, g in entries:
            p1 = self.bdd.and_(st.pc, g)
            p2 = self.bdd.and_(st.pc, self.bdd.not_(g))
            app = lambda p: self.combine([(h, Tup(t.items + (v,))) for h, t in self.alts(acc, p)])
            if not p1:
                continue
            acc = self.combine([(p1, app(p1)), (p2, acc)]) if p2 else app(p1)
        return acc

    def iter_content(self, v, st):
        """Iterate: V of Tup (or of opaque terms)."""
        return self.each(v, st, self.iter1)

    def iter1(self, b, st):
        c = self.seq_content(b, st)
        if c is not None:
            if isinstance(b, Ref):
                r = self.rec(st, b.id)
                if isinstance(r, HList) and r.kind == "iter":
                    self.put(st, b.id, HList(Tup(()), "iter"), "iteration", silent=b.id not in self.base)
                if isinstance(r, HInst) and r.cls.lookup("__iter__")[0] is not None:
                    return self.iter_content(self.call(r.cls.lookup("__iter__")[0], [b], {}, st), st)
            return c
        if isinstance(b, FSet):
            return self.shapes(list(reversed(b.entries)), st)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HMap):
                if r.opaque is not None:
                    if r.entries:
                        raise Undecided("iteration over a partly opaque mapping", self.where)
                    return r.opaque
                ents = [(k, g) for k, _, g in r.entries]
                # the order of a set is arbitrary: take an adversarial one
                return self.shapes(ents[::-1] if r.kind == "set" else ents, st)
            if isinstance(r, HInst):
                f, _ = r.cls.lookup("__iter__")
                if f is not None:
                    return self.iter_content(self.call(f, [b], {}, st), st)
        if isinstance(b, App) and b.op == "__dict__":
            return self.shapes([(k, g) for k, _, g in self.map_entries(b, st)], st)
        if isinstance(b, Cls) and b.members is not None:
            return Tup(b.members)
        if isinstance(b, (K, B)) or isinstance(b, New) and b.cls.lookup("__iter__")[0] is None:
            return self.error(st, "TypeError", "not iterable")
        if isinstance(b, (Sym, App, Str)):
            return b
        raise Undecided(f"iteration over {b!r}", self.where)

    def contains(self, c, x, st):
        """x in c, as a BDD."""
        bdd = self.bdd
        x = self.unstr(x, st)
        if isinstance(c, DirOf):
            if isinstance(x, K):
                return self.hasattr(c.obj, x.value, st)
            raise Undecided("dir()", self.where)
        if self.is_str(c):
            if isinstance(c, K) and isinstance(x, K):
                return int(x.value in c.value)
            return self.atom("in", self.canon(x, st), c)
        s = self.seq_content(c, st)
        if s is not None:
            out = 0
            for g, t in self.alts(s, st.pc):
                if isinstance(t, Tup):
                    sv = St_view(st, g)
                    for y in t.items:
                        out = bdd.or_(out, bdd.and_(g, self.eqv(y, x, sv)))
                else:
                    out = bdd.or_(out, bdd.and_(g, self.atom("in", self.canon(x, st), t)))
            return out
        if isinstance(c, FSet):
            return bdd.or_(*[bdd.and_(g, self.eqv(k, x, st)) for k, g in c.entries])
        if isinstance(c, Ref):
            r = self.rec(st, c.id)
            if isinstance(r, HMap):
                out = bdd.or_(*[bdd.and_(g, self.eqv(k, x, st)) for k, _, g in r.entries])
                if r.opaque is not None:
                    out = bdd.or_(out, self.opaque_in(r.opaque, x, st))
                return out
            if isinstance(r, HInst):
                f, _ = r.cls.lookup("__contains__")
                if f is not None:
                    return self.truth(self.call(f, [c, x], {}, st), st)
                f, _ = r.cls.lookup("__iter__")
                if f is not None:
                    t = self.iter_content(c, st)
                    return self.contains_v(t, x, st)
        if isinstance(c, App) and c.op == "__dict__":
            return bdd.or_(*[bdd.and_(g, self.eqv(k, x, st)) for k, _, g in self.map_entries(c, st)])
        if isinstance(c, Cls) and c.members is not None:
            return bdd.or_(*[self.eq(m, x, st) for m in c.members])
        if c == NONE or isinstance(c, (K, B)):
            self.error(st, "TypeError", "argument is not iterable")
            return 0
        return self.opaque_in(c, x, st)

    def contains_v(self, v, x, st):
        return self.bdd.or_(*[self.bdd.and_(g, self.contains(b, x, St_view(st, g))) for g, b in self.alts(v, st.pc)])

    def opaque_in(self, c, x, st):
        if isinstance(c, App) and c.op in ("fromkeys", "view", "copy"):
            return self.opaque_in(c.args[0], x, st)
        return self.atom("in", self.canon(x, st), self.canon(c, st))

    def opaque_item(self, c, x, st):
        """Value stored in an opaque mapping under a key that is there."""
        if isinstance(c, App) and c.op == "fromkeys":
            return c.args[1]
        if isinstance(c, App) and c.op in ("view", "copy"):
            return self.opaque_item(c.args[0], x, st)
        return App("item", self.canon(c, st), self.canon(x, st))

    def map_entries(self, b, st):
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HMap):
                if r.opaque is not None:
                    raise Undecided("entries of an opaque mapping", self.where)
                return r.entries
        if isinstance(b, App) and b.op == "__dict__":
            r = self.rec(st, b.args[0].id)
            out = []
            for k, v in r.attrs.items():
                g = 0
                for h, x in self.alts(v, 1):
                    if x != ABSENT:
                        g = self.bdd.or_(g, h)
                out.append((K(k), v, g))
            return tuple(out)
        if isinstance(b, FSet):
            return tuple((k, None, g) for k, g in b.entries)
        raise Undecided(f"entries of {b!r}", self.where)

    def map_put(self, b, entries, st, what):
        if isinstance(b, App) and b.op == "__dict__":
            i = b.args[0].id
            r = self.rec(st, i)
            attrs = {}
            for k, v, g in entries:
                rest = self.bdd.and_(st.pc, self.bdd.not_(g))
                attrs[k.value] = self.combine([(self.bdd.and_(st.pc, g), v), (rest, ABSENT)]) if rest else v
            self.put(st, i, HInst(r.cls, attrs, r.content, r.new), what)
            return
        r = self.rec(st, b.id)
        self.put(st, b.id, HMap(tuple(entries), r.kind, r.opaque, r.factory), what)

    def map_rec(self, b, st):
        """(entries, kind, opaque, factory) of a mapping or set value, else None."""
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HMap):
                return r
        if isinstance(b, App) and b.op == "__dict__":
            return HMap(self.map_entries(b, st), "dict")
        return None

    def map_store(self, b, k, v, st, what):
        """entries with k -> v stored under st.pc."""
        bdd = self.bdd
        r = self.map_rec(b, st)
        k = self.unstr(k, st)
        rest = st.pc
        out = []
        for j, w, g in r.entries:
            e = bdd.and_(rest, g, self.eqv(j, k, st)) if rest else 0
            if e:
                if r.kind == "dict":
                    w = self.combine([(e, v), (bdd.and_(bdd.not_(e), g), w)]) if bdd.and_(bdd.not_(e), st.pc, g) else v
                rest = bdd.and_(rest, bdd.not_(e))
            out.append((j, w, g))
        if rest:
            for n, (j, w, g) in enumerate(out):
                if j == k:  # same key, deleted meanwhile: keep one entry per key
                    w2 = self.combine([(bdd.and_(g, bdd.not_(rest)), w), (rest, v)]) if r.kind == "dict" else None
                    del out[n]
                    out.append((k, w2, bdd.or_(g, rest)))
                    break
            else:
                out.append((k, v if r.kind == "dict" else None, rest if bdd.and_(bdd.not_(rest), st.pc) else 1))
        self.map_put(b, out, st, what)

    def map_get(self, b, k, st):
        """[(guard, value)], missing-guard."""
        bdd = self.bdd
        r = self.map_rec(b, st)
        k = self.unstr(k, st)
        rest = st.pc
        found = []
        for j, w, g in r.entries:
            if not rest:
                break
            e = bdd.and_(rest, g)
            if e:
                e = bdd.and_(e, self.eqv(j, k, St_view(st, e)))
            if e:
                found.append((e, w))
                rest = bdd.and_(rest, bdd.not_(e))
        if rest and r.opaque is not None:
            e = bdd.and_(rest, self.opaque_in(r.opaque, k, st))
            if e:
                found.append((e, self.opaque_item(r.opaque, k, st)))
                rest = bdd.and_(rest, bdd.not_(e))
        return found, rest

    def map_remove(self, b, k, st, what):
        """Remove k where present; returns [(guard, value)], missing."""
        bdd = self.bdd
        found, miss = self.map_get(b, k, st)
        r = self.map_rec(b, st)
        k = self.unstr(k, st)
        out = []
        for j, w, g in r.entries:
            e = bdd.and_(st.pc, g, self.eqv(j, k, st))
            g2 = bdd.and_(g, bdd.not_(e))
            if bdd.and_(g2, st.pc):
                out.append((j, w, g2))
        if any(g for g, _ in found):
            self.map_put(b, out, st, what)
        return found, miss

    def make_set(self, content, st, frozen=False):
        """Build a set from V of Tup."""
        ref = self.alloc(st, HMap((), "set"))

        def go(t, s1):
            if not isinstance(t, Tup):
                self.put(s1, ref.id, HMap((), "set", App("copy", t) if not isinstance(t, App) or t.op != "copy" else t), "copy")
                return NONE
            for x in t.items:
                if not s1.pc:
                    break
                self.each(x, s1, lambda k, s2: self.map_store(ref, k, None, s2, "add") or NONE)
            return NONE

        self.each(content, st, go)
        if not st.pc:
            return BOT
        if frozen:
            r = self.rec(st, ref.id)
            if r.opaque is not None:
                return ref
            return FSet(tuple((k, g) for k, _, g in r.entries))
        return ref

    # ------------------------------------------------------------ subscripts

    def getitem(self, b, k, st):
        k = self.num(k)
        if isinstance(k, Alt):
            return self.each(k, st, lambda x, s1: self.getitem(b, x, s1))
        c = self.seq_content(b, st)
        if c is not None:
            if not (isinstance(k, K) and isinstance(k.value, int)):
                if isinstance(k, (Sym, App)):
                    raise Undecided("opaque index", self.where)
                return self.error(st, "TypeError", "index is not an integer")

            def one(t, s1):
                if not isinstance(t, Tup):
                    return App("item", t, k)
                n = len(t.items)
                if -n <= k.value < n:
                    return t.items[k.value]
                return self.error(s1, "IndexError", "index out of range")

            return self.each(c, st, one)
        if self.map_rec(b, st) is not None:
            found, miss = self.map_get(b, k, st)
            if miss:
                r = self.map_rec(b, st)
                if r.factory is not None:
                    s1, s2 = St_like(st, miss), St_like(st, self.bdd.and_(st.pc, self.bdd.not_(miss)))
                    v = self.call(r.factory, [], {}, s1)
                    self.setitem(b, k, v, s1)
                    self.join(st, [s1, s2])
                    return self.combine(found + [(miss, v)])
                self.error(st, "KeyError", repr(k), miss)
            return self.combine(found)
        if isinstance(b, Cls):
            if b.members is not None and isinstance(k, K):
                v = b.attrs.get(k.value)
                if isinstance(v, EnumM):
                    return v
                return self.error(st, "KeyError", repr(k))
            return b
        if isinstance(b, Ext):
            return b
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                f, _ = r.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(f, [b, k], {}, st)
        if isinstance(b, Sym) and b.cls is self.builtin_cls["dict"]:
            inn = self.opaque_in(b, self.unstr(k, st), st)
            self.error(st, "KeyError", "", self.bdd.not_(inn))
            return self.opaque_item(b, self.unstr(k, st), st)
        if isinstance(b, (Sym, App, Str)) and not (isinstance(b, Sym) and self.lacks(b, "__getitem__", st)):
            return App("item", self.canon(b, st), self.canon(k, st))
        return self.error(st, "TypeError", f"{b!r} is not subscriptable")

    def get_slice(self, b, ks, st):
        c = self.seq_content(b, st)
        if c is None:
            if isinstance(b, (Sym, App, Str)):
                if self.is_str(b):
                    return App("strmeth", "slice", b, *ks)
                raise Undecided(f"slice of an opaque sequence {b!r}", self.where)
            raise Undecided(f"slice of {b!r}", self.where)
        isstr = isinstance(b, K)

        def sl(t, lo, hi, step):
            if not isinstance(t, Tup):
                raise Undecided("slice of an opaque sequence", self.where)
            vs = []
            for x in (lo, hi, step):
                if isinstance(x, B) and x.bdd in (0, 1):
                    x = K(x.bdd)
                if not isinstance(x, K):
                    raise Undecided("opaque slice bound", self.where)
                vs.append(x.value)
            r = t.items[slice(*vs)]
            return K("".join(x.value for x in r)) if isstr else Tup(r)

        v = self.pure([c] + ks, st.pc, sl)
        if isinstance(b, Ref):
            return self.alloc(st, HList(v))
        return v

    def setitem(self, b, k, v, st):
        if self.map_rec(b, st) is not None:
            self.map_store(b, k, v, st, f"item assignment [{k!r}]")
            return NONE
        c = self.seq_content(b, st)
        if c is not None and isinstance(b, Ref):
            k = self.num(k)
            if not (isinstance(k, K) and isinstance(k.value, int)):
                raise Undecided("opaque index", self.where)

            def one(t, s1):
                n = len(t.items)
                if not -n <= k.value < n:
                    return self.error(s1, "IndexError", "assignment index out of range")
                xs = list(t.items)
                xs[k.value] = v
                self.set_content(b, Tup(xs), s1, "item assignment")
                return NONE

            return self.each(c, st, one)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                f, _ = r.cls.lookup("__setitem__")
                if f is not None:
                    return self.call(f, [b, k, v], {}, st)
        if isinstance(b, (Sym, App)):
            self.effects.append((st.pc, "opaque", repr(b), "item assignment", self.where, None))
            return NONE
        return self.error(st, "TypeError", "item assignment")

    def delitem(self, b, k, st):
        if self.map_rec(b, st) is not None:
            _, miss = self.map_remove(b, k, st, f"item deletion [{k!r}]")
            self.error(st, "KeyError", repr(k), miss)
            return NONE
        c = self.seq_content(b, st)
        if c is not None and isinstance(b, Ref):
            self.list_method(b, "pop", [k], {}, st)
            return NONE
        if isinstance(b, (Sym, App)):
            self.effects.append((st.pc, "opaque", repr(b), "item deletion", self.where, None))
            return NONE
        return self.error(st, "TypeError", "item deletion")

    def set_content(self, b, content, st, what):
        r = self.rec(st, b.id)
        if isinstance(r, HInst):
            self.put(st, b.id, HInst(r.cls, r.attrs, content, r.new), what)
        else:
            self.put(st, b.id, HList(content, r.kind), what)

    def list_append(self, b, v, st, what="append"):
        r = self.rec(st, b.id)
        c = self.emap(r.content, st.pc, lambda t: self.cat(t, Tup((v,))))
        silent = isinstance(r, HList) and r.kind == "iter"
        if silent:
            self.put(st, b.id, HList(c, r.kind), what, silent=b.id not in self.base)
        else:
            self.set_content(b, c, st, what)

    # ------------------------------------------------------------ operators

    def user_attr(self, b, name, st):
        """User-defined class attribute (not builtin) of a value."""
        k = self.class_of(b, st)
        if k is None and isinstance(b, Sym) and b.cls is not None and not b.cls.builtin:
            v, _ = b.cls.lookup(name)
            if v is None:
                return None
            never = b.attrs.get("#not") or ()
            if any(name in c.attrs and c is not b.cls and not self.never(c, never) for c in self.concrete_subs(b.cls)):
                return None
            return v
        if k is None or k.builtin:
            return None
        v, c = k.lookup(name)
        return v

    def dunder(self, b, name, args, st):
        f = self.user_attr(b, name, st)
        if f is None or f == NONE:
            return None
        if isinstance(b, New):
            b = self.materialise(b, st)
        return self.call(self.bind_attr(f, b, self.class_of(b, st), st), args, {}, st)

    def invert(self, b, st):
        r = self.dunder(b, "__invert__", [], st)
        if r is not None:
            return r
        if isinstance(b, K) and isinstance(b.value, int):
            return K(~b.value)
        if isinstance(b, B):
            return self.each(self.as_int(b), st, lambda x, s1: K(~x.value))
        if isinstance(b, (Sym, App)):
            return App("invert", self.canon(b, st))
        return self.error(st, "TypeError", f"bad operand for ~: {b!r}")

    def binop(self, op, x, y, st):
        bdd = self.bdd
        m = BINOPS[op]
        # booleans
        if isinstance(x, B) and isinstance(y, B) and op in ("BitAnd", "BitOr", "BitXor"):
            return B({"BitAnd": bdd.and_, "BitOr": bdd.or_, "BitXor": bdd.xor}[op](x.bdd, y.bdd))
        if isinstance(x, Ref) and self.instance(x, st) or isinstance(x, (New, Sym)):
            r = self.dunder(x, f"__{m}__", [y], st)
            if r is not None:
                return r
        if self.instance(y, st) or isinstance(y, (New, Sym)):
            r = self.dunder(y, f"__r{m}__", [x], st)
            if r is not None:
                return r
        x, y = self.unstr(x, st), self.unstr(y, st)
        if isinstance(x, B) or isinstance(y, B):
            x2, y2 = self.num(x), self.num(y)
            return self.each(x2, st, lambda p, s1: self.each(y2, s1, lambda q, s2: self.binop(op, p, q, s2)))
        if op == "Add":
            # a string and the result of a call that was not entered: it has to be a string
            if self.is_str(x) and isinstance(y, App) and y.op == "call":
                y = App("str", y)
            elif self.is_str(y) and isinstance(x, App) and x.op == "call":
                x = App("str", x)
            if self.is_str(x) and self.is_str(y):
                return mkstr([x, y])
        if isinstance(x, K) and isinstance(y, K):
            import operator as o

            f = {
                "Add": o.add, "Sub": o.sub, "Mult": o.mul, "BitAnd": o.and_, "BitOr": o.or_,
                "BitXor": o.xor, "RShift": o.rshift, "LShift": o.lshift, "Mod": o.mod,
                "FloorDiv": o.floordiv, "Div": o.truediv, "Pow": o.pow,
            }.get(op)
            try:
                return K(f(x.value, y.value))
            except ZeroDivisionError:
                return self.error(st, "ZeroDivisionError", "division by zero")
            except Exception:
                return self.error(st, "TypeError", f"unsupported operands for {op}")
        if op == "Mod" and isinstance(x, K) and isinstance(x.value, str):
            return self.percent(x.value, y, st)
        if op == "Add":
            cx, cy = self.coll(x, st), self.coll(y, st)
            if cx and cy and cx[0] == cy[0] and cx[0] in ("list", "tuple"):
                v = self.pure([cx[1], cy[1]], st.pc, self.cat)
                return self.alloc(st, HList(v)) if cx[0] == "list" else v
        if op == "Mult":
            for p, q in ((x, y), (y, x)):
                c = self.coll(p, st)
                if c and c[0] in ("list", "tuple") and isinstance(q, K):
                    v = self.emap(c[1], st.pc, lambda t: Tup(t.items * q.value))
                    return self.alloc(st, HList(v)) if c[0] == "list" else v
                if isinstance(p, K) and isinstance(p.value, str) and isinstance(q, K):
                    return K(p.value * q.value)
        if op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            rx, ry = self.set_entries(x, st), self.set_entries(y, st)
            if rx is not None and ry is not None:
                return self.set_op(op, x, rx, ry, st)
            mx, my = self.map_rec(x, st), self.map_rec(y, st)
            if op == "BitOr" and mx and my:
                d = self.alloc(st, mx)
                self.map_method(d, "update", [y], {}, st)
                return d
        if op == "BitOr" and isinstance(x, (Cls, Tup, Ext)) and (isinstance(y, (Cls, Tup, Ext)) or y == NONE):
            t = lambda z: z.items if isinstance(z, Tup) else (self.builtin_cls["NoneType"] if z == NONE else z,)
            return Tup(t(x) + t(y))
        if isinstance(x, Ext) or isinstance(y, Ext):
            return App(f"ext_{m}", x, y)
        if self.lacks(x, f"__{m}__", st) and self.lacks(y, f"__r{m}__", st):
            return self.error(st, "TypeError", f"unsupported operands for {op}: {x!r}, {y!r}")
        if isinstance(x, (Sym, App, Str)) or isinstance(y, (Sym, App, Str)):
            return App(m, self.canon(x, st), self.canon(y, st))
        return self.error(st, "TypeError", f"unsupported operands for {op}: {x!r}, {y!r}")

    def lacks(self, b, name, st):
        """No class that the value may have defines the method."""
        k = self.class_of(b, st)
        if k is None:
            return (
                isinstance(b, Sym) and b.cls is not None and not b.cls.builtin and b.cls.lookup(name)[0] is None
                and not any(c.lookup(name)[0] is not None for c in self.concrete_subs(b.cls))
            )
        if k.lookup(name)[0] is not None:
            return False
        for c in k.mro:
            if c.builtin and c.name in ("list", "tuple") and name in ("__add__", "__mul__", "__rmul__", "__getitem__"):
                return False
            if c.builtin and c.name not in ("list", "tuple", "object", "NoneType", "type", "ABC", "Generic"):
                return False
        return True

    def set_entries(self, b, st):
        if isinstance(b, FSet):
            return list(b.entries)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HMap) and r.kind == "set" and r.opaque is None:
                return [(k, g) for k, _, g in r.entries]
        return None

    def set_op(self, op, like, a, b, st):
        bdd = self.bdd
        member = lambda x, ys: bdd.or_(*[bdd.and_(h, self.eqv(j, x, st)) for j, h in ys])
        if op == "BitAnd":
            out = [(k, bdd.and_(g, member(k, b))) for k, g in a]
        elif op == "Sub":
            out = [(k, bdd.and_(g, bdd.not_(member(k, b)))) for k, g in a]
        else:
            first = a if op == "BitOr" else [(k, bdd.and_(g, bdd.not_(member(k, b)))) for k, g in a]
            out = list(first) + [(k, bdd.and_(g, bdd.not_(member(k, a)))) for k, g in b]
        out = [(k, g) for k, g in out if g]
        if isinstance(like, FSet):
            return FSet(tuple(out))
        return self.alloc(st, HMap(tuple((k, None, g) for k, g in out), "set"))

    def percent(self, fmt, y, st):
        import re

        args = list(y.items) if isinstance(y, Tup) else [y]
        parts = re.split(r"(%[sr%d])", fmt)
        out = []
        for p in parts:
            if p == "%%":
                out.append(K("%"))
            elif p in ("%s", "%d", "%r"):
                if not args:
                    return self.error(st, "TypeError", "not enough arguments for format string")
                a = args.pop(0)
                out.append(
                    self.each(a, st, (lambda b, s1: self.repr_(b, s1)) if p == "%r" else (lambda b, s1: self.str_(b, s1)))
                )
            else:
                if "%" in p:
                    raise Undecided("format string", self.where)
                out.append(K(p))
        if args:
            return self.error(st, "TypeError", "not all arguments converted")
        return self.pure(out, st.pc, lambda *ps: mkstr(ps))

    # ------------------------------------------------------------ strings

    def str_(self, b, st):
        """str(b)."""
        if self.is_str(b):
            return b
        if isinstance(b, K):
            return K(str(b.value))
        if isinstance(b, B):
            if b.bdd in (0, 1):
                return K(str(bool(b.bdd)))
            return Alt(((b.bdd, K("True")), (self.bdd.not_(b.bdd), K("False"))))
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                f, c = r.cls.lookup("__str__")
                if f is not None and not c.builtin:
                    return self.call(self.bind_attr(f, b, r.cls, st), [], {}, st)
                if r.content is not None and r.cls.sub(self.builtin_cls["str"]):
                    return r.content
            return self.repr_(b, st)
        if isinstance(b, New):
            return self.str_(self.materialise(b, st), st)
        if isinstance(b, EnumM):
            return K(f"{b.cls.name}.{b.name}")
        if isinstance(b, (Sym, App)):
            f = self.user_attr(b, "__str__", st)
            if isinstance(b, Sym) and b.exact and f is not None:
                return self.call(self.bind_attr(f, b, b.cls, st), [], {}, st)
            return App("str", self.canon(b, st))
        return App("str", self.canon(b, st))

    def repr_(self, b, st):
        if isinstance(b, K):
            return K(repr(b.value))
        if isinstance(b, B) and b.bdd in (0, 1):
            return K(repr(bool(b.bdd)))
        if isinstance(b, New):
            b = self.materialise(b, st)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                f, c = r.cls.lookup("__repr__")
                if f is not None and not c.builtin:
                    return self.call(self.bind_attr(f, b, r.cls, st), [], {}, st)
                if r.content is not None:
                    return App("repr", self.canon(b, st))
                return App("repr_addr", r.cls, b)
        if isinstance(b, Tup):
            parts = [K("(")]
            for i, x in enumerate(b.items):
                if i:
                    parts.append(K(", "))
                parts.append(self.each(x, st, self.repr_))
            parts.append(K(",)" if len(b.items) == 1 else ")"))
            return self.pure(parts, st.pc, lambda *ps: mkstr(ps))
        return App("repr", self.canon(b, st))

    def str_method(self, b, name, args, kwargs, st):
        if name == "join":
            items = self.iter_content(args[0], st)

            def go(t, s1):
                if not isinstance(t, Tup):
                    return App("strmeth", "join", b, t)
                parts = []
                for i, x in enumerate(t.items):
                    if i:
                        parts.append(b)

                    def tostr(z, s2):
                        z = self.unstr(z, s2)
                        if self.is_str(z):
                            return z
                        if isinstance(z, (App, Sym)):
                            return z if isinstance(z, App) else App("str", z)
                        return self.error(s2, "TypeError", "sequence item: expected str")

                    parts.append(self.each(x, s1, tostr))
                return self.pure(parts, s1.pc, lambda *ps: mkstr(ps))

            return self.each(items, st, go)
        if name == "format" and isinstance(b, K):
            return self.format_(b.value, args, kwargs, st)
        vals = []
        for a in args:
            if isinstance(a, Alt):
                return self.each(a, st, lambda x, s1: self.str_method(b, name, [x if y is a else y for y in args], kwargs, s1))
            a = self.unstr(a, st)
            vals.append(a)
        if isinstance(b, K) and all(self.const_like(a) for a in vals) and not kwargs:
            py = [self.to_py(a) for a in vals]
            try:
                return self.from_py(getattr(b.value, name)(*py), st)
            except ValueError:
                return self.error(st, "ValueError", "str method")
            except TypeError:
                return self.error(st, "TypeError", "str method")
        if name in ("startswith", "endswith") and isinstance(b, Str) and vals and isinstance(vals[0], K):
            p = b.parts[0 if name == "startswith" else -1]
            x = vals[0].value
            if isinstance(p, str) and isinstance(x, str):
                if len(p) >= len(x):
                    return B(int(getattr(p, name)(x)))
                q = x[: len(p)] if name == "startswith" else x[-len(p):]
                if p != q:
                    return FALSE
        if name in ("__eq__",):
            return B(self.eq(b, vals[0], st))
        if name == "__contains__":
            return B(self.contains(b, vals[0], st))
        if name in ("__str__",):
            return b
        if name == "__hash__":
            return App("hash", self.canon(b, st))
        if name == "__add__":
            return self.binop("Add", b, vals[0], st)
        if name in ("startswith", "endswith", "isupper", "islower", "isidentifier", "isalpha", "isdigit", "isalnum", "isspace"):
            return B(self.atom("strpred", name, self.canon(b, st), Tup(self.canon(v, st) for v in vals)))
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            return App("strsplit", name, self.canon(b, st), *[self.canon(v, st) for v in vals])
        if name in ("find", "index", "count", "__len__"):
            return App("strnum", name, self.canon(b, st), *[self.canon(v, st) for v in vals])
        return App("strmeth", name, self.canon(b, st), *[self.canon(v, st) for v in vals])

    def const_like(self, a):
        return isinstance(a, K) or (isinstance(a, B) and a.bdd in (0, 1)) or (
            isinstance(a, Tup) and all(self.const_like(x) for x in a.items)
        )

    def to_py(self, a):
        if isinstance(a, K):
            return a.value
        if isinstance(a, B):
            return bool(a.bdd)
        return tuple(self.to_py(x) for x in a.items)

    def from_py(self, v, st):
        if isinstance(v, bool):
            return B(int(v))
        if isinstance(v, tuple):
            return Tup(self.from_py(x, st) for x in v)
        if isinstance(v, list):
            return self.alloc(st, HList(Tup(self.from_py(x, st) for x in v)))
        return K(v)

    def format_(self, fmt, args, kwargs, st):
        import string

        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(K(lit))
            if field is None:
                continue
            if spec:
                raise Undecided("format spec", self.where)
            base = field.split(".")[0].split("[")[0]
            if "[" in field:
                raise Undecided("format field", self.where)
            if base == "":
                if auto >= len(args):
                    return self.error(st, "IndexError", "format")
                v = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    return self.error(st, "IndexError", "format")
                v = args[int(base)]
            else:
                if base not in kwargs:
                    return self.error(st, "KeyError", base)
                v = kwargs[base]
            for a in field.split(".")[1:]:
                v = self.each(v, st, lambda b, s1: self.getattr(b, a, s1))
            if conv == "r":
                out.append(self.each(v, st, lambda b, s1: self.repr_(b, s1)))
            else:
                out.append(self.each(v, st, lambda b, s1: self.str_(b, s1)))
        return self.pure(out, st.pc, lambda *ps: mkstr(ps))

    # ------------------------------------------------------------ methods of builtin types

    def list_method(self, b, name, args, kwargs, st):
        c = self.seq_content(b, st)
        r = self.rec(st, b.id)
        it = isinstance(r, HList) and r.kind == "iter"
        if it and name in ("__next__", "__iter__"):
            if name == "__iter__":
                return b
            return self.next_(b, [], st)
        if name == "append":
            self.list_append(b, args[0], st)
            return NONE
        if name in ("extend", "extendleft"):
            more = self.iter_content(args[0], st)
            r = self.rec(st, b.id)
            c = r.content
            if name == "extend":
                v = self.pure([c, more], st.pc, self.cat)
            else:
                v = self.pure([c, more], st.pc, lambda t, m: Tup(m.items[::-1] + t.items))
            if st.pc:
                if it:
                    self.put(st, b.id, HList(v, "iter"), "extend", silent=b.id not in self.base)
                else:
                    self.set_content(b, v, st, "extend")
            return NONE
        if name == "appendleft":
            self.set_content(b, self.emap(c, st.pc, lambda t: Tup((args[0],) + t.items)), st, name)
            return NONE
        if name == "insert":
            v = self.pure([c, args[0]], st.pc, lambda t, i: self.ins(t, i, args[1]))
            self.set_content(b, v, st, name)
            return NONE
        if name in ("pop", "popleft"):
            i = args[0] if args else K(-1)
            if name == "popleft":
                i = K(0)

            def one(t, s1):
                def two(k, s2):
                    k = self.num(k)
                    if not isinstance(t, Tup) or not isinstance(k, K):
                        raise Undecided("pop from an opaque sequence", self.where)
                    n = len(t.items)
                    if not -n <= k.value < n:
                        return self.error(s2, "IndexError", "pop from empty list")
                    xs = list(t.items)
                    x = xs.pop(k.value)
                    self.set_content(b, Tup(xs), s2, name)
                    return x

                return self.each(i, s1, two)

            return self.each(c, st, one)
        if name in ("reverse", "clear"):
            f = (lambda t: Tup(t.items[::-1])) if name == "reverse" else (lambda t: Tup(()))
            self.set_content(b, self.emap(c, st.pc, f), st, name)
            return NONE
        if name == "sort":
            r = self.x_builtins_sorted([b], kwargs, st)
            if st.pc:
                self.set_content(b, self.seq_content(r, st), st, name)
            return NONE
        if name in ("copy",):
            return self.alloc(st, HList(c))
        if name in ("index", "count", "remove"):
            return self.seq_search(b, c, name, args, st)
        if name == "__contains__":
            return B(self.contains(b, args[0], st))
        if name == "__len__":
            return self.len_(b, st)
        if name == "__getitem__":
            return self.each(args[0], st, lambda k, s1: self.getitem(b, k, s1))
        if name == "__iter__":
            return self.alloc(st, HList(c, "iter"))
        if name == "__eq__":
            return self.each(args[0], st, lambda k, s1: B(self.eq(b, k, s1)))
        if name == "__init__":
            v = self.iter_content(args[0], st) if args else Tup(())
            self.set_content(b, v, st, name)
            return NONE
        raise Undecided(f"list.{name}", self.where)

    def ins(self, t, i, v):
        if not isinstance(t, Tup) or not isinstance(i, K):
            raise Undecided("insert", self.where)
        xs = list(t.items)
        xs.insert(i.value, v)
        return Tup(xs)

    def seq_search(self, b, c, name, args, st):
        bdd = self.bdd

        def one(t, s1):
            if not isinstance(t, Tup):
                raise Undecided(f"{name} in an opaque sequence", self.where)
            rest = s1.pc
            out = []
            lo = 0
            hi = len(t.items)
            if len(args) > 1:
                if not all(isinstance(a, K) for a in args[1:]):
                    raise Undecided("index bounds", self.where)
                lo, hi, _ = slice(*[a.value for a in args[1:]]).indices(hi) if len(args) > 2 else slice(args[1].value, None).indices(hi)
            if name == "count":
                counts = {0: s1.pc}
                for x in t.items:
                    e = self.eqv(x, args[0], s1)
                    new = {}
                    for n, g in counts.items():
                        new[n + 1] = bdd.or_(new.get(n + 1, 0), bdd.and_(g, e))
                        new[n] = bdd.or_(new.get(n, 0), bdd.and_(g, bdd.not_(e)))
                    counts = new
                return self.combine([(g, K(n)) for n, g in counts.items()])
            for i in range(lo, hi):
                if not rest:
                    break
                e = bdd.and_(rest, self.eqv(t.items[i], args[0], St_view(s1, rest)))
                if e:
                    out.append((e, i))
                    rest = bdd.and_(rest, bdd.not_(e))
            self.error(s1, "ValueError", "not in list", rest)
            if name == "index":
                return self.combine([(g, K(i)) for g, i in out])
            v = self.combine([(g, Tup(t.items[:i] + t.items[i + 1:])) for g, i in out])
            if s1.pc:
                self.set_content(b, v, s1, "remove")
            return NONE

        return self.each(c, st, one)

    def map_method(self, b, name, args, kwargs, st):
        bdd = self.bdd
        r = self.map_rec(b, st)
        kind = r.kind
        for i, a in enumerate(args):
            if isinstance(a, Alt) and (kind == "set" or (i == 0 and name != "fromkeys")):
                return self.each(a, st, lambda x, s1: self.map_method(b, name, args[:i] + [x] + args[i + 1:], kwargs, s1))
        if name == "__contains__":
            return B(self.contains(b, args[0], st))
        if name == "__len__":
            return self.len_(b, st)
        if name == "__eq__":
            return B(self.eq(b, args[0], st))
        if name == "clear":
            self.map_put(b, (), st, name)
            return NONE
        if name == "copy":
            return self.alloc(st, HMap(r.entries, kind, r.opaque, r.factory))
        if kind == "dict":
            if name in ("get", "setdefault", "pop"):
                d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
                if name == "get":
                    found, miss = self.map_get(b, args[0], st)
                    return self.combine(found + [(miss, d)])
                if name == "pop":
                    found, miss = self.map_remove(b, args[0], st, "pop")
                    if len(args) > 1:
                        return self.combine(found + [(miss, d)])
                    self.error(st, "KeyError", repr(args[0]), miss)
                    return self.combine(found)
                found, miss = self.map_get(b, args[0], st)
                if miss:
                    s1 = St_like(st, miss)
                    s2 = St_like(st, bdd.and_(st.pc, bdd.not_(miss)))
                    self.map_store(b, args[0], d, s1, "setdefault")
                    self.join(st, [s1, s2])
                return self.combine(found + [(miss, d)])
            if name in ("keys", "__iter__"):
                if r.opaque is not None:
                    return App("view", r.opaque)
                return self.alloc(st, HList(self.shapes([(k, g) for k, _, g in r.entries], st), "iter"))
            if name == "values":
                if r.opaque is not None:
                    return App("values", r.opaque)
                return self.alloc(st, HList(self.shapes([(v, g) for _, v, g in r.entries], st), "iter"))
            if name == "items":
                if r.opaque is not None:
                    return App("items", r.opaque)
                return self.alloc(st, HList(self.shapes([(Tup((k, v)), g) for k, v, g in r.entries], st), "iter"))
            if name == "update":
                for a in args:
                    m = self.map_rec(a, st)
                    if m is not None and m.opaque is None:
                        for k, v, g in m.entries:
                            if bdd.and_(st.pc, g):
                                self.split(st, g, lambda s1: self.map_store(b, k, v, s1, name) or NONE, lambda s2: NONE)
                        continue
                    if m is not None and not r.entries and r.opaque is None:
                        self.put(st, b.id, HMap((), "dict", m.opaque), name)
                        continue
                    content = self.iter_content(a, st)

                    def go(t, s1):
                        if not isinstance(t, Tup):
                            raise Undecided("dict.update of opaque", self.where)
                        for p in t.items:
                            q = self.seq_content(p, s1)
                            if not isinstance(q, Tup) or len(q.items) != 2:
                                raise Undecided("dict.update item", self.where)
                            self.each(q.items[0], s1, lambda k, s2: self.map_store(b, k, q.items[1], s2, name) or NONE)
                        return NONE

                    self.each(content, st, go)
                for k, v in kwargs.items():
                    self.map_store(b, K(k), v, st, name)
                return NONE
            if name == "__getitem__":
                return self.getitem(b, args[0], st)
            if name == "__setitem__":
                return self.setitem(b, args[0], args[1], st)
            if name == "__delitem__":
                return self.delitem(b, args[0], st)
            if name == "popitem":
                content = self.shapes([(Tup((k, v)), g) for k, v, g in r.entries], st)

                def pop(t, s1):
                    if not t.items:
                        return self.error(s1, "KeyError", "popitem")
                    last = t.items[-1]
                    self.map_remove(b, last.items[0], s1, "popitem")
                    return last

                return self.each(content, st, pop)
            raise Undecided(f"dict.{name}", self.where)
        if name == "add":
            self.map_store(b, args[0], None, st, name)
            return NONE
        if name in ("discard", "remove"):
            _, miss = self.map_remove(b, args[0], st, name)
            if name == "remove":
                self.error(st, "KeyError", "set.remove", miss)
            return NONE
        if name == "__iter__":
            return self.alloc(st, HList(self.iter_content(b, st), "iter"))
        if name in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference",
                    "__or__", "__and__", "__sub__", "difference_update", "intersection_update"):
            others = []
            for a in args:
                e = self.set_entries(a, st)
                if e is None:
                    s = self.make_set(self.iter_content(a, st), st)
                    e = self.set_entries(s, st)
                if e is None:
                    if name == "update" and not r.entries:
                        self.put(st, b.id, HMap((), "set", App("copy", a)), name)
                        return NONE
                    raise Undecided(f"set.{name} of opaque", self.where)
                others.append(e)
            mine = self.set_entries(b, st)
            if mine is None:
                raise Undecided(f"set.{name} of opaque", self.where)
            if name in ("issubset", "issuperset", "isdisjoint"):
                member = lambda x, ys: bdd.or_(*[bdd.and_(h, self.eqv(j, x, st)) for j, h in ys])
                o = others[0]
                if name == "isdisjoint":
                    return B(bdd.and_(*[bdd.implies(g, bdd.not_(member(k, o))) for k, g in mine]))
                p, q = (mine, o) if name == "issubset" else (o, mine)
                return B(bdd.and_(*[bdd.implies(g, member(k, q)) for k, g in p]))
            op = {"update": "BitOr", "union": "BitOr", "__or__": "BitOr", "intersection": "BitAnd", "__and__": "BitAnd",
                  "difference": "Sub", "__sub__": "Sub", "symmetric_difference": "BitXor",
                  "difference_update": "Sub", "intersection_update": "BitAnd"}[name]
            cur = mine
            res = self.alloc(st, HMap(tuple((k, None, g) for k, g in mine), "set"))
            for o in others:
                res = self.set_op(op, b, cur, o, st)
                cur = self.set_entries(res, st)
            if name.endswith("update"):
                self.map_put(b, [(k, None, g) for k, g in cur], st, name)
                return NONE
            return res
        if name == "pop":
            content = self.iter_content(b, st)

            def spop(t, s1):
                if not isinstance(t, Tup):
                    raise Undecided("set.pop of opaque", self.where)
                if not t.items:
                    return self.error(s1, "KeyError", "pop from an empty set")
                x = t.items[-1]
                self.each(x, s1, lambda k, s2: self.map_remove(b, k, s2, "pop") and NONE)
                return x

            return self.each(content, st, spop)
        if name == "__hash__":
            return App("hash", self.canon(b, st))
        raise Undecided(f"set.{name}", self.where)

    def fset_method(self, b, name, args, kwargs, st):
        tmp = self.alloc(st, HMap(tuple((k, None, g) for k, g in b.entries), "set"))
        if name == "__hash__":
            return App("hash", self.canon(b, st))
        if name == "copy":
            return b
        r = self.map_method(tmp, name, args, kwargs, st)
        if isinstance(r, Ref) and name in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__"):
            return FSet(tuple((k, g) for k, _, g in self.rec(st, r.id).entries))
        return r

    def len_(self, b, st):
        bdd = self.bdd
        c = self.seq_content(b, st)
        if c is not None:
            return self.emap(c, st.pc, lambda t: K(len(t.items)) if isinstance(t, Tup) else App("len", t))
        ents = None
        if isinstance(b, FSet):
            ents = [g for _, g in b.entries]
        m = self.map_rec(b, st)
        if m is not None:
            if m.opaque is not None:
                return App("len", m.opaque)
            ents = [g for _, _, g in m.entries]
        if ents is not None:
            counts = {0: st.pc}
            for g in ents:
                new = {}
                for n, p in counts.items():
                    new[n + 1] = bdd.or_(new.get(n + 1, 0), bdd.and_(p, g))
                    new[n] = bdd.or_(new.get(n, 0), bdd.and_(p, bdd.not_(g)))
                counts = new
            return self.combine([(g, K(n)) for n, g in counts.items() if g])
        if self.instance(b, st):
            r = self.dunder(b, "__len__", [], st)
            if r is not None:
                return r
            u = self.unstr(b, st)
            if u is not b:
                return self.len_(u, st)
            return self.error(st, "TypeError", "object has no len()")
        if isinstance(b, Cls) and b.members is not None:
            return K(len(b.members))
        if isinstance(b, (Sym, App, Str)):
            return App("len", self.canon(b, st))
        return self.error(st, "TypeError", f"object has no len(): {b!r}")

    def next_(self, b, default, st):
        r = self.rec(st, b.id) if isinstance(b, Ref) else None
        if not isinstance(r, HList):
            f = self.user_attr(b, "__next__", st)
            if f is not None:
                return self.call(f, [b], {}, st)
            if isinstance(b, (App, Sym)):
                return App("next", b, *default)
            return self.error(st, "TypeError", "not an iterator")

        def one(t, s1):
            if not isinstance(t, Tup):
                raise Undecided("next() on an opaque iterator", self.where)
            if not t.items:
                if default:
                    return default[0]
                return self.error(s1, "StopIteration", "")
            self.put(s1, b.id, HList(Tup(t.items[1:]), r.kind), "next", silent=b.id not in self.base)
            return t.items[0]

        return self.each(r.content, st, one)

    # ------------------------------------------------------------ attributes

    # Attributes assigned to classes and functions after loading live in the abstract heap.

    def own_attr(self, c, name, st):
        """Attribute of a class or function itself, None if missing."""
        static = c.attrs.get(name)
        if name not in self.over_names:
            return static
        i = self.overlays.get(c)
        v = self.rec(st, i).vars.get(name) if i is not None else None
        if v is None:
            return static
        out = []
        for g, x in self.alts(v, st.pc):
            if x != ABSENT:
                out.append((g, x))
            elif static is not None:
                out.append((g, static))
            else:
                out.append((g, ABSENT))
        v = self.combine(out)
        return None if v == ABSENT or v is BOT else v

    def lookup(self, c, name, st):
        """Attribute of a class through its MRO, with the class that has it."""
        if name not in self.over_names:
            return c.lookup(name)
        return self.lookup_in(c.mro, name, st)

    def lookup_in(self, mro, name, st):
        pend, pc, first = [], st.pc, None
        for k in mro:
            v = self.own_attr(k, name, st)
            if v is None:
                continue
            first = first or k
            rest = 0
            for g, x in self.alts(v, pc):
                if x == ABSENT:
                    rest = self.bdd.or_(rest, g)
                else:
                    pend.append((g, x))
            pc = rest
            if not pc:
                break
        if not pend:
            return None, None
        if pc:
            raise Undecided(f"attribute {name} exists on some paths only", self.where)
        v = self.combine(pend)
        if isinstance(v, Alt) and any(isinstance(x, (Fn, Wrap, Dispatch)) for _, x in v.alts):
            raise Undecided(f"class attribute {name} has several definitions", self.where)
        return v, first

    def search_path(self, b, st):
        if isinstance(b, Cls):
            return b.mro
        if isinstance(b, Fn):
            return [b]
        if isinstance(b, Ref) and isinstance(self.rec(st, b.id), HInst):
            return self.rec(st, b.id).cls.mro
        return None

    def present(self, mro, name, st):
        """The condition under which a class or function has an attribute."""
        out, pc = 0, st.pc
        for k in mro:
            v = self.own_attr(k, name, st)
            if v is None:
                continue
            for g, x in self.alts(v, pc):
                if x != ABSENT:
                    out = self.bdd.or_(out, g)
            pc = self.bdd.and_(st.pc, self.bdd.not_(out))
            if not pc:
                break
        return out

    def assign_over(self, c, name, v, st, what):
        """Assign (or with ABSENT delete) an attribute of a class or function after loading."""
        if name.startswith("__") and name.endswith("__") and isinstance(c, Cls):
            raise Undecided(f"assignment to {name} of class {c.name} after loading", self.where)
        self.over_names.add(name)
        i = self.overlays.get(c)
        if i is None:
            i = self.overlays[c] = self.new_id()
            self.base[i] = HFrame({}, None)
            self.overlay_of[i] = c
        r = self.rec(st, i)
        self.put(st, i, HFrame({**r.vars, name: v}, None), what)

    def bind_attr(self, v, b, k, st):
        """Bind a class attribute to an instance."""
        if isinstance(v, Fn):
            return Bound(v, b)
        if isinstance(v, Wrap):
            if v.kind == "property":
                return self.call(v.fn, [b], {}, st)
            if v.kind == "cached_property":
                return self.call(v.fn, [b], {}, st)
            if v.kind == "classmethod":
                return Bound(v.fn, k)
            if v.kind == "staticmethod":
                return v.fn
        if isinstance(v, Dispatch):
            return Bound(v, b)
        if isinstance(v, App) and v.op == "partialmethod":
            return Part(v.args[0], (b,) + tuple(v.args[1].items), ())
        if isinstance(v, App) and v.op == "lru":
            return Bound(v, b)
        return v

    def getattr(self, b, name, st, default=None):
        """Attribute of a base value; AttributeError (or default) if missing."""
        if name in self.over_names and st.pc:
            mro = self.search_path(b, st)
            if mro is not None:
                q = self.present(mro, name, st)
                if q not in (0, st.pc):
                    return self.split(st, q, lambda s1: self.getattr(b, name, s1, default), lambda s1: self.getattr(b, name, s1, default))

        def missing(s1, cond=None):
            if default is not None:
                return default
            return self.error(s1, "AttributeError", f"{b!r} has no attribute {name}")

        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                return self.inst_attr(b, r, name, st, missing)
            kind = r.kind
            if name == "__class__":
                return self.class_of(b, st)
            if name in METHODS.get(kind, ()):
                return BMeth(b, name)
            return missing(st)
        if isinstance(b, New):
            if name in ("__class__",):
                return b.cls
            return self.getattr(self.materialise(b, st), name, st, default)
        if isinstance(b, Cls):
            return self.cls_attr(b, name, st, missing)
        if isinstance(b, Mod):
            v = self.rec(st, b.fid).vars.get(name)
            if v is None:
                if self.find_module(f"{b.name}.{name}"):
                    return self.import_module(f"{b.name}.{name}", st)
                return missing(st)
            return v
        if isinstance(b, Ext):
            if name == "__name__":
                return K(b.name.split(".")[-1])
            return self.ext_attr(b, name)
        if isinstance(b, EnumM):
            if name == "value":
                return b.value
            if name == "name":
                return K(b.name)
            if name == "__class__":
                return b.cls
            v, _ = self.lookup(b.cls, name, st)
            if v is not None:
                return self.bind_attr(v, b, b.cls, st)
            return missing(st)
        if isinstance(b, Super):
            return self.super_attr(b, name, st, missing)
        if isinstance(b, Fn):
            if name == "__name__":
                return K(b.attrs.get("__name__", b.name))
            if name in ("__qualname__",):
                return K(b.qual)
            v, _ = self.lookup_in([b], name, st)
            if v is not None:
                return v
            if name == "__doc__":
                return K(ast.get_docstring(b.node) if not isinstance(b.node, ast.Lambda) else None)
            if name == "__module__":
                return K(b.module.name)
            if name == "__call__":
                return b
            if name == "__get__":
                return BMeth(b, "__get__")
            return missing(st)
        if isinstance(b, Bound):
            if name == "__self__":
                return b.self_
            if name == "__func__":
                return b.fn
            return self.getattr(b.fn, name, st, default)
        if isinstance(b, Dispatch):
            if name in ("register", "dispatch"):
                return BMeth(b, name)
            if name == "registry":
                return App("registry", b)
            return self.getattr(b.default, name, st, default)
        if isinstance(b, Part):
            if name == "func":
                return b.fn
            if name == "args":
                return Tup(b.args)
            return missing(st)
        if isinstance(b, Wrap):
            if b.kind == "property" and name in ("setter", "getter", "deleter"):
                return BMeth(b, name)
            if name == "fget":
                return b.fn
            if name == "__func__":
                return b.fn
            return missing(st)
        if isinstance(b, Tup):
            if name in METHODS["tuple"]:
                return BMeth(b, name)
            if name == "__class__":
                return self.builtin_cls["tuple"]
            return missing(st)
        if isinstance(b, FSet):
            if name in METHODS["frozenset"]:
                return BMeth(b, name)
            return missing(st)
        if self.is_str(b):
            if name in METHODS["str"]:
                return BMeth(b, name)
            if isinstance(b, Sym) and not b.exact and name in b.attrs:
                return b.attrs[name]
            if name == "__class__":
                return self.class_of(b, st) or App("type", b)
            if isinstance(b, Sym) and b.name.startswith("tok:") and name in ("value", "type"):
                return App("str", b) if name == "value" else App("attr", b, "type")
            return missing(st)
        if isinstance(b, App) and b.op == "__dict__":
            if name in METHODS["dict"]:
                return BMeth(b, name)
            return missing(st)
        if isinstance(b, (K, B)):
            if name == "__class__":
                return self.class_of(b, st)
            if isinstance(b, (B,)) or isinstance(b.value, int):
                if name in METHODS["int"]:
                    return BMeth(b, name)
                if name == "real":
                    return b
            return missing(st)
        if isinstance(b, Sym):
            return self.sym_attr(b, name, st, missing)
        if isinstance(b, App):
            if b.op == "super":
                raise Undecided("super()", self.where)
            if b.op == "lru":
                if name in ("cache_clear", "cache_info", "cache_parameters"):
                    return BMeth(b, name)
                return self.getattr(b.args[0], name, st, default)
            if name == "__name__" and b.op == "type":
                return App("clsname", b.args[0])
            if name == "__class__":
                return App("type", b)
            if default is not None and b.op not in ("ext", "type"):
                h = self.atom("hasattr", self.canon(b, st), name)
                return self.combine([(self.bdd.and_(st.pc, h), App("attr", b, name)), (self.bdd.and_(st.pc, self.bdd.not_(h)), default)])
            return App("attr", b, name)
        if isinstance(b, DirOf):
            raise Undecided("dir()", self.where)
        return missing(st)

    def inst_attr(self, b, r, name, st, missing):
        v, c = self.lookup(r.cls, name, st)
        if isinstance(v, Wrap) and v.kind == "property":
            return self.call(v.fn, [b], {}, st)
        if name == "__dict__":
            return App("__dict__", b)
        if name == "__class__":
            return r.cls
        pend = []
        pc = st.pc
        if name in r.attrs:
            rest = 0
            for g, x in self.alts(r.attrs[name], st.pc):
                if x == ABSENT:
                    rest = self.bdd.or_(rest, g)
                else:
                    pend.append((g, x))
            if not rest:
                return self.combine(pend)
            pc = rest

        def fallback(s1):
            if v is not None:
                if isinstance(v, Wrap) and v.kind == "cached_property":
                    val = self.call(v.fn, [b], {}, s1)
                    return val
                return self.bind_attr(v, b, r.cls, s1)
            kind = None
            if r.content is not None:
                kind = "str" if r.cls.sub(self.builtin_cls["str"]) else "list"
                if name in METHODS[kind]:
                    return BMeth(b if kind == "list" else r.content, name)
            if name in OBJECT_ATTRS and name != "__dict__":
                if name == "__doc__":
                    return NONE
                return BMeth(b, name)
            if self.is_transformer(r.cls) and hasattr(lark.Transformer, name):
                return BMeth(b, "lark:" + name)
            f, _ = r.cls.lookup("__getattr__")
            if f is not None and not name.startswith("__"):
                return self.call(Bound(f, b), [K(name)], {}, s1)
            if any(getattr(k, "external", False) for k in r.cls.mro):
                if self.is_transformer(r.cls):
                    return missing(s1)
                return App("attr", self.canon(b, s1), name)
            return missing(s1)

        if not pend:
            return fallback(st)
        s1 = St_like(st, pc)
        v1 = fallback(s1)
        s2 = St_like(st, self.bdd.and_(st.pc, self.bdd.not_(pc)))
        self.join(st, [s1, s2])
        return self.combine(pend + [(s1.pc, v1)])

    def cls_attr(self, b, name, st, missing):
        if name in ("__name__", "__qualname__"):
            return K(b.name)
        if name == "__mro__":
            return Tup(b.mro)
        if name == "mro":
            return BMeth(b, "mro")
        if name == "__bases__":
            return Tup(b.bases)
        if name == "__class__":
            return b.meta or self.builtin_cls["type"]
        if name == "__module__":
            return K(b.module or "builtins")
        if name == "__members__" and b.members is not None:
            return self.alloc(st, HMap(tuple((K(m.name), m, 1) for m in b.members), "dict"))
        if name == "__dict__":
            return self.alloc(st, HMap(tuple((K(k), v, 1) for k, v in b.attrs.items()), "dict"))
        if name == "__annotations__":
            raise Undecided("__annotations__", self.where)
        v, c = self.lookup(b, name, st)
        if v is not None:
            if isinstance(v, Wrap):
                if v.kind == "classmethod":
                    return Bound(v.fn, b)
                if v.kind == "staticmethod":
                    return v.fn
                return v
            return v
        if b.meta is not None:
            v, c = self.lookup(b.meta, name, st)
            if v is not None:
                return self.bind_attr(v, b, b.meta, st)
        if b.builtin and not getattr(b, "external", False):
            if name in METHODS.get(b.name, ()) or name in OBJECT_ATTRS or name in ("fromkeys", "__call__", "__subclasses__", "maketrans"):
                return BMeth(b, name)
        for k in b.mro:
            if k.builtin and name in METHODS.get(k.name, ()):
                return BMeth(k, name)
        if name in OBJECT_ATTRS or name in ("__subclasses__", "__call__"):
            return BMeth(b, name)
        if any(getattr(k, "external", False) for k in b.mro):
            return App("attr", b, name)
        return missing(st)

    def super_attr(self, b, name, st, missing):
        obj = b.obj
        if isinstance(obj, Cls):
            if b.cls in obj.mro:
                k = obj  # super() in a classmethod or __new__
                as_cls = True
            else:
                k = obj.meta or self.builtin_cls["type"]
                as_cls = False
        else:
            if isinstance(obj, New):
                obj = self.materialise(obj, st)
            k = self.class_of(obj, st)
            if k is None and isinstance(obj, Sym) and obj.cls is not None:
                k = obj.cls
            as_cls = False
        if k is None or b.cls not in k.mro:
            raise Undecided("super() of an opaque object", self.where)
        mro = k.mro[k.mro.index(b.cls) + 1:]
        for c in mro:
            v, _ = self.lookup_in([c], name, st)
            if v is not None:
                if as_cls:
                    if isinstance(v, Wrap):
                        if v.kind == "classmethod":
                            return Bound(v.fn, obj)
                        if v.kind == "staticmethod":
                            return v.fn
                    return v  # __new__ and unbound functions
                return self.bind_attr(v, obj, k, st)
        # builtin implementation
        base = next((c for c in mro if c.builtin), self.builtin_cls["object"])
        for c in mro:
            if c.builtin and (name in METHODS.get(c.name, ()) or c.name == "type" and name in ("__call__", "__new__", "__init__")):
                base = c
                break
        if name in OBJECT_ATTRS or name in METHODS.get(base.name, ()) or (base.sub(self.builtin_cls["type"]) and name == "__call__"):
            return BMeth(Tup((base, obj, B(int(as_cls)))), "super:" + name)
        if any(getattr(c, "external", False) for c in mro):
            return App("attr", App("superext", obj), name)
        return missing(st)

    def sym_attr(self, b, name, st, missing):
        if name in b.attrs:
            return b.attrs[name]
        bc = self.builtin_cls
        if name == "__class__":
            return b.cls if b.exact else App("type", b)
        if b.cls is not None and b.cls.builtin:
            kind = b.cls.name
            if name in METHODS.get(kind, ()):
                return BMeth(b, name)
            if not getattr(b.cls, "external", False):
                return missing(st)
        if b.cls is not None and not b.cls.builtin:
            v, c = self.lookup(b.cls, name, st)
            over = [k for k in self.concrete_subs(b.cls) if k is not b.cls and name in k.attrs]
            if v is not None and (b.exact or not over):
                return self.bind_attr(v, b, b.cls, st)
            if v is None and not over and not name.startswith("__"):
                # instance attributes assigned by some subclass?
                if not self.known_instance_attr(b, name):
                    return missing(st)
        return App("attr", b, name)

    def known_instance_attr(self, b, name):
        for k in self.concrete_subs(b.cls) + [b.cls]:
            for c in k.mro:
                if name in self.instance_attrs(c):
                    return True
        return False

    def instance_attrs(self, c):
        """Names assigned as self.X in the methods of the class (syntactic)."""
        r = getattr(c, "_iattrs", None)
        if r is None:
            r = set()
            if c.node is not None:
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        r.add(n.attr)
                    if isinstance(n, ast.Call) and getattr(n.func, "id", None) == "setattr" and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant):
                            r.add(n.args[1].value)
            c._iattrs = r
        return r

    def hasattr(self, b, name, st):
        """hasattr(b, name) as a BDD."""
        if isinstance(b, New):
            b = self.materialise(b, st)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                out = 0
                if name in self.over_names:
                    out = self.present(r.cls.mro, name, st)
                elif self.lookup(r.cls, name, st)[0] is not None:
                    return 1
                if out == st.pc:
                    return 1
                if name in r.attrs:
                    for g, x in self.alts(r.attrs[name], st.pc):
                        if x != ABSENT:
                            out = self.bdd.or_(out, g)
                    return out
                if r.content is not None:
                    kind = "str" if r.cls.sub(self.builtin_cls["str"]) else "list"
                    if name in METHODS[kind]:
                        return 1
                if name in OBJECT_ATTRS:
                    return 1
                f, _ = r.cls.lookup("__getattr__")
                if f is not None:
                    raise Undecided("hasattr with __getattr__", self.where)
                return out
        if isinstance(b, Sym) and b.cls is not None and not b.cls.builtin:
            if name in b.attrs:
                return 1
            if b.cls.lookup(name)[0] is not None:
                return 1
            subs = self.concrete_subs(b.cls)
            have = [k for k in subs if k.lookup(name)[0] is not None or any(name in self.instance_attrs(c) for c in k.mro)]
            if not have:
                return 0
            if b.exact:
                return int(b.cls in have)
            return self.atom("hasattr", b, name)
        if isinstance(b, (Sym, App)) and not self.is_str(b) and not (isinstance(b, Sym) and b.cls is not None):
            return self.atom("hasattr", self.canon(b, st), name)
        if isinstance(b, (Ext,)):
            return self.atom("hasattr", b, name)
        # known kinds: try
        mark = []
        self.sink.append(mark)
        try:
            s = St_like(st, st.pc)
            self.getattr(b, name, s)
        finally:
            self.sink.pop()
        return self.bdd.not_(self.bdd.or_(*[m[0] for m in mark]))

    def setattr(self, b, name, v, st):
        if isinstance(b, New):
            b = self.materialise(b, st)
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                f, c = r.cls.lookup("__setattr__")
                if isinstance(f, Fn):
                    return self.call(Bound(f, b), [K(name), v], {}, st)
                p, c = r.cls.lookup(name)
                if isinstance(p, Wrap) and p.kind == "property":
                    if p.setter is None:
                        return self.error(st, "AttributeError", f"property {name} has no setter")
                    return self.call(p.setter, [b, v], {}, st)
                return self.raw_setattr(b, name, v, st)
            return self.error(st, "AttributeError", name)
        if isinstance(b, Cls):
            if self.loading or st.heap is self.base:
                b.attrs[name] = v
            else:
                self.assign_over(b, name, v, st, f"assignment to attribute {name} of class {b.name}")
            return NONE
        if isinstance(b, Fn):
            if self.loading or st.heap is self.base:
                b.attrs[name] = v
            else:
                self.assign_over(b, name, v, st, f"assignment to attribute {name} of function {b.qual}")
            return NONE
        if isinstance(b, Mod):
            r = self.rec(st, b.fid)
            vs = dict(r.vars)
            vs[name] = v
            self.put(st, b.fid, HFrame(vs, r.parent), f"assignment to {name}")
            return NONE
        if isinstance(b, (Sym, App)):
            self.effects.append((st.pc, "opaque", repr(b), f"assignment to attribute {name}", self.where, None))
            return NONE
        if isinstance(b, (Dispatch, Part)):
            return NONE
        return self.error(st, "AttributeError", name)

    def raw_setattr(self, b, name, v, st):
        r = self.rec(st, b.id)
        if name == "__dict__":
            self.dicts_assigned.append((b, v))
            m = self.map_rec(v, st) if not isinstance(v, Alt) else None
            if m is None:
                self.put(st, b.id, HInst(r.cls, {"<opaque dict>": v}, r.content, r.new), "assignment to __dict__")
                return NONE
            attrs = {}
            for k, w, g in m.entries:
                rest = self.bdd.and_(st.pc, self.bdd.not_(g))
                attrs[k.value] = self.combine([(g, w), (rest, ABSENT)]) if rest else w
            self.put(st, b.id, HInst(r.cls, attrs, r.content, r.new), "assignment to __dict__")
            return NONE
        attrs = dict(r.attrs)
        attrs[name] = v
        self.put(st, b.id, HInst(r.cls, attrs, r.content, r.new), f"assignment to attribute {name}")
        return NONE

    def delattr(self, b, name, st):
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst):
                if name not in r.attrs:
                    return self.error(st, "AttributeError", name)
                g = 0
                for h, x in self.alts(r.attrs[name], st.pc):
                    if x == ABSENT:
                        g = self.bdd.or_(g, h)
                self.error(st, "AttributeError", name, g)
                attrs = dict(r.attrs)
                del attrs[name]
                self.put(st, b.id, HInst(r.cls, attrs, r.content, r.new), f"deletion of attribute {name}")
                return NONE
        if isinstance(b, (Cls, Fn)) and not self.loading and st.heap is not self.base:
            if self.own_attr(b, name, st) is None:
                return self.error(st, "AttributeError", name)
            self.assign_over(b, name, ABSENT, st, f"deletion of attribute {name} of {b!r}")
            return NONE
        if isinstance(b, (Sym, App)):
            self.effects.append((st.pc, "opaque", repr(b), f"deletion of attribute {name}", self.where, None))
            return NONE
        return self.error(st, "AttributeError", name)

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs, st, node=None):
        if not st.pc:
            return BOT
        if isinstance(f, Alt):
            return self.each(f, st, lambda b, s1: self.call(b, args, kwargs, s1, node))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, Part):
            return self.call(f.fn, list(f.args) + list(args), {**dict(f.kwargs), **kwargs}, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kwargs, st)
        if isinstance(f, Dispatch):
            return self.call_dispatch(f, args, kwargs, st, node)
        if isinstance(f, BMeth):
            return self.call_bmeth(f, list(args), kwargs, st)
        if isinstance(f, Ext):
            return self.call_ext(f.name, list(args), kwargs, st)
        if isinstance(f, Wrap):
            if f.kind == "staticmethod":
                return self.call(f.fn, args, kwargs, st, node)
            return self.error(st, "TypeError", "not callable")
        if isinstance(f, App):
            return self.call_app(f, list(args), kwargs, st, node)
        if isinstance(f, (Ref, New)):
            r = self.dunder(f, "__call__", args, st) if not kwargs else None
            if r is not None:
                return r
            c = self.user_attr(f, "__call__", st)
            if c is not None:
                if isinstance(f, New):
                    f = self.materialise(f, st)
                return self.call(c, [f] + list(args), kwargs, st, node)
            return self.error(st, "TypeError", "not callable")
        if isinstance(f, Sym):
            return App("call", f, Tup(args), *[Tup((K(k), v)) for k, v in kwargs.items()])
        return self.error(st, "TypeError", f"{f!r} is not callable")

    def call_dispatch(self, d, args, kwargs, st, node=None):
        if not args:
            return self.error(st, "TypeError", "singledispatch requires an argument")

        def go(b, s1):
            k = self.class_of(b, s1)
            if k is None:
                if self.fn_hook is not None:
                    r = self.fn_hook(d, [b] + list(args[1:]), kwargs, s1)
                    if r is not None:
                        return r
                rest = [self.receiver(a, s1) for a in args[1:]] if self.cut_late else list(args[1:])
                return App("call", d, Tup([b] + rest), *[Tup((K(n), v)) for n, v in sorted(kwargs.items())])
            return self.call(d.find(k), [b] + list(args[1:]), kwargs, s1, node)

        return self.each(args[0], st, go)

    def call_app(self, f, args, kwargs, st, node):
        op = f.op
        if op == "decorator":  # a parametrised decorator
            return self.call(f.args[0], list(f.args[1].items) + args, kwargs, st)
        if op == "wraps":
            fn = args[0]
            if isinstance(fn, Fn) and isinstance(f.args[0], (Fn, BMeth, Wrap)):
                nm = f.args[0]
                fn.attrs.setdefault("__name__", nm.name if isinstance(nm, (Fn, BMeth)) else fn.name)
                fn.attrs["__wrapped__"] = nm
            return fn
        if op == "register":
            d, cls = f.args
            self.register(d, cls, args[0])
            return args[0]
        if op == "lru_deco":
            return App("lru", args[0], self.alloc(st, HMap((), "dict")))
        if op == "lru":
            return self.lru_call(f, list(args), kwargs, st, node)
        if op == "dataclass_deco":
            return self.dataclass(args[0], st)
        if op == "attrgetter":
            def get(v):
                for n in f.args[0].split("."):
                    v = self.each(v, st, lambda b, s1: self.getattr(b, n, s1))
                return v
            return get(args[0])
        if op == "itemgetter":
            return self.each(args[0], st, lambda b, s1: self.getitem(b, f.args[0], s1))
        if op == "methodcaller":
            m = self.each(args[0], st, lambda b, s1: self.getattr(b, f.args[0], s1))
            return self.call(m, list(f.args[1].items), {}, st)
        if op == "ident_deco":
            return args[0]
        if op == "v_args":
            if isinstance(args[0], Fn):
                args[0].attrs["v_args"] = f.args[0]
            elif isinstance(args[0], Cls):
                for x in args[0].attrs.values():
                    if isinstance(x, Fn):
                        x.attrs.setdefault("v_args", f.args[0])
            return args[0]
        if op == "attr" and self.is_lark(f.args[0]) and f.args[1] == "parse":
            return self.lark_parse(f.args[0], args, kwargs, st)
        if op == "attr" and isinstance(f.args[0], App) and f.args[0].op == "regex":
            return self.regex_call(f.args[0], f.args[1], args, kwargs, st)
        return App("call", f, Tup(self.canon_v(a, st) for a in args), *[Tup((K(k), self.canon_v(v, st))) for k, v in sorted(kwargs.items())])

    def regex_call(self, rx, meth, args, kwargs, st):
        if meth in ("fullmatch", "match", "search"):
            def one(b, s1):
                b = self.canon(self.unstr(b, s1), s1)
                if isinstance(b, K) and isinstance(b.value, str):
                    m = regex.concrete(rx, meth, b.value)
                    if m is not None:
                        return App("matched", meth, rx, b) if m else NONE
                return App("match", meth, rx, b)

            return self.each(args[0], st, one)
        return App("regexcall", meth, rx, *[self.canon_v(a, st) for a in args])

    def register(self, d, cls, fn):
        if isinstance(cls, Tup):
            for c in cls.items:
                self.register(d, c, fn)
            return
        if not isinstance(cls, Cls):
            raise Undecided(f"singledispatch registration for {cls!r}", self.where)
        d.registry = [(c, f) for c, f in d.registry if c is not cls] + [(cls, fn)]

    def call_bmeth(self, f, args, kwargs, st):
        o, name = f.obj, f.name
        if name == "lark:transform":
            return self.each(args[0], st, lambda t, s1: self.lark_transform(o, t, s1))
        if name in ("lark:__default_token__",):
            return args[0]
        if name.startswith("lark:"):
            raise Undecided(f"Transformer.{name[5:]}", self.where)
        if name.startswith("super:"):
            return self.super_call(o.items[0], o.items[1], bool(o.items[2].bdd), name[6:], args, kwargs, st)
        if isinstance(o, App) and o.op == "lru":
            if name != "cache_clear":
                return App("call", App("attr", o, name), Tup(()))
            self.put(st, o.args[1].id, HMap((), "dict"), "cache_clear")
            return NONE
        if isinstance(o, Dispatch):
            if name == "register":
                if len(args) == 2:
                    self.register(o, args[0], args[1])
                    return args[1]
                a = args[0] if args else kwargs.get("cls")
                if isinstance(a, Fn):
                    ann = None
                    for x in a.node.args.posonlyargs + a.node.args.args:
                        ann = x.annotation
                        break
                    if ann is None:
                        raise Undecided("register without annotation", self.where)
                    cls = self.annotation(ann, a, st)
                    self.register(o, cls, a)
                    return a
                return App("register", o, a)
            if name == "dispatch":
                if isinstance(args[0], Cls):
                    return o.find(args[0])
                return App("dispatchof", o, args[0])
        if isinstance(o, Wrap):
            if name == "setter":
                return Wrap("property", o.fn, args[0])
            return o
        if isinstance(o, Fn) and name == "__get__":
            return Bound(o, args[0])
        if isinstance(o, Cls):
            return self.cls_method(o, name, args, kwargs, st)
        if isinstance(o, Ref):
            r = self.rec(st, o.id)
            if isinstance(r, HList):
                return self.list_method(o, name, args, kwargs, st)
            if isinstance(r, HMap):
                return self.map_method(o, name, args, kwargs, st)
            if r.content is not None and name in METHODS["list"] and name not in OBJECT_ATTRS:
                return self.list_method(o, name, args, kwargs, st)
            return self.super_call(self.builtin_cls["object"], o, False, name, args, kwargs, st)
        if isinstance(o, App) and o.op == "__dict__":
            return self.map_method(o, name, args, kwargs, st)
        if isinstance(o, Tup):
            if name in ("index", "count"):
                return self.seq_search(o, o, name, args, st)
            tmp = self.alloc(st, HList(o))
            if name == "__eq__":
                return self.each(args[0], st, lambda k, s1: B(self.eq(o, k, s1)))
            if name == "__hash__":
                return App("hash", self.canon(o, st))
            return self.list_method(tmp, name, args, kwargs, st)
        if isinstance(o, FSet):
            return self.fset_method(o, name, args, kwargs, st)
        if self.is_str(o):
            return self.str_method(o, name, args, kwargs, st)
        if isinstance(o, Sym) and o.cls is not None and o.cls.builtin:
            return self.opaque_method(o, name, args, kwargs, st)
        return App("call", App("attr", self.canon(o, st), name), Tup(args))

    def opaque_method(self, o, name, args, kwargs, st):
        bdd = self.bdd
        kind = o.cls.name
        if kind == "dict":
            if name in ("get", "pop"):
                k = args[0]
                d = args[1] if len(args) > 1 else NONE
                if name == "pop":
                    self.effects.append((st.pc, "opaque", repr(o), "pop", self.where, None))

                def go(x, s1):
                    x = self.unstr(x, s1)
                    i = self.opaque_in(o, x, s1)
                    return self.combine([
                        (bdd.and_(s1.pc, i), self.opaque_item(o, x, s1)),
                        (bdd.and_(s1.pc, bdd.not_(i)), d),
                    ])

                return self.each(k, st, go)
            if name == "copy":
                return self.alloc(st, HMap((), "dict", o))
            if name == "keys":
                return App("view", o)
            if name == "setdefault":
                self.effects.append((st.pc, "opaque", repr(o), "setdefault", self.where, None))
                return self.opaque_method(o, "get", args, kwargs, st)
        if kind in ("set", "frozenset") and name == "copy":
            return self.alloc(st, HMap((), "set", o))
        if name == "__contains__":
            return self.each(args[0], st, lambda x, s1: B(self.opaque_in(o, self.unstr(x, s1), s1)))
        if name in ("append", "extend", "insert", "remove", "clear", "add", "update", "discard", "pop",
                    "popitem", "reverse", "sort", "setdefault"):
            self.effects.append((st.pc, "opaque", repr(o), name, self.where, None))
        return App("call", App("attr", o, name), Tup(self.canon_v(a, st) for a in args))

    def cls_method(self, c, name, args, kwargs, st):
        if name == "fromkeys":
            v = args[1] if len(args) > 1 else NONE
            d = self.alloc(st, HMap((), "dict"))
            content = self.iter_content(args[0], st)

            def go(t, s1):
                if not isinstance(t, Tup):
                    self.put(s1, d.id, HMap((), "dict", App("fromkeys", t, v)), "fromkeys")
                    return NONE
                for x in t.items:
                    self.each(x, s1, lambda k, s2: self.map_store(d, k, v, s2, "fromkeys") or NONE)
                return NONE

            self.each(content, st, go)
            return d
        if name == "mro":
            return self.alloc(st, HList(Tup(c.mro)))
        if name == "__subclasses__":
            return self.alloc(st, HList(Tup(k for k in self.classes if c in k.bases)))
        if name == "__new__":
            return self.super_call(self.builtin_cls["type"] if c.sub(self.builtin_cls["type"]) else c, args[0], True, "__new__", args, kwargs, st)
        if name == "__call__" and c.name == "type":
            return self.type_call(args[0], args[1:], kwargs, st)
        if not args:
            return self.error(st, "TypeError", f"{name} needs an argument")
        # unbound method of a builtin type

        def go(b, s1):
            k = c
            if name in METHODS.get(k.name, ()) and not (name in OBJECT_ATTRS):
                m = self.getattr(b, name, s1) if not self.instance(b, s1) else BMeth(b, name)
                return self.call(m, args[1:], kwargs, s1)
            return self.super_call(k, b, False, name, args[1:], kwargs, s1)

        return self.each(args[0], st, go)

    def super_call(self, base, obj, as_cls, name, args, kwargs, st):
        """A method implemented by a builtin base class."""
        bc = self.builtin_cls
        if base.sub(bc["type"]):
            if name == "__call__":
                if as_cls:
                    obj, args = args[0], args[1:]
                return self.type_call(obj, args, kwargs, st)
            if name == "__new__":
                # (mcs, name, bases, ns)
                mcs, nm, bases, ns = args[:4]
                b = self.seq_content(bases, st)
                ents = self.map_entries(ns, st)
                return self.new_class(
                    mcs, nm.value, [x for x in b.items], {k.value: v for k, v, g in ents}, st
                )
            if name == "__init__":
                return NONE
        if name == "__new__":
            cls = args[0]

            def mk(c, s1):
                if not isinstance(c, Cls):
                    raise Undecided("__new__ of an opaque class", self.where)
                content = None
                if c.sub(bc["str"]):
                    v = args[1] if len(args) > 1 else K("")
                    content = self.each(v, s1, self.str_)
                elif c.sub(bc["list"]):
                    content = Tup(())
                elif c.sub(bc["tuple"]) or c.sub(bc["frozenset"]) or c.sub(bc["dict"]) or c.sub(bc["int"]):
                    raise Undecided(f"instance of a subclass of {base.name}", self.where)
                return self.alloc(s1, HInst(c, {}, content))

            return self.each(cls, st, mk)
        if as_cls and args:
            obj, args = args[0], args[1:]
        if name == "__init__":
            if base.name == "list":
                return self.list_method(obj, "__init__", args, kwargs, st)
            if base.sub(bc["BaseException"]) and isinstance(obj, Ref):
                self.raw_setattr(obj, "args", Tup(args), st)
            return NONE
        if name == "__init_subclass__":
            return NONE
        if name in METHODS.get(base.name, ()) and base.name == "list" and name not in ("__eq__", "__hash__"):
            return self.list_method(obj, name, args, kwargs, st)
        if name in METHODS.get(base.name, ()) and base.name == "str":
            return self.str_method(self.unstr(obj, st), name, args, kwargs, st)
        if name == "__hash__":
            return App("idhash", self.canon(obj, st)) if not self.is_str(self.unstr(obj, st)) else App("hash", self.canon(obj, st))
        if name == "__eq__":
            return self.each(args[0], st, lambda b, s1: Alt(((int(b == obj) and 1, TRUE),)) if b == obj else NOTIMPL)
        if name == "__ne__":
            return self.each(args[0], st, lambda b, s1: B(self.bdd.not_(self.eq(obj, b, s1))))
        if name in ("__str__", "__repr__"):
            k = self.class_of(obj, st)
            if name == "__str__":
                return self.repr_(obj, st)
            if isinstance(obj, Sym):
                return App("repr", obj)
            return App("repr_addr", k, obj)
        if name == "__getstate__":
            if isinstance(obj, Ref):
                return App("__dict__", obj)
        if name == "__setattr__":
            return self.raw_setattr(obj, args[0].value, args[1], st)
        if name == "__delattr__":
            return self.delattr(obj, args[0].value, st)
        if name == "__getattribute__":
            return self.getattr(obj, args[0].value, st)
        if name == "__dir__":
            return DirOf(obj)
        if name == "__format__":
            return self.str_(obj, st)
        if name in ("__reduce__", "__reduce_ex__"):
            return App("reduce", obj)
        raise Undecided(f"{base.name}.{name}", self.where)

    def annotation(self, ann, fn, st):
        """Evaluate an annotation expression in the scope of a function."""
        from .interp import Cx

        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        cx = Cx(fn.fid, fn.module, None, fn.cell)
        return self.eval(ann, st, cx)

    # ------------------------------------------------------------ instantiation

    def instantiate(self, c, args, kwargs, st):
        bc = self.builtin_cls
        if c.builtin:
            return self.builtin_new(c, args, kwargs, st)
        if c.members is not None:
            if len(args) == 1:
                def find(b, s1):
                    rest = s1.pc
                    out = []
                    for m in c.members:
                        e = self.bdd.and_(rest, self.bdd.or_(self.eq(m, b, s1), self.eqv(m.value, b, s1)))
                        if e:
                            out.append((e, m))
                            rest = self.bdd.and_(rest, self.bdd.not_(e))
                    self.error(s1, "ValueError", f"not a valid {c.name}", rest)
                    return self.combine(out)
                return self.each(args[0], st, find)
            raise Undecided("functional enum", self.where)
        if self.raw and self.formula is not None and c.sub(self.formula):
            return self.raw_new(c, args, kwargs, st)
        if c.meta is not None:
            f, k = c.meta.lookup("__call__")
            if isinstance(f, Fn) and k is not self.stub_meta:
                return self.call_fn(f, [c] + args, kwargs, st)
        return self.type_call(c, args, kwargs, st)

    def raw_new(self, c, args, kwargs, st):
        """An uninterpreted formula term."""
        init, k = c.lookup("__init__")
        if isinstance(init, Fn):
            vars_ = self.bind(init, [NONE] + args, kwargs, st)
            if vars_ is None:
                return BOT
            a = init.node.args
            flat = []
            for x in (a.posonlyargs + a.args)[1:]:
                flat.append(vars_[x.arg])
            if a.vararg:
                flat += list(vars_[a.vararg.arg].items)
            for x in a.kwonlyargs:
                flat.append(vars_[x.arg])
        else:
            flat = list(args) + list(kwargs.values())

        def conv(v, s1):
            s = self.seq_content(v, s1)
            if s is not None and not isinstance(v, (K,)):
                return s
            if isinstance(v, K):
                return v
            return self.canon(self.unstr(v, s1), s1)

        def go(i, acc, s1):
            if i == len(flat):
                return New(c, acc)
            return self.each(flat[i], s1, lambda b, s2: self.each(conv(b, s2), s2, lambda x, s3: go(i + 1, acc + [x], s3)))

        return go(0, [], st)

    def materialise(self, n, st):
        """A heap instance for a New term, by analysing the constructor."""
        i = self.materialised.get(n)
        if i is not None:
            if i in st.heap or i in self.base:
                return Ref(i)
        saved, self.raw = self.raw, self.raw
        sink = []
        self.sink.append(sink)
        s1 = St_like(st, 1)
        try:
            ref = self.build(n.cls, list(n.args), s1)
        finally:
            self.sink.pop()
            self.raw = saved
        if ref is None:
            raise Undecided(f"cannot build {n!r}: {sink[:1]}", self.where)
        r = self.rec(s1, ref.id)
        rec = HInst(r.cls, r.attrs, r.content, n)
        # the new records are visible in every state
        for k, v in s1.heap.items():
            if k not in st.heap:
                self.base.setdefault(k, v)
        self.base[ref.id] = rec
        self.protected[ref.id] = f"formula {n.cls.name}"
        self.materialised[n] = ref.id
        return ref

    def build(self, c, args, st):
        """object.__new__ + __init__ (no metaclass, no simplification)."""
        ref = self.alloc(st, HInst(c, {}, None))
        init, k = c.lookup("__init__")
        if isinstance(init, Fn):
            # a sequence parameter was flattened by raw_new as a tuple
            self.call_fn(init, [ref] + args, {}, st)
        if not st.pc:
            return None
        return self.built(ref, st)

    def type_call(self, c, args, kwargs, st):
        new, k = c.lookup("__new__")
        if new is not None and (isinstance(new, Fn) or isinstance(new, Wrap)):
            fn = new.fn if isinstance(new, Wrap) else new
            obj = self.call(fn, [c] + args, kwargs, st)
        else:
            if c.lookup("__init__")[0] is None and (args or kwargs) and not any(
                x.builtin and x.name != "object" for x in c.mro
            ):
                return self.error(st, "TypeError", f"{c.name}() takes no arguments")
            ab = self.abstract_methods(c)
            if ab:
                return self.error(st, "TypeError", f"abstract class {c.name}: {sorted(ab)}")
            obj = self.super_call(self.builtin_cls["object"], c, True, "__new__", [c] + args, kwargs, st)

        def init(b, s1):
            k = self.class_of(b, s1)
            if isinstance(b, Ref) and k is not None and k.sub(c):
                f, _ = k.lookup("__init__")
                if isinstance(f, Fn):
                    self.call_fn(f, [b] + args, kwargs, s1)
                elif k.sub(self.builtin_cls["list"]):
                    self.list_method(b, "__init__", args, kwargs, s1)
                elif k.sub(self.builtin_cls["BaseException"]):
                    self.raw_setattr(b, "args", Tup(args), s1)
                if s1.pc:
                    self.built(b, s1)
            return b

        return self.each(obj, st, init)

    def abstract_methods(self, c):
        out = set()
        seen = set()
        abc = c.meta is not None and c.meta.sub(self.builtin_cls["ABCMeta"])
        if not abc:
            return out
        for k in c.mro:
            for n, v in k.attrs.items():
                if n in seen:
                    continue
                seen.add(n)
                f = v.fn if isinstance(v, Wrap) else v
                if isinstance(f, Fn) and f.abstract:
                    out.add(n)
        return out

    def dataclass(self, c, st):
        """@dataclass: synthesise __init__ and __eq__ if missing."""
        if c.node is None:
            return c
        fields = [
            (n.target.id, n.value) for n in c.node.body
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
        ]
        if "__init__" not in c.attrs:
            src = "def __init__(self" + "".join(
                f", {n}" + (f"={ast.unparse(v)}" if v is not None else "") for n, v in fields
            ) + "):\n" + ("".join(f"    self.{n} = {n}\n" for n, _ in fields) or "    pass\n")
            if "__post_init__" in c.attrs:
                src += "    self.__post_init__()\n"
            self.synth(c, src, st)
        if "__eq__" not in c.attrs:
            cond = " and ".join(f"self.{n} == other.{n}" for n, _ in fields) or "True"
            src = f"def __eq__(self, other):\n    if type(self) is not type(other): return NotImplemented\n    return {cond}\n"
            self.synth(c, src, st)
            c.attrs.setdefault("__hash__", NONE)
        return c

    def synth(self, c, src, st):
        node = ast.parse(src).body[0]
        m = self.modules.get(c.module)
        cell = Cell(c.name)
        cell.cls = c
        fn = Fn(node, m.fid, m, cell, f"{c.name}.{node.name}", [], [], None)
        fn.defaults = []
        from .interp import Cx

        fn.defaults = [self.eval(d, st, Cx(m.fid, m)) for d in node.args.defaults]
        c.attrs[node.name] = fn

    # ------------------------------------------------------------ builtin constructors

    def builtin_new(self, c, args, kwargs, st):
        bc = self.builtin_cls
        n = c.name
        if getattr(c, "external", False):
            return App("ext", c.name, Tup(args))
        if n == "type":
            if len(args) == 1:
                def ty(b, s1):
                    k = self.class_of(b, s1)
                    return k if k is not None else App("type", self.canon(b, s1))
                return self.each(args[0], st, ty)
            raise Undecided("type() with 3 arguments", self.where)
        if n == "object":
            return self.alloc(st, HInst(c, {}))
        if n == "bool":
            return B(self.truth(args[0], st)) if args else FALSE
        if n == "str":
            return self.each(args[0], st, self.str_) if args else K("")
        if n in ("list", "deque"):
            v = self.iter_content(args[0], st) if args else Tup(())
            return self.alloc(st, HList(v, n)) if st.pc else BOT
        if n == "tuple":
            return self.iter_content(args[0], st) if args else Tup(())
        if n in ("set", "frozenset"):
            if not args:
                return self.make_set(Tup(()), st, n == "frozenset")

            def mk(b, s1):
                m = self.map_rec(b, s1)
                if m is not None and m.opaque is None:
                    e = tuple((k, None, g) for k, _, g in m.entries)
                    return FSet(tuple((k, g) for k, _, g in e)) if n == "frozenset" else self.alloc(s1, HMap(e, "set"))
                if isinstance(b, FSet):
                    return b if n == "frozenset" else self.alloc(s1, HMap(tuple((k, None, g) for k, g in b.entries), "set"))
                return self.make_set(self.iter_content(b, s1), s1, n == "frozenset")

            return self.each(args[0], st, mk)
        if n == "dict":
            d = self.alloc(st, HMap((), "dict"))
            if args:
                def one(b, s1):
                    if isinstance(b, Sym) and b.cls is bc["dict"]:
                        self.put(s1, d.id, HMap((), "dict", b), "copy")
                        return NONE
                    if isinstance(b, Sym) or isinstance(b, App) and b.op in ("items", "view") and not isinstance(b, Ref):
                        if isinstance(b, App) and b.op == "items":
                            self.put(s1, d.id, HMap((), "dict", b.args[0]), "copy")
                            return NONE
                    return self.map_method(d, "update", [b], {}, s1)
                self.each(args[0], st, one)
            if kwargs:
                self.map_method(d, "update", [], kwargs, st)
            return d
        if n == "int":
            if not args:
                return K(0)

            def toint(b, s1):
                b = self.num(b)
                if isinstance(b, Alt):
                    return b
                if isinstance(b, K):
                    try:
                        return K(int(b.value))
                    except (ValueError, TypeError):
                        return self.error(s1, "ValueError", "int()")
                return App("int", self.canon(b, s1))
            return self.each(args[0], st, toint)
        if n == "float":
            return App("float", *args)
        if n == "range":
            def mkr(*ks):
                if not all(isinstance(k, K) for k in ks):
                    return App("range", *ks)
                return Tup(K(i) for i in range(*[k.value for k in ks]))
            return self.pure([self.num(a) for a in args], st.pc, mkr)
        if n == "slice":
            raise Undecided("slice()", self.where)
        if c.sub(bc["BaseException"]):
            return App("exc", c, *(args[:1] or [NONE]))
        if n == "property":
            return Wrap("property", args[0])
        raise Undecided(f"constructor of {n}", self.where)

    # ------------------------------------------------------------ library functions

    def call_ext(self, name, args, kwargs, st):
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is None and name.startswith("typing_extensions."):
            m = getattr(self, "x_typing_" + name.split(".")[1], None)
        if m is not None:
            return m(args, kwargs, st)
        return App("ext", name, Tup(self.canon_v(a, st) for a in args), *[Tup((K(k), self.canon_v(v, st))) for k, v in sorted(kwargs.items())])

    def x_builtins_len(self, a, k, st):
        return self.each(a[0], st, self.len_)

    def x_builtins_isinstance(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.each(a[1], s1, lambda c, s2: B(self.isinst1(b, c, s2))))

    def x_builtins_issubclass(self, a, k, st):
        def go(b, s1):
            def go2(c, s2):
                if isinstance(c, Tup):
                    return B(self.bdd.or_(*[go2(x, s2).bdd for x in c.items]))
                if isinstance(b, Cls) and isinstance(c, Cls):
                    return B(int(b.sub(c)))
                if isinstance(b, App) and b.op == "type" and isinstance(c, Cls):
                    return B(self.isinst1(b.args[0], c, s2))
                return B(self.atom("issub", b, c))
            return self.each(a[1], s1, go2)
        return self.each(a[0], st, go)

    def x_builtins_all(self, a, k, st, neg=False):
        content = self.iter_content(a[0], st)
        bdd = self.bdd

        def go(t, s1):
            if not isinstance(t, Tup):
                return B(self.atom("any" if neg else "all", t))
            if neg:
                return B(bdd.or_(*[self.truth(x, s1) for x in t.items]))
            return B(bdd.and_(*[self.truth(x, s1) for x in t.items]))

        return self.each(content, st, go)

    def x_builtins_any(self, a, k, st):
        return self.x_builtins_all(a, k, st, True)

    def fresh_iter(self, st):
        return self.alloc(st, HList(Tup(()), "iter"))

    def x_builtins_map(self, a, k, st):
        out = self.fresh_iter(st)
        if len(a) > 2:
            z = self.x_builtins_zip(a[1:], {}, st)
            content = self.iter_content(z, st)
        else:
            content = self.iter_content(a[1], st)

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided(f"map over an opaque sequence {t!r}", self.where)
            for x in t.items:
                if not s1.pc:
                    break
                v = self.call(a[0], list(x.items) if len(a) > 2 else [x], {}, s1)
                if s1.pc:
                    self.list_append(out, v, s1)
            return NONE

        self.each(content, st, go)
        return out if st.pc else BOT

    def x_builtins_filter(self, a, k, st, neg=False):
        out = self.fresh_iter(st)
        content = self.iter_content(a[1], st)

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided(f"filter over an opaque sequence {t!r}", self.where)
            for x in t.items:
                if not s1.pc:
                    break
                v = x if a[0] == NONE else self.call(a[0], [x], {}, s1)
                c = self.truth(v, s1)
                if neg:
                    c = self.bdd.not_(c)
                self.split(s1, c, lambda s2: self.list_append(out, x, s2) or NONE, lambda s2: NONE)
            return NONE

        self.each(content, st, go)
        return out if st.pc else BOT

    def x_itertools_filterfalse(self, a, k, st):
        return self.x_builtins_filter(a, k, st, True)

    def x_builtins_zip(self, a, k, st):
        if len(a) > 1 and all(x == a[0] for x in a) and isinstance(a[0], Ref) and not k:
            r = self.rec(st, a[0].id)
            if isinstance(r, HList) and r.kind == "iter":  # zip(i, i): consecutive groups
                def groups(t):
                    if not isinstance(t, Tup):
                        raise Undecided("zip of an opaque sequence", self.where)
                    n = len(a)
                    return Tup(Tup(t.items[i:i + n]) for i in range(0, len(t.items) - n + 1, n))

                return self.alloc(st, HList(self.emap(self.iter_content(a[0], st), st.pc, groups), "iter"))
        cs = [self.iter_content(x, st) for x in a]
        strict = k.get("strict")

        def z(*ts):
            if not all(isinstance(t, Tup) for t in ts):
                raise Undecided("zip of an opaque sequence", self.where)
            return Tup(Tup(p) for p in zip(*[t.items for t in ts]))

        if strict is not None:
            raise Undecided("zip(strict)", self.where)
        return self.alloc(st, HList(self.pure(cs, st.pc, z), "iter")) if st.pc else BOT

    def x_itertools_zip_longest(self, a, k, st):
        import itertools

        cs = [self.iter_content(x, st) for x in a]
        fill = k.get("fillvalue", NONE)

        def z(*ts):
            if not all(isinstance(t, Tup) for t in ts):
                raise Undecided("zip of an opaque sequence", self.where)
            return Tup(Tup(p) for p in itertools.zip_longest(*[t.items for t in ts], fillvalue=fill))

        return self.alloc(st, HList(self.pure(cs, st.pc, z), "iter")) if st.pc else BOT

    def x_builtins_enumerate(self, a, k, st):
        start = a[1] if len(a) > 1 else k.get("start", K(0))
        c = self.iter_content(a[0], st)

        def en(t, s):
            if not isinstance(t, Tup) or not isinstance(s, K):
                raise Undecided("enumerate of an opaque sequence", self.where)
            return Tup(Tup((K(i), x)) for i, x in enumerate(t.items, s.value))

        return self.alloc(st, HList(self.pure([c, start], st.pc, en), "iter")) if st.pc else BOT

    def x_builtins_reversed(self, a, k, st):
        c = self.iter_content(a[0], st)

        def rv(t):
            if not isinstance(t, Tup):
                raise Undecided("reversed of an opaque sequence", self.where)
            return Tup(t.items[::-1])

        return self.alloc(st, HList(self.emap(c, st.pc, rv), "iter")) if st.pc else BOT

    def x_builtins_sorted(self, a, k, st):
        c = self.iter_content(a[0], st)

        def so(t, s1):
            if not isinstance(t, Tup):
                raise Undecided("sorted of an opaque sequence", self.where)
            rev = "reverse" in k and self.truth(k["reverse"], s1) == 1
            if len(t.items) < 2:
                return t
            key = k.get("key")
            if key is None and all(isinstance(x, K) for x in t.items):
                return Tup(sorted(t.items, key=lambda x: x.value, reverse=rev))
            if key is not None:
                ks = [self.call(key, [x], {}, s1) for x in t.items]
                if all(isinstance(x, K) for x in ks):
                    idx = sorted(range(len(ks)), key=lambda i: ks[i].value, reverse=rev)
                    return Tup(t.items[i] for i in idx)
            # unknown order: one that is not the order of the names
            return Tup(sorted(t.items, key=lambda x: repr(self.canon(x, s1)), reverse=not rev))

        return self.alloc(st, HList(self.each(c, st, so))) if st.pc else BOT

    def x_builtins_sum(self, a, k, st):
        c = self.iter_content(a[0], st)
        start = a[1] if len(a) > 1 else k.get("start", K(0))

        def go(t, s1):
            if not isinstance(t, Tup):
                return App("sum", t)
            acc = start
            for x in t.items:
                acc = self.each(self.each(acc, s1, lambda p, s: self.num(p)), s1, lambda p, s2: self.each(x, s2, lambda q, s3: self.binop("Add", p, q, s3)))
            return acc

        return self.each(c, st, go)

    def minmax(self, a, k, st, op):
        if len(a) == 1:
            c = self.iter_content(a[0], st)
        else:
            c = Tup(a)

        def go(t, s1):
            if not isinstance(t, Tup):
                return App(op, t)
            if not t.items:
                if "default" in k:
                    return k["default"]
                return self.error(s1, "ValueError", f"{op}() of an empty sequence")
            if "key" in k:
                raise Undecided(f"{op} with a key", self.where)
            def f(*xs):
                xs = [K(x.bdd) if isinstance(x, B) and x.bdd in (0, 1) else x for x in xs]
                if all(isinstance(x, K) for x in xs):
                    return K((min if op == "min" else max)(x.value for x in xs))
                if all(isinstance(x, B) for x in xs):
                    return B((self.bdd.and_ if op == "min" else self.bdd.or_)(*[x.bdd for x in xs]))
                return App(op, *xs)
            return self.pure(list(t.items), s1.pc, f)

        return self.each(c, st, go)

    def x_builtins_min(self, a, k, st):
        return self.minmax(a, k, st, "min")

    def x_builtins_max(self, a, k, st):
        return self.minmax(a, k, st, "max")

    def x_builtins_iter(self, a, k, st):
        def go(b, s1):
            if isinstance(b, Ref):
                r = self.rec(s1, b.id)
                if isinstance(r, HList) and r.kind == "iter":
                    return b
            c = self.iter_content(b, s1)
            return self.each(c, s1, lambda t, s2: self.alloc(s2, HList(t, "iter")) if isinstance(t, Tup) else t)
        if len(a) > 1:
            raise Undecided("iter with a sentinel", self.where)
        return self.each(a[0], st, go)

    def x_builtins_next(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.next_(b, a[1:], s1))

    def x_builtins_getattr(self, a, k, st):
        def go(b, s1):
            def go2(n, s2):
                n = self.unstr(n, s2)
                if not isinstance(n, K):
                    raise Undecided(f"getattr with an unknown name {n!r}", self.where)
                if len(a) > 2 and isinstance(b, (Ref, New, Sym)):
                    h = self.hasattr(b, n.value, s2)
                    return self.split(s2, h, lambda s3: self.getattr(b, n.value, s3), lambda s3: a[2])
                return self.getattr(b, n.value, s2, a[2] if len(a) > 2 else None)
            return self.each(a[1], s1, go2)
        return self.each(a[0], st, go)

    def x_builtins_hasattr(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.each(a[1], s1, lambda n, s2: B(self.hasattr(b, n.value, s2))))

    def x_builtins_setattr(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.each(a[1], s1, lambda n, s2: self.setattr(b, n.value, a[2], s2)))

    def x_builtins_delattr(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.each(a[1], s1, lambda n, s2: self.delattr(b, n.value, s2)))

    def x_builtins_dir(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: DirOf(b))

    def x_builtins_vars(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.getattr(b, "__dict__", s1))

    def x_builtins_hash(self, a, k, st):
        def go(b, s1):
            if self.instance(b, s1):
                r = self.dunder(b, "__hash__", [], s1)
                if r is not None:
                    return r
            return App("hash", self.canon(b, s1))
        return self.each(a[0], st, go)

    def x_builtins_id(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: App("id", b))

    def x_builtins_print(self, a, k, st):
        self.effects.append((st.pc, "output", "print", "print", self.where, None))
        return NONE

    def x_builtins_callable(self, a, k, st):
        def go(b, s1):
            if isinstance(b, (Fn, Bound, Part, Cls, Dispatch, BMeth)):
                return TRUE
            if isinstance(b, (K, B, Tup, FSet)):
                return FALSE
            if self.instance(b, s1):
                return B(int(self.user_attr(b, "__call__", s1) is not None))
            return B(self.atom("callable", self.canon(b, s1)))
        return self.each(a[0], st, go)

    def x_builtins_super(self, a, k, st):
        if len(a) != 2:
            raise Undecided("super()", self.where)
        return self.each(a[0], st, lambda c, s1: self.each(a[1], s1, lambda o, s2: Super(c, o)))

    def x_builtins_abs(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: K(abs(b.value)) if isinstance(b, K) else App("abs", b))

    def x_builtins_repr(self, a, k, st):
        return self.each(a[0], st, self.repr_)

    def x_builtins_format(self, a, k, st):
        if len(a) > 1:
            raise Undecided("format()", self.where)
        return self.each(a[0], st, self.str_)

    def x_builtins_ord(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: K(ord(b.value)) if isinstance(b, K) else App("ord", b))

    def x_builtins_chr(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: K(chr(b.value)) if isinstance(b, K) else App("chr", b))

    def x_builtins_divmod(self, a, k, st):
        def f(x, y):
            if isinstance(x, K) and isinstance(y, K) and y.value:
                q, r = divmod(x.value, y.value)
                return Tup((K(q), K(r)))
            raise Undecided("divmod", self.where)
        return self.pure(a, st.pc, f)

    def x_builtins_property(self, a, k, st):
        return Wrap("property", a[0]) if len(a) < 2 else Wrap("property", a[0], a[1])

    def x_builtins_classmethod(self, a, k, st):
        return Wrap("classmethod", a[0])

    def x_builtins_staticmethod(self, a, k, st):
        return Wrap("staticmethod", a[0])

    def x_functools_cached_property(self, a, k, st):
        return Wrap("cached_property", a[0])

    def x_functools_wraps(self, a, k, st):
        return App("wraps", a[0])

    def x_functools_update_wrapper(self, a, k, st):
        return a[0]

    def x_functools_partial(self, a, k, st):
        return Part(a[0], tuple(a[1:]), tuple(sorted(k.items())))

    def x_functools_partialmethod(self, a, k, st):
        return App("partialmethod", a[0], Tup(a[1:]))

    def x_functools_reduce(self, a, k, st):
        c = self.iter_content(a[1], st)

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided(f"reduce of an opaque sequence {t!r}", self.where)
            xs = list(t.items)
            if len(a) > 2:
                acc = a[2]
            elif "initial" in k:
                acc = k["initial"]
            else:
                if not xs:
                    return self.error(s1, "TypeError", "reduce() of an empty sequence")
                acc = xs.pop(0)
            for x in xs:
                if not s1.pc:
                    break
                acc = self.call(a[0], [acc, x], {}, s1)
            return acc

        return self.each(c, st, go)

    def x_itertools_accumulate(self, a, k, st):
        c = self.iter_content(a[0], st)
        f = a[1] if len(a) > 1 else k.get("func")

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided("accumulate of an opaque sequence", self.where)
            out, acc = [], None
            for x in t.items:
                acc = x if acc is None else (self.call(f, [acc, x], {}, s1) if f is not None else self.each(acc, s1, lambda p, s2: self.each(x, s2, lambda q, s3: self.binop("Add", p, q, s3))))
                out.append(acc)
            return self.alloc(s1, HList(Tup(out), "iter"))

        return self.each(c, st, go)

    def x_functools_singledispatch(self, a, k, st):
        return Dispatch(a[0])

    def x_functools_lru_cache(self, a, k, st):
        if a and isinstance(a[0], Fn):
            return App("lru", a[0], self.alloc(st, HMap((), "dict")))
        return App("lru_deco")

    def lru_call(self, f, args, kwargs, st, node=None):
        """A call of a function with a cache of its results (never full)."""
        for i, a in enumerate(args):
            if isinstance(a, Alt):
                return self.each(a, st, lambda x, s1: self.lru_call(f, args[:i] + [x] + args[i + 1:], kwargs, s1, node))
        for k, v in kwargs.items():
            if isinstance(v, Alt):
                return self.each(v, st, lambda x, s1: self.lru_call(f, args, {**kwargs, k: x}, s1, node))
        for a in args + list(kwargs.values()):
            if isinstance(a, Ref) or isinstance(a, Sym) and a.cls is not None and a.cls.name in ("list", "dict", "set"):
                if isinstance(a, Sym) or isinstance(self.rec(st, a.id), (HList, HMap)):
                    return self.error(st, "TypeError", "unhashable argument of a cached function")
                self.call(Ext("builtins.hash"), [a], {}, st)
                if not st.pc:
                    return BOT
        key = Tup(args + [Tup((K(k), v)) for k, v in kwargs.items()])
        memo = f.args[1]
        found, miss = self.map_get(memo, key, st)
        pairs = []
        for g, v in found:
            s1 = st.fork(g, self.bdd)
            pairs.append((s1, v))
        if miss:
            s1 = st.fork(miss, self.bdd)
            v = self.call(f.args[0], args, kwargs, s1, node)
            if s1.pc:
                self.map_store(memo, key, v, s1, "cached result")
            pairs.append((s1, v))
        self.join(st, [s1 for s1, _ in pairs])
        return self.combine([(s1.pc, v) for s1, v in pairs])

    x_functools_cache = x_functools_lru_cache

    def x_functools_total_ordering(self, a, k, st):
        return a[0]

    def x_abc_abstractmethod(self, a, k, st):
        f = a[0].fn if isinstance(a[0], Wrap) else a[0]
        if isinstance(f, Fn):
            f.abstract = True
        return a[0]

    def x_typing_cast(self, a, k, st):
        return a[1]

    def x_typing_overload(self, a, k, st):
        return a[0]

    def x_typing_final(self, a, k, st):
        return a[0]

    def x_typing_no_type_check(self, a, k, st):
        return a[0]

    def x_typing_TypeVar(self, a, k, st):
        return Ext("typing.TypeVar.instance")

    def x_dataclasses_dataclass(self, a, k, st):
        if a and isinstance(a[0], Cls):
            return self.dataclass(a[0], st)
        return App("dataclass_deco")

    def x_enum_auto(self, a, k, st):
        return App("enum.auto")

    def x_enum_unique(self, a, k, st):
        return a[0]

    def x_contextlib_suppress(self, a, k, st):
        return App("suppress", *a)

    def x_re_compile(self, a, k, st):
        flags = a[1] if len(a) > 1 else k.get("flags", K(0))
        return App("regex", a[0], flags)

    def x_re_fullmatch(self, a, k, st):
        flags = a[2] if len(a) > 2 else k.get("flags", K(0))
        return self.regex_call(App("regex", a[0], flags), "fullmatch", [a[1]], {}, st)

    def x_re_match(self, a, k, st):
        flags = a[2] if len(a) > 2 else k.get("flags", K(0))
        return self.regex_call(App("regex", a[0], flags), "match", [a[1]], {}, st)

    def x_itertools_chain(self, a, k, st):
        acc = Tup(())
        for x in a:
            acc = self.pure([acc, self.iter_content(x, st)], st.pc, self.cat)
        return self.alloc(st, HList(acc, "iter")) if st.pc else BOT

    def x_itertools_chain_from_iterable(self, a, k, st):
        out = self.fresh_iter(st)
        c = self.iter_content(a[0], st)

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided("chain of an opaque sequence", self.where)
            for x in t.items:
                self.list_method(out, "extend", [x], {}, s1)
            return NONE

        self.each(c, st, go)
        return out

    def x_itertools_islice(self, a, k, st):
        c = self.iter_content(a[0], st)

        def f(t, *ks):
            if not isinstance(t, Tup) or not all(isinstance(x, K) for x in ks):
                raise Undecided("islice", self.where)
            return Tup(t.items[slice(*[x.value for x in ks])])

        return self.alloc(st, HList(self.pure([c] + a[1:], st.pc, f), "iter")) if st.pc else BOT

    def x_itertools_takewhile(self, a, k, st):
        raise Undecided("takewhile", self.where)

    def x_itertools_starmap(self, a, k, st):
        fn = a[0]
        out = self.fresh_iter(st)
        c = self.iter_content(a[1], st)

        def go(t, s1):
            for x in t.items:
                xs = self.seq_content(x, s1)
                self.list_append(out, self.call(fn, list(xs.items), {}, s1), s1)
            return NONE

        self.each(c, st, go)
        return out

    def x_itertools_repeat(self, a, k, st):
        if len(a) > 1:
            return self.emap(a[1], st.pc, lambda n: Tup([a[0]] * n.value))
        raise Undecided("repeat", self.where)

    def x_itertools_pairwise(self, a, k, st):
        c = self.iter_content(a[0], st)
        return self.alloc(st, HList(self.emap(c, st.pc, lambda t: Tup(Tup(p) for p in zip(t.items, t.items[1:]))), "iter"))

    def x_collections_defaultdict(self, a, k, st):
        return self.alloc(st, HMap((), "dict", None, a[0] if a and a[0] != NONE else None))

    def x_copy_copy(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.copy_object(b, s1, False))

    def x_copy_deepcopy(self, a, k, st):
        return self.each(a[0], st, lambda b, s1: self.copy_object(b, s1, True))

    def deep(self, v, st):
        return self.each(v, st, lambda b, s1: self.copy_object(b, s1, True))

    def copy_object(self, b, st, deep, hooks=True):
        """copy.copy / copy.deepcopy (and pickling, without the hooks of copy) of a value."""
        if isinstance(b, Tup):
            return Tup([self.deep(x, st) for x in b.items]) if deep else b
        if isinstance(b, FSet):
            return self.make_set(Tup([self.deep(k, st) for k, _ in b.entries]), st, True) if deep and all(g == 1 for _, g in b.entries) else b
        if isinstance(b, App) and b.op == "__dict__":
            ents = self.map_entries(b, st)
            return self.alloc(st, HMap(tuple((k, self.deep(v, st) if deep else v, g) for k, v, g in ents), "dict"))
        if not isinstance(b, Ref):
            return self.stale(b) if self.other_process else b
        r = self.rec(st, b.id)
        if isinstance(r, HList):
            if not deep:
                return self.alloc(st, r)
            return self.alloc(st, HList(self.emap(r.content, st.pc, lambda t: Tup([self.deep(x, st) for x in t.items])), r.kind))
        if isinstance(r, HMap):
            if not deep:
                return self.alloc(st, r)
            if r.opaque is not None:
                raise Undecided("deep copy of an opaque mapping", self.where)
            return self.alloc(st, HMap(tuple(
                (self.deep(x, st), self.deep(v, st) if v is not None else None, g) for x, v, g in r.entries), r.kind, None, r.factory))
        if not isinstance(r, HInst):
            raise Undecided("copy of an unknown object", self.where)
        name = "__deepcopy__" if deep else "__copy__"
        if hooks and self.user_attr(b, name, st) is not None:
            return self.dunder(b, name, [self.alloc(st, HMap((), "dict"))] if deep else [], st)
        for name, args in (("__reduce_ex__", [K(4)]), ("__reduce__", [])):
            f = self.user_attr(b, name, st)
            if f is not None and not isinstance(f, Ext):
                red = self.dunder(b, name, args, st)
                return self.each(red, st, lambda t, s1: self.copy_default(b, s1, deep) if isinstance(t, App) and t.op == "reduce"
                                 else self.copy_reduced(t, b, s1, deep))
        return self.copy_default(b, st, deep)

    other_process = False

    def stale(self, b):
        """A value saved by another process: its hashes and identities mean nothing here."""
        if isinstance(b, App):
            op = "stale_" + b.op if b.op in ("hash", "id") else b.op
            return App(op, *[self.stale(x) if isinstance(x, Val) else x for x in b.args])
        if isinstance(b, Alt):
            return Alt(tuple((g, self.stale(x)) for g, x in b.alts))
        if isinstance(b, Tup):
            return Tup([self.stale(x) for x in b.items])
        return b

    def copy_default(self, b, st, deep):
        c = self.class_of(b, st)
        conv = (lambda v: self.deep(v, st)) if deep else (lambda v: v)
        args, kwargs = Tup(()), {}
        if self.user_attr(b, "__getnewargs_ex__", st) is not None:
            raise Undecided("__getnewargs_ex__", self.where)
        if self.user_attr(b, "__getnewargs__", st) is not None:
            args = self.dunder(b, "__getnewargs__", [], st)
        if self.user_attr(b, "__getstate__", st) is not None:
            state = self.dunder(b, "__getstate__", [], st)
        else:
            state = App("__dict__", b)
        if not st.pc:
            return BOT
        args, state = conv(args), conv(state)
        new, _ = c.lookup("__new__")

        def go(t, s1):
            if not isinstance(t, Tup):
                raise Undecided(f"arguments of __new__: {t!r}", self.where)
            if isinstance(new, (Fn, Wrap)):
                obj = self.call(new.fn if isinstance(new, Wrap) else new, [c] + list(t.items), kwargs, s1)
            else:
                obj = self.alloc(s1, HInst(c, {}, None))
            return self.each(obj, s1, lambda o, s2: self.copy_state(o, state, s2))

        return self.each(args, st, go)

    def copy_reduced(self, t, b, st, deep):
        if not isinstance(t, Tup) or len(t.items) < 2:
            raise Undecided(f"result of __reduce__: {t!r}", self.where)
        items = [self.deep(x, st) if deep and i else x for i, x in enumerate(t.items)]

        def go(args, s1):
            obj = self.call(items[0], list(args.items), {}, s1)
            if len(items) < 3:
                return obj
            return self.each(obj, s1, lambda o, s2: self.copy_state(o, items[2], s2))

        return self.each(items[1], st, go)

    def copy_state(self, o, state, st):
        def go(v, s1):
            if v == NONE or not isinstance(o, Ref):
                return o
            if self.user_attr(o, "__setstate__", s1) is not None:
                self.dunder(o, "__setstate__", [v], s1)
                return o
            for k, w, g in self.map_entries(v, s1):
                if g != 1:
                    raise Undecided("conditional state", self.where)
                self.raw_setattr(o, k.value, w, s1)
            return o

        return self.each(state, st, go)

    def x_types_MappingProxyType(self, a, k, st):
        return a[0]

    def x_warnings_warn(self, a, k, st):
        return NONE

    def op2(self, op, a, st):
        return self.each(a[0], st, lambda x, s1: self.each(a[1], s1, lambda y, s2: self.binop(op, x, y, s2)))

    def x_operator_and_(self, a, k, st):
        return self.op2("BitAnd", a, st)

    def x_operator_or_(self, a, k, st):
        return self.op2("BitOr", a, st)

    def x_operator_xor(self, a, k, st):
        return self.op2("BitXor", a, st)

    def x_operator_add(self, a, k, st):
        return self.op2("Add", a, st)

    def x_operator_rshift(self, a, k, st):
        return self.op2("RShift", a, st)

    def x_operator_eq(self, a, k, st):
        return self.compare("Eq", a[0], a[1], st)

    def x_operator_ne(self, a, k, st):
        return self.compare("NotEq", a[0], a[1], st)

    def x_operator_is_(self, a, k, st):
        return self.compare("Is", a[0], a[1], st)

    def x_operator_contains(self, a, k, st):
        return self.compare("In", a[1], a[0], st)

    def x_operator_not_(self, a, k, st):
        return B(self.bdd.not_(self.truth(a[0], st)))

    def x_operator_truth(self, a, k, st):
        return B(self.truth(a[0], st))

    def x_operator_invert(self, a, k, st):
        return self.each(a[0], st, self.invert)

    x_operator_inv = x_operator_invert

    def x_operator_attrgetter(self, a, k, st):
        return App("attrgetter", a[0].value)

    def x_operator_itemgetter(self, a, k, st):
        return App("itemgetter", a[0])

    def x_operator_methodcaller(self, a, k, st):
        return App("methodcaller", a[0].value, Tup(a[1:]))


def St_like(st, pc):
    from .interp import St

    return St(pc, dict(st.heap))


class St_view:
    """A state sharing the heap of another one, under a narrower condition.

    Used where the analysed code (comparisons) may not change the heap in a way
    that matters (hash caches).
    """

    __slots__ = ("pc", "heap")

    def __init__(self, st, pc):
        self.pc, self.heap = pc, st.heap

    def fork(self, g, bdd):
        return St_like(self, bdd.and_(self.pc, g))
