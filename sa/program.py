"""Loads the package into the abstract interpreter and finds the anchors of the rules."""
import ast

from .interp import Interp, St
from .vals import *  # noqa
from .vals import Entity

PACKAGE = "pylogics_modalities"

PL_OPS = ("And", "Or", "Not", "Implies", "Equivalence")


class Program:
    """The loaded package."""

    def __init__(self, root="/repo"):
        self.root = root
        it = self.it = Interp(root, PACKAGE)
        it.loading = True
        self.st0 = St(1, it.base)
        self.base = self.module("syntax.base")
        it.formula = None
        self.Formula = self.name("syntax.base", "Formula", Cls)
        it.formula = self.Formula
        self.Logic = self.name("syntax.base", "Logic", Cls)
        if it.sink[-1]:
            raise AnalysisBroken(f"importing the package raises {it.sink[-1][0][2:]}")
        it.stub_meta = None
        it.loading = False

    def module(self, name):
        it = self.it
        full = f"{PACKAGE}.{name}" if name else PACKAGE
        if full in it.modules:
            return it.modules[full]
        old, it.loading = it.loading, True
        raw, it.raw = it.raw, False
        sink, it.sink = it.sink, [[]]
        try:
            m = it.import_module(full, self.st0)
        finally:
            it.loading = old
            it.raw = raw
            self.settle()
            raised, it.sink = it.sink[-1], sink
        if raised:
            raise AnalysisBroken(f"importing {name} raises {raised[0][2:]}")
        return m

    def settle(self):
        """Make the heap of the loaded program the base of every state."""
        if self.st0.heap is not self.it.base:
            self.it.base.update(self.st0.heap)
            self.st0.heap = self.it.base

    def name(self, module, name, kind=None):
        """A public name of a module of the package."""
        m = self.module(module)
        v = self.it.mod_attr(m, name, self.st0)
        if kind is not None and not isinstance(v, kind):
            raise AnalysisBroken(f"{module}.{name} is not what it used to be: {v!r}")
        return v

    def cls(self, module, name):
        return self.name("syntax." + module, name, Cls)

    def logic(self, name):
        for m in self.Logic.members:
            if m.name == name:
                return m
        raise AnalysisBroken(f"logic {name} not found")

    def all_modules(self):
        """Load every module of the package."""
        import os

        base = os.path.join(self.root, PACKAGE)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.module(rel[len(PACKAGE) + 1:])

    def concrete(self):
        """Concrete formula classes."""
        return [
            c for c in self.it.classes
            if c.sub(self.Formula) and not self.it.abstract_methods(c) and not c.name.startswith("_")
            and c.name not in ("Formula",)
        ]

    def fresh(self):
        """A fresh state over the loaded program."""
        self.it.sink = [[]]
        self.it.effects = []
        self.it.where = None
        return St(1, {})

    def raises(self):
        return self.it.sink[0]

    def hash_consing(self):
        """The metaclass that caches formulas (root of the metaclasses with __call__)."""
        meta = self.Formula.meta
        if meta is None:
            return None
        out = None
        for k in meta.mro:
            if isinstance(k.attrs.get("__call__"), Fn):
                out = k
        return out

    def functions(self):
        """Functions defined in the modules of the package, methods and wrapped ones included."""
        out, seen = [], set()

        def go(v, m):
            if id(v) in seen:
                return
            if isinstance(v, Wrap):
                go(v.fn, m)
            elif isinstance(v, Fn):
                if v.module is m:
                    seen.add(id(v))
                    out.append(v)
            elif isinstance(v, Dispatch):
                go(v.default, m)
                for _, f in v.registry:
                    go(f, m)
            elif isinstance(v, App) and v.op == "lru":
                go(v.args[0], m)
            elif isinstance(v, Cls) and v.module == m.name:
                seen.add(id(v))
                for a in v.attrs.values():
                    go(a, m)

        for m in sorted(self.it.modules.values(), key=lambda m: m.name):
            for v in self.it.rec(self.st0, m.fid).vars.values():
                go(v, m)
        return out

    def max_const(self, fns):
        """The largest integer constant in the functions analysed."""
        best = 0
        for f in fns:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Constant) and type(n.value) is int:
                    best = max(best, abs(n.value))
        return best


def model_text(bdd, m):
    """A readable counterexample."""
    if m is None:
        return ""
    out = []
    for a, v in m.items():
        out.append(("" if v else "not ") + atom_text(a))
    return "; ".join(out)


def atom_text(a):
    k = a[0]
    if k == "eq":
        return f"{a[1]!r} == {a[2]!r}"
    if k == "isinst":
        return f"isinstance({a[1]!r}, {a[2]!r})"
    if k == "exact":
        return f"type({a[1]!r}) is {a[2]!r}"
    if k == "in":
        return f"{a[1]!r} in {a[2]!r}"
    if k == "truth":
        return f"{a[1]!r}"
    return f"{k}{a[1:]!r}"
