"""The constructor shape of every class of formulas, terms and predicates."""
from ..vals import *  # noqa
from .common import is_quantifier, is_predicate

BOOLEAN = ("And", "Or", "Not", "Implies", "Equivalence")
LOGICS = ("PL", "LTL", "PLTL", "LDL", "FOL")
HOME = {"pl": "PL", "ltl": "LTL", "pltl": "PLTL", "ldl": "LDL", "fol": "FOL"}
# logics of the operands of the operators that are not boolean combinations of one logic
OPERANDS = {
    "Seq": "RE", "Union": "RE", "Star": "RE", "Test": "LDL", "Prop": "PL",
}
REGEX = ("Seq", "Union", "Star", "Test", "Prop")


class Shape:
    """cls(*components): kinds of the components and the accessors that expose them."""

    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        b = lambda n: p.cls("base", n)
        self.home = (cls.module or "").rsplit(".", 1)[-1]
        self.variadic = False
        self.set = False
        self.const = cls.sub(b("TrueFormula")) or cls.sub(b("FalseFormula"))
        self.boolean = self.home == "base" and cls.name in BOOLEAN
        self.parts = None  # [(kind, accessor)]
        f = p.module("syntax.fol")
        if is_predicate(p, cls):
            self.parts = [("name", "name"), ("terms", "operands")]
        elif is_quantifier(p, cls):
            self.parts = [("variable", "variable"), ("formula", "formula")]
        elif cls.sub(p.cls("ldl", "_TemporalFormula")):
            self.parts = [("re", "regular_expression"), ("formula", "tail_formula")]
        elif self.const:
            self.parts = [("logic", "logic")] if self.home == "base" else []
        elif cls.sub(b("AbstractAtomic")):
            self.parts = [("name", "name")]
        elif cls.sub(b("_UnaryOp")):
            self.parts = [("formula", "argument")]
        elif cls.sub(b("_BinaryOp")):
            self.parts = [("formula", "operands"), ("formula", "operands")]
            self.variadic = True
            self.set = cls.sub(b("_CommutativeBinaryOp"))
        elif cls.sub(p.cls("fol", "Variable")):
            self.parts = [("name", "name")]
        elif cls.sub(p.cls("fol", "Constant")):
            self.parts = [("name", "name"), ("value", "value")]
        elif cls.sub(p.cls("fol", "Function")):
            self.parts = [("name", "name"), ("terms", "operands")]

    @property
    def name(self):
        return f"{self.home}.{self.cls.name}"

    def operand_logics(self):
        """Logics of the operands (one of them is chosen for a formula)."""
        n = self.cls.name
        if self.boolean:
            return list(LOGICS)
        if self.home == "ldl" and n in OPERANDS:
            return [OPERANDS[n]]
        return [HOME.get(self.home, "PL")]

    def spec_logic(self, operand_logic):
        """Documented logic of the formula."""
        if self.boolean:
            return operand_logic
        if self.home == "ldl" and self.cls.name in REGEX:
            return "RE"
        if self.home in HOME:
            return HOME[self.home]
        return None

    def opaque(self, name, logic):
        return Sym(name, self.p.Formula, False, (("logic", self.p.logic(logic)),))

    def components(self, prefix, logic, n=None, st=None, terms=2, name="a"):
        """Opaque components."""
        p = self.p
        out = []
        kinds = [k for k, _ in self.parts]
        if self.variadic and n is not None:
            kinds = ["formula"] * n
        i = 0
        for k in kinds:
            if k == "formula":
                out.append(self.opaque(f"{prefix}{i}", logic))
                i += 1
            elif k == "re":
                out.append(self.opaque(f"{prefix}r", "RE"))
            elif k == "name":
                out.append(K(name))
            elif k == "variable":
                out.append(Sym(prefix + "v", p.cls("fol", "Variable"), True))
            elif k == "terms":
                out.append(Tup([Sym(f"{prefix}t{j}", p.cls("fol", "Term")) for j in range(terms)]))
            elif k == "value":
                out.append(Sym(prefix + "val"))
            elif k == "logic":
                out.append(p.logic(logic))
        return out

    def build(self, comps, st):
        """Object from its components, by the initialiser alone (no simplification)."""
        it = self.p.it
        args = [it.alloc(st, HList(c)) if isinstance(c, Tup) else c for c in comps]
        return it.build(self.cls, args, st)

    def construct(self, comps, st):
        """Object by a call of the class."""
        it = self.p.it
        args = [it.alloc(st, HList(c)) if isinstance(c, Tup) else c for c in comps]
        return it.call(self.cls, args, {}, st)


def shapes(p, terms=True):
    """Shapes of every concrete class; (known, unknown)."""
    classes = list(p.concrete())
    if terms:
        classes += [c for c in (p.cls("fol", n) for n in ("Variable", "Constant", "Function"))]
    known, unknown = [], []
    for c in classes:
        s = Shape(p, c)
        (known if s.parts is not None else unknown).append(s)
    return known, unknown
