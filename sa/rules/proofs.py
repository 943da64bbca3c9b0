"""Abstract natural-deduction proofs, shared by the rules about the proof checker."""
from ..program import model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality


class Proofs:
    """Builds proofs with opaque contents and asks the checker about them."""

    def __init__(self, p, logic="PL"):
        self.p, self.it, self.bdd = p, p.it, p.it.bdd
        self.E = Equality(p)
        nd = "deduction.fol.nd"
        self.N = p.name(nd, "NaturalDeduction", Cls)
        self.R = p.name(nd, "NaturalDeductionRule", Cls)
        self.logic = logic
        self.Term = p.cls("fol", "Term")
        b = lambda *ns: tuple(p.cls("base", n) for n in ns)
        f = lambda *ns: tuple(p.cls("fol", n) for n in ns)
        self.excluded = (self.Term,) + b("And", "Or", "Not", "TrueFormula", "FalseFormula") + f("ForAll", "Exists")
        self.Not, self.And, self.Or, self.Implies, self.False_, self.True_ = b(
            "Not", "And", "Or", "Implies", "FalseFormula", "TrueFormula")

    # formulas
    def S(self, name):
        """An arbitrary formula that is not a conjunction, disjunction, negation, constant or quantifier."""
        return Sym(name, self.p.Formula, False, (("logic", self.p.logic(self.logic)), ("#not", self.excluded)))

    def neg(self, x, st):
        return self.it.call(self.Not, [x], {}, st)

    def conj(self, x, y, st):
        return self.it.call(self.And, [x, y], {}, st)

    def disj(self, x, y, st):
        return self.it.call(self.Or, [x, y], {}, st)

    def imp(self, x, y, st):
        """The implication of the calculus: what >> builds."""
        return self.it.each(x, st, lambda b, s: self.it.call(self.it.getattr(b, "__rshift__", s), [y], {}, s))

    def false(self, st):
        return self.it.build(self.False_, [], st)

    def raw(self, cls, *comps):
        """An instance of cls with exactly these components."""
        return lambda st: self.it.build(cls, list(comps), st)

    # proofs
    def rule(self, name, st):
        return self.it.getattr(self.R, name, st)

    def why(self, name, cites, st):
        r = self.rule(name, st) if isinstance(name, str) else name
        return Tup([r] + [c if not isinstance(c, (int, str)) else K(c) for c in cites])

    def lines(self, spec, st):
        """spec: [(row, content, rule, cites)] or [(row, [lines of a box])]; a box may open with ("term", t)."""
        out = []
        for l in spec:
            out.append(K(l[0]))
            if isinstance(l[1], list):
                out.append(self.box(l[1], st))
            else:
                out += [l[1], self.why(l[2], l[3], st)]
        return out

    def box(self, spec, st):
        """The first line of a box has the row of the box, which is not written."""
        out = []
        rest = list(spec)
        if rest and rest[0][0] == "term":
            out.append(rest.pop(0)[1])
            if not rest or not (len(rest[0]) == 4 and rest[0][0] is None):
                out.append(self.why("assumption", [], st))
            else:
                l = rest.pop(0)
                out += [l[1], self.why(l[2], l[3], st)]
        else:
            l = rest.pop(0)
            if isinstance(l[1], list):
                out.append(self.box(l[1], st))
            else:
                out += [l[1], self.why(l[2], l[3], st)]
        out += self.lines(rest, st)
        return self.it.alloc(st, HList(Tup(out)))

    def check(self, spec, st):
        """The condition under which the proof is accepted."""
        it, bdd = self.it, self.bdd
        pf = it.call(it.getattr(self.N, "Proof", st), [it.alloc(st, HList(Tup(self.lines(spec, st))))], {}, st)
        r = it.call(it.getattr(self.N, "check", st), [pf], {}, st) if st.pc else BOT
        acc = bdd.and_(st.pc, it.truth(r, st)) if st.pc else 0
        return acc

    # axioms
    def axioms(self, f):
        """Equality axioms, and what is known about the opaque formulas."""
        it, bdd = self.it, self.bdd
        ax = self.E.axioms(f)
        for a in bdd.support(f):
            if a[0] != "eq":
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                nx, ny = self.negated(x), self.negated(y)
                if nx is not None and ny is not None:
                    ax = bdd.and_(ax, bdd.iff(bdd.atom(a), self.same(nx, ny)))
                elif nx is not None and isinstance(y, Sym):
                    ax = bdd.and_(ax, bdd.not_(bdd.atom(a)))
        return ax

    def same(self, x, y):
        if x == y:
            return 1
        a, b = (x, y) if repr(x) <= repr(y) else (y, x)
        return self.bdd.atom(("eq", a, b))

    def negated(self, t):
        """x if the term t is the negation of the opaque formula x."""
        if isinstance(t, App) and t.op == "invert" and isinstance(t.args[0], Sym):
            return t.args[0]
        if isinstance(t, App) and t.op == "inst" and t.args[0] is self.Not:
            vals = [f.items[1] for f in t.args[1:] if isinstance(f.items[1], Sym)]
            if len(vals) == 1:
                return vals[0]
        return None

    def sat(self, q):
        """q with its axioms (0: impossible)."""
        if not q:
            return 0
        q = self.bdd.and_(q, self.axioms(q))
        return self.bdd.and_(q, self.axioms(q)) if q else 0
