"""C08: equality of formulas is structural and consistent with hashing."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .common import eq_axioms
from .shapes import shapes, LOGICS

LEVEL = "other"


class Equality:
    """Axioms of the equality of components; comparison of hash terms."""

    def __init__(self, p):
        self.p, self.it, self.bdd = p, p.it, p.it.bdd

    def axioms(self, f):
        """Opaque formulas of different logics differ; equality is an equivalence."""
        it, bdd = self.it, self.bdd
        ax = eq_axioms(it, f, lambda t: None)
        for a in bdd.support(f):
            if a[0] == "eq" and isinstance(a[1], Sym) and isinstance(a[2], Sym):
                l1, l2 = a[1].attrs.get("logic"), a[2].attrs.get("logic")
                if l1 is not None and l2 is not None and l1 != l2:
                    ax = bdd.and_(ax, bdd.not_(bdd.atom(a)))
        return ax

    def place(self, s, name):
        f, k = s.cls.lookup(name)
        while isinstance(f, Wrap):
            f = f.fn
        return f.where if isinstance(f, Fn) else (k.qual if k else None)

    def same_hash(self, a, b, st):
        """BDD: the two hash terms are the same value for sure."""
        it, bdd = self.it, self.bdd
        if a == b:
            return 1
        if isinstance(a, Alt) or isinstance(b, Alt):
            out = 0
            for g, x in it.alts(a, st.pc):
                for h, y in it.alts(b, g):
                    out = bdd.or_(out, bdd.and_(h, self.same_hash(x, y, st)))
            return out
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "hash" and len(a.args) == len(b.args) == 1:
            return self.same_value(a.args[0], b.args[0], st)
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and len(a.args) == len(b.args):
            if a.op in ("+", "^", "&", "|", "*", "Add", "BitXor", "BitAnd", "BitOr", "Mult") and len(a.args) == 2:
                x, y = self.same_hash(a.args[0], b.args[0], st), self.same_hash(a.args[1], b.args[1], st)
                u, v = self.same_hash(a.args[0], b.args[1], st), self.same_hash(a.args[1], b.args[0], st)
                return bdd.or_(bdd.and_(x, y), bdd.and_(u, v))
            return bdd.and_(*[self.same_hash(x, y, st) for x, y in zip(a.args, b.args)])
        return self.same_value(a, b, st)

    def same_value(self, a, b, st):
        it, bdd = self.it, self.bdd
        if a == b:
            return 1
        if isinstance(a, Alt) or isinstance(b, Alt):
            return bdd.or_(*[bdd.and_(h, self.same_value(x, y, st)) for g, x in it.alts(a, st.pc) for h, y in it.alts(b, g)])
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return 0
            return bdd.and_(*[self.same_value(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and a.op in ("frozenset", "set"):
            us, vs = ([(e.items[0], e.items[-1].bdd) for e in x.args] for x in (a, b))
            sub = lambda q, r: bdd.and_(*[
                bdd.implies(g, bdd.or_(*[bdd.and_(h, self.same_value(k, j, st)) for j, h in r])) for k, g in q])
            return bdd.and_(sub(us, vs), sub(vs, us))
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and len(a.args) == len(b.args):
            if a.op in ("attr", "hash", "type", "str", "repr", "tuple", "list"):
                e = bdd.and_(*[self.same_value(x, y, st) for x, y in zip(a.args, b.args)])
                if e:
                    return e
        return it.eqv(a, b, st)


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    rep.rule = (
        "for instances x, y of classes C, D built from opaque components: (x == y) is true exactly when C is D "
        "and the components are equal (as sets for commutative classes); no comparison raises; instances with "
        "equal components have identical hashes"
    )
    rep.explanation = (
        "The equality and hash methods of every concrete class are interpreted abstractly on two instances with "
        "opaque components. Equalities of components are BDD atoms with the axioms of equality, so the result is a "
        "BDD that is compared with the structural equality for all components at once; nested formulas are covered "
        "by induction on the components. Hashes are compared as terms over the hashed values. Every pair of "
        "different classes, every pair of logics and a set of non-formulas are compared as well."
    )
    rep.assumptions = [
        "equal opaque components have equal hashes and equal logics (induction)",
        "the components of an instance belong to one logic (checked by C11)",
    ]
    known, unknown = shapes(p)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")

    E = Equality(p)
    components_differ, place, same_hash = E.axioms, E.place, E.same_hash

    def hash_of(v, st):
        return it.call(Ext("builtins.hash"), [v], {}, st)

    def comp_eq(a, b, st):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return 0
            return bdd.and_(*[comp_eq(x, y, st) for x, y in zip(a.items, b.items)]) if a.items else 1
        return it.eq(a, b, st)

    def want_eq(s, xs, ys, st):
        if s.set:
            sub = lambda us, vs: bdd.and_(*[bdd.or_(*[it.eq(u, v, st) for v in vs]) for u in us])
            return bdd.and_(sub(xs, ys), sub(ys, xs))
        if len(xs) != len(ys):
            return 0
        out = 1
        for a, b in zip(xs, ys):
            out = bdd.and_(out, comp_eq(a, b, st))
        return out

    def both(s, xs, t, ys):
        st = p.fresh()
        a, b = s.build(xs, st), t.build(ys, st)
        if a is None or b is None or p.raises():
            raise Undecided(f"cannot build {s.name} and {t.name}: {p.raises()[:1]}")
        return st, a, b

    def results(a, b, st, label, key):
        """The two equality tests, the inequality test; violations for exceptions."""
        e1, e2 = it.eq(a, b, st), it.eq(b, a, st)
        ne = it.truth(it.compare("NotEq", a, b, st), st)
        out = []
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, components_differ(pc))
            if q:
                out.append(Violation(f"{key}/raises", f"{label}: the comparison raises {exc!r}", where, model_text(bdd, bdd.pick(q))))
        return e1, e2, ne, out

    def pair(label, s, xs, t, ys, key):
        st, a, b = both(s, xs, t, ys)
        want = want_eq(s, xs, ys, st) if s.cls is t.cls else 0
        e1, e2, ne, out = results(a, b, st, label, key)
        where = place(s, "__eq__")
        for got, what in ((e1, "x == y"), (e2, "y == x"), (bdd.not_(ne), "not x != y")):
            d = bdd.xor(got, want)
            d = bdd.and_(d, components_differ(d))
            if d:
                m = bdd.pick(d)
                out.append(Violation(
                    f"{key}/eq", f"{label}: {what} is {'true' if ev(got, m) else 'false'} but structural equality is "
                    f"{'true' if ev(want, m) else 'false'}", where, model_text(bdd, m)))
                break
        rep.count("pairs_compared")
        return out

    def ev(f, m):
        f = bdd.and_(f, bdd.and_(*[bdd.atom(a) if v else bdd.not_(bdd.atom(a)) for a, v in m.items()])) if m else f
        return f != 0

    def hash_pair(label, s, xs, ys, key):
        """Equal components give equal hashes."""
        st, a, b = both(s, xs, s, ys)
        want = want_eq(s, xs, ys, st)
        ha, hb = hash_of(a, st), hash_of(b, st)
        out = []
        for pc, _, exc, where in p.raises():
            out.append(Violation(f"{key}/hash-raises", f"{label}: hash raises {exc!r}", where))
        if out or not st.pc:
            return out
        d = bdd.and_(want, bdd.not_(same_hash(ha, hb, st)))
        d = bdd.and_(d, components_differ(d))
        if d:
            out.append(Violation(
                f"{key}/hash", f"{label}: the two are equal but their hashes are {ha!r} and {hb!r}",
                place(s, "__hash__"), model_text(bdd, bdd.pick(d))))
        # the memoised value is the same value
        h2 = hash_of(a, st)
        if st.pc and same_hash(ha, h2, st) != 1:
            out.append(Violation(f"{key}/hash-unstable", f"{label}: the second hash {h2!r} differs from the first {ha!r}", place(s, "__hash__")))
        rep.count("hashes_compared")
        return out

    def other(label, s, xs, o, key):
        st = p.fresh()
        a = s.build(xs, st)
        if a is None or p.raises():
            raise Undecided(f"cannot build {s.name}")
        ov = o(st)
        if isinstance(ov, Sym):  # the other side decides only if the method gives NotImplemented
            r = it.dunder(a, "__eq__", [ov], st)
            e1 = e2 = bdd.or_(*[bdd.and_(g, it.truth(v, st)) for g, v in it.alts(r, st.pc) if v != NOTIMPL])
            ne = bdd.not_(e1)
            out = [Violation(f"{key}/raises", f"{label}: the comparison raises {exc!r}", where) for pc, _, exc, where in p.raises()]
        else:
            e1, e2, ne, out = results(a, ov, st, label, key)
        for got in (e1, e2, bdd.not_(ne)):
            if got:
                out.append(Violation(f"{key}/eq-other", f"{label}: compares equal to something that is not a formula",
                                     place(s, "__eq__"), model_text(bdd, bdd.pick(got))))
                break
        rep.count("non_formulas_compared")
        return out

    ob = rep.obligation
    names = ["a", "b", "A1", "a1", "aB", "ab", '"a"']

    # same class
    for s in known:
        for logic in s.operand_logics():
            if s.variadic:
                top = 4 if rep.tier == "thorough" else 3
                for n in range(2, top + 1):
                    for m in range(2, top + 1):
                        if logic != s.operand_logics()[0] and (n, m) not in ((2, 2), (2, 3)):
                            continue
                        xs, ys = s.components("x", logic, n), s.components("y", logic, m)
                        lab = f"{s.name}/{n} and {s.name}/{m} over {logic}"
                        ob(lab, pair, lab, s, xs, s, ys, s.name)
                        if n == m or s.set:
                            ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
                        rep.sample(f"{lab}: == is structural")
            else:
                xs, ys = s.components("x", logic), s.components("y", logic)
                lab = f"two {s.name} over {logic}"
                ob(lab, pair, lab, s, xs, s, ys, s.name)
                ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
        kinds = [k for k, _ in s.parts]
        base = s.operand_logics()[0]
        if "name" in kinds:
            for a in names:
                for b in names:
                    if s.home != "fol" and ("A1" in (a, b)):
                        continue
                    xs, ys = s.components("x", base, name=a), s.components("x", base, name=b)
                    lab = f"{s.name}({a}) and {s.name}({b})"
                    ob(lab, pair, lab, s, xs, s, ys, s.name)
                    if a == b:
                        ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
        if "terms" in kinds:
            for n in range(0, 4):
                for m in range(0, 4):
                    xs, ys = s.components("x", base, terms=n), s.components("y", base, terms=m)
                    lab = f"{s.name} with {n} and with {m} terms"
                    ob(lab, pair, lab, s, xs, s, ys, s.name)
                    if n == m:
                        ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
        if "value" in kinds:
            for v in (NONE, K(0), K("v")):
                for w in (NONE, K(0), K("v"), Sym("w")):
                    xs, ys = s.components("x", base), s.components("x", base)
                    xs[-1], ys[-1] = v, w
                    lab = f"{s.name} with values {v!r} and {w!r}"
                    ob(lab, pair, lab, s, xs, s, ys, s.name)
        if "logic" in kinds:
            for l1 in LOGICS + ("RE",):
                for l2 in LOGICS + ("RE",):
                    xs, ys = [p.logic(l1)], [p.logic(l2)]
                    lab = f"{s.name}({l1}) and {s.name}({l2})"
                    ob(lab, pair, lab, s, xs, s, ys, s.name)
                    if l1 == l2:
                        ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
        # operands that are shared, repeated or permuted
        if s.variadic:
            x = s.components("x", base, 3)
            lists = {"x0 x1": [x[0], x[1]], "x1 x0": [x[1], x[0]], "x0 x1 x0": [x[0], x[1], x[0]], "x0 x0 x1": [x[0], x[0], x[1]],
                     "x0 x1 x1": [x[0], x[1], x[1]], "x0 x1 x2": x, "x2 x0 x1": [x[2], x[0], x[1]], "x0 x2 x1": [x[0], x[2], x[1]]}
            for n1, l1 in lists.items():
                for n2, l2 in lists.items():
                    lab = f"{s.name}({n1}) and {s.name}({n2})"
                    ob(lab, pair, lab, s, l1, s, l2, s.name)
                    if s.set or n1 == n2:
                        ob(f"hash {lab}", hash_pair, lab, s, l1, l2, s.name)
        # operands of different logics
        if s.boolean:
            for l1 in LOGICS:
                for l2 in LOGICS:
                    if l1 != l2:
                        xs, ys = s.components("x", l1), s.components("y", l2)
                        lab = f"{s.name} over {l1} and over {l2}"
                        ob(lab, pair, lab, s, xs, s, ys, s.name)
    # integer constants in the methods decide how many operands are special
    k = p.max_const(f for f in it.calls_seen if f.module.name.endswith(("syntax.base", "syntax.fol", "syntax.ldl", "cache_hash")))
    for n in range(4, min(k, 8) + 3):
        for s in known:
            if s.variadic and not s.set:
                xs, ys = s.components("x", s.operand_logics()[0], n), s.components("y", s.operand_logics()[0], n)
                lab = f"two {s.name}/{n}"
                ob(lab, pair, lab, s, xs, s, ys, s.name)
                ob(f"hash {lab}", hash_pair, lab, s, xs, ys, s.name)
    # different classes, the same components wherever both admit them
    for i, s in enumerate(known):
        for t in known[i + 1:]:
            shared = [l for l in s.operand_logics() if l in t.operand_logics()]
            for logic in shared or [None]:
                xs = s.components("x", logic or s.operand_logics()[0])
                ys = t.components("x", logic or t.operand_logics()[0])
                if s.const and t.const:
                    xs = [p.logic(l) for l in [s.spec_logic(None) or t.spec_logic(None) or "PL"] if s.parts]
                    ys = [p.logic(l) for l in [t.spec_logic(None) or s.spec_logic(None) or "PL"] if t.parts]
                lab = f"{s.name} and {t.name}" + (f" over {logic}" if logic else "")
                ob(lab, pair, lab, s, xs, t, ys, f"{s.name}-{t.name}")
    # other objects
    others = {
        "None": lambda st: NONE, "the text a": lambda st: K("a"), "1": lambda st: K(1), "True": lambda st: TRUE,
        "a tuple of the components": None, "a list": lambda st: it.alloc(st, HList(Tup(()))),
        "a logic": lambda st: p.logic("PL"), "the class": None,
        "a set": lambda st: it.make_set(Tup((K(1),)), st), "a dict": lambda st: it.alloc(st, HMap((), "dict")),
        "an object": lambda st: Sym("o", it.builtin_cls["object"], True),
        "a term": lambda st: Sym("t", p.cls("fol", "Constant"), True),
    }
    for s in known:
        xs = s.components("x", s.operand_logics()[0])
        for n, o in others.items():
            if n.startswith("a tuple"):
                o = lambda st, xs=xs: Tup(xs)
            if n == "a term" and not s.cls.sub(p.Formula):
                continue
            if n == "the class":
                o = lambda st, s=s: s.cls
            ob(f"{s.name} and {n}", other, f"{s.name} and {n}", s, xs, o, s.name)
    rep.count("classes", len(known))
