"""C13: negation is an involution with the documented dualities."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .shapes import shapes, LOGICS

LEVEL = "other"
TAGS = LOGICS + ("PLDL", "MSO", "RE")
DUAL = {"TrueFormula": "FalseFormula", "FalseFormula": "TrueFormula",
        "PropositionalTrue": "PropositionalFalse", "PropositionalFalse": "PropositionalTrue"}


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "for x of every class: negating x twice (with Not, ~ or one of each) gives a formula equal to x on every path; "
        "the negation of a constant is the dual constant of the same logic; the negation of any other formula that is not a "
        "negation is a Not with argument x; the logic of the negation is the logic of x; x keeps its fields"
    )
    rep.explanation = (
        "Not and __invert__ are interpreted abstractly on an instance of every class with opaque components (and on an opaque "
        "formula of each logic that is an atom or binary operator). The returned values are compared with x by abstract "
        "interpretation of __eq__, for all valuations of the equalities of components; nesting is covered by the opaque components."
    )
    rep.assumptions = ["equality of formulas is structural (C08)", "construction is not changed by the cache (C10)"]
    known, unknown = shapes(p, terms=False)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    Not = p.cls("base", "Not")
    forms = {"Not": lambda v, st: it.call(Not, [v], {}, st), "~": lambda v, st: it.invert(v, st)}

    def place(cls, n="__invert__"):
        f, _ = cls.lookup(n)
        return f.where if isinstance(f, Fn) else None

    def feasible(q):
        ax = E.axioms(q)
        for a in bdd.support(q):
            if a[0] == "eq":  # induction: the negation of the opaque component is a Not of it
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if isinstance(x, App) and x.op == "invert" and isinstance(y, App) and y.op == "inst" and y.args[0] is Not:
                        if [f.items[1] for f in y.args[1:]] == [x.args[0]]:
                            ax = bdd.and_(ax, bdd.atom(a))
        return bdd.and_(q, ax)

    def raised(label, key):
        for pc, _, exc, where in p.raises():
            q = feasible(pc)
            if q:
                return [Violation(f"{key}/raises", f"{label} raises {exc!r}", where, model_text(bdd, bdd.pick(q)))]
        return []

    def fields(x, st):
        """Canonical content of an instance, without its memoised hash."""
        t = it.canon(x, st)
        return t

    def differ(a, b, st):
        d = bdd.and_(st.pc, bdd.not_(it.eqv(a, b, st)))
        return feasible(d)

    def make(s, comps, st):
        x = s.build(comps, st)
        if x is None or p.raises():
            raise Undecided(f"cannot build {s.name}: {p.raises()[:1]}")
        return x

    def twice(label, key, s, comps, f1, f2):
        st = p.fresh()
        x = make(s, comps, st)
        before = fields(x, st)
        y = forms[f1](x, st)
        z = forms[f2](y, st) if st.pc else BOT
        rep.count("double_negations")
        out = raised(label, key)
        if out:
            return out
        if not st.pc:
            raise Undecided("no path reaches the end")
        d = differ(z, x, st)
        if d:
            out.append(Violation(f"{key}/involution", f"{label} is {it.canon_v(z, st)!r}, not equal to the formula", place(s.cls), model_text(bdd, bdd.pick(d))))
        if fields(x, st) != before:
            out.append(Violation(f"{key}/altered", f"{label} changes the formula from {before!r} to {fields(x, st)!r}", place(s.cls)))
        return out

    def once(label, key, s, comps, logic, f):
        st = p.fresh()
        x = make(s, comps, st)
        y = forms[f](x, st)
        rep.count("negations")
        out = raised(label, key)
        if out:
            return out
        l = it.each(y, st, lambda b, s1: it.getattr(b, "logic", s1))
        want = p.logic(logic)
        d = feasible(bdd.and_(st.pc, bdd.not_(it.eqv(l, want, st))))
        if d:
            out.append(Violation(f"{key}/logic", f"{label} has logic {it.canon_v(l, st)!r} instead of {logic}", place(s.cls), model_text(bdd, bdd.pick(d))))
        if s.cls.name in DUAL and s.const:
            mod = "syntax." + s.home
            dual = p.name(mod, DUAL[s.cls.name])
            bad = 0
            for g, b in it.alts(y, st.pc):
                k = it.class_of(b, st)
                if k is not dual:
                    bad = bdd.or_(bad, g)
            bad = feasible(bad)
            if bad:
                out.append(Violation(f"{key}/dual", f"{label} is {it.canon_v(y, st)!r}, not {dual.name}", place(s.cls)))
        elif s.cls is not Not:
            def arg(b, s1):
                k = it.class_of(b, s1)
                return it.getattr(b, "argument", s1) if k is not None and k.sub(Not) else NONE
            a = it.each(y, st, arg)
            d = differ(a, x, st)
            if d:
                out.append(Violation(f"{key}/argument", f"{label} is {it.canon_v(y, st)!r}, not a negation of the formula", place(s.cls), model_text(bdd, bdd.pick(d))))
        else:
            d = differ(y, comps[0], st)
            if d:
                out.append(Violation(f"{key}/argument", f"{label} is {it.canon_v(y, st)!r}, not the argument of the negation", place(s.cls), model_text(bdd, bdd.pick(d))))
        return out

    nots = (Not, p.cls("base", "TrueFormula"), p.cls("base", "FalseFormula"))
    for s in known:
        logics = s.operand_logics()
        if s.const and s.parts:
            logics = list(TAGS)
        for logic in logics:
            spec = logic if s.const and s.parts else s.spec_logic(logic)
            if spec is None:
                rep.undecide(f"class {s.name}", "the logic of the class is not documented here")
                continue
            if spec == "RE" and not s.const:
                continue  # regular expressions cannot be negated (C11)
            for n in (2, 3) if s.variadic else (None,):
                comps = s.components("x", logic, n)
                if s.cls is Not:  # the argument of a negation is neither a negation nor a constant
                    comps = [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", nots),)) for x in comps]
                lab = f"{s.name}({', '.join(map(repr, comps))}) over {logic}"
                for f in forms:
                    rep.obligation(f"{f} of {lab}", once, f"{f} of {lab}", s.name, s, comps, spec, f)
                    for g in forms:
                        rep.obligation(f"{g}{f} of {lab}", twice, f"{g} of {f} of {lab}", s.name, s, comps, f, g)
        rep.sample(f"{s.name}: Not and ~, once and twice, over {', '.join(logics)}")

    # constants made by make_boolean
    mk = p.name("syntax.base", "make_boolean")
    for l in TAGS:
        for v in (0, 1):
            def go(l=l, v=v):
                st = p.fresh()
                a = it.call(mk, [B(v), p.logic(l)], {}, st)
                b = it.call(mk, [B(1 - v), p.logic(l)], {}, st)
                rep.count("negations")
                out = raised(f"make_boolean({bool(v)}, {l})", "make_boolean")
                if out:
                    return out
                for f, fn in forms.items():
                    c = fn(a, st)
                    d = differ(c, b, st)
                    if d:
                        out.append(Violation("make_boolean/dual", f"{f} of make_boolean({bool(v)}, {l}) is {it.canon_v(c, st)!r}", getattr(mk, "where", None)))
                return out + raised("negation of a constant", "make_boolean")
            rep.obligation(f"negation of make_boolean({bool(v)}, {l})", go)
