"""C14: every formula reports the logic it belongs to."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .shapes import shapes, LOGICS

LEVEL = "other"
TAGS = LOGICS + ("PLDL", "MSO", "RE")


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "on every path, reading .logic of the value returned by a construction gives the logic documented for the class (for "
        "boolean combinations: the logic of the operands), when built by a call, by the initialiser, after hashing, and after "
        "copying or unpickling"
    )
    rep.explanation = (
        "Every class is constructed abstractly from opaque components of each admitted logic and the accessor is interpreted on "
        "the result. The documented logics are a table of the rule, not read from the code."
    )
    rep.assumptions = ["boolean constants mixed with operands of another logic are not covered"]
    known, unknown = shapes(p, terms=True)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    terms = [p.cls("fol", n) for n in ("Variable", "Constant", "Function")]

    def place(cls):
        f, _ = cls.lookup("logic")
        while isinstance(f, Wrap):
            f = f.fn
        return f.where if isinstance(f, Fn) else None

    def check(label, s, comps, logic, how):
        st = p.fresh()
        x = s.construct(comps, st) if how == "call" else s.build(comps, st)
        if x is None:
            raise Undecided(f"cannot build {label}")
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                raise Undecided(f"construction raises {exc!r}")
        n = len(p.raises())
        if how == "hash":
            it.call(Ext("builtins.hash"), [x], {}, st)
            it.call(it.builtin_cls["str"], [x], {}, st)
        elif how in ("copy", "deepcopy"):
            x = it.copy_object(x, st, how == "deepcopy", True)
        l = it.each(x, st, lambda b, s1: it.getattr(b, "logic", s1))
        rep.count("logics_read")
        for pc, _, exc, where in p.raises()[n:]:
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                return [Violation(f"{s.name}/raises", f"reading the logic of {label} ({how}) raises {exc!r}", where, model_text(bdd, bdd.pick(q)))]
        want = p.logic(logic)
        d = bdd.and_(st.pc, bdd.not_(it.eqv(l, want, st)))
        d = bdd.and_(d, E.axioms(d))
        if d:
            return [Violation(f"{s.name}/logic", f"{label} ({how}) reports {it.canon_v(l, st)!r} instead of {logic}", place(s.cls), model_text(bdd, bdd.pick(d)))]

    for s in known:
        logics = s.operand_logics()
        if s.const and s.parts:
            logics = list(TAGS)
        for logic in logics:
            spec = "FOL" if s.cls in terms else logic if s.const and s.parts else s.spec_logic(logic)
            if spec is None:
                rep.undecide(f"class {s.name}", "the logic of the class is not documented here")
                continue
            for n in (2, 3, 4) if s.variadic else (None,):
                comps = s.components("x", logic, n)
                if s.boolean:
                    no = tuple(p.cls("base", k) for k in (("Not", "TrueFormula", "FalseFormula") if s.cls.name == "Not" else ("And", "Or")))
                    comps = [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", no),)) for x in comps]
                lab = f"{s.name}({', '.join(map(repr, comps))})"
                for how in ("call", "initialiser", "hash", "copy", "deepcopy"):
                    if n == 4 and how != "call":
                        continue
                    rep.obligation(f"{lab} over {logic}, {how}", check, lab, s, comps, spec, how)
        rep.sample(f"{s.name}: over {', '.join(logics)}")
    mk = p.name("syntax.base", "make_boolean")
    for l in TAGS:
        for v in (0, 1):
            def go(l=l, v=v):
                st = p.fresh()
                x = it.call(mk, [B(v), p.logic(l)], {}, st)
                y = it.invert(x, st)
                if p.raises():
                    return [Violation("make_boolean/raises", f"make_boolean({bool(v)}, {l}) raises {p.raises()[0][2]!r}", p.raises()[0][3])]
                for t, what in ((x, ""), (y, "the negation of ")):
                    got = it.each(t, st, lambda b, s1: it.getattr(b, "logic", s1))
                    rep.count("logics_read")
                    if bdd.and_(st.pc, bdd.not_(it.eqv(got, p.logic(l), st))):
                        return [Violation("make_boolean/logic", f"{what}make_boolean({bool(v)}, {l}) reports {got!r}", getattr(mk, "where", None))]
            rep.obligation(f"make_boolean({bool(v)}, {l})", go)
    # the distinguished formulas of the modules
    for home, name, logic in (("ltl", "Last", "LTL"), ("ldl", "End", "LDL"), ("ldl", "Last", "LDL"), ("pltl", "Start", "PLTL"), ("pltl", "First", "PLTL")):
        def go(home=home, name=name, logic=logic):
            st = p.fresh()
            m = p.module("syntax." + home)
            f = it.rec(st, m.fid).vars.get(name)
            if f is None:
                return None
            x = it.call(f, [], {}, st)
            got = it.each(x, st, lambda b, s1: it.getattr(b, "logic", s1))
            if p.raises() or bdd.and_(st.pc, bdd.not_(it.eqv(got, p.logic(logic), st))):
                return [Violation(f"{home}.{name}/logic", f"{home}.{name}() reports {got!r} {p.raises()[:1]}", None)]
        rep.obligation(f"{home}.{name}()", go)
