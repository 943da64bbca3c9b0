"""C11: operators only accept operands of the logics they are defined for."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .shapes import shapes, LOGICS

LEVEL = "other"
TAGS = LOGICS + ("PLDL", "MSO", "RE")


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "no execution path of a construction with an operand of a logic that is not admitted, with operands of different "
        "logics in a boolean combination, or with an operand that is not a formula, reaches the end of the constructor; "
        "no path of a construction from admitted operands raises"
    )
    rep.explanation = (
        "Every operator class is called abstractly, through its metaclasses, with the offending operand in every position and "
        "the other operands opaque formulas of the admitted logic, constants or repeated operands. The condition under which "
        "the call returns is a BDD over the equalities and classes of the operands; it must be unsatisfiable (for admitted "
        "operands: the condition under which it raises)."
    )
    rep.assumptions = [
        "operand lists longer than the bound behave like those up to it (integer constants of the code extend the bound)",
        "boolean constants are admitted in boolean combinations of every logic (documented), and not elsewhere",
        "a single operand is not a combination: And(x), Or(x), Implies(x), Equivalence(x) are not covered",
    ]
    known, unknown = shapes(p, terms=False)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    not_const = ("#not", (p.cls("base", "TrueFormula"), p.cls("base", "FalseFormula")))

    def opaque(name, logic, const=True):
        return Sym(name, p.Formula, False, (("logic", p.logic(logic)),) + (() if const else (("#not", not_const[1] + tuple(monotone)),)))

    monotone = [p.cls("base", n) for n in ("And", "Or", "Not")]

    # things that are not formulas; a term has a logic, like a formula
    var = lambda st: it.build(p.cls("fol", "Variable"), [K("v")], st)
    strange = {
        "a string": lambda st: K("a"),
        "a number": lambda st: K(3),
        "None": lambda st: NONE,
        "True": lambda st: B(1),
        "a list of formulas": lambda st: it.alloc(st, HList(Tup([opaque("inner", "PL")]))),
        "a tuple": lambda st: Tup([opaque("inner", "PL")]),
        "a logic": lambda st: p.logic("PL"),
        "the class Formula": lambda st: p.Formula,
        "a variable": var,
        "a constant term": lambda st: it.build(p.cls("fol", "Constant"), [K("c")], st),
        "a function term": lambda st: it.build(p.cls("fol", "Function"), [K("f"), it.alloc(st, HList(Tup([Sym("t", p.cls("fol", "Term"))])))], st),
    }

    def place(s):
        for n in ("__call__",):
            f = s.cls.meta and s.cls.meta.lookup(n)[0]
            if isinstance(f, Fn):
                return f.where
        return None

    def rejected(label, key, s, make):
        st = p.fresh()
        args = make(st)
        if p.raises():
            raise Undecided(f"cannot make the operands: {p.raises()[0][2]!r}")
        v = s.construct(args, st)
        rep.count("constructions")
        if not st.pc:
            return None
        q = bdd.and_(st.pc, E.axioms(st.pc))
        if q:
            return [Violation(key, f"{label} is accepted and gives {it.canon_v(v, st)!r}", place(s), model_text(bdd, bdd.pick(q)))]

    def accepted(label, key, s, make):
        st = p.fresh()
        args = make(st)
        if p.raises():
            raise Undecided(f"cannot make the operands: {p.raises()[0][2]!r}")
        s.construct(args, st)
        rep.count("constructions")
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                return [Violation(key, f"{label} is rejected with {exc!r}", where, model_text(bdd, bdd.pick(q)))]

    bound = min(max(4, p.max_const(
        f for f in methods(p) if f.module.name.endswith("syntax.base")) + 2), 6 if rep.tier == "quick" else 9)
    rep.counts["largest_arity"] = bound
    for s in known:
        kinds = [k for k, _ in s.parts]
        slots = [i for i, k in enumerate(kinds) if k in ("formula", "re")]
        if not slots:
            continue
        logics = s.operand_logics()
        for logic in logics:
            for n in range(2, bound + 1) if s.variadic else (None,):
                base = s.components("x", logic, n)
                if s.boolean:  # constants are admitted in every logic; nested operators of the class are flattened first
                    base = [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", (s.cls,) + not_const[1]),)) for x in base]
                size = len(base)
                lab = f"{s.name}/{size} over {logic}"
                # admitted operands
                rep.obligation(f"{lab} accepts", accepted, lab, f"{s.name}/accept", s, lambda st: list(base))
                positions = range(size) if s.variadic else slots
                if size > 4:
                    positions = sorted({0, 1, size - 2, size - 1})
                for i in positions:
                    kind = "formula" if s.variadic else kinds[i]
                    good = "RE" if kind == "re" else logic
                    if s.boolean:
                        bad = [t for t in TAGS if t != good] if size <= 4 else ["RE", "PL" if logic != "PL" else "LTL"]
                    else:
                        bad = [t for t in TAGS if t != good]
                    if s.boolean and size == 1:
                        bad = ["RE"]  # nothing to differ from

                    def with_(x, i=i, base=base):
                        return lambda st: [x(st) if j == i else b for j, b in enumerate(base)]

                    for t in bad:
                        key = f"{s.name}/logic" if not s.boolean or t == "RE" else f"{s.name}/mixed"
                        rep.obligation(f"{lab}: operand {i} of {t}", rejected, f"{lab} with operand {i} of logic {t}", key, s,
                                       with_(lambda st, t=t: opaque("bad", t, const=not s.boolean)))
                        if not s.boolean:
                            for c in ("TrueFormula", "FalseFormula"):
                                rep.obligation(
                                    f"{lab}: operand {i} is {c} of {t}", rejected, f"{lab} with operand {i} = {c}({t})", key, s,
                                    with_(lambda st, t=t, c=c: it.build(p.cls("base", c), [p.logic(t)], st)))
                    if size <= 4:
                        for what, x in strange.items():
                            if kind == "formula" or kind == "re":
                                rep.obligation(f"{lab}: operand {i} is {what}", rejected, f"{lab} with operand {i} = {what}",
                                               f"{s.name}/not-formula", s, with_(x))
                    if s.boolean and size in (2, 3):
                        # simplifications must not hide the offending operand
                        others = {"the constant true": "TrueFormula", "the constant false": "FalseFormula"}
                        for what, c in others.items():
                            for t in ("RE", "a string"):
                                def make(st, c=c, t=t, i=i):
                                    k = it.build(p.cls("base", c), [p.logic(logic)], st)
                                    b = opaque("bad", "RE", const=False) if t == "RE" else K("a")
                                    return [b if j == i else (k if j == (i + 1) % size else v) for j, v in enumerate(base)]
                                rep.obligation(f"{lab}: operand {i} {t}, with {what}", rejected, f"{lab} with operand {i} = {t} and {what}",
                                               f"{s.name}/hidden", s, make)
                if s.variadic and size <= 3:
                    for t in TAGS:
                        if t != "RE" if s.boolean else t == logic:
                            continue
                        rep.obligation(f"{lab}: all operands equal, of {t}", rejected, f"{lab} with {size} times one formula of logic {t}",
                                       f"{s.name}/hidden", s, lambda st, t=t: [opaque("bad", t, const=not s.boolean)] * size)
                # admitted: repeated operands and constants
                if s.boolean and size <= 3:
                    for c in ("TrueFormula", "FalseFormula"):
                        for i in range(size):
                            rep.obligation(
                                f"{lab} accepts {c} at {i}", accepted, f"{lab} with operand {i} = {c}", f"{s.name}/accept", s,
                                lambda st, i=i, c=c: [it.build(p.cls("base", c), [p.logic(logic)], st) if j == i else b for j, b in enumerate(base)])
        rep.sample(f"{s.name}: operands of {', '.join(logics)} admitted")
    # variables of quantifiers
    for s in known:
        for i, (k, _) in enumerate(s.parts):
            if k != "variable":
                continue
            base = s.components("x", "FOL")
            for what, x in list(strange.items()) + [("a formula", lambda st: opaque("f", "FOL"))]:
                if what == "a variable":
                    continue
                rep.obligation(f"{s.name}: variable is {what}", rejected, f"{s.name} with {what} for its variable", f"{s.name}/variable", s,
                               lambda st, x=x: [x(st) if j == i else b for j, b in enumerate(base)])
    # the operators of the language
    for op, name in (("BitAnd", "&"), ("BitOr", "|"), ("RShift", ">>")):
        for l1 in TAGS:
            for l2 in TAGS:
                def go(op=op, name=name, l1=l1, l2=l2):
                    st = p.fresh()
                    a, b = opaque("x", l1, const=False), opaque("y", l2, const=False)
                    r = it.call(it.getattr(a, {"&": "__and__", "|": "__or__", ">>": "__rshift__"}[name], st), [b], {}, st)
                    ok = l1 == l2 and l1 != "RE"
                    rep.count("constructions")
                    if ok:
                        for pc, _, exc, where in p.raises():
                            q = bdd.and_(pc, E.axioms(pc))
                            if q:
                                return [Violation(f"{name}/accept", f"x {name} y over {l1} raises {exc!r}", where, model_text(bdd, bdd.pick(q)))]
                    elif st.pc:
                        q = bdd.and_(st.pc, E.axioms(st.pc))
                        if q:
                            return [Violation(f"{name}/mixed", f"x {name} y with x of {l1} and y of {l2} gives {it.canon_v(r, st)!r}", None, model_text(bdd, bdd.pick(q)))]
                rep.obligation(f"{l1} {name} {l2}", go)


def methods(p):
    """Every function of the package seen in a class."""
    for c in p.it.classes:
        for v in c.attrs.values():
            while isinstance(v, Wrap):
                v = v.fn
            if isinstance(v, Fn):
                yield v
