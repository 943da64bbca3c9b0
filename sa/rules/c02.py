"""C02: interpretations are read as documented (set: members are true; dict: by value, missing is false)."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .common import eq_axioms

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    bc = it.builtin_cls
    rep.rule = (
        "truth of evaluate(Atomic(n), I) as a BDD over membership atoms equals `n in I` for a set and "
        "`n in I and I[n]` for a dict; every other kind of interpretation raises; nothing writes to I"
    )
    rep.explanation = (
        "The evaluator is interpreted abstractly on an atom with an opaque name and on opaque sets and "
        "dicts (any contents), and on sets and dicts with up to 3 opaque keys; results are compared as "
        "BDDs over membership and value atoms with the documented reading."
    )
    rep.assumptions = ["Python semantics as modelled by the abstract interpreter"]
    evaluate = p.name("semantics.pl", "evaluate_pl")
    atomic = p.cls("pl", "Atomic")
    name = Sym("n", bc["str"], True)

    def go(kind, make, spec):
        st = p.fresh()
        ref = it.build(atomic, [name], st)
        if ref is None:
            raise Undecided("Atomic cannot be built")
        it.sink = [[]]  # the condition that the name is valid is assumed from here on
        pc0 = st.pc
        I, keys = make(st)
        if isinstance(I, Ref):
            it.protected = {**it.protected, I.id: "the interpretation"}
        it.effects = []
        r = it.call(evaluate, [ref, I], {}, st)
        out = []
        distinct = 1
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                distinct = bdd.and_(distinct, bdd.not_(it.eq(a, b, st)))
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, distinct)
            if q and not invalid_name(q):
                out.append(Violation(f"{kind}/raises", f"evaluating an atom over a {kind} raises {exc!r}", where,
                                     model_text(bdd, bdd.pick(q))))
        got = it.truth(r, st)
        want = spec(st)
        diff = bdd.xor(got, want)
        diff = bdd.and_(st.pc, distinct, diff)
        diff = bdd.and_(diff, eq_axioms(it, diff, lambda t: None))
        if diff:
            out.append(Violation(f"{kind}/value", f"an atom over a {kind} does not have the documented value",
                                 getattr(evaluate, "where", None), model_text(bdd, bdd.pick(diff))))
        for e in it.effects:
            if e[1] == "param" and e[2] == "the interpretation" or e[1] == "opaque" and e[2] == repr(I):
                if bdd.and_(e[0], distinct):
                    out.append(Violation(f"{kind}/writes", f"evaluating an atom writes to the interpretation: {e[3]}", e[4]))
        return out

    def invalid_name(q):
        """Does q only hold when the (already validated) name is invalid?"""
        for a in bdd.support(q):
            if a[0] == "truth" and isinstance(a[1], App) and a[1].op == "match":
                return not bdd.and_(q, bdd.atom(a))
        return False

    opq = lambda cls: (lambda st: (Sym("I", bc[cls], True), []))
    I_set, I_dict = Sym("I", bc["set"], True), Sym("I", bc["dict"], True)
    rep.obligation("opaque set", go, "set", opq("set"), lambda st: it.opaque_in(I_set, name, st))
    rep.obligation(
        "opaque dict", go, "dict", opq("dict"),
        lambda st: bdd.and_(it.opaque_in(I_dict, name, st), it.truth(it.opaque_item(I_dict, name, st), st)),
    )
    for n in range(0, 4):
        keys = [Sym(f"k{i}", bc["str"], True) for i in range(n)]
        vals = [Sym(f"v{i}", bc["bool"], True) for i in range(n)]
        mk = lambda st: (it.alloc(st, HMap(tuple((k, None, 1) for k in keys), "set")), keys)
        rep.obligation(f"set of {n}", go, "set", mk, lambda st: bdd.or_(*[it.eq(k, name, st) for k in keys]))
        for b in (None, 0, 1):
            vs = vals if b is None else [B(b)] * n
            mk = lambda st: (it.alloc(st, HMap(tuple((k, v, 1) for k, v in zip(keys, vs)), "dict")), keys)
            rep.obligation(
                f"dict of {n} {b}", go, "dict", mk,
                lambda st: bdd.or_(*[bdd.and_(it.eq(k, name, st), it.truth(v, st)) for k, v in zip(keys, vs)]),
            )

    def refused(kind):
        st = p.fresh()
        ref = it.build(atomic, [name], st)
        it.sink = [[]]
        I = NONE if kind == "None" else Sym("I", bc[kind], True)
        it.call(evaluate, [ref, I], {}, st)
        if st.pc:
            return [Violation(f"refuse/{kind}", f"an interpretation of type {kind} is accepted", None,
                              model_text(bdd, bdd.pick(st.pc)))]

    for kind in ("list", "tuple", "str", "int", "None"):
        rep.obligation(f"refuses {kind}", refused, kind)
    rep.count("interpretation_kinds", 7)
