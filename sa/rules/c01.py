"""C01: evaluation follows the truth tables, for every formula and interpretation."""
from ..program import Program, model_text, PL_OPS
from ..report import Violation
from ..vals import *  # noqa
from .common import spec_truth, operands, instance, eq_axioms

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    rep.rule = (
        "truth of evaluate(op(x1..xk), I), abstractly interpreted with opaque subformulas, equals the "
        "truth table of op over the truth of evaluate(xi, I) as a BDD, and no condition raises"
    )
    rep.explanation = (
        "For every propositional connective and every number of operands up to a bound above all integer "
        "constants of the code, the constructor and the evaluator are interpreted abstractly on opaque "
        "subformulas; the result is a BDD over the truth of the recursive calls, compared with the truth "
        "table. Structural induction extends the result to formulas of any depth."
    )
    rep.assumptions = [
        "operand lists longer than the bound behave like those up to it (the loops are uniform)",
        "Python semantics as modelled by the abstract interpreter",
    ]
    evaluate = p.name("semantics.pl", "evaluate_pl")
    I = Sym("I")
    table = {n: p.cls("base", n) for n in ("And", "Or", "Not", "Implies", "Equivalence", "TrueFormula", "FalseFormula")}
    atomic = p.cls("pl", "Atomic")
    base_top = 4 if rep.tier == "quick" else 7
    top = base_top
    work, seen = [(evaluate, (I,))], set()
    info = {}

    def evaluator(base):
        """(function, rest) of an opaque recursive call on one subformula."""
        if isinstance(base, App) and base.op == "call" and len(base.args) >= 2 and isinstance(base.args[1], Tup):
            args = base.args[1].items
            for i, a in enumerate(args):
                if isinstance(a, Sym) and a.name.startswith("x"):
                    rest = tuple(args[:i]) + tuple(args[i + 1:]) + tuple(base.args[2:])
                    return a, (base.args[0], i, rest)
        return None

    mode = {"bool": True}

    def hook(f, args, kwargs, st):
        # induction hypothesis: the recursive call returns the truth value of the subformula
        if isinstance(f, Fn) and f not in it.stack:
            return None
        e = evaluator(App("call", f, Tup(args), *[Tup((K(n), v)) for n, v in sorted(kwargs.items())]))
        if e is None:
            return None
        info.setdefault(e[1], None)
        return B(it.atom("val", e[0].name))

    def check(name, k, ev, nested=None):
        """nested: (position, connective, arity) of one operand that is not opaque."""
        fn, pos, rest = ev
        st = p.fresh()
        xs = operands(p, k)
        cls = table[name]
        args = list(xs if k else [])
        vals = [it.atom("val", x.name) for x in xs]
        if nested:
            i, sub_name, n = nested
            ys = operands(p, n, prefix="xy")
            args[i] = it.build(table[sub_name], list(ys), st)
            vals[i] = spec_truth(it.bdd, sub_name, [it.atom("val", y.name) for y in ys])
        ref = it.build(cls, list(args), st)
        if ref is None or p.raises():
            return [Violation(f"{name}/construct", f"{name} with {k} operands cannot be built", p.raises()[0][3])]
        call_args = list(rest[:pos]) + [ref] + list(rest[pos:])
        it.fn_hook = hook if mode["bool"] else None
        try:
            r = it.call(fn, call_args, {}, st)
        finally:
            it.fn_hook = None
        if mode["bool"] and any(not isinstance(b, B) for _, b in it.alts(r, st.pc)):
            mode["nonbool"] = f"{name}/{k}"
        bad = []
        for pc, _, exc, where in p.raises():
            bad.append(Violation(
                f"{name}/raises", f"evaluation of {name} with {k} operands raises {exc!r}", where,
                model_text(it.bdd, it.bdd.pick(pc))))
        if bad:
            return bad
        t = it.truth(r, st)

        def sub(atom):
            if atom[0] in ("truth", "eqtrue", "eqfalse"):
                e = evaluator(atom[1])
                if e is not None:
                    info.setdefault(e[1], None)
                    b = it.atom("val", e[0].name)
                    return it.bdd.not_(b) if atom[0] == "eqfalse" else b
            if atom[0] == "eq":
                es = [evaluator(x) for x in atom[1:]]
                if all(es):
                    for e in es:
                        info.setdefault(e[1], None)
                    return it.bdd.iff(*[it.atom("val", e[0].name) for e in es])
            return None

        got = it.bdd.restrict(t, sub)
        other = [a for a in it.bdd.support(got) if a[0] != "val"]
        want = spec_truth(it.bdd, name, vals)
        known = {it.canon(a, st): v for a, v in zip(args, vals)}
        den = lambda x: known.get(x, it.atom("val", x.name) if isinstance(x, Sym) else None)
        diff = it.bdd.xor(got, want)
        diff = it.bdd.and_(st.pc, diff, eq_axioms(it, diff, den))
        rep.count("truth_tables")
        if diff:
            m = it.bdd.pick(diff)
            return [Violation(
                f"{name}/table",
                f"evaluation of {name} with {k} operands gives {not bool(it.bdd.restrict(want, lambda a: int(m.get(a, False))))} "
                f"where the truth table says otherwise", getattr(fn, "where", None) or repr(fn),
                model_text(it.bdd, m))]
        rep.sample(f"{name}/{k}: BDD of evaluation == truth table over {k} opaque subformulas")
        return []

    shapes = [
        (name, k, (i, sub, n))
        for name in PL_OPS
        for k in ([1] if name == "Not" else [2, 3])
        for i in range(k)
        for sub in table
        for n in ([0] if sub.endswith("Formula") else [1] if sub == "Not" else [2, 3])
    ]

    def sweep():
        todo = [(evaluate, 0, (I,))]
        done = set()
        while todo:
            ev = todo.pop()
            if ev in done:
                continue
            done.add(ev)
            if len(done) > 6:
                rep.undecide("evaluators", "the recursion does not close over finitely many evaluators")
                break
            tag = "" if ev[0] is evaluate and ev[2] == (I,) else f" via {ev[0]!r}{ev[2]!r}"
            for name in table:
                ks = [0] if name.endswith("Formula") else [1] if name == "Not" else range(2, top + 1)
                for k in ks:
                    rep.obligation(f"{name}/{k}{tag}", check, name, k, ev)
            for name, k, nested in shapes:
                rep.obligation(f"{name}/{k}{nested}{tag}", check, name, k, ev, nested)
            todo += [e for e in info if e not in done]
            if tag:
                rep.obligation(f"Atomic{tag}", atom_agrees, p, atomic, evaluate, I, ev)
        rep.counts["evaluators"] = len(done)

    sweep()
    top = min(9, max(base_top, p.max_const(it.calls_seen) + 3))
    if top > base_top:
        rep.held, rep.violations, rep.undecided = [], [], []
        info.clear()
        sweep()
    rep.counts["largest_arity"] = top
    if mode.get("nonbool"):
        # results that are not booleans: do not assume that the recursive calls return booleans
        rep.held, rep.violations, rep.undecided = [], [], []
        mode["bool"] = False
        info.clear()
        sweep()

    def refuses(c):
        st = p.fresh()
        s = instance(p, c, st)
        r = it.call(evaluate, [s, I], {}, st)
        if st.pc:
            return [Violation(f"refuse/{c.qual}", f"evaluate_pl accepts a {c.qual} formula and returns {r!r}", None)]
        return []

    own = [table[n] for n in table] + [atomic]
    for c in p.concrete():
        if any(c.sub(o) for o in own):
            continue
        rep.count("refused_classes")
        rep.obligation(f"refuses {c.qual}", refuses, c)


def atom_agrees(p, atomic, evaluate, I, ev):
    it = p.it
    fn, pos, rest = ev
    st = p.fresh()
    ref = it.build(atomic, [Sym("a", it.builtin_cls["str"], True)], st)
    pc0 = st.pc
    a = it.truth(it.call(evaluate, [ref, I], {}, st), st)
    st.pc = it.bdd.and_(st.pc, pc0)
    b = it.truth(it.call(fn, list(rest[:pos]) + [ref] + list(rest[pos:]), {}, st), st)
    if it.bdd.and_(st.pc, it.bdd.xor(a, b)):
        return [Violation(f"Atomic/{fn!r}", f"the recursion through {fn!r} changes the value of atoms", getattr(fn, "where", None))]
