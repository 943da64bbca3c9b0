"""C03: the simplifications done when a formula is constructed preserve its truth value."""
from ..program import Program, model_text, PL_OPS
from ..report import Violation
from ..vals import *  # noqa
from .common import spec_truth, operands, den_formula, truth_axioms

LEVEL = "other"

CONSTS = ("TrueFormula", "FalseFormula")


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    hc = p.hash_consing()
    it.stub_meta = hc
    rep.rule = (
        "under every condition, the formula returned by op(x1..xk) denotes the truth table of op over the "
        "truth of x1..xk; operands are opaque formulas, boolean constants, or nested connectives"
    )
    rep.explanation = (
        "The metaclass call chain and constructor of every connective are interpreted abstractly with "
        "opaque operands of one logic; equality of operands and of their complements are BDD atoms with "
        "the axioms of equality, so every pattern of duplicates, complements, constants and nested "
        "connectives is covered at once. The results, under their guards, are compared as BDDs with the "
        "truth table. Calls of the caching metaclass are replaced by plain construction (see C10)."
    )
    rep.assumptions = [
        "equal formulas have equal truth values (the equality is checked by C08)",
        "operand lists longer than the bound behave like those up to it (the loops are uniform)",
    ]
    table = {n: p.cls("base", n) for n in PL_OPS + CONSTS}
    cur = {}

    def opaque(name, exclude):
        if cur["narrow"]:  # an opaque atom
            exclude = (p.cls("base", "_BinaryOp"), p.cls("base", "_UnaryOp"), table["TrueFormula"], table["FalseFormula"])
        return Sym(name, p.Formula, False, (("#not", tuple(exclude)), ("logic", cur["logic"])))

    def mk(spec, i, st, cls):
        """An operand by its description; returns (value, [symbols])."""
        tag = f"x{i}"
        if spec == "x":
            # an opaque operand that is not a formula of the same connective
            return opaque(tag, (cls,) if cls is not table["Not"] else (cls,) + (table["TrueFormula"], table["FalseFormula"]))
        if spec in CONSTS:
            return it.build(table[spec], [cur["logic"]], st)
        sub, n = spec
        return it.build(table[sub], [opaque(f"{tag}{chr(97 + j)}", (table[sub],)) for j in range(n)], st)

    def decide(name, specs):
        cur["narrow"] = False
        try:
            return check(name, specs)
        except Undecided:
            cur["narrow"] = True
            rep.count("narrowed_to_atomic_operands")
            return check(name, specs)

    def truth_of(t):
        return bdd.atom(("T", t))

    def check(name, specs):
        st = p.fresh()
        cls = table[name]
        xs = [mk(s, i, st, cls) for i, s in enumerate(specs)]
        if any(x is None for x in xs) or p.raises():
            raise Undecided("operands cannot be built")
        den = lambda v, s: den_formula(p, v, s, truth_of)
        vals = [den(x, st) for x in xs]
        want = spec_truth(bdd, name, vals) if len(vals) > 1 or name == "Not" else vals[0]
        r = it.call(cls, list(xs), {}, st)
        out = []
        label = f"[{cur['logic'].name}] {name}({', '.join(s if isinstance(s, str) else f'{s[0]}/{s[1]}' for s in specs)})"
        ax0 = lambda f: truth_axioms(p, f, st, den)
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, ax0(pc))
            if q:
                out.append(Violation(f"{name}/raises", f"{label} raises {exc!r}", where, model_text(bdd, bdd.pick(q))))
        for g, b in it.alts(r, st.pc):
            got = den(b, st)
            if got is None:
                raise Undecided(f"{label}: result {b!r} is not understood")
            diff = bdd.and_(g, bdd.xor(got, want))
            diff = bdd.and_(diff, ax0(diff))
            if diff:
                m = bdd.pick(diff)
                key = f"{name}/truth"
                if name == "Equivalence":
                    # the recorded finding: duplicates are removed as if <-> were idempotent
                    alt = bdd.and_(g, bdd.xor(got, deduplicated(xs, vals, st)))
                    if not bdd.and_(alt, ax0(bdd.or_(alt, diff))):
                        key = "Equivalence/duplicates"
                out.append(Violation(
                    key, f"{label} is simplified to {show(p, b, st)}, which has a different truth value",
                    it.where, model_text(bdd, m)))
        rep.count("formulas_constructed")
        rep.sample(f"{label}: result has the truth table of {name}")
        return out

    def deduplicated(xs, vals, st):
        out = 1
        for i, (x, v) in enumerate(zip(xs, vals)):
            dup = bdd.or_(*[it.eq(y, x, st) for y in xs[:i]])
            out = bdd.ite(dup, out, bdd.iff(out, v))
        return out

    top = 3 if rep.tier == "quick" else 4

    def sweep(logic, small):
        cur["logic"] = p.logic(logic)
        ob = lambda label, *args: rep.obligation(f"{logic} {label}", decide, *args)
        for name in PL_OPS:
            if name == "Not":
                for s in ["x", *CONSTS] + [(n, 2) for n in PL_OPS if n != "Not"] + [("Not", 1)]:
                    ob(f"Not({s})", name, [s])
                continue
            for k in range(1, top + 1):
                ob(f"{name}/{k}", name, ["x"] * k)
            kinds = [*CONSTS] + [(n, 1 if n == "Not" else m) for n in PL_OPS for m in (2, 3) if n != "Not" or m == 2]
            if small:
                kinds = [s for s in kinds if isinstance(s, str) or s[1] < 3]
            for k in (2,) if small else (2, 3):
                for i in range(k):
                    for s in kinds:
                        specs = ["x"] * k
                        specs[i] = s
                        if k == 3 and isinstance(s, tuple) and s[1] == 3 and rep.tier == "quick":
                            continue
                        ob(f"{name}{specs}", name, specs)
            for a in kinds:
                for b in kinds:
                    if small and isinstance(a, tuple) and isinstance(b, tuple):
                        continue
                    if isinstance(a, tuple) and isinstance(b, tuple) and (a[1] + b[1] > 4) and rep.tier == "quick":
                        continue
                    ob(f"{name}[{a}, {b}]", name, [a, b])
            for a in CONSTS:
                for b in CONSTS:
                    for specs in ([a, b, "x"], [a, "x", b], ["x", a, b]):
                        ob(f"{name}{specs}", name, specs)

    def sweep_all():
        for logic in ("PL", "LTL", "PLTL", "LDL", "FOL"):
            sweep(logic, logic != "PL" and rep.tier == "quick")

    sweep_all()
    big = min(7, p.max_const(f for f in it.calls_seen if f.module.name.endswith("syntax.base")) + 3)
    for k in range(top + 1, big + 1):
        cur["logic"] = p.logic("PL")
        for name in PL_OPS:
            if name != "Not":
                rep.obligation(f"PL {name}/{k}", decide, name, ["x"] * k)
    top = max(top, big)
    rep.counts["largest_arity"] = top


def show(p, b, st):
    return repr(p.it.canon(b, st))
