"""C10: construction never hands out a different formula."""
from ..interp import St
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .shapes import shapes, LOGICS

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    hc = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "after any modelled history of constructions (also failed ones) and cache resets, a call of a class returns a "
        "formula equal to the one built from its arguments without the cache, and the formulas built earlier are unchanged"
    )
    rep.explanation = (
        "The caching metaclass is interpreted abstractly together with the constructors: first a history of other "
        "constructions whose components are opaque (equal to the ones of the last construction or not, as BDD atoms), with or "
        "without a reset in between, then the construction under test. Its result is compared, for all valuations of the "
        "equalities, with the result of the same call with the cache bypassed."
    )
    rep.assumptions = [
        "histories longer than the bound behave like the ones up to it (the cache has no capacity; integer constants extend the bound)",
        "equality of formulas is structural (checked by C08)",
    ]
    reset = p.name("syntax.base", "reset_cache")
    context = p.name("syntax.base", "get_cache_context")
    known, unknown = shapes(p, terms=False)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    by_name = {s.name: s for s in known}
    simple = ("And", "Or", "Not", "Implies", "Equivalence")

    def narrow(s, comps):
        """Operands of simplifying classes: opaque formulas that are not simplified away."""
        if s.cls.name in simple and s.home == "base":
            no = tuple(p.cls("base", k) for k in ("Not", "TrueFormula", "FalseFormula", "_BinaryOp"))
            return [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", no),)) for x in comps]
        return comps

    def step(st, action):
        """Run one step of a history; returns its value."""
        if action == "reset":
            it.call(reset, [], {}, st)
            v = it.call(context, [], {}, st)
            t = it.truth(v, st)
            if st.pc and bdd.and_(st.pc, t):
                raise Violation("reset", "the cache is not empty after reset_cache()", getattr(reset, "where", None))
            return None
        s, comps = action
        if comps == "bad":
            n = len(it.sink[-1])
            s.construct([NONE] * max(len(s.parts), 1), st)
            failed = it.sink[-1][n:]
            del it.sink[-1][n:]
            if st.pc or not failed:
                return None
            st.pc, st.heap = bdd.or_(*[f[0] for f in failed]), dict(failed[0][1])
            return None
        return s.construct(comps, st)

    def describe(history):
        return "; ".join(h if h == "reset" else f"{h[0].name}({h[1] if h[1] == 'bad' else ', '.join(map(repr, h[1]))})" for h in history)

    def check(label, history, s, comps):
        st = p.fresh()
        earlier = []
        for h in history:
            v = step(st, h)
            if v is not None:
                earlier.append((h, v))
        if p.raises():
            bad = [e for e in p.raises() if bdd.and_(e[0], E.axioms(e[0]))]
            if bad:
                raise Undecided(f"the history raises {bad[0][2]!r}")
        n = len(p.raises())
        got = s.construct(comps, st)
        out = []
        for pc, _, exc, where in p.raises()[n:]:
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                out.append(Violation(f"{s.name}/raises", f"after {label}: {s.name}(...) raises {exc!r}", where, model_text(bdd, bdd.pick(q))))
        if out or not st.pc:
            return out
        del it.sink[-1][:]

        def direct(s, comps):
            it.stub_meta = hc
            try:
                return s.construct(comps, st)
            finally:
                it.stub_meta = None

        for what, (sh, cs), v in [("the result", (s, comps), got)] + [("an earlier formula", h, v) for h, v in earlier]:
            want = direct(sh, cs)
            if want is BOT or not st.pc:
                raise Undecided("the constructor without the cache fails")
            eq = it.eqv(v, want, st)
            d = bdd.and_(st.pc, bdd.not_(eq))
            d = bdd.and_(d, E.axioms(d))
            if d:
                out.append(Violation(
                    f"{sh.name}/different", f"after {label}, {s.name}({', '.join(map(repr, comps))}): {what} is {it.canon_v(v, st)!r}, "
                    f"not equal to {it.canon_v(want, st)!r}", getattr(hc.attrs.get('__call__'), 'where', None), model_text(bdd, bdd.pick(d))))
        rep.count("histories")
        return out

    def identity(label, s, comps):
        """Two constructions from the same arguments give one object."""
        st = p.fresh()
        a = s.construct(comps, st)
        b = s.construct(comps, st)
        if p.raises() or not st.pc:
            raise Undecided("construction raises")
        d = bdd.and_(st.pc, bdd.not_(it.compare("Is", a, b, st).bdd))
        d = bdd.and_(d, E.axioms(d))
        if d:
            return [Violation("identity", f"{label}: two constructions from the same arguments give different objects", getattr(hc.attrs.get("__call__"), "where", None))]

    for s in known:
        for logic in s.operand_logics():
            x = narrow(s, s.components("x", logic))
            y = narrow(s, s.components("y", logic))
            z = narrow(s, s.components("z", logic))
            lab = f"{s.name} over {logic}"
            rep.obligation(f"identity of {lab}", identity, lab, s, x)
            hist = {"same class": [(s, y)], "same class, reset": [(s, y), "reset"], "two of the class": [(s, y), (s, z)],
                    "equal arguments": [(s, x)], "equal arguments, reset": [(s, x), "reset"], "reset": ["reset"],
                    "a failed construction": [(s, "bad")],
                    "equal arguments, reset, others": [(s, x), "reset", (s, y)]}
            if s.boolean and logic != "PL":
                hist = {k: v for k, v in hist.items() if k in ("same class", "equal arguments, reset, others")}
            for k, h in hist.items():
                rep.obligation(f"{lab} after {k}", check, describe(h), h, s, x)
            rep.sample(f"{lab}: {len(hist)} kinds of histories")
            for other in LOGICS if s.boolean else ():
                if other != logic:
                    w = narrow(s, s.components("y", other))
                    rep.obligation(f"{lab} after one over {other}", check, describe([(s, w)]), [(s, w)], s, x)
            if s.variadic and (not s.boolean or logic == "PL"):
                for n in (2, 3):
                    for m in (2, 3):
                        if (n, m) == (2, 2) or s.set and n + m > 5 and rep.tier == "quick":
                            continue
                        a, b = narrow(s, s.components("x", logic, n)), narrow(s, s.components("y", logic, m))
                        rep.obligation(f"{lab}: {n} after {m} operands", check, describe([(s, b)]), [(s, b)], s, a)
        if "name" in [k for k, _ in s.parts]:
            base = s.operand_logics()[0]
            for a, b in (("a", "b"), ("a", "a"), ("aB", "ab"), ("a1", "a")):
                u, v = s.components("x", base, name=a), s.components("y", base, name=b)
                rep.obligation(f"{s.name}({a}) after ({b})", check, describe([(s, v)]), [(s, v)], s, u)
        if s.const and s.parts:
            for l1 in LOGICS + ("RE",):
                for l2 in LOGICS + ("RE",):
                    h = [(s, [p.logic(l2)])]
                    rep.obligation(f"{s.name}({l1}) after ({l2})", check, describe(h), h, s, [p.logic(l1)])
    # other classes with the same components
    for s in known:
        for t in known:
            if s is t:
                continue
            shared = [l for l in s.operand_logics() if l in t.operand_logics()]
            for logic in shared[:1] if rep.tier == "quick" else shared:
                a, b = narrow(s, s.components("x", logic)), narrow(t, t.components("x", logic))
                h = [(t, b)]
                rep.obligation(f"{s.name} after {t.name} over {logic}", check, describe(h), h, s, a)
    k = min(p.max_const(f for f in it.calls_seen if f.module.name.endswith(("syntax.base", "cache_hash"))), 12)
    s = by_name.get("ltl.Next")
    if s is not None:
        comps = lambda i: s.components(f"h{i}_", "LTL")
        h = [(s, comps(i)) for i in range(k + 2)]
        for j in (0, k // 2, k + 1):
            rep.obligation(f"{s.name} after {k + 2} others, equal to number {j}", check, describe(h), h, s, comps(j))
    rep.counts["longest_history"] = k + 2
