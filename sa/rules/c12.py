"""C12: formulas are immutable values."""
from ..interp import St
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .ops import Ops, RULES

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    O = Ops(p)
    P = O.P
    rep.rule = (
        "for every kind of formula x and every operation that takes x: on every path, returning or raising, what the accessors, the "
        "logic, the text and the hash of x (and of its compound components) show is the same before and after; containers passed by "
        "the caller have the same content after; and writing to what an accessor returns, or to a container the formula was built "
        "from, does not change what x shows"
    )
    rep.explanation = (
        "Each operation is interpreted abstractly on an instance built from opaque components; the heap is observed through the "
        "public accessors before and after, in the final state and in the states of the exceptions. The condition under which two "
        "observations differ is a BDD over the equalities and classes of the opaque parts and must be unsatisfiable."
    )
    rep.assumptions = [
        "components that are opaque are unchanged (induction on the depth; compound components are checked to one level)",
        "the caller does not assign attributes or use names with a leading underscore",
    ]
    for s in O.unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")

    def unsat(q):
        return bdd.and_(q, E.axioms(q)) if q else 0

    def protect(v, st, seen):
        """Label the records reachable from v, for the report."""
        if isinstance(v, Alt):
            for _, b in v.alts:
                protect(b, st, seen)
        elif isinstance(v, Tup):
            for b in v.items:
                protect(b, st, seen)
        elif isinstance(v, Ref) and v.id not in seen:
            seen[v.id] = "x"
            r = it.rec(st, v.id)
            for b in [*r.attrs.values(), r.content] if isinstance(r, HInst) else [r.content] if isinstance(r, HList) else [b for k, w, _ in r.entries for b in (k, w)] if isinstance(r, HMap) else []:
                if b is not None:
                    protect(b, st, seen)

    def site():
        for e in it.effects:
            if e[1] == "param" and "hash" not in str(e[3]):
                return e[4]
        return it.effects[0][4] if it.effects else None

    def hash_of(x, st):
        s1 = st.fork(1, bdd)
        n = len(it.sink[-1])
        h = it.call(Ext("builtins.hash"), [x], {}, s1)
        del it.sink[-1][n:]
        return h

    def compare(key, label, before, h0, x, start):
        """Violations if x differs from the observation now or where an exception was raised."""
        out = []
        for pc, heap, where in [(start.pc, start.heap, site())] + [(e[0], e[1], e[3]) for e in p.raises()]:
            if not unsat(pc):
                continue
            st = St(pc, heap)
            after = O.observe(x, st)
            q = unsat(O.differ(before, after, st))
            if q:
                out.append(Violation(key, f"{label} changes x: it shows {after!r} instead of {before!r}", site() or where, model_text(bdd, bdd.pick(q))))
                break
            h1 = hash_of(x, st)
            q = unsat(bdd.and_(st.pc, bdd.not_(E.same_hash(h0, h1, st))))
            if q:
                out.append(Violation(key + "/hash", f"{label} changes the hash of x to {h1!r} from {h0!r}", site() or where, model_text(bdd, bdd.pick(q))))
                break
        return out

    def begin(make):
        st = p.fresh()
        x = make(st)
        if x is None or p.raises():
            raise Undecided(f"cannot build the formula: {p.raises()[:1]}")
        it.protected = dict(base_protected)
        protect(x, st, it.protected)
        return st, x

    base_protected = dict(it.protected)

    def operation(label, s, make, name, fn, memo):
        st, x = begin(make)
        if memo:  # values the formula remembers are not lost or changed either
            it.call(Ext("builtins.hash"), [x], {}, st)
            it.call(it.builtin_cls["str"], [x], {}, st)
            del it.sink[-1][:]
        before, h0 = O.observe(x, st), hash_of(x, st)
        it.effects = []
        fn(x, st)
        rep.count("operations")
        return compare(f"{s.name}/{name.split('(')[0].split(' ')[0]}", f"{name} on {label}", before, h0, x, st)

    WRITES = {
        HList: [("append", [Sym("w")]), ("clear", []), ("pop", []), ("reverse", []), ("insert", [K(0), Sym("w")])],
        HMap: [("clear", []), ("add", [Sym("w")]), ("update", [])],
    }

    def containers(v, st):
        for g, b in it.alts(v, st.pc):
            if isinstance(b, Ref):
                r = it.rec(st, b.id)
                if isinstance(r, HList) and r.kind != "iter":
                    yield g, b, [w for w in WRITES[HList]]
                elif isinstance(r, HMap):
                    yield g, b, [w for w in WRITES[HMap] if (w[0] == "add") <= (r.kind == "set")]
            elif isinstance(b, Sym) and b.name.startswith("("):
                raise Undecided(f"accessor gives {b!r}")

    def exposed(label, s, make, names):
        """Writing to what the accessors return."""
        out = []
        for acc in names:
            st0, x = begin(make)
            it.call(it.getattr(x, "__hash__", st0), [], {}, st0)
            n = len(p.raises())
            v = it.getattr(x, acc, st0)
            if not st0.pc or len(p.raises()) > n:
                continue
            if isinstance(v, (Bound, BMeth, Fn)):
                continue
            for g, ref, writes in containers(v, st0):
                for m, args in writes:
                    st = st0.fork(g, bdd)
                    del it.sink[-1][:]
                    before, h0 = O.observe(x, st), hash_of(x, st)
                    it.effects = []
                    it.call(it.getattr(ref, m, st), list(args), {}, st)
                    rep.count("writes_to_results")
                    out += compare(f"{s.name}/{acc}/exposed", f"{label}: x.{acc}.{m}(...)", before, h0, x, st)
                    if out:
                        return out
        return out

    def public(s):
        """Attributes of the class that can be read without a leading underscore."""
        names = []
        for c in s.cls.mro:
            if getattr(c, "builtin", False):
                continue
            for k in c.attrs:
                if not k.startswith("_") and k not in names:
                    names.append(k)
        return names + [a for _, a in s.parts if a not in names]

    def given(label, s, make_comps):
        """Containers passed to the constructor."""
        out = []
        st = p.fresh()
        args, refs = [], []
        for c in make_comps(st):
            if isinstance(c, Tup):
                c = it.alloc(st, HList(c))
                refs.append(c)
            args.append(c)
        it.protected = {**base_protected, **{r.id: "an argument" for r in refs}}
        before = [O.freeze(r, st) for r in refs]
        x = it.call(s.cls, args, {}, st)
        if not st.pc:
            raise Undecided("not constructed")
        for st1 in [st] + [St(e[0], e[1]) for e in p.raises() if unsat(e[0])]:
            for r, b in zip(refs, before):
                q = unsat(O.differ(b, O.freeze(r, st1), st1))
                if q:
                    out.append(Violation(f"{s.name}/argument", f"{label}: the constructor changes a list it is given to {O.freeze(r, st1)!r}", site(), model_text(bdd, bdd.pick(q))))
        del it.sink[-1][:]
        for r in refs:
            for m, a in WRITES[HList]:
                s1 = st.fork(1, bdd)
                seen, h0 = O.observe(x, s1), hash_of(x, s1)
                it.call(it.getattr(r, m, s1), list(a), {}, s1)
                out += compare(f"{s.name}/aliased", f"{label}: {m}() on the list given to the constructor", seen, h0, x, s1)
                del it.sink[-1][:]
                if out:
                    return out
        return out

    def two(label, s, first, second):
        """Instances do not share what the constructor made (default arguments)."""
        st = p.fresh()
        a = it.call(s.cls, first, {}, st)
        before, h0 = O.observe(a, st), hash_of(a, st)
        b = it.call(s.cls, second, {}, st)
        del it.sink[-1][:]
        out = compare(f"{s.name}/shared", f"{label}: building another", before, h0, a, st)
        for acc in public(s):
            s1 = st.fork(1, bdd)
            v = it.getattr(b, acc, s1)
            del it.sink[-1][:]
            if not s1.pc:
                continue
            for g, ref, writes in containers(v, s1):
                for m, args in writes:
                    s2 = s1.fork(g, bdd)
                    it.call(it.getattr(ref, m, s2), list(args), {}, s2)
                    out += compare(f"{s.name}/shared", f"{label}: {acc}.{m}() of another instance", before, h0, a, s2)
        c = it.call(s.cls, first, {}, st)
        q = unsat(O.differ(before, O.observe(c, st), st)) if st.pc else 0
        if q:
            out.append(Violation(f"{s.name}/shared", f"{label}: a later instance shows {O.observe(c, st)!r}", None, model_text(bdd, bdd.pick(q))))
        return out

    # interpretations
    def interpretation(label, make, kind, n):
        st, x = begin(make)
        names = [K("a"), K("b"), Sym("k", it.builtin_cls["str"], True)][:n]
        vals = [Sym(f"v{i}", it.builtin_cls["bool"], True) for i in range(n)]
        I = it.alloc(st, HMap(tuple((k, None if kind == "set" else v, 1) for k, v in zip(names, vals)), kind))
        it.protected[I.id] = "the interpretation"
        before = O.freeze(I, st)
        it.effects = []
        it.call(O.evaluate, [x, I], {}, st)
        for st1 in [st] + [St(e[0], e[1]) for e in p.raises()]:
            if not unsat(st1.pc):
                continue
            q = unsat(O.differ(before, O.freeze(I, st1), st1))
            if q:
                return [Violation("interpretation", f"evaluating {label} changes the interpretation to {O.freeze(I, st1)!r}", site(), model_text(bdd, bdd.pick(q)))]
        for e in it.effects:
            if e[1] == "opaque" and unsat(e[0]) and "I" in str(e[2]):
                return [Violation("interpretation", f"evaluating {label} writes to the interpretation: {e[3]}", e[4])]

    def opaque_interpretation(label, make, kind):
        st, x = begin(make)
        it.effects = []
        it.call(O.evaluate, [x, Sym("I", it.builtin_cls[kind], True)], {}, st)
        for e in it.effects:
            if e[1] == "opaque" and unsat(e[0]):
                return [Violation("interpretation", f"evaluating {label} writes to {e[2]}: {e[3]}", e[4])]

    # proofs
    def proof(label, spec, sound=None):
        st = p.fresh()
        lines = P.lines(spec(st), st)
        raw = it.alloc(st, HList(Tup(lines)))
        if p.raises():
            raise Undecided("cannot build the proof")
        it.protected = dict(base_protected)
        protect(raw, st, it.protected)
        out = []

        def unchanged(v, before, what, key):
            for st1 in [st] + [St(e[0], e[1]) for e in p.raises()]:
                if st1.pc and unsat(st1.pc):
                    q = unsat(O.differ(before, O.observe(v, st1, False), st1))
                    if q:
                        out.append(Violation(key, f"{what} of {label} changes it to {O.observe(v, st1, False)!r}", site(), model_text(bdd, bdd.pick(q))))

        before = O.observe(raw, st, False)
        it.effects = []
        pf = it.call(it.getattr(P.N, "Proof", st), [raw], {}, st)
        unchanged(raw, before, "building the proof from the list", "proof/list")
        if not st.pc:
            return out
        del it.sink[-1][:]
        protect(pf, st, it.protected)
        seen = O.observe(pf, st, False)
        nd = it.call(P.N, [], {}, st)
        args = [pf]
        if sound is not None:
            d = it.alloc(st, HMap(tuple((K(k), v, 1) for k, v in sound(st)), "dict"))
            it.protected[d.id] = "the sound lines"
            args.append(d)
            lines_before = O.observe(d, st, False)
        it.effects = []
        it.call(it.getattr(nd, "check_proof", st), args, {}, st)
        unchanged(pf, seen, "checking the proof", "proof/check")
        unchanged(raw, before, "checking the proof", "proof/list")
        if sound is not None:
            unchanged(d, lines_before, "checking the sound lines", "proof/sound")
        rep.count("proofs")
        return out

    jobs = []
    subjects = O.subjects((2, 3) if rep.tier == "quick" else (2, 3, 4), "some" if rep.tier == "quick" else True)
    for label, s, logic, own, make in subjects:
        for name, fn in O.ops(s, own, " with " not in label):
            jobs.append((f"{name} on {label}", operation, label, s, make, name, fn, False))
            if " with " not in label and "check" not in name:
                jobs.append((f"{name} on {label}, memoised", operation, label, s, make, name, fn, True))
        jobs.append((f"results of the accessors of {label}", exposed, label, s, make, public(s)))
        if any(k == "terms" for k, _ in s.parts):
            for n in (0, 1, 3):
                jobs.append((f"list of {n} terms given to {label}", given, f"{label} of {n} terms", s, lambda st, s=s, n=n: s.components("x", "FOL", terms=n)))
        if own == "PL" and s.cls.sub(p.Formula):
            for kind in ("set", "dict"):
                jobs.append((f"{kind} interpretation of {label}", opaque_interpretation, label, make, kind))
                for n in (0, 2, 3):
                    jobs.append((f"{kind} of {n} interpretation of {label}", interpretation, label, make, kind, n))
    for s in O.known:
        if s.cls.name == "Predicate":
            jobs.append(("instances of Predicate are separate", two, "Predicate", s, [K("P")], [K("Q")]))
    x, y, z = P.S("x"), P.S("y"), P.S("z")
    v = Sym("v", p.cls("fol", "Variable"), True)
    for r in RULES:
        for cites in ([], [1], [1, 2], [3], [2, 3], [1, 3, 3]):
            def spec(st, r=r, cites=cites):
                return [(1, x, "premise", []), (2, y, "premise", []), (3, [(None, x, "assumption", []), (4, y, "copy", [2])]), (5, z, r, cites)]

            def spec2(st, r=r, cites=cites):
                return [(1, x, "premise", []), (2, y, "premise", []), (3, [("term", v), (None, x, "assumption", []), (4, [(None, z, r, cites)])]), (5, x, "copy", [1])]

            def inner(st, r=r, cites=cites):
                return [(6, z, "assumption", []), (7, z, r, cites)]

            jobs.append((f"proof with {r} {cites}", proof, f"a step by {r}", spec))
            jobs.append((f"nested proof with {r} {cites}", proof, f"a nested step by {r}", spec2))
            for k in (0, 1, 2):
                jobs.append((f"{k} sound lines with {r} {cites}", proof, f"a step by {r} from {k} lines", inner,
                             lambda st, k=k: [(1, x), (2, y)][:k]))
    rep.counts["subjects"] = len(subjects)
    rep.parallel(jobs)
