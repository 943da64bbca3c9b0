"""C15: the proof checker accepts exactly the instances of the propositional rules."""
import itertools

from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .proofs import Proofs

LEVEL = "other"
# kinds of the citations of each rule: f formula, b subproof
RULES = {
    "and_i": "ff", "and_e1": "f", "and_e2": "f", "bot_e": "f", "copy": "f", "dneg_e": "f", "dneg_i": "f",
    "impl_e": "ff", "impl_i": "b", "MT": "ff", "neg_e": "ff", "neg_i": "b", "or_e": "fbb", "or_i1": "f", "or_i2": "f",
}


class Shapes:
    """Shapes of a formula in a slot of a rule, with opaque components."""

    def __init__(self, P):
        self.P = P
        S = P.S
        self.all = {
            "x": lambda n, st: S(n),
            "~x": lambda n, st: P.neg(S(n), st),
            "x & y": lambda n, st: P.raw(P.And, S(n + "1"), S(n + "2"))(st),
            "x | y": lambda n, st: P.raw(P.Or, S(n + "1"), S(n + "2"))(st),
            "x >> y": lambda n, st: P.raw(P.Or, P.neg(S(n + "1"), st), S(n + "2"))(st),
            "Implies(x, y)": lambda n, st: P.raw(P.Implies, S(n + "1"), S(n + "2"))(st),
            "Equivalence(x, y)": lambda n, st: P.raw(P.p.cls("base", "Equivalence"), S(n + "1"), S(n + "2"))(st),
            "false": lambda n, st: P.false(st),
            "true": lambda n, st: it_true(P, st),
        }

    def make(self, kind, name, st):
        return self.all[kind](name, st)


def it_true(P, st):
    return P.it.build(P.True_, [], st)


class Reference:
    """What the rules say, as a condition over the cited lines and the conclusion."""

    def __init__(self, P):
        self.P, self.it, self.bdd = P, P.it, P.it.bdd

    def E(self, a, b, st):
        """a == b, for two formulas built in st."""
        if not st.pc:
            return 0
        return self.bdd.and_(st.pc, self.it.eqv(a, b, st))

    def is_(self, a, cls, st):
        out = 0
        for g, b in self.it.alts(a, st.pc):
            k = self.it.class_of(b, st)
            if k is not None and k.sub(cls):
                out = self.bdd.or_(out, g)
        return out

    def operand(self, a, cls, i, f, st):
        """a is an instance of cls and its operand i (of two; any of more) is f."""
        it, bdd = self.it, self.bdd
        out = 0
        for g, b in it.alts(a, st.pc):
            k = it.class_of(b, st)
            if k is None or not k.sub(cls):
                continue
            s1 = st.fork(g, bdd)
            ops = it.seq_content(it.getattr(b, "operands", s1), s1)
            for h, t in it.alts(ops, s1.pc):
                which = [t.items[i]] if len(t.items) == 2 else t.items
                for o in which:
                    out = bdd.or_(out, bdd.and_(h, self.E(o, f, s1.fork(h, bdd))))
        return out

    def holds(self, rule, cites, f, st):
        """cites: formulas, or (first, last) of subproofs."""
        P, it, bdd = self.P, self.it, self.bdd
        fresh = lambda: st.fork(1, bdd)

        def eq(mk, other):
            """mk(state) == other; false where it cannot be built."""
            s = fresh()
            v = mk(s)
            return self.E(v, other, s) if s.pc else 0

        def imp(x, y, z):
            """z is the implication from x to y."""
            return bdd.or_(eq(lambda s: P.imp(x, y, s), z), eq(lambda s: it.call(P.Implies, [x, y], {}, s), z))

        def either(fn, a, b):
            return bdd.or_(fn(a, b), fn(b, a))

        if rule == "and_i":
            return eq(lambda s: P.conj(cites[0], cites[1], s), f)
        if rule in ("and_e1", "and_e2"):
            return self.operand(cites[0], P.And, int(rule[-1]) - 1, f, fresh())
        if rule in ("or_i1", "or_i2"):
            return self.operand(f, P.Or, int(rule[-1]) - 1, cites[0], fresh())
        if rule == "bot_e":
            return self.is_(cites[0], P.False_, st)
        if rule in ("copy", "dneg_e", "dneg_i"):  # a double negation is the formula itself
            return self.E(cites[0], f, fresh())
        if rule == "impl_e":
            return either(lambda a, b: imp(a, f, b), *cites)
        if rule == "impl_i":
            return imp(cites[0][0], cites[0][1], f)
        if rule == "MT":
            def mt(a, b):
                s = fresh()
                x, y = P.neg(f, s), P.neg(b, s)
                u = s.fork(1, bdd)
                v, w = P.imp(x, y, s), it.call(P.Implies, [x, y], {}, u)
                return bdd.or_(self.E(v, a, s) if s.pc else 0, self.E(w, a, u) if u.pc else 0)
            return either(mt, *cites)
        if rule == "neg_e":
            return bdd.and_(self.is_(f, P.False_, st), either(lambda a, b: eq(lambda s: P.neg(a, s), b), *cites))
        if rule == "neg_i":
            return bdd.and_(self.is_(cites[0][1], P.False_, st), eq(lambda s: P.neg(cites[0][0], s), f))
        if rule == "or_e":
            a, (x, u), (y, v) = cites
            return bdd.and_(eq(lambda s: P.disj(x, y, s), a), self.E(u, f, fresh()), self.E(v, f, fresh()))
        raise KeyError(rule)


def proof(rule, cites, f, middle=()):
    """A proof whose last line applies the rule to premises and subproofs.

    The lines of a subproof after its assumption follow from falsity, in row 0, so that they may be anything.
    middle: what is between the first and the last line of the subproofs, formulas and ("box", formula, formula).
    """
    spec, rows, row = [], [], 1
    for c in cites:
        rows.append(row)
        if isinstance(c, tuple) and c[0] in ("ends with", "starts with"):
            inner = lambda r: (r, [(None, c[1], "assumption", []), (r + 1, c[2], "bot_e", [0])])
            if c[0] == "ends with":
                spec.append((row, [(None, c[1], "assumption", []), inner(row + 1)]))
            else:
                spec.append((row, [(None, [(None, c[1], "assumption", []), (row + 1, c[2], "bot_e", [0])]), (row + 2, c[2], "bot_e", [0])]))
            row += 3
        elif isinstance(c, tuple):
            first = row
            box = [(None, c[0], "assumption", [])]
            row += 1
            for m in middle if c[1] is not None else ():
                if isinstance(m, tuple):
                    box.append((row, [(None, m[1], "assumption", []), (row + 1, m[2], "bot_e", [0])]))
                    row += 2
                else:
                    box.append((row, m, "bot_e", [0]))
                    row += 1
            if c[1] is not None:
                box.append((row, c[1], "bot_e", [0]))
            spec.append((first, box))
            row += 1
        else:
            spec.append((row, c, "premise", []))
            row += 1
    return spec, rows, (row, f, rule, rows)


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    P = Proofs(p)
    R = Reference(P)
    SH = Shapes(P)
    rep.rule = (
        "for the last step of a proof that cites lines of every shape, the condition under which check returns true implies "
        "that the cited lines and the conclusion are an instance of the rule; canonical instances are accepted on every path; "
        "citations of the wrong kind or number are never accepted; a wrong step anywhere in a proof is never accepted"
    )
    rep.explanation = (
        "NaturalDeduction.Proof and check are interpreted abstractly on proofs with concrete rows and opaque contents. The "
        "equalities of the components of the cited lines and of the conclusion are BDD atoms, so the condition of acceptance "
        "is decided for all formulas of a combination of shapes at once; it is compared with the rule stated with the "
        "constructors of the library (C03, C13)."
    )
    rep.assumptions = [
        "equality of formulas is structural, up to the order of commutative operators (C08)",
        "an implication is what >> builds; a checker may accept an Implies too",
        "components that are connectives themselves are opaque beyond the listed shapes",
        "a step that raises an exception is not accepted",
    ]
    where = P.N.qual
    thorough = rep.tier == "thorough"
    few = ["x", "~x", "x & y", "x | y", "x >> y", "false"]
    kinds = list(SH.all) if thorough else [k for k in SH.all if k not in ("Equivalence(x, y)", "true")]

    def decide(rule, cites, f, st, label, key, wrong=False):
        spec, rows, last = proof(rule, cites, f, [P.S("m")])
        spec = [(0, P.false(st), "premise", [])] + spec + [last]
        want = 0 if wrong else R.holds(rule, cites, f, st.fork(1, bdd))
        acc = P.check(spec, st)
        rep.count("proofs")
        q = P.sat(bdd.and_(acc, bdd.not_(want)))
        if q:
            return [Violation(key, f"{label} is accepted but is no instance of {rule}", where, model_text(bdd, bdd.pick(q)))]

    def upper(rule, ks, kf):
        st = p.fresh()
        cites, i = [], 0
        for k in ks:
            if isinstance(k, tuple):
                cites.append(tuple(SH.make(x, f"c{i}{j}", st) for j, x in enumerate(k)))
            else:
                cites.append(SH.make(k, f"c{i}", st))
            i += 1
        f = SH.make(kf, "f", st)
        if p.raises():
            raise Undecided(f"cannot build the formulas: {p.raises()[0][2]!r}")
        text = "; ".join(f"[{k[0]} ... {k[1]}]" if isinstance(k, tuple) else k for k in ks)
        return decide(rule, cites, f, st, f"{rule}: from {text} the conclusion {kf} (independent components)", f"{rule}/accepts")

    jobs = []
    for rule, sig in RULES.items():
        if sig == "f":
            combos = [((a,), f) for a in kinds for f in kinds]
        elif sig == "ff":
            combos = [((a, b), f) for a in kinds for b in kinds for f in kinds]
        elif sig == "b":
            combos = [(((a, b),), f) for a in kinds for b in kinds for f in kinds]
        else:
            small = few if thorough else ["x", "~x", "x | y", "false"]
            combos = [((d, (a, u), (b, v)), f) for d in kinds for a in small for b in small
                      for u, v, f in (("x", "x", "x"), ("false", "x", "x"), ("x & y", "x & y", "x & y"))]
            combos += [((d, ("x", u), ("x", v)), f) for d in ("x | y", "x") for u in few for v in few for f in few]
        for ks, f in combos:
            jobs.append((f"{rule} from {ks} to {f}", upper, rule, ks, f))

    # canonical instances
    def lower(rule, a, b):
        st = p.fresh()
        x, y = SH.make(a, "x", st), SH.make(b, "y", st)
        z = P.S("z")
        n = lambda v: P.neg(v, st)
        conj, disj, imp = (lambda u, v: P.raw(P.And, u, v)(st)), (lambda u, v: P.raw(P.Or, u, v)(st)), (lambda u, v: P.imp(u, v, st))
        false = P.false(st)
        cond = 1
        if rule == "and_i":
            inst = [([x, y], P.conj(x, y, st))]
        elif rule == "and_e1":
            inst = [([conj(x, y)], x)]
        elif rule == "and_e2":
            inst = [([conj(x, y)], y)]
        elif rule == "or_i1":
            inst = [([x], disj(x, y))]
        elif rule == "or_i2":
            inst = [([y], disj(x, y))]
        elif rule == "bot_e":
            inst = [([false], x)]
        elif rule in ("copy", "dneg_e", "dneg_i"):
            inst = [([x], x)]
            if rule == "dneg_e":
                inst.append(([n(n(x))], x))
            if rule == "dneg_i":
                inst.append(([x], n(n(x))))
        elif rule == "impl_e":
            inst = [([x, imp(x, y)], y)]
        elif rule == "impl_i":
            inst = [([(x, y)], imp(x, y)), ([(x, None)], imp(x, x))]
        elif rule == "MT":
            inst = [([imp(x, y), n(y)], n(x))]
        elif rule == "neg_e":
            inst = [([x, n(x)], false)]
        elif rule == "neg_i":
            inst = [([(x, false)], n(x)), ([(false, None)], n(false))]
        elif rule == "or_e":
            inst = [([P.disj(x, y, st), (x, z), (y, z)], z)]
        if p.raises():
            raise Undecided(f"cannot build the formulas: {p.raises()[0][2]!r}")
        out = []
        m = P.S("m")
        mids = [()] if "b" not in RULES[rule] else [(), (m,), (m, ("box", P.S("n"), m), m)]
        for cites, f, mid in [(c, f, mid) for c, f in inst for mid in mids]:
            s = st.fork(1, bdd)
            spec, rows, last = proof(rule, cites, f, mid)
            spec = [(0, false, "premise", [])] + spec
            acc = P.check(spec + [last], s)
            rep.count("proofs")
            q = P.sat(bdd.and_(st.pc, bdd.not_(acc)))
            if q:
                exc = [e for e in p.raises() if P.sat(e[0])]
                how = f"raises {exc[0][2]!r}" if exc else "is rejected"
                out.append(Violation(f"{rule}/rejects", f"{rule}: the instance with {a} for x and {b} for y {how}", exc[0][3] if exc else where,
                                     model_text(bdd, bdd.pick(q))))
        return out

    low = list(SH.all) if thorough else kinds
    for rule in RULES:
        for a in low:
            for b in low:
                if rule in ("and_e1", "and_e2") and a != b and False:
                    continue
                jobs.append((f"instance of {rule} with {a}, {b}", lower, rule, a, b))

    # citations of the wrong kind or number; rules that do not exist
    def wrong_kind(rule, sig, kf):
        st = p.fresh()
        f = SH.make(kf, "f", st)
        x, y = lambda i: P.S(f"c{i}0"), lambda i: P.S(f"c{i}1")
        kind = {"b": lambda i: (x(i), y(i)), "f": lambda i: P.S(f"c{i}"), "e": lambda i: ("ends with", x(i), y(i)),
                "s": lambda i: ("starts with", x(i), y(i))}
        cites = [kind[c](i) for i, c in enumerate(sig)]
        return decide(rule, cites, f, st, f"{rule}: citing {sig or 'nothing'} (f: line, b: subproof, e: subproof that ends with a subproof, s: that starts with one) for {kf}", f"{rule}/citations", wrong=True)

    for rule, sig in RULES.items():
        bad = {sig[:i] + ("f" if c == "b" else "b") + sig[i + 1:] for i, c in enumerate(sig)}
        bad |= {sig[:i] for i in range(len(sig))}
        bad |= {sig[:i] + k + sig[i + 1:] for i, c in enumerate(sig) if c == "b" for k in "es"}
        for b in sorted(bad):
            for kf in kinds:
                jobs.append((f"{rule} citing {b!r} for {kf}", wrong_kind, rule, b, kf))

    def no_rule(what, make):
        st = p.fresh()
        x = P.S("x")
        spec = [(1, x, "premise", []), (2, P.S("y"), make(st), [1])]
        acc = P.check(spec, st)
        rep.count("proofs")
        q = P.sat(acc)
        if q:
            return [Violation("unknown-rule", f"a step justified by {what} is accepted", where, model_text(bdd, bdd.pick(q)))]

    for what, make in (("a string", lambda st: K("no rule")), ("None", lambda st: NONE), ("a logic", lambda st: p.logic("PL")),
                       ("a number", lambda st: K(1))):
        jobs.append((f"justification by {what}", no_rule, what, make))

    # a wrong step anywhere, in any nesting
    def wrong_step(tree, pos):
        st = p.fresh()
        x, y = P.S("x"), P.S("y")
        n = [0]
        row = [1]

        def level(items):
            out = []
            for t in items:
                row[0] += 1
                r = row[0]
                if isinstance(t, tuple):
                    b = [(None, x, "assumption", [])]
                    out.append((r, b))
                    b += level(t)
                else:
                    out.append((r, y if n[0] == pos else x, "copy", [1]))
                    n[0] += 1
            return out

        spec = [(1, x, "premise", [])] + level(tree)
        acc = P.check(spec, st)
        rep.count("proofs")
        differ = bdd.not_(it.eq(x, y, st)) if st.pc else 1
        q = P.sat(bdd.and_(acc, differ))
        if q:
            return [Violation("wrong-step", f"a wrong step {pos + 1} of {show(tree)} does not make the proof fail", where, model_text(bdd, bdd.pick(q)))]

    for size in range(1, 6 if thorough else 5):
        for tree in forests(size):
            for pos in range(leaves(tree)):
                jobs.append((f"wrong step {pos} of {show(tree)}", wrong_step, tree, pos))
    rep.sample(f"rules: {', '.join(RULES)}; shapes of each slot: {', '.join(kinds)}")
    rep.parallel(jobs)


def forests(n):
    """Nestings of n lines and subproofs: a line is 0, a subproof a tuple (its assumption is implicit)."""
    if n == 0:
        return [()]
    out = []
    for rest in forests(n - 1):
        out.append((0,) + rest)
    for k in range(0, n):
        for inner in forests(k):
            for rest in forests(n - 1 - k):
                out.append((inner,) + rest)
    return out


def leaves(t):
    return sum(leaves(x) if isinstance(x, tuple) else 1 for x in t)


def show(t):
    return "[" + " ".join(show(x) if isinstance(x, tuple) else "line" for x in t) + "]"
