"""C18: the proof checker enforces the quantifier rules."""
import itertools

from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .proofs import Proofs

LEVEL = "other"

# formulas with slots for terms; (binder name, body) for quantifiers
P_ = lambda s: ("P", "P", [s])
Q_ = lambda s: ("P", "Q", [s])
R_ = lambda s, t: ("P", "R", [s, t])
f_ = lambda s: ("fn", "f", [s])
TEMPLATES = {
    "P(s)": P_("s"),
    "R(s, t)": R_("s", "t"),
    "P(f(s))": P_(f_("s")),
    "R(f(s), t)": R_(f_("s"), "t"),
    "P(f(f(s)))": P_(f_(f_("s"))),
    "P(g(s, t))": P_(("fn", "g", ["s", "t"])),
    "~P(s)": ("not", P_("s")),
    "P(s) & Q(t)": ("and", P_("s"), Q_("t")),
    "P(s) | Q(t)": ("or", P_("s"), Q_("t")),
    "P(s) >> Q(t)": ("imp", P_("s"), Q_("t")),
    "Implies(P(s), Q(t))": ("Implies", P_("s"), Q_("t")),
    "Equivalence(P(s), Q(t))": ("Equivalence", P_("s"), Q_("t")),
    "forall w P(s)": ("all", "w", P_("s")),
    "exists w P(s)": ("ex", "w", P_("s")),
    "forall w R(s, t)": ("all", "w", R_("s", "t")),
    "exists w R(s, t)": ("ex", "w", R_("s", "t")),
    "~forall w P(s)": ("not", ("all", "w", P_("s"))),
    "forall w (P(s) & Q(t))": ("all", "w", ("and", P_("s"), Q_("t"))),
    "P(s) & forall w Q(t)": ("and", P_("s"), ("all", "w", Q_("t"))),
    "exists w P(s) | Q(t)": ("or", ("ex", "w", P_("s")), Q_("t")),
    "forall w exists u R(s, t)": ("all", "w", ("ex", "u", R_("s", "t"))),
    "true": ("true",),
}
DEEP = {
    "~~(P(s) & ~Q(t))": ("not", ("and", P_("s"), ("not", Q_("t")))),
    "(P(s) & Q(t)) | R(s, t)": ("or", ("and", P_("s"), Q_("t")), R_("s", "t")),
    "Implies(forall w P(s), exists u Q(t))": ("Implies", ("all", "w", P_("s")), ("ex", "u", Q_("t"))),
    "Equivalence(~P(s), forall w Q(t))": ("Equivalence", ("not", P_("s")), ("all", "w", Q_("t"))),
    "forall w (P(s) >> exists u Q(t))": ("all", "w", ("imp", P_("s"), ("ex", "u", Q_("t")))),
    "P(s) | P(t)": ("or", P_("s"), P_("t")),
}


def slots(t):
    """Names of the term slots and of the binders of a template, in order."""
    out, binders = [], []

    def term(x):
        if isinstance(x, str):
            if x not in out:
                out.append(x)
        else:
            for y in x[2]:
                term(y)

    def go(x):
        if x[0] == "P":
            for y in x[2]:
                term(y)
        elif x[0] in ("all", "ex"):
            if x[1] not in binders:
                binders.append(x[1])
            go(x[2])
        else:
            for y in x[1:]:
                go(y)

    go(t)
    return out, binders


class Terms:
    """Terms and formulas with opaque names."""

    def __init__(self, P):
        self.P, self.p, self.it, self.bdd = P, P.p, P.it, P.it.bdd
        f = lambda n: self.p.cls("fol", n)
        self.Variable, self.Constant, self.Function, self.Predicate, self.ForAll, self.Exists = map(
            f, ("Variable", "Constant", "Function", "Predicate", "ForAll", "Exists"))
        self.str_ = self.it.builtin_cls["str"]

    def name(self, n):
        return Sym("name_" + n, self.str_, True)

    def term(self, kind, n, st):
        """("V", value), ("C", value) or ("fn", name, args): a template term with its leaf values."""
        it = self.it
        if kind == "V":
            return ("leaf", it.build(self.Variable, [self.name(n)], st))
        if kind == "C":
            return ("leaf", it.build(self.Constant, [self.name(n)], st))
        return ("fn", "f", [self.term(kind[1:], n, st)])

    def fill(self, t, env):
        """Template with the slots replaced by the terms of env (binders: leaves)."""
        if t[0] == "P":
            return ("P", t[1], [self.fill_term(x, env) for x in t[2]])
        if t[0] in ("all", "ex"):
            return (t[0], env[t[1]], self.fill(t[2], env))
        return (t[0],) + tuple(self.fill(x, env) for x in t[1:])

    def fill_term(self, x, env):
        if isinstance(x, str):
            return env[x]
        return ("fn", x[1], [self.fill_term(y, env) for y in x[2]])

    # values
    def value_term(self, t, st):
        it = self.it
        if t[0] == "leaf":
            return t[1]
        if t[0] == "ite":
            return it.combine([(t[1], self.value_term(t[2], st)), (self.bdd.not_(t[1]), self.value_term(t[3], st))])
        return it.build(self.Function, [K(t[1]), it.alloc(st, HList(Tup([self.value_term(x, st) for x in t[2]])))], st)

    def value(self, t, st):
        """Formula of a filled template, by the constructors of the library."""
        it, P = self.it, self.P
        if t[0] == "P":
            return it.build(self.Predicate, [K(t[1]), it.alloc(st, HList(Tup([self.value_term(x, st) for x in t[2]])))], st)
        if t[0] in ("all", "ex"):
            return it.call(self.ForAll if t[0] == "all" else self.Exists, [t[1][1], self.value(t[2], st)], {}, st)
        if t[0] == "true":
            return it.build(P.True_, [self.p.logic("FOL")], st)
        sub = [self.value(x, st) for x in t[1:]]
        if t[0] == "not":
            return P.neg(*sub, st)
        if t[0] == "imp":
            return P.imp(*sub, st)
        c = {"and": P.And, "or": P.Or, "Implies": P.Implies, "Equivalence": self.p.cls("base", "Equivalence")}[t[0]]
        return it.call(c, sub, {}, st)

    # what the rules say
    def same(self, a, b, st):
        """Two terms are equal."""
        bdd = self.bdd
        if a[0] == "ite":
            return bdd.ite(a[1], self.same(a[2], b, st), self.same(a[3], b, st))
        if b[0] == "ite":
            return self.same(b, a, st)
        if a[0] != b[0]:
            return 0
        if a[0] == "leaf":
            return self.it.eqv(a[1], b[1], st)
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return 0
        return bdd.and_(*[self.same(x, y, st) for x, y in zip(a[2], b[2])])

    def occurs_term(self, a, t, st):
        bdd = self.bdd
        if t[0] == "ite":
            return bdd.ite(t[1], self.occurs_term(a, t[2], st), self.occurs_term(a, t[3], st))
        out = self.same(a, t, st)
        if t[0] == "fn":
            out = bdd.or_(out, *[self.occurs_term(a, x, st) for x in t[2]])
        return out

    def occurs(self, a, t, st, free=True):
        """The term occurs (free) in the formula."""
        bdd = self.bdd
        if t[0] == "P":
            return bdd.or_(*[self.occurs_term(a, x, st) for x in t[2]]) if t[2] else 0
        if t[0] in ("all", "ex"):
            inner = self.occurs(a, t[2], st, free)
            bound = self.occurs_term(t[1], a, st)
            return bdd.and_(inner, bdd.not_(bound)) if free else bdd.or_(inner, self.occurs_term(a, t[1], st))
        return bdd.or_(*[self.occurs(a, x, st, free) for x in t[1:]]) if t[1:] else 0

    def subst(self, t, x, a, st):
        """(template with a for the free x, condition that a is captured)."""
        bdd = self.bdd
        captured = [0]

        def term(u, blocked, binders):
            if u[0] == "fn":
                return ("fn", u[1], [term(y, blocked, binders) for y in u[2]])
            g = bdd.and_(self.same(u, x, st), bdd.not_(blocked))
            if not g:
                return u
            for w in binders:
                captured[0] = bdd.or_(captured[0], bdd.and_(g, self.occurs_term(w, a, st)))
            return a if g == 1 else ("ite", g, a, u)

        def go(u, blocked, binders):
            if u[0] == "P":
                return ("P", u[1], [term(y, blocked, binders) for y in u[2]])
            if u[0] in ("all", "ex"):
                return (u[0], u[1], go(u[2], bdd.or_(blocked, self.same(u[1], x, st)), binders + [u[1]]))
            return (u[0],) + tuple(go(y, blocked, binders) for y in u[1:])

        r = go(t, 0, [])
        return r, captured[0]


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    P = Proofs(p, "FOL")
    T = Terms(P)
    where = P.N.qual
    thorough = rep.tier == "thorough"
    rep.rule = (
        "the condition under which check accepts a step by forall_e, exists_i, forall_i or exists_e implies that the conclusion "
        "(premise) is the body of the quantified formula with one and the same term for every free occurrence of the quantified "
        "variable and no capture, and for forall_i and exists_e that the term of the subproof is a variable or constant that "
        "occurs free neither in a line in scope, nor in the quantified formula, nor (exists_e) in the conclusion; instances whose "
        "term occurs nowhere else are accepted on every path"
    )
    rep.explanation = (
        "The checker is interpreted abstractly on proofs whose formulas are templates (connectives, quantifiers, function terms) "
        "over variables and constants with opaque names. All coincidences of names (of the quantified variable, bound variables, "
        "terms) are BDD atoms, so that one run decides all of them. The expected condition is computed on the templates by "
        "substitution with explicit capture."
    )
    rep.assumptions = [
        "formulas deeper than the templates behave like them",
        "equality of formulas is structural, up to the order of commutative operators (C08); constructors preserve what they are given (C03, C20)",
        "a step that raises an exception is not accepted",
    ]
    temps = dict(TEMPLATES)
    if thorough:
        temps.update(DEEP)

    def env(t, kinds, prefix, st, shared=None):
        ss, bs = slots(t)
        e = {s: T.term(k, prefix + s, st) for s, k in zip(ss, kinds)}
        for b in bs:
            e[b] = T.term("V", prefix + b, st)
        if shared:
            e.update(shared)
        return e

    def E(t, v, st):
        """The template has the value v."""
        s = st.fork(1, bdd)
        u = T.value(t, s)
        return bdd.and_(s.pc, it.eqv(u, v, s)) if s.pc else 0

    def leaves_of(t):
        """All terms of a filled template."""
        out = []

        def term(x):
            out.append(x)
            if x[0] == "fn":
                for y in x[2]:
                    term(y)

        def go(x):
            if x[0] == "P":
                for y in x[2]:
                    term(y)
            elif x[0] in ("all", "ex"):
                go(x[2])
            else:
                for y in x[1:]:
                    go(y)

        go(t)
        return out

    def instance(phi, x, psi, psi_v, st):
        """psi is phi with one term for x, not captured."""
        out = 0
        for a in leaves_of(psi) + [x]:
            r, captured = T.subst(phi, x, a, st)
            out = bdd.or_(out, bdd.and_(bdd.not_(captured), E(r, psi_v, st)))
        return out

    def over(label, key, spec, want, st):
        acc = P.check(spec, st)
        rep.count("proofs")
        q = P.sat(bdd.and_(acc, bdd.not_(want)))
        if q:
            return [Violation(f"{key}/accepts", f"{label} is accepted but is no correct instance", where, model_text(bdd, bdd.pick(q)))]

    def under(label, key, spec, cond, st):
        acc = P.check(spec, st)
        rep.count("proofs")
        q = P.sat(bdd.and_(cond, bdd.not_(acc)))
        if q:
            exc = [e for e in p.raises() if P.sat(bdd.and_(e[0], cond))]
            how = f"raises {exc[0][2]!r}" if exc else "is rejected"
            return [Violation(f"{key}/rejects", f"{label} {how}", exc[0][3] if exc else where, model_text(bdd, bdd.pick(q)))]

    def ready(st):
        if p.raises():
            raise Undecided(f"cannot build the formulas: {p.raises()[0][2]!r}")
        if not st.pc:
            raise Undecided("cannot build the formulas")

    def single(rule, n1, k1, n2, k2):
        """forall_e and exists_i: any body, any other formula."""
        st = p.fresh()
        x = T.term("V", "x", st)
        phi = T.fill(temps[n1], env(temps[n1], k1, "", st))
        psi = T.fill(temps[n2], env(temps[n2], k2, "z", st))
        quant = T.value(("all" if rule == "forall_e" else "ex", x, phi), st)
        other = T.value(psi, st)
        ready(st)
        want = instance(phi, x, psi, other, st)
        spec = [(1, quant, "premise", []), (2, other, rule, [1])] if rule == "forall_e" else [(1, other, "premise", []), (2, quant, rule, [1])]
        return over(f"{rule}: {'from' if rule == 'forall_e' else 'to'} a quantified {n1} ({' '.join(k1)}), other formula {n2} ({' '.join(k2)})", rule, spec, want, st)

    def single_ok(rule, n1, k1, ka):
        st = p.fresh()
        x = T.term("V", "x", st)
        e = env(temps[n1], ["V" if k == "x" else k for k in k1], "", st)
        ss, _ = slots(temps[n1])
        for s, k in zip(ss, k1):
            if k == "x":
                e[s] = x
        phi = T.fill(temps[n1], e)
        a = x if ka == "x" else T.term(ka, "a", st)
        r, captured = T.subst(phi, x, a, st)
        quant = T.value(("all" if rule == "forall_e" else "ex", x, phi), st)
        other = T.value(r, st)
        ready(st)
        spec = [(1, quant, "premise", []), (2, other, rule, [1])] if rule == "forall_e" else [(1, other, "premise", []), (2, quant, rule, [1])]
        return under(f"{rule}: the instance of {n1} ({' '.join(k1)}) for the term {ka}", rule, spec, bdd.not_(captured), st)

    def wrong_quantifier(rule, n1, what):
        """The quantifier is the other one, or the formula is not quantified."""
        st = p.fresh()
        x, a = T.term("V", "x", st), T.term("C", "a", st)
        ss, bs = slots(temps[n1])
        phi = T.fill(temps[n1], {**{s: x for s in ss}, **{b: T.term("V", b, st) for b in bs}})
        r, captured = T.subst(phi, x, a, st)
        q = {"forall": ("all", x, phi), "exists": ("ex", x, phi), "negated": ("not", ("all" if rule[0] == "f" else "ex", x, phi)), "body": phi}[what]
        quant, other = T.value(q, st), T.value(r, st)
        ready(st)
        line = lambda v: (1, v, "premise", [])
        chi = T.value(P_(T.term("C", "b", st)), st)
        spec = {
            "forall_e": lambda: [line(quant), (2, other, rule, [1])],
            "exists_i": lambda: [line(other), (2, quant, rule, [1])],
            "forall_i": lambda: [(0, P.false(st), "premise", []), (2, [("term", a[1]), (3, other, "bot_e", [0])]), (4, quant, rule, [2])],
            "exists_e": lambda: [(0, P.false(st), "premise", []), line(quant), (2, [("term", a[1]), (None, other, "assumption", []), (3, chi, "bot_e", [0])]), (4, chi, rule, [1, 2])],
        }[rule]()
        want = bdd.and_(st.pc, it.eqv(quant, other, st)) if what == "body" and rule in ("forall_e", "exists_i") else 0
        return over(f"{rule} about {what} {n1}", rule, spec, 0, st)

    def boxed(rule, n1, k1, n2, k2, ka, scope, chi_n, mid):
        """forall_i and exists_e with independent formulas."""
        st = p.fresh()
        x, a = T.term("V", "x", st), T.term(ka, "a", st)
        phi = T.fill(temps[n1], env(temps[n1], k1, "", st))
        psi = T.fill(temps[n2], env(temps[n2], k2, "z", st))
        sc = T.fill(temps[scope], env(temps[scope], ["V" if "V" in ka else "C"] * 2, "p", st)) if scope else None
        chi = T.fill(temps[chi_n], env(temps[chi_n], ["V" if "V" in ka else "C"] * 2, "c", st)) if chi_n else None
        quant = T.value(("all" if rule == "forall_i" else "ex", x, phi), st)
        other = T.value(psi, st)
        chi_v = T.value(chi, st) if chi else None
        sc_v = T.value(sc, st) if sc else None
        av = T.value_term(a, st)
        ready(st)
        r, captured = T.subst(phi, x, a, st)
        want = bdd.and_(bdd.not_(captured), E(r, other, st), bdd.not_(T.occurs(a, ("all", x, phi), st)))
        if a[0] == "fn":
            want = 0
        if sc:
            want = bdd.and_(want, bdd.not_(T.occurs(a, sc, st)))
        head = [(0, P.false(st), "premise", [])] + ([(8, sc_v, "premise", [])] if sc else [])
        m = [(7, P.S("m"), "bot_e", [0])] if mid else []
        if rule == "forall_i":
            spec = head + [(2, [("term", av)] + m + [(3, other, "bot_e", [0])]), (4, quant, rule, [2])]
        else:
            want = bdd.and_(want, bdd.not_(T.occurs(a, chi, st)))
            spec = head + [(1, quant, "premise", []), (2, [("term", av), (None, other, "assumption", [])] + m + [(3, chi_v, "bot_e", [0])]), (4, chi_v, rule, [1, 2])]
        return over(f"{rule}: subproof of a term ({ka}) with {n2} ({' '.join(k2)}), quantified {n1} ({' '.join(k1)})"
                    + (f", conclusion {chi_n}" if chi else "") + (f", {scope} in scope" if scope else ""), rule, spec, want, st)

    def boxed_ok(rule, n1, k1, ka, scope, chi_n, nested):
        st = p.fresh()
        x, a = T.term("V", "x", st), T.term(ka, "a", st)
        e = env(temps[n1], ["V" if k == "x" else k for k in k1], "", st)
        for s, k in zip(slots(temps[n1])[0], k1):
            if k == "x":
                e[s] = x
        phi = T.fill(temps[n1], e)
        r, captured = T.subst(phi, x, a, st)
        sc = T.fill(temps[scope], env(temps[scope], ["V", "V"], "p", st)) if scope else None
        chi = T.fill(temps[chi_n], env(temps[chi_n], ["V", "C"], "c", st)) if chi_n else None
        quant = T.value(("all" if rule == "forall_i" else "ex", x, phi), st)
        other = T.value(r, st)
        chi_v = T.value(chi, st) if chi else None
        head = [(0, P.false(st), "premise", [])] + ([(8, T.value(sc, st), "premise", [])] if sc else [])
        ready(st)
        cond = bdd.and_(bdd.not_(captured), bdd.not_(T.occurs(a, ("all", x, phi), st, free=False)))
        # a variable of the same name as a constant is another term, but a checker may take them for the same
        for t in ([sc] if sc else []) + ([chi] if chi else []):
            cond = bdd.and_(cond, bdd.not_(T.occurs(a, t, st, free=False)))
        other_kind = T.term("C" if ka == "V" else "V", "a", st)
        for t in [("all", x, phi)] + ([sc] if sc else []) + ([chi] if chi else []):
            cond = bdd.and_(cond, bdd.not_(T.occurs(other_kind, t, st, free=False)))
        if rule == "forall_i":
            steps = [(2, [("term", a[1]), (3, other, "bot_e", [0])]), (4, quant, rule, [2])]
        else:
            steps = [(1, quant, "premise" if not nested else "bot_e", [] if not nested else [0]),
                     (2, [("term", a[1]), (None, other, "assumption", []), (3, chi_v, "bot_e", [0])]), (4, chi_v, rule, [1, 2])]
        spec = head + steps if not nested else head + [(20, [(None, P.raw(T.Predicate, K("A"), it.alloc(st, HList(Tup([]))))(st), "assumption", [])] + steps)]
        return under(f"{rule}: the instance of {n1} ({' '.join(k1)}) with a fresh {ka}" + (f", {scope} in scope" if scope else "")
                     + (f", conclusion {chi_n}" if chi else "") + (", inside a subproof" if nested else ""), rule, spec, cond, st)

    def assumed(n, where_):
        """forall_i may not generalise a term with an assumption about it."""
        st = p.fresh()
        x, a = T.term("V", "x", st), T.term("C", "a", st)
        ss, bs = slots(temps[n])
        phi = T.fill(temps[n], {**{s: x for s in ss}, **{b: T.term("V", b, st) for b in bs}})
        r, captured = T.subst(phi, x, a, st)
        quant, other = T.value(("all", x, phi), st), T.value(r, st)
        occurs = T.occurs(a, r, st)
        ready(st)
        if where_ == "own":  # [a, phi(a) assumed; phi(a)] then forall x phi(x)
            spec = [(2, [("term", a[1]), (None, other, "assumption", []), (3, other, "copy", [2])]), (4, quant, "forall_i", [2])]
        elif where_ == "outer":  # phi(a) assumed outside
            spec = [(1, [(None, other, "assumption", []), (2, [("term", a[1]), (3, other, "copy", [1])]), (4, quant, "forall_i", [2])])]
        elif where_ == "premise":
            spec = [(1, other, "premise", []), (2, [("term", a[1]), (3, other, "copy", [1])]), (4, quant, "forall_i", [2])]
        elif where_ == "exists":  # the term of an exists elimination around it
            spec = [(0, T.value(("ex", x, phi), st), "premise", []), (1, [("term", a[1]), (None, other, "assumption", []),
                    (2, [("term", a[1]), (3, other, "copy", [1])]), (4, quant, "forall_i", [2])])]
        else:  # two levels out
            spec = [(1, [(None, other, "assumption", []), (5, [(None, P.raw(T.Predicate, K("A"), it.alloc(st, HList(Tup([]))))(st), "assumption", []),
                    (2, [("term", a[1]), (3, other, "copy", [1])]), (4, quant, "forall_i", [2])])])]
        return over(f"forall_i with {n} assumed about the term ({where_})", "forall_i/assumption", spec, bdd.not_(occurs), st)

    jobs = []
    V = ("V", "V")
    count = lambda n: len(slots(temps[n])[0])

    def combos(n, kinds):
        return itertools.product(kinds, repeat=count(n))

    for rule in ("forall_e", "exists_i"):
        for n in temps:
            for k1 in combos(n, "VC"):
                for k2 in combos(n, ("V", "C", "fV")):
                    jobs.append((f"{rule} {n} {k1} {k2}", single, rule, n, k1, n, k2))
            for n2 in temps:
                if n2 != n:
                    jobs.append((f"{rule} {n} / {n2}", single, rule, n, V[:count(n)], n2, V[:count(n2)]))
            for k1 in combos(n, "xVC"):
                for ka in ("V", "C", "fV", "fC", "x", "fx")[:5]:
                    jobs.append((f"{rule} instance {n} {k1} {ka}", single_ok, rule, n, k1, ka))
    for rule in ("forall_e", "exists_i", "forall_i", "exists_e"):
        right = "forall" if rule[0] == "f" else "exists"
        for n in temps:
            for what in ("forall", "exists", "negated", "body"):
                if what == right or what == "body" and n.startswith((right, "true")):
                    continue
                if n == "true":
                    continue
                jobs.append((f"{rule} of {what} {n}", wrong_quantifier, rule, n, what))
    light = [n for n in temps if n in ("P(s)", "R(s, t)", "P(f(s))", "~P(s)", "P(s) & Q(t)", "forall w P(s)", "P(s) >> Q(t)", "Equivalence(P(s), Q(t))",
                                       "Implies(P(s), Q(t))", "exists w R(s, t)", "P(s) | Q(t)")]
    for rule in ("forall_i", "exists_e"):
        chi = "P(s)" if rule == "exists_e" else None
        for n in temps:
            for k in itertools.product("VC", repeat=count(n)):
                for ka in ("V", "C", "fV", "fC"):
                    jobs.append((f"{rule} {n} {k} {ka}", boxed, rule, n, k, n, [ka if i == 0 else x for i, x in enumerate(k)] if count(n) else (), ka, None, chi, ka == "C"))
                    if ka in "VC":
                        jobs.append((f"{rule} {n} {k} {ka} same kind", boxed, rule, n, k, n, (ka,) * count(n), ka, None, chi, False))
            for n2 in light:
                if n2 != n:
                    jobs.append((f"{rule} {n} / {n2}", boxed, rule, n, V[:count(n)], n2, V[:count(n2)], "V", None, chi, False))
            for ka in ("V", "C"):
                # every formula in scope, every conclusion
                jobs.append((f"{rule} with {n} in scope {ka}", boxed, rule, "P(s)", ("V",), "P(s)", (ka,), ka, n, chi, False))
                if chi:
                    jobs.append((f"{rule} with conclusion {n} {ka}", boxed, rule, "P(s)", ("V",), "P(s)", (ka,), ka, None, n, False))
            for k1 in combos(n, "xVC"):
                for ka in ("V", "C"):
                    jobs.append((f"{rule} instance {n} {k1} {ka}", boxed_ok, rule, n, k1, ka, None, "P(s)" if chi else None, ka == "V"))
            for ka in ("V", "C"):
                jobs.append((f"{rule} instance, {n} in scope {ka}", boxed_ok, rule, "P(s)", ("x",), ka, n, "R(s, t)" if chi else None, False))
                if chi:
                    jobs.append((f"{rule} instance, conclusion {n} {ka}", boxed_ok, rule, "P(s)", ("x",), ka, None, n, False))
    for n in temps:
        for w in ("own", "outer", "premise", "exists", "deep"):
            jobs.append((f"assumption about the term {n} {w}", assumed, n, w))
    rep.counts["templates"] = len(temps)
    rep.sample("templates: " + "; ".join(temps))
    rep.parallel(jobs)
