"""C24: helper contracts hold for every argument."""
from ..interp import St
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa

LEVEL = "other"
TAGS = ("PL", "LTL", "PLTL", "LDL", "FOL", "PLDL", "MSO", "RE")


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    thorough = rep.tier == "thorough"
    rep.rule = (
        "for opaque arguments (any value: truth, equality with None and membership are free) every path of a helper ends with "
        "the value or exception of its contract, and leaves the collection it was given as it was"
    )
    rep.explanation = (
        "Each helper is interpreted abstractly on opaque values, booleans and collections of opaque elements of every length up "
        "to a bound; the condition under which the result differs from the contract is a BDD over the free facts about the "
        "arguments and must be unsatisfiable."
    )
    rep.assumptions = [
        "collections longer than the bound behave like those up to it (the bound exceeds the integer constants of the helpers)",
        "equality of elements is an equivalence",
    ]
    helper = lambda n: p.name("helpers.misc", n)
    fns = [helper(n) for n in ("enforce", "ensure", "ensure_set", "ensure_sequence", "safe_index", "safe_get", "find")]
    bound = min(max(4, p.max_const(f for f in fns if isinstance(f, Fn)) + 2), 6 if not thorough else 10)
    rep.counts["largest_collection"] = bound

    def where(f):
        while isinstance(f, (Wrap, Part)):
            f = f.fn
        return f.where if isinstance(f, Fn) else None

    def bad(key, f, msg, q):
        return [Violation(key, msg, where(f), model_text(bdd, bdd.pick(q)))]

    def eq_axioms(f):
        """Equality of opaque values is transitive."""
        ats = [a for a in bdd.support(f) if a[0] == "eq"]
        out = 1
        name = lambda a: frozenset((a[1], a[2]))
        table = {name(a): a for a in ats}
        for a in ats:
            for b in ats:
                if a is not b and name(a) & name(b):
                    c = table.get(name(a) ^ name(b))
                    if c is not None:
                        v = lambda z: bdd.var(z)
                        out = bdd.and_(out, bdd.or_(bdd.not_(v(a)), bdd.not_(v(b)), v(c)))
        return out

    def sat(q):
        return bdd.and_(q, eq_axioms(q)) if q else 0

    def differs(v, want, st):
        return sat(bdd.and_(st.pc, bdd.not_(it.eqv(v, want, st))))

    def identical(v, want):
        """Condition under which the value is not the object itself."""
        return lambda st: bdd.or_(*[g for g, b in it.alts(v, st.pc) if b != want])

    # ------------------------------------------------ enforce
    def enforce(cond, truth, cls, how):
        f = helper("enforce")
        st = p.fresh()
        args, kw = [cond], {}
        if how == "message":
            args.append(K("message"))
        if how == "empty":
            args.append(K(""))
        if cls is not None:
            kw["exception_cls"] = cls
        r = it.call(f, args, kw, st)
        t = truth(st) if callable(truth) else truth
        expected = cls or it.builtin_cls["AssertionError"]
        raised = 0
        out = []
        for pc, heap, exc, w in p.raises():
            raised = bdd.or_(raised, pc)
            c = exc_class(exc, St(pc, heap))
            if c is not expected:
                out += bad("enforce/exception", f, f"enforce({cond!r}, exception_cls={expected.name}) raises {exc!r}", pc)
        for q, what in ((bdd.and_(raised, t), "raises although the condition holds"), (bdd.and_(st.pc, bdd.not_(t)), "does not raise although the condition is false"),
                        (bdd.not_(bdd.or_(raised, st.pc)), "neither returns nor raises")):
            if q:
                out += bad("enforce/when", f, f"enforce({cond!r}) {what}", q)
        return out

    def exc_class(exc, st):
        if isinstance(exc, (Ref, New)):
            return it.class_of(exc, st)
        k = exc.args[0] if isinstance(exc, App) and exc.args else None
        if isinstance(k, K) and isinstance(k.value, str):
            k = it.builtin_cls.get(k.value)
        return k if isinstance(k, Cls) else it.class_of(exc, st)

    conds = {
        "an opaque value": lambda: (Sym("c"), lambda st: it.truth(Sym("c"), st)),
        "True": lambda: (B(1), 1), "False": lambda: (B(0), 0), "None": lambda: (NONE, 0), "0": lambda: (K(0), 0), "1": lambda: (K(1), 1),
        "''": lambda: (K(""), 0), "'x'": lambda: (K("x"), 1), "()": lambda: (Tup([]), 0), "(None,)": lambda: (Tup([NONE]), 1),
        "an opaque boolean": lambda: (B(it.atom("free", K("b"))), lambda st: it.atom("free", K("b"))),
    }
    err = p.name("exceptions", "PylogicsError")
    for what, mk in conds.items():
        for cls in (None, it.builtin_cls["ValueError"], err):
            for how in ("", "message", "empty"):
                rep.obligation(f"enforce {what} {cls and cls.name} {how}", lambda mk=mk, cls=cls, how=how: enforce(*mk(), cls, how))
    rep.sample("enforce: raises exactly when the condition is false, the exception asked for")

    # ------------------------------------------------ ensure
    values = {
        "None": lambda st: NONE, "False": lambda st: B(0), "True": lambda st: B(1), "0": lambda st: K(0), "''": lambda st: K(""), "()": lambda st: Tup([]),
        "an opaque value": lambda st: Sym("arg"), "an empty list": lambda st: it.alloc(st, HList(Tup([]))),
        "a formula": lambda st: Sym("arg", p.Formula), "a false formula": lambda st: it.build(p.cls("base", "FalseFormula"), [p.logic("PL")], st),
    }

    def ensure(mk, dflt, what):
        f = helper("ensure")
        st = p.fresh()
        a, d = mk(st), dflt(st)
        r = it.call(f, [a, d], {}, st)
        if p.raises():
            return bad("ensure/raises", f, f"ensure({what}, ...) raises {p.raises()[0][2]!r}", p.raises()[0][0])
        none = bdd.or_(*[bdd.and_(g, it.is_(b, NONE, st)) for g, b in it.alts(a, st.pc)])
        q = 0
        for g, b in it.alts(r, st.pc):
            q = bdd.or_(q, bdd.and_(g, none, int(b != d)), bdd.and_(g, bdd.not_(none), int(b != a)))
        if a == d:
            q = 0
        return bad("ensure/value", f, f"ensure({what}, default) gives {r!r}", q) if q else None

    for what, mk in values.items():
        for d in ("an opaque value", "None", "0"):
            dm = (lambda st: Sym("default")) if d == "an opaque value" else values[d]
            rep.obligation(f"ensure {what} {d}", ensure, mk, dm, what)
    rep.sample("ensure: the default exactly for None")

    # ------------------------------------------------ ensure_set, ensure_sequence
    def coll(kind, n, st, repeat=False):
        items = [Sym(f"e{i if not (repeat and i == n - 1) else 0}") for i in range(n)]
        if kind == "None":
            return NONE, []
        if kind == "list":
            return it.alloc(st, HList(Tup(items))), items
        if kind == "tuple":
            return Tup(items), items
        if kind == "set":
            return it.call(it.builtin_cls["set"], [it.alloc(st, HList(Tup(items)))], {}, st), items
        if kind == "frozenset":
            return it.call(it.builtin_cls["frozenset"], [it.alloc(st, HList(Tup(items)))], {}, st), items
        raise AssertionError(kind)

    def kind_of(v, st):
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, FSet):
            return "frozenset"
        if isinstance(v, Ref):
            r = it.rec(st, v.id)
            if isinstance(r, HList):
                return "list"
            if isinstance(r, HMap):
                return "set" if r.kind == "set" else r.kind
        return None

    def convert(name, kind, n, how, repeat):
        f = helper(name)
        st = p.fresh()
        c, items = coll(kind, n, st, repeat)
        before = it.canon_v(c, st)
        args, kw = [c], {}
        immutable = how != "mutable"
        if how == "mutable":
            kw["immutable"] = B(0)
        elif how == "immutable":
            args.append(B(1))
        r = it.call(f, args, kw, st)
        label = f"{name}({kind} of {n}, {how})"
        if p.raises():
            return bad(f"{name}/raises", f, f"{label} raises {p.raises()[0][2]!r}", p.raises()[0][0])
        want = {"ensure_set": ("frozenset", "set"), "ensure_sequence": ("tuple", "list")}[name][0 if immutable else 1]
        out = []
        for g, b in it.alts(r, st.pc):
            k = kind_of(b, st)
            if k is None:
                raise Undecided(f"{label} gives {b!r}")
            if k != want:
                out += bad(f"{name}/kind", f, f"{label} gives a {k} instead of a {want}", g)
                continue
            s1 = st.fork(g, bdd)
            exp = it.call(it.builtin_cls[want], [it.alloc(s1, HList(Tup(items)))], {}, s1)
            q = sat(bdd.and_(s1.pc, bdd.not_(it.eqv(b, exp, s1))))
            if q:
                out += bad(f"{name}/elements", f, f"{label} gives {it.canon(b, s1)!r}", q)
            if not immutable and b == c:
                out += bad(f"{name}/shared", f, f"{label} gives the caller's own collection", g) if False else []
        if it.canon_v(c, st) != before:
            out += bad(f"{name}/argument", f, f"{label} changes its argument to {it.canon_v(c, st)!r}", 1)
        return out

    for name in ("ensure_set", "ensure_sequence"):
        for kind in ("None", "list", "tuple", "set", "frozenset"):
            if name == "ensure_sequence" and kind in ("set", "frozenset"):
                continue
            for n in range(0, bound + 1) if kind != "None" else (0,):
                for how in ("", "immutable", "mutable"):
                    for repeat in (False, True) if n > 1 else (False,):
                        rep.obligation(f"{name} {kind} {n} {how} {repeat}", convert, name, kind, n, how, repeat)
        rep.sample(f"{name}: same elements, documented mutability, None is empty")

    # ------------------------------------------------ searches
    def safe_index(kind, n, extra):
        f = helper("safe_index")
        st = p.fresh()
        c, items = coll(kind, n, st)
        before = it.canon_v(c, st)
        x = Sym("x")
        r = it.call(f, [c, x] + [K(e) for e in extra], {}, st)
        label = f"safe_index({kind} of {n}, x{''.join(', %d' % e for e in extra)})"
        ex = [(pc, exc) for pc, _, exc, _ in p.raises() if sat(pc)]
        if ex:
            return bad("safe_index/raises", f, f"{label} raises {ex[0][1]!r}", sat(ex[0][0]))
        lo, hi, _ = slice(*(list(extra) + [None, None])[:2] if extra else (None, None)).indices(n)
        rest, q = st.pc, 0
        got = it.alts(r, st.pc)
        for i in range(lo, hi):
            here = bdd.and_(rest, it.eqv(items[i], x, st))
            for g, b in got:
                if b != K(i):
                    q = bdd.or_(q, bdd.and_(here, g))
            rest = bdd.and_(rest, bdd.not_(here))
        for g, b in got:
            if b != NONE:
                q = bdd.or_(q, bdd.and_(rest, g))
        q = sat(q)
        out = bad("safe_index/value", f, f"{label} gives {r!r}", q) if q else []
        if it.canon_v(c, st) != before:
            out += bad("safe_index/argument", f, f"{label} changes its argument", 1)
        return out

    for kind in ("list", "tuple"):
        for n in range(0, bound + 1):
            rep.obligation(f"safe_index {kind} {n}", safe_index, kind, n, ())
            for extra in ((1,), (-1,), (0, 2), (1, 1)):
                rep.obligation(f"safe_index {kind} {n} {extra}", safe_index, kind, n, extra)
    rep.sample("safe_index: the first equal element, else None")

    def safe_get(kind, n, i, dflt):
        f = helper("safe_get")
        st = p.fresh()
        c, items = coll(kind, n, st)
        before = it.canon_v(c, st)
        d = {"none": None, "opaque": Sym("default"), "false": B(0)}[dflt]
        r = it.call(f, [c, K(i)] + ([d] if d is not None else []), {}, st)
        label = f"safe_get({kind} of {n}, {i}, default {dflt})"
        if p.raises():
            return bad("safe_get/raises", f, f"{label} raises {p.raises()[0][2]!r}", p.raises()[0][0])
        want = items[i] if -n <= i < n else (d if d is not None else NONE)
        q = sat(bdd.or_(*[g for g, b in it.alts(r, st.pc) if b != want]))
        out = bad("safe_get/value", f, f"{label} gives {r!r} instead of {want!r}", q) if q else []
        if it.canon_v(c, st) != before:
            out += bad("safe_get/argument", f, f"{label} changes its argument", 1)
        return out

    for kind in ("list", "tuple"):
        for n in range(0, bound + 1):
            for i in range(-bound - 1, bound + 2):
                for dflt in ("none", "opaque", "false"):
                    rep.obligation(f"safe_get {kind} {n} {i} {dflt}", safe_get, kind, n, i, dflt)
    rep.sample("safe_get: the element, else the default")

    def find(kind, n):
        f = helper("find")
        st = p.fresh()
        c, items = coll(kind, n, st)
        before = it.canon_v(c, st)
        r = it.call(f, [c, Sym("condition")], {}, st)
        label = f"find({kind} of {n})"
        ex = [(pc, exc) for pc, _, exc, _ in p.raises() if sat(pc)]
        if ex:
            return bad("find/raises", f, f"{label} raises {ex[0][1]!r}", sat(ex[0][0]))
        rest, q = st.pc, 0
        got = it.alts(r, st.pc)
        for i, x in enumerate(items):
            t = it.truth(it.call(Sym("condition"), [x], {}, st), st)
            here = bdd.and_(rest, t)
            for g, b in got:
                if b != K(i):
                    q = bdd.or_(q, bdd.and_(here, g))
            rest = bdd.and_(rest, bdd.not_(t))
        for g, b in got:
            if b != K(-1):
                q = bdd.or_(q, bdd.and_(rest, g))
        out = bad("find/value", f, f"{label} gives {r!r}", q) if q else []
        if it.canon_v(c, st) != before:
            out += bad("find/argument", f, f"{label} changes its argument", 1)
        return out

    for kind in ("list", "tuple"):
        for n in range(0, bound + 1):
            rep.obligation(f"find {kind} {n}", find, kind, n)
    rep.sample("find: the first element that satisfies the condition, else -1")

    # ------------------------------------------------ constants and formulas
    True_, False_ = p.cls("base", "TrueFormula"), p.cls("base", "FalseFormula")

    def make_boolean(mk, logic, what):
        f = p.name("syntax.base", "make_boolean")
        st = p.fresh()
        v, t = mk(st)
        r = it.call(f, [v, p.logic(logic)], {}, st)
        if p.raises():
            return bad("make_boolean/raises", f, f"make_boolean({what}, {logic}) raises {p.raises()[0][2]!r}", p.raises()[0][0])
        q = 0
        for g, b in it.alts(r, st.pc):
            c = it.class_of(b, st)
            s1 = st.fork(g, bdd)
            wrong = bdd.not_(it.eqv(it.getattr(b, "logic", s1), p.logic(logic), s1)) if c in (True_, False_) else 1
            q = bdd.or_(q, bdd.and_(g, bdd.or_(wrong, bdd.and_(t, int(c is not True_)), bdd.and_(bdd.not_(t), int(c is not False_)))))
        return bad("make_boolean/value", f, f"make_boolean({what}, {logic}) gives {it.canon_v(r, st)!r}", q) if q else None

    free = lambda st: (B(it.atom("free", K("b"))), it.atom("free", K("b")))
    for l in TAGS:
        for what, mk in {"True": lambda st: (B(1), 1), "False": lambda st: (B(0), 0), "b": free}.items():
            rep.obligation(f"make_boolean {what} {l}", make_boolean, mk, l, what)

    def ensure_formula(mk, flag, what):
        f = p.name("syntax.base", "ensure_formula")
        st = p.fresh()
        a = mk(st)
        b = it.atom("free", K("flag")) if flag is None else flag
        r = it.call(f, [a, B(b)], {}, st)
        if p.raises():
            return bad("ensure_formula/raises", f, f"ensure_formula({what}) raises {p.raises()[0][2]!r}", p.raises()[0][0])
        q = 0
        for g, v in it.alts(r, st.pc):
            if a == NONE:
                c = it.class_of(v, st)
                s1 = st.fork(g, bdd)
                wrong = bdd.not_(it.eqv(it.getattr(v, "logic", s1), p.logic("PL"), s1)) if c in (True_, False_) else 1
                q = bdd.or_(q, bdd.and_(g, bdd.or_(wrong, bdd.and_(b, int(c is not True_)), bdd.and_(bdd.not_(b), int(c is not False_)))))
            elif v != a:
                q = bdd.or_(q, g)
        return bad("ensure_formula/value", f, f"ensure_formula({what}) gives {it.canon_v(r, st)!r}", q) if q else None

    forms = {"None": values["None"], "a formula": values["a formula"], "a false formula": values["a false formula"],
             "a false formula of LTL": lambda st: it.build(False_, [p.logic("LTL")], st)}
    for what, mk in forms.items():
        for flag in (0, 1, None):
            rep.obligation(f"ensure_formula {what} {flag}", ensure_formula, mk, flag, what)
    rep.sample("make_boolean and ensure_formula: the constant of the requested value and logic")

    # ------------------------------------------------ constrained strings
    R = helper("RegexConstrainedString")

    def constrained(value, kind):
        st = p.fresh()
        v = value
        if kind == "same":
            v = it.call(R, [value], {}, st)
        r = it.call(R, [v], {}, st)
        if p.raises():
            return bad("RegexConstrainedString/raises", R, f"RegexConstrainedString({value!r}) raises {p.raises()[0][2]!r}", p.raises()[0][0])
        q = differs(it.each(r, st, lambda b, s1: it.str_(b, s1)), value, st)
        return bad("RegexConstrainedString/value", R, f"RegexConstrainedString({value!r}) is {it.canon_v(r, st)!r}", q) if q else None

    for v in ("", "a", "A b", "with\nnewline", '"'):
        for kind in ("", "same"):
            rep.obligation(f"RegexConstrainedString {v!r} {kind}", constrained, K(v), kind)
