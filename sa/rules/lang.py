"""The four languages: sorts, classes, spellings; normal forms of formula terms."""
from ..vals import *  # noqa

SYM_KIND = {"pl": "sym", "ltl": "sym", "pltl": "sym", "ldl": "mod", "re": "both"}

BOOL_BIN = [("Equivalence", ["<->"]), ("Implies", ["->", ">>"]), ("Or", ["|", "||"]), ("And", ["&", "&&"])]
# loosest first
BINARY = {
    "pl": BOOL_BIN,
    "ltl": BOOL_BIN + [("WeakUntil", ["W"]), ("Until", ["U"]), ("Release", ["R"]), ("StrongRelease", ["M"])],
    "pltl": BOOL_BIN + [("Since", ["S"]), ("Triggers", ["T"])],
    "ldl": BOOL_BIN,
    "re": [("Union", ["+"]), ("Seq", [";"])],
}
UNARY = {
    "pl": [("Not", ["!", "~"])],
    "ltl": [("Not", ["!", "~"]), ("Next", ["X[!]"]), ("WeakNext", ["X"]), ("Eventually", ["F"]), ("Always", ["G"])],
    "pltl": [("Not", ["!", "~"]), ("Before", ["Y"]), ("WeakBefore", ["Z"]), ("Once", ["O"]), ("Historically", ["H"])],
    "ldl": [("Not", ["!", "~"])],
}
BASE = {"And", "Or", "Not", "Implies", "Equivalence", "TrueFormula", "FalseFormula"}
MODULE = {"pl": "pl", "ltl": "ltl", "pltl": "pltl", "ldl": "ldl", "re": "ldl"}
NAMES = ["zqa", "zqb", "zqc", "zqd", "zqe", "zqf", "zqg", "zqh", "zqi", "zqj"]
NAMES += [f"zq{i}" for i in range(10, 80)]


def adaptive(p, low, cap=64, modules=("parsers", "utils", "syntax")):
    """An arity bound above every integer constant of the functions analysed so far."""
    fns = [f for f in p.it.calls_seen if any(f".{m}" in f.module.name for m in modules)]
    return max(low, min(cap, p.max_const(fns) + 3))


class Lang:
    """Specification of one language, over the classes of the program."""

    def __init__(self, p, sort):
        self.p, self.sort = p, sort

    def cls(self, name, sort=None):
        return self.p.cls("base" if name in BASE else MODULE[sort or self.sort], name)

    def logic(self, sort=None):
        return self.p.logic((sort or self.sort).upper())

    def new(self, name, *args, sort=None):
        return New(self.cls(name, sort), args)

    def const(self, value, sort=None):
        return New(self.cls("TrueFormula" if value else "FalseFormula"), (self.logic(sort),))

    def atom(self, name):
        """A leaf of the language marked by a name: (text, term)."""
        if self.sort == "ldl":
            return f"<{name}>tt", New(self.cls("Diamond"), (self.prop(name), self.const(True)))
        return name, New(self.cls("Atomic"), (K(name),))

    def prop(self, name):
        return New(self.p.cls("ldl", "Prop"), (New(self.p.cls("pl", "Atomic"), (K(name),)),))

    def leaves(self, name):
        """Leaf terms of the sort."""
        s = self.sort
        if s == "re":
            return [self.prop(name)]
        out = [self.const(True), self.const(False)]
        if s != "ldl":
            out.insert(0, New(self.cls("Atomic"), (K(name),)))
        if s in ("ltl", "pltl"):
            out += [self.new("PropositionalTrue"), self.new("PropositionalFalse")]
        return out

    def constructors(self):
        """[(class, [argument sorts], variadic)] of the sort."""
        s = self.sort
        out = []
        if s == "re":
            return [(self.cls("Seq"), ["re", "re"], True), (self.cls("Union"), ["re", "re"], True),
                    (self.cls("Star"), ["re"], False), (self.cls("Test"), ["ldl"], False), (self.cls("Prop"), ["pl"], False)]
        for n, _ in BINARY[s]:
            out.append((self.cls(n), [s, s], True))
        for n, _ in UNARY[s]:
            out.append((self.cls(n), [s], False))
        if s == "ldl":
            out += [(self.cls("Diamond"), ["re", "ldl"], False), (self.cls("Box"), ["re", "ldl"], False)]
        return out


def term(p, v, st):
    """Normal form of a formula value: nested tuples; And/Or flattened, negation unified."""
    it = p.it
    if isinstance(v, Alt):
        al = [(g, term(p, b, st)) for g, b in it.alts(v, st.pc)]
        if al and all(t == al[0][1] for _, t in al):
            return al[0][1]
        return ("alternatives",) + tuple(t for _, t in al)
    if isinstance(v, App) and v.op == "invert":
        return (p.cls("base", "Not"), term(p, v.args[0], st))
    if isinstance(v, App) and v.op == "inst":
        return canon_term(p, v, st)
    cls = args = None
    if isinstance(v, New):
        cls, args = v.cls, v.args
    elif isinstance(v, Ref):
        r = it.rec(st, v.id)
        if isinstance(r, HInst) and r.new is not None:
            return term(p, r.new, st)
        if isinstance(r, HInst) and r.cls.sub(p.Formula):
            cls, args = r.cls, components(p, r.cls, v, st)
            if args is None:
                return v
        elif isinstance(r, HInst) and r.content is not None:
            return r.content
    if cls is None:
        return v
    if len(args) == 1 and isinstance(args[0], Tup) and cls.sub(p.cls("base", "_BinaryOp")):
        args = args[0].items
    if cls.sub(p.cls("base", "TrueFormula")) or cls.sub(p.cls("base", "FalseFormula")):
        if not cls.module.endswith(".base"):
            args = ()
        elif not args:
            args = (p.logic("PL"),)
    out = [term(p, a, st) for a in args]
    if cls in (p.cls("base", "And"), p.cls("base", "Or")):
        flat = []
        for t in out:
            flat += list(t[1:]) if isinstance(t, tuple) and t and t[0] is cls else [t]
        out = flat
    return (cls,) + tuple(out)


def components(p, c, v, st):
    """Constructor arguments of an instance, through the public accessors."""
    it = p.it
    get = lambda n: it.each(v, st, lambda b, s: it.getattr(b, n, s))
    if c.sub(p.cls("base", "TrueFormula")) or c.sub(p.cls("base", "FalseFormula")):
        return (get("logic"),)
    if c.sub(p.cls("base", "AbstractAtomic")):
        return (get("name"),)
    if c.sub(p.cls("base", "_UnaryOp")):
        return (get("argument"),)
    if c.sub(p.cls("ldl", "_TemporalFormula")):
        return (get("regular_expression"), get("tail_formula"))
    if c.sub(p.cls("base", "_BinaryOp")):
        s = it.seq_content(get("operands"), st)
        return s.items if isinstance(s, Tup) else None
    return None


def canon_term(p, t, st):
    """Normal form of a canonical instance App('inst', cls, (field, value)...)."""
    c = t.args[0]
    vals = [f.items[1] for f in t.args[1:]]
    out = []
    for v in vals:
        if isinstance(v, App) and v.op == "list":
            v = v.args[0]
        if isinstance(v, Tup):
            out += list(v.items)
        else:
            out.append(v)
    return term(p, New(c, tuple(out)), st)


def show(t):
    """Readable text of a normal form."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], Cls):
            return t[0].name + ("(" + ", ".join(map(show, t[1:])) + ")")
        return str(t)
    return repr(t)


def parse(p, sort, text, holes=None, raw=True):
    """Result of the parser of the language on a text: (normal form or None, error, where)."""
    it = p.it
    fn = p.name("parsers." + sort, "parse_" + sort)
    st = p.fresh()
    it.holes = holes or {}
    it.raw = raw
    old = it.stub_meta
    if not raw:
        it.stub_meta = p.hash_consing()
    try:
        r = it.call(fn, [K(text)], {}, st)
        t = term(p, r, st) if st.pc else None
    finally:
        it.raw = False
        it.holes = {}
        it.stub_meta = old
    if p.raises():
        _, _, exc, where = p.raises()[0]
        return None, exc, where, r, st
    if not st.pc:
        return None, "the parser does not return", None, r, st
    return t, None, getattr(fn, "where", None), r, st


def built(p, t, st):
    """The value the constructors give for a term of New."""
    it = p.it
    if isinstance(t, New):
        args = [built(p, a, st) for a in t.args]
        return it.call(t.cls, args, {}, st)
    return t


def same(p, sort, text, want):
    """Does the text parse to the term? Returns (ok, got text, where)."""
    t, err, where, r, st = parse(p, sort, text)
    if err is not None:
        return False, f"is rejected ({err_text(err)})", where
    w = term(p, want, p.fresh())
    if t == w:
        return True, None, None
    # the same formula after the simplifications of the constructors?
    if not has_holes(want):
        it = p.it
        t2, err, where2, r, st = parse(p, sort, text, raw=False)
        if err is None:
            old, it.stub_meta = it.stub_meta, p.hash_consing()
            try:
                v = built(p, want, st)
                if st.pc and not p.raises() and it.eq(r, v, st) == 1 and term(p, r, st) == term(p, v, st):
                    return True, None, None
            finally:
                it.stub_meta = old
    return False, f"gives {show(t)}", where


def has_holes(t):
    return isinstance(t, Sym) or isinstance(t, New) and any(has_holes(a) for a in t.args)


def err_text(e):
    if isinstance(e, App) and e.op == "exc":
        return f"{e.args[0].name}: {e.args[1].value if isinstance(e.args[1], K) else e.args[1]}"
    return str(e)


def subst(t, env):
    """Replace opaque formulas in a term of New."""
    if isinstance(t, Sym):
        return env.get(t, t)
    if isinstance(t, New):
        return New(t.cls, [subst(a, env) for a in t.args])
    return t


def variants(p, sort, name):
    """Texts and terms of formulas of a sort, to put in a hole: an atom first."""
    L = Lang(p, sort)
    a, b = name + "a", name + "b"
    if sort == "re":
        x, y = L.prop(a), L.prop(b)
        yield name, L.prop(name)
        yield f"({a});({b})", L.new("Seq", x, y)
        yield f"({a})+({b})", L.new("Union", x, y)
        yield f"({a})*", L.new("Star", x)
        yield "(tt)?", L.new("Test", Lang(p, "ldl").const(True))
        yield "true", L.new("Prop", Lang(p, "pl").const(True))
        return
    yield L.atom(name)
    (ta, x), (tb, y) = L.atom(a), L.atom(b)
    if sort == "ldl":
        z = Lang(p, "re").prop(a)
        yield f"[{a}]ff", L.new("Box", z, L.const(False))
    for n, sp in BINARY[sort]:
        yield f"({ta}) {sp[0]} ({tb})", L.new(n, x, y)
    for n, sp in UNARY[sort]:
        yield f"{sp[0]}({ta})", L.new(n, x)
    yield ("true" if sort == "pl" else "tt"), L.const(True)
    yield ("false" if sort == "pl" else "ff"), L.const(False)
    if sort in ("ltl", "pltl"):
        yield "true", L.new("PropositionalTrue")
        yield "false", L.new("PropositionalFalse")


BUDGET = [120.0]


def instances(p, sort, text, want, holes):
    """Instances of a template: all atoms; then (within a budget) other formulas in each hole."""
    used = [c for c in dict.fromkeys(text) if c in holes]
    sorts = {c: "re" if holes[c][1] == "both" else "ldl" if holes[c][1] == "mod" else "pl" if sort == "ldl" else sort for c in used}
    pick = {c: list(variants(p, sorts[c], f"zh{i}")) for i, c in enumerate(used)}

    def make(choice):
        out = "".join(choice[c][0] if c in choice else c for c in text)
        return out, subst(want, {holes[c][0]: choice[c][1] for c in used})

    atoms = {c: pick[c][0] for c in used}
    yield make(atoms)
    closed = [c for c in used if all(text[i - 1] in "([<" and text[i + 1] in ")]>" for i, x in enumerate(text) if x == c and 0 < i < len(text) - 1)
              and text[0] != c and text[-1] != c]
    import time

    for i in range(1, max([len(v) for v in pick.values()] or [0])):
        for c in closed:
            if i < len(pick[c]) and BUDGET[0] > 0:
                t0 = time.time()
                yield make({**atoms, c: pick[c][i]})
                BUDGET[0] -= time.time() - t0


def template(p, sort, text, want, holes):
    """Check a template; returns (ok, text of the counterexample, what it gives, where)."""
    where, why = None, None
    try:
        t, err, where, _, _ = parse(p, sort, text, holes)
        w = term(p, want, p.fresh())
        if err is None and t == w:
            return True, None, None, None, None
    except Undecided as e:
        why = e
    for text2, want2 in instances(p, sort, text, want, holes):
        try:
            ok, got, where2 = same(p, sort, text2, want2)
        except Undecided:
            continue
        if not ok:
            return False, text2, got, where2 or where, want2
    raise why or Undecided(f"holds for the instances tried, but the template {text!r} does not parse by itself")
