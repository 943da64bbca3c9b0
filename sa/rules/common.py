"""Specifications and helpers shared by the rules."""
from ..vals import *  # noqa


def operands(p, k, cls=None, prefix="x"):
    """k opaque formulas."""
    return [Sym(f"{prefix}{i}", cls or p.Formula) for i in range(k)]


def spec_truth(bdd, name, vals):
    """Truth table of a connective (documented reading)."""
    if name == "TrueFormula":
        return 1
    if name == "FalseFormula":
        return 0
    if name == "Not":
        return bdd.not_(vals[0])
    if name == "And":
        return bdd.and_(*vals)
    if name == "Or":
        return bdd.or_(*vals)
    if name == "Implies":
        # right associative
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = bdd.implies(v, r)
        return r
    if name == "Equivalence":
        r = vals[0]
        for v in vals[1:]:
            r = bdd.iff(r, v)
        return r
    raise KeyError(name)


def ctor_kinds(p, c):
    """Kinds of the constructor parameters of a formula class, by the public hierarchy."""
    base = lambda n: p.cls("base", n)
    if c.sub(base("_BinaryOp")) and not is_quantifier(p, c) and not is_predicate(p, c):
        return ["formula", "formula"]
    if c.sub(base("_UnaryOp")):
        return ["formula"]
    if c.sub(base("AbstractAtomic")):
        return ["name"]
    return None


def is_quantifier(p, c):
    return c.sub(p.cls("fol", "ForAll")) or c.sub(p.cls("fol", "Exists"))


def is_predicate(p, c):
    return c.sub(p.cls("fol", "Predicate"))


def instance(p, c, st, prefix="x", n=None):
    """A formula of class c with opaque components, built by its constructor."""
    it = p.it
    bc = it.builtin_cls
    if is_predicate(p, c):
        args = [K("p"), it.alloc(st, HList(Tup([Sym(prefix + "t", p.cls("fol", "Variable"), True)])))]
    elif is_quantifier(p, c):
        args = [Sym(prefix + "v", p.cls("fol", "Variable"), True), Sym(prefix + "0", p.Formula)]
    elif c.sub(p.cls("ldl", "_TemporalFormula")):
        args = [Sym(prefix + "0", p.Formula, False, (("logic", p.logic("RE")),)),
                Sym(prefix + "1", p.Formula, False, (("logic", p.logic("LDL")),))]
    else:
        kinds = ctor_kinds(p, c)
        if kinds is None:
            args = []
        elif kinds == ["name"]:
            args = [K("a")]
        elif len(kinds) == 2:
            args = operands(p, n or 2, prefix=prefix)
        else:
            args = operands(p, 1, prefix=prefix)
    ref = it.build(c, args, st)
    if ref is None:
        raise Undecided(f"cannot build an instance of {c.qual}: {p.raises()[:1]}")
    return ref


def eq_axioms(it, f, den):
    """Axioms of the equality atoms in the support of f, as a BDD.

    den(term) is the denotation of a term (a BDD), or None if it is unknown.
    Equal terms denote the same; equality is transitive.
    """
    bdd = it.bdd
    ax = 1
    pairs = {}
    terms = []
    for a in bdd.support(f):
        if a[0] == "eq":
            x, y = a[1], a[2]
            for t in (x, y):
                if t not in terms:
                    terms.append(t)
            pairs[frozenset((x, y))] = bdd.atom(a)
            dx, dy = den(x), den(y)
            if dx is not None and dy is not None:
                ax = bdd.and_(ax, bdd.implies(bdd.atom(a), bdd.iff(dx, dy)))
    get = lambda x, y: pairs.get(frozenset((x, y)))
    for i, x in enumerate(terms):
        for j, y in enumerate(terms):
            if j <= i:
                continue
            for z in terms[j + 1:]:
                e = [get(x, y), get(y, z), get(x, z)]
                if sum(t is not None for t in e) == 3:
                    a, b, c = e
                    for p, q, r in ((a, b, c), (b, c, a), (a, c, b)):
                        ax = bdd.and_(ax, bdd.implies(bdd.and_(p, q), r))
    return ax


def den_formula(p, v, st, truth_of):
    """Truth of a formula value as a BDD over truth_of(opaque); None if not understood."""
    it = p.it
    bdd = it.bdd
    if isinstance(v, Alt):
        out = 0
        for g, b in it.alts(v, st.pc):
            d = den_formula(p, b, st, truth_of)
            if d is None:
                return None
            out = bdd.or_(out, bdd.and_(g, d))
        return out
    if isinstance(v, New):
        v = it.materialise(v, st)
    if isinstance(v, Sym):
        return truth_of(v)
    if isinstance(v, App):
        if v.op == "invert":
            d = den_formula(p, v.args[0], st, truth_of)
            return None if d is None else bdd.not_(d)
        if v.op == "inst":
            return den_canon(p, v, st, truth_of)
        return None
    if isinstance(v, Ref):
        r = it.rec(st, v.id)
        if not isinstance(r, HInst):
            return None
        for n in ("TrueFormula", "FalseFormula"):
            if r.cls.sub(p.cls("base", n)):
                return int(n == "TrueFormula")
        if r.cls.sub(p.cls("base", "Not")):
            d = den_formula(p, attr(p, v, "argument", st), st, truth_of)
            return None if d is None else bdd.not_(d)
        for n in ("And", "Or", "Implies", "Equivalence"):
            if r.cls.sub(p.cls("base", n)):
                ops = it.seq_content(attr(p, v, "operands", st), st)
                if ops is None:
                    return None
                out = 0
                for g, t in it.alts(ops, st.pc):
                    if not isinstance(t, Tup):
                        return None
                    ds = [den_formula(p, x, st, truth_of) for x in t.items]
                    if any(d is None for d in ds) or not ds:
                        return None
                    out = bdd.or_(out, bdd.and_(g, spec_truth(bdd, n, ds)))
                return out
    return None


def attr(p, v, name, st):
    """An accessor of a formula."""
    return p.it.each(v, st, lambda b, s: p.it.getattr(b, name, s))


def den_canon(p, t, st, truth_of):
    """Truth of a canonical instance term App("inst", cls, (field, value)...)."""
    it = p.it
    bdd = it.bdd
    cls = t.args[0]
    fields = {f.items[0].value: f.items[1] for f in t.args[1:]}
    for n in ("TrueFormula", "FalseFormula"):
        if cls.sub(p.cls("base", n)):
            return int(n == "TrueFormula")
    seqs = [v for v in fields.values() if isinstance(v, App) and v.op == "list" or isinstance(v, Tup)]
    if cls.sub(p.cls("base", "Not")):
        vals = [v for v in fields.values() if not isinstance(v, (K, EnumM))]
        if len(vals) == 1:
            d = den_formula(p, vals[0], st, truth_of)
            return None if d is None else bdd.not_(d)
        return None
    for n in ("And", "Or", "Implies", "Equivalence"):
        if cls.sub(p.cls("base", n)) and len(seqs) == 1:
            s = seqs[0].args[0] if isinstance(seqs[0], App) else seqs[0]
            if not isinstance(s, Tup):
                return None
            ds = [den_formula(p, x, st, truth_of) for x in s.items]
            if any(d is None for d in ds):
                return None
            return spec_truth(bdd, n, ds)
    return None


def truth_axioms(p, f, st, den):
    """Axioms of the atoms of f that relate formulas to their truth."""
    it = p.it
    bdd = it.bdd
    ax = eq_axioms(it, f, lambda t: den(t, st))
    exact = {}
    for a in bdd.support(f):
        if a[0] in ("exact", "isinst"):
            for n, v in (("TrueFormula", 1), ("FalseFormula", 0)):
                if a[2].sub(p.cls("base", n)):
                    d = den(a[1], st)
                    if d is not None:
                        ax = bdd.and_(ax, bdd.implies(bdd.atom(a), bdd.iff(d, v)))
        if a[0] == "exact":
            exact.setdefault(a[1], []).append(bdd.atom(a))
    for ts in exact.values():
        for i, x in enumerate(ts):
            for y in ts[i + 1:]:
                ax = bdd.and_(ax, bdd.not_(bdd.and_(x, y)))
    # complements: inv(x) == y iff x == inv(y)
    sup = [a for a in bdd.support(f) if a[0] == "eq"]
    inv = lambda t: t.args[0] if isinstance(t, App) and t.op == "invert" else App("invert", t)
    for a in sup:
        for b in sup:
            if a is not b and {a[1], a[2]} == {inv(b[1]), inv(b[2])}:
                ax = bdd.and_(ax, bdd.iff(bdd.atom(a), bdd.atom(b)))
    return ax
