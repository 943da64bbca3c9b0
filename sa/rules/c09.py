"""C09: formulas survive pickling and copying."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .shapes import shapes

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "for an instance x of every class, rebuilding x from what its state hooks save (copy, deepcopy, pickle) "
        "gives an instance of the same class equal to x, with the same components and a freshly computed hash; x and "
        "its attributes are unchanged; the saved state contains nothing tied to the process or shared with x"
    )
    rep.explanation = (
        "The protocol of copy and pickle (reduce, __getnewargs__, __getstate__, __new__, __setstate__, the dictionary of "
        "the object) is modelled; the hooks of the package, including the ones installed by metaclasses, are interpreted "
        "abstractly on instances with opaque components, with and without a memoised hash."
    )
    rep.assumptions = ["components restore to equal components (induction)", "CPython 3.12 pickle/copy protocol, as modelled"]
    known, unknown = shapes(p)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")

    def comps(s, logic, n):
        out = s.components("x", logic, n)
        if s.cls.name == "Not":  # instances never negate a negation or a constant
            no = tuple(p.cls("base", k) for k in ("Not", "TrueFormula", "FalseFormula"))
            out = [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", no),)) for x in out]
        return out

    def bad_parts(v, st, seen=()):
        """Parts of a saved state that another process cannot restore."""
        if isinstance(v, Alt):
            for _, b in it.alts(v, st.pc):
                yield from bad_parts(b, st, seen)
        elif isinstance(v, (Fn, Bound, Part)):
            f = v
            while not isinstance(f, Fn) and isinstance(f, (Bound, Part)):
                f = f.fn
            if isinstance(f, Fn) and ("<" in f.qual or f.name == "<lambda>"):
                yield f"the local function {f!r}"
        elif isinstance(v, Tup):
            for a in v.items:
                yield from bad_parts(a, st, seen)
        elif isinstance(v, Ref) and v.id not in seen:
            r = it.rec(st, v.id)
            seen = seen + (v.id,)
            if isinstance(r, HList):
                yield from bad_parts(r.content, st, seen)
            elif isinstance(r, HMap):
                for k, w, g in r.entries:
                    yield from bad_parts(k, st, seen)
                    if w is not None:
                        yield from bad_parts(w, st, seen)

    def snapshot(o, st):
        r = it.rec(st, o.id)
        return {k: it.canon_v(v, st) for k, v in r.attrs.items() if "hash" not in k}

    def check(label, s, xs, how, hashed, twice):
        st = p.fresh()
        it.dicts_assigned = []
        a = s.build(xs, st)
        twin = s.build(xs, st)
        if a is None or twin is None or p.raises():
            raise Undecided(f"cannot build {s.name}: {p.raises()[:1]}")
        key = f"{s.name}/{how}"
        out = []
        hf = it.call(Ext("builtins.hash"), [twin], {}, st)
        if hashed:
            it.call(Ext("builtins.hash"), [a], {}, st)
        before = snapshot(a, st)
        deep, hooks = how != "copy", how != "pickle"
        if how == "pickle":
            for name in ("__getstate__", "__getnewargs__"):
                if it.user_attr(a, name, st) is not None:
                    for w in bad_parts(it.dunder(a, name, [], st), st):
                        out.append(Violation(f"{key}/process", f"{label}: the pickled state contains {w}", E.place(s, name)))
                elif name == "__getstate__":
                    for k, v in it.rec(st, a.id).attrs.items():
                        for w in bad_parts(v, st):
                            out.append(Violation(f"{key}/process", f"{label}: attribute {k} holds {w}, which is pickled", E.place(s, "__init__")))
        it.other_process = how == "pickle"
        try:
            b = it.copy_object(a, st, deep, hooks)
            if twice and st.pc:
                b = it.each(b, st, lambda o, s1: it.copy_object(o, s1, deep, hooks))
        finally:
            it.other_process = False
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                out.append(Violation(f"{key}/raises", f"{label}: raises {exc!r}", where, model_text(bdd, bdd.pick(q))))
        if out or not st.pc:
            return out
        for g, o in it.alts(b, st.pc):
            g = bdd.and_(g, E.axioms(g))
            if not g:
                continue
            c = it.class_of(o, st)
            if c is not s.cls:
                out.append(Violation(f"{key}/class", f"{label}: gives {it.canon(o, st)!r}, which is not a {s.name}", None, model_text(bdd, bdd.pick(g))))
                continue
            if isinstance(o, Ref) and o != a:
                for x, v in it.dicts_assigned:
                    if x == o and v == App("__dict__", a):
                        out.append(Violation(f"{key}/shared", f"{label}: the copy shares the dictionary of the original", E.place(s, "__setstate__")))
            for x, y in ((a, o), (o, a), (twin, o)):
                ne = bdd.and_(g, bdd.not_(it.eq(x, y, st)))
                ne = bdd.and_(ne, E.axioms(ne))
                if ne:
                    out.append(Violation(f"{key}/eq", f"{label}: gives {it.canon(o, st)!r}, not equal to the original", E.place(s, "__getstate__"), model_text(bdd, bdd.pick(ne))))
                    break
            # the public components
            for (kind, acc), i in zip(s.parts, range(len(s.parts))):
                if s.variadic and i:
                    break
                u = it.each(a, st, lambda z, s1: it.getattr(z, acc, s1))
                v = it.each(o, st, lambda z, s1: it.getattr(z, acc, s1))
                ne = bdd.and_(g, bdd.not_(it.eqv(u, v, st)))
                ne = bdd.and_(ne, E.axioms(ne))
                if ne:
                    out.append(Violation(f"{key}/components", f"{label}: the restored {acc} is {v!r}, not {u!r}", E.place(s, "__getstate__"), model_text(bdd, bdd.pick(ne))))
            h = it.call(Ext("builtins.hash"), [o], {}, st)
            if st.pc:
                d = bdd.and_(g, bdd.not_(E.same_hash(hf, h, st)))
                d = bdd.and_(d, E.axioms(d))
                if d:
                    out.append(Violation(f"{key}/hash", f"{label}: the restored hash is {h!r}, a fresh one {hf!r}", E.place(s, "__setstate__"), model_text(bdd, bdd.pick(d))))
        after = snapshot(a, st)
        if after != before:
            out.append(Violation(f"{key}/original", f"{label}: the original changes from {before!r} to {after!r}", E.place(s, "__getstate__")))
        if st.pc:
            d = bdd.and_(st.pc, bdd.not_(it.eq(a, twin, st)))
            d = bdd.and_(d, E.axioms(d))
            if d:
                out.append(Violation(f"{key}/original", f"{label}: the original is no longer equal to a fresh copy of itself", E.place(s, "__getstate__"), model_text(bdd, bdd.pick(d))))
            h = it.call(Ext("builtins.hash"), [a], {}, st)
            if st.pc and E.same_hash(hf, h, st) != 1:
                out.append(Violation(f"{key}/original", f"{label}: the hash of the original changes to {h!r}", E.place(s, "__getstate__")))
        for pc, _, exc, where in p.raises():
            q = bdd.and_(pc, E.axioms(pc))
            if q:
                out.append(Violation(f"{key}/raises", f"{label}: using the result raises {exc!r}", where, model_text(bdd, bdd.pick(q))))
        rep.count("copies_modelled")
        return out

    def importable(label, c):
        m = it.modules.get(c.module)
        v = it.mod_attr(m, c.name, p.fresh()) if m is not None else None
        if v is not c:
            return [Violation(f"{c.name}/import", f"{label}: pickle looks the class up as {c.module}.{c.name}, which is {v!r}", c.qual)]

    for s in known:
        rep.obligation(f"{s.name} is importable", importable, s.name, s.cls)
        for logic in s.operand_logics():
            for n in (2, 3) if s.variadic else (None,):
                for how in ("copy", "deepcopy", "pickle"):
                    for hashed in (False, True):
                        for twice in (False, True):
                            if twice and logic != s.operand_logics()[0]:
                                continue
                            lab = f"{how}{' of the ' + how if twice else ''} of {s.name}{'/%d' % n if n else ''} over {logic}{', hash memoised' if hashed else ''}"
                            rep.obligation(lab, check, lab, s, comps(s, logic, n), how, hashed, twice)
                rep.sample(f"{s.name} over {logic}: copy, deepcopy and pickle restore an equal object")
        if any(k == "terms" for k, _ in s.parts):
            for n in (0, 1, 3):
                for how in ("copy", "deepcopy", "pickle"):
                    lab = f"{how} of {s.name} with {n} terms"
                    rep.obligation(lab, check, lab, s, s.components("x", "FOL", terms=n), how, True, False)
    rep.count("classes", len(known))
