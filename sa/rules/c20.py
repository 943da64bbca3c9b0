"""C20: constructors keep exactly the components they were given."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .c11 import methods
from .shapes import shapes

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    base = lambda n: p.cls("base", n)
    consts = (base("TrueFormula"), base("FalseFormula"))
    rep.rule = (
        "on every path of a construction that returns an unsimplified formula, each public accessor gives a value equal to the "
        "component it was built with, sequences with the same length and order, also when read again after other uses of the "
        "formula; no path of a construction with a wrong number of arguments returns"
    )
    rep.explanation = (
        "Every class is constructed abstractly, through its metaclasses, from opaque components; the accessors are interpreted "
        "on the result. The condition under which an accessor differs from the component is a BDD over the equalities and "
        "classes of the components and must be unsatisfiable. The number of arguments runs from zero to a bound that exceeds "
        "every integer constant of the constructors."
    )
    rep.assumptions = [
        "operands of the boolean connectives are pairwise distinct, not complementary, not constants and not nested operators of "
        "the same class (otherwise they may be simplified: C03)",
        "a boolean connective of one operand may be that operand",
        "kinds of arguments are checked by C11, the spelling of names by C07",
    ]
    known, unknown = shapes(p)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    bound = min(max(5, p.max_const(f for f in methods(p) if f.module.name.endswith("syntax.base")) + 2), 6 if rep.tier == "quick" else 12)
    rep.counts["largest_arity"] = bound

    def place(s, name):
        f = s.cls.lookup(name)[0]
        while isinstance(f, Wrap):
            f = f.fn
        return f.where if isinstance(f, Fn) else None

    def unsat(q):
        if q:
            q = bdd.and_(q, E.axioms(q))
        return q

    def use(x, how, st):
        if how == "str":
            it.call(it.builtin_cls["str"], [x], {}, st)
        elif how == "repr":
            it.call(Ext("builtins.repr"), [x], {}, st)
        elif how == "hash":
            it.call(Ext("builtins.hash"), [x], {}, st)
        elif how == "negate":
            it.invert(x, st)
        elif how == "compare":
            it.eqv(x, Sym("other"), st)

    def distinct(s, xs, st):
        """Assume that nothing is simplified."""
        if not s.boolean or s.cls.name == "Not":
            return
        pc = st.pc
        for i, x in enumerate(xs):
            for y in xs[:i]:
                pc = bdd.and_(pc, bdd.not_(it.eqv(x, y, st)))
                if s.cls.name in ("And", "Or"):
                    for u, v in ((x, y), (y, x)):
                        if isinstance(u, Ref) or isinstance(v, Ref):  # built negations
                            pc = bdd.and_(pc, bdd.not_(it.eqv(u, it.invert(v, st), st)))
        if pc == 0:
            raise Undecided("the operands cannot be distinct")
        st.pc = pc

    def exposed(label, s, make, uses):
        st = p.fresh()
        comps = make(st)
        distinct(s, comps, st)
        if p.raises():
            raise Undecided(f"cannot make the operands: {p.raises()[0][2]!r}")
        out = []
        # other containers of terms
        args = [it.alloc(st, HList(c)) if isinstance(c, Tup) and "tuple" not in uses else c for c in comps]
        x = it.call(s.cls, args, {}, st)
        for pc, _, exc, where in p.raises():
            if unsat(pc):
                return [Violation(f"{s.name}/raises", f"{label} raises {exc!r}", where, model_text(bdd, bdd.pick(unsat(pc))))]
        if not st.pc:
            raise Undecided(f"{label} is never constructed")
        n = len(p.raises())
        for how in uses:
            if how == "negate" and (not s.cls.sub(p.Formula) or s.spec_logic("PL") == "RE"):
                continue  # terms and regular expressions have no negation
            use(x, how, st)
        for pc, _, exc, where in p.raises()[n:]:
            if unsat(pc):
                raise Undecided(f"{how} raises {exc!r}")
        n = len(p.raises())
        for g, o in it.alts(x, st.pc):
            g = unsat(g)
            if not g:
                continue
            if it.class_of(o, st) is not s.cls:
                out.append(Violation(f"{s.name}/class", f"{label} gives {it.canon_v(o, st)!r}", place(s, "__init__"), model_text(bdd, bdd.pick(g))))
                continue
            st1 = st.fork(g, bdd)
            for i, (kind, acc) in enumerate(s.parts):
                if s.variadic and i:
                    break
                got = it.getattr(o, acc, st1)
                rep.count("accessors_read")
                for pc, _, exc, where in p.raises()[n:]:
                    if unsat(pc):
                        out.append(Violation(f"{s.name}/{acc}", f"reading {acc} of {label} raises {exc!r}", where, model_text(bdd, bdd.pick(unsat(pc)))))
                        return out
                if s.variadic or kind == "terms":
                    want = comps if s.variadic else list(comps[i].items)
                    bad = sequence(got, want, st1)
                else:
                    bad = bdd.and_(st1.pc, bdd.not_(it.eqv(got, comps[i], st1)))
                bad = unsat(bad)
                if bad:
                    want = Tup(comps) if s.variadic else comps[i]
                    out.append(Violation(f"{s.name}/{acc}", f"{label}{' after ' + ', '.join(uses) if uses else ''} exposes {acc} = {it.canon_v(got, st1)!r} instead of {want!r}",
                                         place(s, acc) or place(s, "__init__"), model_text(bdd, bdd.pick(bad))))
        return out

    def sequence(got, want, st):
        """Condition under which got is not the sequence of the values."""
        bad = 0
        for g, v in it.alts(got, st.pc):
            st1 = st.fork(g, bdd)
            if not (isinstance(v, Tup) or isinstance(v, Ref) and isinstance(it.rec(st, v.id), HList)):
                bad = bdd.or_(bad, g)
                continue
            c = v if isinstance(v, Tup) else it.seq_content(v, st1)
            for h, t in it.alts(c, g):
                if not isinstance(t, Tup):
                    raise Undecided(f"cannot see the items of {t!r}")
                if len(t.items) != len(want):
                    bad = bdd.or_(bad, h)
                    continue
                s2 = st.fork(h, bdd)
                for a, b in zip(t.items, want):
                    bad = bdd.or_(bad, bdd.and_(h, bdd.not_(it.eqv(a, b, s2))))
        return bad

    def rejected(label, key, s, make):
        st = p.fresh()
        args = make(st)
        if p.raises():
            raise Undecided(f"cannot make the arguments: {p.raises()[0][2]!r}")
        args = [it.alloc(st, HList(c)) if isinstance(c, Tup) else c for c in args]
        v = it.call(s.cls, args, {}, st)
        rep.count("constructions")
        q = unsat(st.pc)
        if q:
            return [Violation(key, f"{label} is accepted and gives {it.canon_v(v, st)!r}", place(s, "__init__"), model_text(bdd, bdd.pick(q)))]

    def opaque(name, logic, no=()):
        return Sym(name, p.Formula, False, (("logic", p.logic(logic)),) + ((("#not", tuple(no)),) if no else ()))

    USES = ((), ("str",), ("hash", "compare"), ("negate", "repr", "hash"))
    for s in known:
        logics = s.operand_logics()
        if s.const and s.parts:
            logics = ["PL", "LTL", "PLTL", "LDL", "FOL", "PLDL", "MSO", "RE"]
        if s.const and not s.parts:
            rep.obligation(f"{s.name}()", exposed, f"{s.name}()", s, lambda st: [], ())
        for logic in logics if s.parts else ():
            for n in range(2, bound + 1) if s.variadic else (None,):
                def make(st, n=n, logic=logic):
                    comps = s.components("x", logic, n)
                    if s.boolean:
                        no = ((base("Not"),) if s.cls.name == "Not" else (s.cls,)) + consts
                        if s.cls.name in ("And", "Or"):
                            no += (base("Not"),)
                        comps = [Sym(c.name, c.cls, False, tuple(c.attrs.items()) + (("#not", no),)) for c in comps]
                    return comps

                lab = f"{s.name}{'/%d' % n if n else ''} over {logic}"
                for uses in USES:
                    if n and n > 3 and uses:
                        continue
                    rep.obligation(f"{lab} {uses}", exposed, lab, s, make, uses)
                if s.boolean and s.variadic and n <= 3:
                    # nested and negated operands
                    for i in range(n):
                        for what in ("negation", "other connective", "implication"):
                            def nest(st, i=i, what=what, make=make, logic=logic):
                                xs = make(st)
                                y, z = opaque("y", logic, (base("And"), base("Or"), base("Not")) + consts), opaque("z", logic, (base("And"), base("Or"), base("Not")) + consts)
                                if what == "negation":
                                    xs[i] = it.build(base("Not"), [y], st)
                                elif what == "implication":
                                    xs[i] = it.build(base("Implies" if s.cls.name != "Implies" else "Equivalence"), [y, z], st)
                                else:
                                    xs[i] = it.build(base("Or" if s.cls.name != "Or" else "And"), [y, z], st)
                                return xs
                            rep.obligation(f"{lab} with a {what} at {i}", exposed, f"{lab} with a {what} at {i}", s, nest, ())
        if s.parts and s.parts[0][0] == "name":
            names = [K(n) for n in ("a", "_", "true", "a-b", "a__b9", "longer_name", '"a"', '"A b-c"', '" "', '"\'"', '"()"')]
            if not s.cls.sub(base("AbstractAtomic")):
                names += [K("P"), K("X y"), Sym("anyname", it.builtin_cls["str"], True)]
            for nm in names:
                lab = f"{s.name} named {nm!r}"
                rep.obligation(lab, exposed, lab, s, lambda st, nm=nm: [nm] + s.components("x", logics[0])[1:], ())
        if any(k == "terms" for k, _ in s.parts):
            for n in range(0, bound + 1):
                for uses in ((), ("tuple",), ("str", "hash", "compare")):
                    lab = f"{s.name} with {n} terms"
                    rep.obligation(f"{lab} {uses}", exposed, lab, s, lambda st, n=n: s.components("x", "FOL", terms=n), uses)
            # the same term twice
            lab = f"{s.name} with a repeated term"
            t, u = Sym("t", p.cls("fol", "Term")), Sym("u", p.cls("fol", "Term"))
            rep.obligation(lab, exposed, lab, s, lambda st: [K("a"), Tup([t, u, t])], ())
        rep.sample(f"{s.name}: {', '.join(a for _, a in s.parts) or 'no components'}")

    # numbers of arguments
    required = {"name": 1, "terms": 1, "value": 0, "logic": 0, "formula": 1, "re": 1, "variable": 1}
    for s in known:
        most = len(s.parts)
        least = sum(required[k] for k, _ in s.parts)
        if s.cls is p.cls("fol", "Constant"):
            least = 1
        if any(k == "terms" for k, _ in s.parts) and s.cls.sub(p.Formula):
            least = 1  # predicates without operands
        if s.variadic:
            least, most = (1 if s.boolean else 2), 10 ** 9
        for logic in s.operand_logics() or ["PL"]:
            full = s.components("x", logic) if s.parts else []
            for k in range(0, max(bound, 5) + 1):
                if least <= k <= most:
                    continue
                extras = {
                    "formulas": lambda j: opaque(f"e{j}", logic),
                    "names": lambda j: K("b"),
                    "None": lambda j: NONE,
                    "constants": lambda j: B(j % 2),
                }
                if k <= len(full):
                    extras = {"nothing": None}
                for what, extra in extras.items():
                    def args(st, k=k, extra=extra, full=full):
                        return full[:k] + [extra(j) for j in range(k - len(full))] if extra else full[:k]

                    lab = f"{s.name} over {logic} with {k} arguments" + (f" (extra {what})" if extra else "")
                    rep.obligation(lab, rejected, lab, f"{s.name}/arity", s, args)
            if s.const and s.parts:
                break

    # instances of predicates and functions by a call
    for s in known:
        if s.cls.lookup("__call__")[0] is None or not any(k == "terms" for k, _ in s.parts):
            continue
        for n in range(0, 4):
            for k in range(0, 5):
                def go(n=n, k=k, s=s):
                    st = p.fresh()
                    x = s.build(s.components("x", "FOL", terms=n), st)
                    ts = [Sym(f"u{j}", p.cls("fol", "Term")) for j in range(k)]
                    lab = f"{s.name} of {n} terms called with {k}"
                    r = it.call(x, ts, {}, st)
                    rep.count("constructions")
                    f = place(s, "__call__")
                    if n != k:
                        q = unsat(st.pc)
                        return [Violation(f"{s.name}/call", f"{lab} gives {it.canon_v(r, st)!r}", f, model_text(bdd, bdd.pick(q)))] if q else None
                    for pc, _, exc, where in p.raises():
                        if unsat(pc):
                            return [Violation(f"{s.name}/call", f"{lab} raises {exc!r}", where, model_text(bdd, bdd.pick(unsat(pc))))]
                    out = []
                    for g, o in it.alts(r, st.pc):
                        s1 = st.fork(g, bdd)
                        bad = g if it.class_of(o, s1) is not s.cls else bdd.or_(
                            sequence(it.getattr(o, "operands", s1), ts, s1),
                            bdd.and_(g, bdd.not_(it.eqv(it.getattr(o, "name", s1), K("a"), s1))))
                        q = unsat(bad)
                        if q:
                            out.append(Violation(f"{s.name}/call", f"{lab} gives {it.canon_v(o, st)!r}", f, model_text(bdd, bdd.pick(q))))
                    # the original is unchanged
                    for i, (kind, acc) in enumerate(s.parts):
                        got = it.getattr(x, acc, st)
                        comps = s.components("x", "FOL", terms=n)
                        q = unsat(sequence(got, list(comps[i].items), st) if kind == "terms" else bdd.and_(st.pc, bdd.not_(it.eqv(got, comps[i], st))))
                        if q:
                            out.append(Violation(f"{s.name}/call", f"{lab}: {acc} of the original becomes {it.canon_v(got, st)!r}", f, model_text(bdd, bdd.pick(q))))
                    return out
                rep.obligation(f"call of {s.name} {n} {k}", go)
