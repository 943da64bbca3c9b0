"""C19: the native text of a formula identifies its structure."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .c11 import methods
from .shapes import shapes

LEVEL = "other"


def word(s):
    return s.replace("_", "").replace("-", "").lower()


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    E = Equality(p)
    rep.rule = (
        "on every path, str of an instance is a text made of literals and of the texts of its components, each component "
        "exactly once and in order, delimited by brackets and separators; the only word among the literals is the name of the "
        "operator; no two classes of one logic produce the same literals for the same number of components"
    )
    rep.explanation = (
        "The string methods are interpreted abstractly on instances whose components are opaque; the result is a sequence of "
        "literals and holes for the texts of the components, for all equalities between the components. By induction on the "
        "formula (the texts of the components identify the components) the text identifies operator, number and order of the "
        "components."
    )
    rep.assumptions = [
        "names of predicates, functions and terms may be any string; texts that coincide because of punctuation in names, or "
        "between a variable and a constant of the same name, are not covered",
        "the constants false of a logic share a text",
    ]
    known, unknown = shapes(p)
    for s in unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")
    bound = min(max(5, p.max_const(f for f in methods(p)) + 2), 6 if rep.tier == "quick" else 12)
    rep.counts["largest_arity"] = bound

    def place(s):
        f = s.cls.lookup("__str__")[0]
        while isinstance(f, Wrap):
            f = f.fn
        return f.where if isinstance(f, Fn) else None

    def native(s):
        for m in ("__str__", "__repr__"):
            f, c = s.cls.lookup(m)
            if f is not None and not c.builtin:
                return True
        return False

    def unsat(q):
        if q:
            q = bdd.and_(q, E.axioms(q))
        return q

    def text(label, s, make, used):
        """[(guard, [literal or value])] of str of the instance."""
        st = p.fresh()
        comps = make(st)
        x = s.build(comps, st)
        if p.raises() or not st.pc:
            raise Undecided(f"cannot build {label}: {p.raises()[:1]}")
        for _ in range(2 if used else 1):
            if used:
                it.call(Ext("builtins.hash"), [x], {}, st)
                it.call(Ext("builtins.repr"), [x], {}, st)
            t = it.each(x, st, lambda b, s1: it.str_(b, s1))
        rep.count("texts")
        for pc, _, exc, where in p.raises():
            if unsat(pc):
                raise Violation(f"{s.name}/raises", f"str of {label} raises {exc!r}", where, model_text(bdd, bdd.pick(unsat(pc))))
        out = []
        for g, v in it.alts(t, st.pc):
            g = unsat(g)
            if g:
                out.append((g, list(v.key[0]) if isinstance(v, Str) else [v]))
        return comps, out, st

    def holes(s, comps, st):
        """The texts of the components, in order."""
        out = []
        for (kind, _), c in zip(s.parts if not s.variadic else [s.parts[0]] * len(comps), comps):
            if kind == "terms":
                out += [it.each(t, st, lambda b, s1: it.str_(b, s1)) for t in c.items]
            elif kind in ("value", "logic"):
                continue
            else:
                out.append(it.each(c, st, lambda b, s1: it.str_(b, s1)))
        return out

    skeletons = {}

    def check(label, s, n, make, used, op):
        comps, texts, st = text(label, s, make, used)
        want = holes(s, comps, st)
        for g, parts in texts:
            def bad(kind, msg):
                return [Violation(f"{s.name}/{kind}", f"str of {label} is {show(parts)}: {msg}", place(s), model_text(bdd, bdd.pick(g)))]

            lits, hs = [""], []
            for x in parts:
                if isinstance(x, K) and isinstance(x.value, str):
                    lits[-1] += x.value
                elif isinstance(x, str):
                    lits[-1] += x
                else:
                    hs.append(x)
                    lits.append("")
            if not op:  # atoms, predicates, terms: the name is a component
                if isinstance(want[0], K):
                    if not lits[0].startswith(want[0].value):
                        return bad("name", "does not begin with the name")
                    lits[0] = lits[0][len(want[0].value):]
                    hs, lits = [want[0]] + hs, [""] + lits
                elif lits[0]:
                    return bad("name", "does not begin with the name")
            if len(hs) != len(want):
                return bad("components", f"it has {len(hs)} texts of components instead of {len(want)}")
            for i, (a, b) in enumerate(zip(hs, want)):
                st1 = st.fork(g, bdd)
                d = unsat(bdd.and_(st1.pc, bdd.not_(it.eqv(a, b, st1))))
                if a != b and d:
                    return bad("components", f"component {i} is shown as {a!r}, expected {b!r}")
            if op:
                head, tail, inner = lits[0], lits[-1], lits[1:-1]
                names = "".join(c if c.isalnum() or c in "_-" else " " for c in " ".join(lits)).split()
                if [word(x) for x in names] != [word(s.cls.name)]:
                    return bad("operator", f"it does not name exactly the operator {s.cls.name}")
                if want and (not head or head[-1].isalnum() or head[-1] == "_" or any(not x or x[0].isalnum() or x[-1].isalnum() for x in inner)):
                    return bad("delimiters", "nothing separates the components")
            else:
                head, tail, inner = lits[1] if len(lits) > 2 else "", lits[-1] if len(lits) > 2 else "", lits[2:-1]
                if len(want) == 1:
                    if lits[1] not in ("", "()"):
                        return bad("name", "is not the name")
                    continue
                if any(c.isalnum() for x in lits for c in x):
                    return bad("delimiters", "has other words")
                if any(not x for x in inner):
                    return bad("delimiters", "nothing separates the components")
            pairs = {"(": ")", "[": "]", "{": "}", "<": ">"}
            if want and not any(a in head and b == tail[-1:] for a, b in pairs.items()):
                return bad("delimiters", "it is not enclosed in brackets")
            if op:
                skeletons.setdefault((n, tuple(lits)), []).append(s)

    def show(parts):
        return "'" + "".join(x if isinstance(x, str) else x.value if isinstance(x, K) and isinstance(x.value, str) else "{%r}" % (x,) for x in parts) + "'"

    def constants(logic):
        """The two constants of a logic have different texts."""
        out = []
        pairs = [(s, t) for s in known for t in known if s.const and t.const
                 and s.cls.sub(p.cls("base", "TrueFormula")) and t.cls.sub(p.cls("base", "FalseFormula"))]
        for s, t in pairs:
            st = p.fresh()
            x, y = (u.build([p.logic(logic)] if u.parts else [], st) for u in (s, t))
            a, b = (it.each(v, st, lambda o, s1: it.str_(o, s1)) for v in (x, y))
            rep.count("texts", 2)
            if p.raises():
                return [Violation("constants/raises", f"str of a constant of {logic} raises {p.raises()[0][2]!r}", p.raises()[0][3])]
            if bdd.and_(st.pc, it.eqv(a, b, st)):
                out.append(Violation("constants/same", f"{s.name} and {t.name} over {logic} share the text {a!r}", place(t) or place(s)))
        return out

    def nothing(s):
        return [Violation(f"{s.name}/none", f"{s.name} has no text of its own: str shows the address of the object", s.cls.where if hasattr(s.cls, "where") else s.cls.qual)]

    for s in known:
        if s.const:
            continue
        if not native(s):
            rep.obligation(f"{s.name} has a text", nothing, s)
            continue
        op = s.cls.sub(p.Formula) and not s.cls.sub(p.cls("base", "AbstractAtomic")) and s.cls.name != "Predicate"
        rep.sample(f"{s.name}: native text by {place(s)}")
        for logic in s.operand_logics():
            if any(k == "terms" for k, _ in s.parts):
                counts = range(0, bound)
            else:
                counts = range(2, bound + 1) if s.variadic else (None,)
            for n in counts:
                names = [K("a"), Sym("anyname", it.builtin_cls["str"], True)] if s.parts[0][0] == "name" else [None]
                if s.cls.sub(p.cls("base", "AbstractAtomic")):
                    names = [K("a"), K("_x"), K("a-b"), K('"Some text"'), K('"("')]
                for nm in names:
                    def make(st, n=n, nm=nm, logic=logic):
                        c = s.components("x", logic, n) if s.variadic else s.components("x", logic, terms=n or 0)
                        return ([nm] + c[1:]) if nm is not None else c

                    for used in (False, True):
                        if used and n and n > 3:
                            continue
                        lab = f"{s.name}{'/%s' % n if n is not None else ''} over {logic}" + (f" named {nm!r}" if nm is not None else "") + (", used before" if used else "")
                        rep.obligation(lab, check, lab, s, n if s.variadic else len(s.parts), make, used, op)
    for (n, lits), ss in sorted(skeletons.items(), key=repr):
        def clash(lits=lits, ss=ss):
            ss = list(dict.fromkeys(ss))
            out = []
            for i, s in enumerate(ss):
                for t in ss[:i]:
                    mine = {s.spec_logic(l) for l in s.operand_logics()}
                    if mine & {t.spec_logic(l) for l in t.operand_logics()}:
                        out.append(Violation("operators/same", f"{s.name} and {t.name} share the text {'{}'.join(lits)!r}", s.cls.qual))
            return out
        rep.obligation(f"classes with the text {'{}'.join(lits)}", clash)
    rep.counts["skeletons"] = len(skeletons)
    # operators with the same number of components must differ whatever the brackets; two logics may share names
    def symbols():
        out = []
        ops = [s for s in known if s.cls.lookup("SYMBOL")[0] is not None]
        for i, s in enumerate(ops):
            for t in ops[:i]:
                a, b = s.cls.lookup("SYMBOL")[0], t.cls.lookup("SYMBOL")[0]
                mine = {s.spec_logic(l) for l in s.operand_logics()}
                if a == b and mine & {t.spec_logic(l) for l in t.operand_logics()}:
                    out.append(Violation("operators/name", f"{s.name} and {t.name} have the same name {a!r}", s.cls.qual))
        return out
    rep.obligation("the names of the operators of one logic", symbols)
    for l in ("PL", "LTL", "PLTL", "LDL", "FOL", "PLDL", "MSO"):
        rep.obligation(f"the constants of {l}", constants, l)
