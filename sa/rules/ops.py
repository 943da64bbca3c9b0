"""The operations of the library on formulas, and what a user can observe of a value."""
from ..vals import *  # noqa
from .proofs import Proofs
from .shapes import shapes, LOGICS

RULES = ("and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i", "forall_e",
         "forall_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise")
PRINTED = ("PL", "LTL", "PLTL", "LDL", "RE")


class Ops:
    def __init__(self, p):
        self.p, self.it, self.bdd = p, p.it, p.it.bdd
        self.P = Proofs(p)
        self.known, self.unknown = shapes(p)
        self.by_cls = {s.cls: s for s in self.known}
        self.base = lambda n: p.cls("base", n)
        self.to_string = p.name("utils.to_string", "to_string")
        self.tag = ""  # prefix of the names of the other arguments
        self.evaluate = p.name("semantics.pl", "evaluate_pl")

    # ------------------------------------------------------------ values

    def opaque(self, name, logic, no=()):
        return Sym(name, self.p.Formula, False, (("logic", self.p.logic(logic)),) + ((("#not", tuple(no)),) if no else ()))

    def plain(self, name, logic):
        """An opaque formula that is not a connective or a constant."""
        return self.opaque(name, logic, self.P.excluded[1:])

    def comps(self, s, logic, n, prefix="x", terms=2):
        out = s.components(prefix, logic, n, terms=terms)
        return [Sym(x.name, x.cls, False, tuple(x.attrs.items()) + (("#not", self.P.excluded[1:]),))
                if isinstance(x, Sym) and x.cls is self.p.Formula else x for x in out]

    def subjects(self, arities=(2, 3), nested=True, every=True):
        """[(label, shape, logic of the operands, logic of the formula, make(st, prefix))]"""
        out = []
        for s in self.known:
            logics = s.operand_logics() if not (s.const and s.parts) else ["PL", "LTL", "FOL"]
            if not every:
                logics = logics[:1]
            for logic in logics:
                for n in arities if s.variadic else (None,):
                    lab = f"{s.name}{'/%d' % n if n else ''} over {logic}"

                    def make(st, prefix="x", s=s, logic=logic, n=n):
                        return s.build(self.comps(s, logic, n, prefix), st)

                    own = s.spec_logic(logic) or logic
                    out.append((lab, s, logic, own, make))
                    if not nested or n and n > 2:
                        continue
                    for i, (k, _) in enumerate(s.parts):
                        if k not in ("formula", "terms"):
                            continue
                        for inner in self.inner(s, logic, k):
                            def make(st, prefix="x", s=s, logic=logic, n=n, i=i, inner=inner):
                                cs = self.comps(s, logic, n, prefix)
                                cs[i] = inner(st, prefix)
                                return s.build(cs, st)

                            out.append((f"{lab} with {inner.label} as component {i + 1}", s, logic, own, make))
        return out

    def leaf(self, name, logic, st):
        if logic != "FOL":
            return self.plain(name, logic)
        term = Sym(name + "t", self.p.cls("fol", "Variable"), True)
        return self.it.build(self.p.cls("fol", "Predicate"), [K("P" + name), self.it.alloc(st, HList(Tup([term])))], st)

    def inner(self, s, logic, kind):
        """Compound components of a formula."""
        b, it = self.base, self.it
        if kind == "terms":
            f = self.p.cls("fol", "Function")

            def g(st, prefix):
                t = it.build(f, [K("f"), it.alloc(st, HList(Tup([Sym(prefix + "s", self.p.cls("fol", "Variable"), True)])))], st)
                return Tup([t, Sym(prefix + "t", self.p.cls("fol", "Term"))])

            g.label = "a function term"
            return [g]
        if logic not in LOGICS:
            if logic == "RE":
                def g(st, prefix):
                    return it.build(self.p.cls("ldl", "Star"), [self.opaque(prefix + "i", "RE")], st)
                g.label = "an iteration"
                return [g]
            return []
        out = []
        if logic == "FOL":
            def g(st, prefix):
                return self.leaf(prefix + "i", logic, st)
            g.label = "a predicate"
            out.append(g)
        if s.cls.name != "Not":
            def g(st, prefix):
                return it.build(b("Not"), [self.leaf(prefix + "i", logic, st)], st)
            g.label = "a negation"
            out.append(g)

        for cls in ("And", "Implies"):
            def g(st, prefix, cls=cls):
                return it.build(b(cls), [self.leaf(prefix + "i", logic, st), self.leaf(prefix + "j", logic, st)], st)
            g.label = "a conjunction" if cls == "And" else "an implication"
            out.append(g)
        return out

    # ------------------------------------------------------------ operations

    def ops(self, s, own, simple=False):
        """[(label, fn(x, st))] of the operations that take a formula of the shape and logic."""
        it, p, bdd = self.it, self.p, self.bdd
        call = lambda f: (lambda x, st: it.call(f, [x], {}, st))
        formula = s.cls.sub(p.Formula)
        connect = formula and own in LOGICS
        out = [("hash(x)", call(Ext("builtins.hash"))), ("str(x)", call(it.builtin_cls["str"])), ("repr(x)", call(Ext("builtins.repr")))]

        def twin(st):
            return s.build(s.components(self.tag + "t", s.operand_logics()[0], 2 if s.variadic else None), st)

        for name, other in (
            ("an instance", twin), ("an arbitrary value", lambda st: Sym(self.tag + "other")), ("a text", lambda st: K("a")), ("None", lambda st: NONE),
        ):
            out.append((f"x == {name}", lambda x, st, other=other: B(it.eqv(x, other(st), st))))
            out.append((f"{name} == x", lambda x, st, other=other: B(it.eqv(other(st), x, st))))
        out.append(("x == x", lambda x, st: B(it.eqv(x, x, st))))

        def dunder(name, other, flip=False):
            def go(x, st):
                a, b = x, other(st, x)
                if flip:
                    a, b = b, a
                return it.each(a, st, lambda a1, s1: it.call(it.getattr(a1, name, s1), [b], {}, s1))
            return go

        if connect:
            y = lambda st, x: self.plain(self.tag + "y", own)
            conj = lambda st, x: it.build(self.base("And"), [self.plain(self.tag + "y", own), self.plain(self.tag + "z", own)], st)
            disj = lambda st, x: it.build(self.base("Or"), [self.plain(self.tag + "y", own), self.plain(self.tag + "z", own)], st)
            neg = lambda st, x: it.build(self.base("Not"), [self.plain(self.tag + "y", own)], st)
            same = lambda st, x: x
            not_x = lambda st, x: it.invert(x, st)
            top = lambda st, x: it.build(self.base("TrueFormula"), [p.logic(own)], st)
            bot = lambda st, x: it.build(self.base("FalseFormula"), [p.logic(own)], st)
            out.append(("~x", lambda x, st: it.invert(x, st)))
            out.append(("~~x", lambda x, st: it.each(it.invert(x, st), st, lambda v, s1: it.invert(v, s1))))
            out.append(("Not(x)", call(self.base("Not"))))
            for name, op in (("__and__", "&"), ("__or__", "|"), ("__rshift__", ">>")):
                for lab, o in (("y", y), ("(y & z)", conj), ("(y | z)", disj), ("~y", neg), ("x", same), ("~x", not_x)):
                    out.append((f"x {op} {lab}", dunder(name, o)))
                    if lab in ("(y & z)", "(y | z)"):
                        out.append((f"{lab} {op} x", dunder(name, o, True)))
            for cls in ("And", "Or", "Implies", "Equivalence"):
                for lab, o in (("y", y), ("(y & z)", conj), ("(y | z)", disj), ("x", same), ("~x", not_x), ("true", top), ("false", bot)):
                    out.append((f"{cls}(x, {lab})", lambda x, st, o=o, cls=cls: it.call(self.base(cls), [x, o(st, x)], {}, st)))
                    out.append((f"{cls}({lab}, x)", lambda x, st, o=o, cls=cls: it.call(self.base(cls), [o(st, x), x], {}, st)))
                out.append((f"{cls}(w, x, y)", lambda x, st, cls=cls: it.call(self.base(cls), [self.plain(self.tag + "w", own), x, self.plain(self.tag + "y", own)], {}, st)))
        # the other operators
        for o in self.known:
            if o.boolean or o.const and not o.parts:
                continue
            for i, (k, _) in enumerate(o.parts):
                if o.variadic and i > 1:
                    break
                ok = k == "formula" and formula and own in o.operand_logics() or k == "re" and own == "RE"
                ok = ok or k == "terms" and not formula or k == "variable" and s.cls.name == "Variable"
                if not ok:
                    continue

                def go(x, st, o=o, i=i, k=k):
                    cs = self.comps(o, own if k == "formula" else o.operand_logics()[0], 2 if o.variadic else None, self.tag + "y")
                    cs[i] = Tup([Sym(self.tag + "yt", p.cls("fol", "Term")), x]) if k == "terms" else x
                    return o.construct(cs, st)

                out.append((f"{o.name} with x as component {i + 1}", go))
        if formula and own in PRINTED:
            out.append(("to_string(x)", call(self.to_string)))
        if formula and own == "PL":
            for kind in ("set", "dict"):
                out.append((f"evaluate_pl(x, a {kind})", lambda x, st, kind=kind: it.call(self.evaluate, [x, Sym(self.tag + "I", it.builtin_cls[kind], True)], {}, st)))
                for n in (0, 2) if simple else ():
                    def small(x, st, kind=kind, n=n):
                        names = [Sym(self.tag + "k", it.builtin_cls["str"], True), K("a")][:n]
                        vals = [Sym(f"{self.tag}v{i}", it.builtin_cls["bool"], True) for i in range(n)]
                        I = it.alloc(st, HMap(tuple((k, None if kind == "set" else v, 1) for k, v in zip(names, vals)), kind))
                        return it.call(self.evaluate, [x, I], {}, st)

                    out.append((f"evaluate_pl(x, a {kind} of {n})", small))
        for how in ("copy", "deepcopy", "pickle"):
            out.append((f"{how} of x", lambda x, st, how=how: it.copy_object(x, st, how != "copy", how != "pickle")))
        # the checker descends into the scope of a quantifier
        for lab, o in self.proof_ops(s, own, simple and any(k == "variable" for k, _ in s.parts)):
            out.append((lab, o))
        if s.cls.lookup("__call__")[0] is not None:
            for n in (0, 1, 2):
                out.append((f"x(*{n} terms)", lambda x, st, n=n: it.call(x, [Sym(f"{self.tag}u{i}", p.cls("fol", "Term")) for i in range(n)], {}, st)))
        return out

    def proof_ops(self, s, own, opaque_scope=False):
        if own not in ("PL", "FOL") or opaque_scope:
            return
        P, it = self.P, self.it
        y_ = lambda: self.opaque(self.tag + "y", own, P.excluded[1:] + ((self.p.cls("fol", "Predicate"), self.base("Implies")) if own == "FOL" else ()))
        if s.cls.sub(self.p.Formula):
            cited = {"or_e": [1, 2, 3], "exists_e": [1, 2], "impl_i": [2], "neg_i": [2], "forall_i": [2], "premise": [], "assumption": [],
                     "and_i": [1, 4], "impl_e": [1, 4], "MT": [1, 4], "neg_e": [1, 4]}
            for r in RULES:
                def go(x, st, r=r):
                    y = y_()
                    box = [(None, x, "assumption", [])]
                    return B(P.check([(1, x, "premise", []), (2, box), (3, box), (4, y, "premise", []), (5, x, r, cited.get(r, [1]))], st))

                def back(x, st, r=r):
                    y = y_()
                    box = [("term", Sym(self.tag + "t", self.p.cls("fol", "Variable"), True)), (None, x, "assumption", []), (7, y, "copy", [4])]
                    return B(P.check([(1, x, "premise", []), (4, y, "premise", []), (2, box), (3, box), (8, y, r, cited.get(r, [1]))], st))

                yield f"checking x by {r}", go
                yield f"checking y by {r} from x", back
        elif s.cls.sub(self.p.cls("fol", "Term")):
            for r in ("forall_i", "exists_e"):
                def go(x, st, r=r):
                    f = it.build(self.p.cls("fol", "Predicate"), [K("P"), it.alloc(st, HList(Tup([x])))], st)
                    q = it.build(self.p.cls("fol", "ForAll" if r == "forall_i" else "Exists"), [Sym(self.tag + "v", self.p.cls("fol", "Variable"), True), f], st)
                    box = [("term", x), (None, f, "assumption", []), (3, f, "copy", [2])]
                    return B(P.check([(1, q, "premise", []), (2, box), (4, q, r, [2] if r == "forall_i" else [1, 2])], st))

                yield f"checking {r} of x", go

    # ------------------------------------------------------------ observation

    def observe(self, x, st, text=True):
        """What the public surface of a formula shows, frozen; st is not changed."""
        it = self.it
        s1 = st.fork(1, self.bdd)
        n = len(it.sink[-1])
        saved, it.effects = it.effects, []
        try:
            r = self.freeze(x, s1, text)
        finally:
            bad = it.sink[-1][n:]
            del it.sink[-1][n:]
            it.effects = saved
        if bad:
            r = App("obs", r, *[Tup((B(b[0]), b[2])) for b in bad])
        return r

    def freeze(self, v, st, text=False, depth=0):
        it = self.it
        if isinstance(v, Alt):
            return Alt(tuple((g, self.freeze(b, st.fork(g, self.bdd), text, depth)) for g, b in it.alts(v, st.pc)))
        if depth > 12:
            raise Undecided("a value that contains itself")
        if isinstance(v, New):
            v = it.materialise(v, st)
        if isinstance(v, Tup):
            return Tup([self.freeze(a, st, text, depth + 1) for a in v.items])
        if isinstance(v, Ref):
            r = it.rec(st, v.id)
            if isinstance(r, HList):
                return App("list", K(r.kind), self.freeze(r.content, st, text, depth + 1))
            if isinstance(r, HMap):
                return App(r.kind, r.opaque or NONE, *[
                    Tup((self.freeze(k, st, text, depth + 1), self.freeze(w, st, text, depth + 1) if w is not None else NONE, B(g))) for k, w, g in r.entries])
            if isinstance(r, HInst):
                s = self.by_cls.get(r.cls)
                if s is None:
                    if r.content is not None:
                        return App("inst", r.cls, self.freeze(r.content, st, text, depth + 1))
                    return App("inst", r.cls, *[Tup((K(k), self.freeze(w, st, text, depth + 1))) for k, w in sorted(r.attrs.items()) if "hash" not in k])
                out = []
                for i, (_, acc) in enumerate(s.parts):
                    if s.variadic and i:
                        break
                    out.append(self.freeze(it.getattr(v, acc, st), st, text, depth + 1))
                if s.cls.sub(self.p.Formula):
                    out.append(self.freeze(it.getattr(v, "logic", st), st))
                if text:
                    out.append(it.call(it.builtin_cls["str"], [v], {}, st))
                return App("obs", r.cls, *out)
        return v

    def differ(self, a, b, st):
        """The condition under which two frozen values differ."""
        bdd = self.bdd
        if a == b:
            return 0
        if isinstance(a, Alt) or isinstance(b, Alt):
            out = 0
            for g, x in self.it.alts(a, st.pc):
                for h, y in self.it.alts(b, g):
                    out = bdd.or_(out, bdd.and_(h, self.differ(x, y, st.fork(h, bdd))))
            return out
        if isinstance(a, B) and isinstance(b, B):
            return bdd.and_(st.pc, bdd.xor(a.bdd, b.bdd))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return bdd.or_(*[self.differ(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and a.op in ("obs", "inst", "list", "dict", "set") and len(a.args) == len(b.args):
            return bdd.or_(*[self.differ(x, y, st) for x, y in zip(a.args, b.args)])
        if isinstance(a, App) and isinstance(b, App) and {a.op, b.op} <= {"dict", "set"} and a.op == b.op and a.args[0] == b.args[0]:
            # the entries by key
            out = 0
            ea, eb = ({e.items[0]: e for e in t.args[1:]} for t in (a, b))
            for k in {**ea, **eb}:
                x, y = ea.get(k), eb.get(k)
                g, h = (e.items[2].bdd if e is not None else 0 for e in (x, y))
                out = bdd.or_(out, bdd.and_(st.pc, bdd.xor(g, h)))
                if x is not None and y is not None:
                    out = bdd.or_(out, bdd.and_(g, h, self.differ(x.items[1], y.items[1], st)))
            return out
        if isinstance(a, App) and isinstance(b, App) and a.op in ("obs", "inst", "list", "dict", "set") and (a.op != b.op or len(a.args) != len(b.args)):
            return st.pc
        if not isinstance(a, Val) or not isinstance(b, Val) or isinstance(a, Cls) or isinstance(b, Cls):
            return 0 if a is b else st.pc
        if any(isinstance(t, App) and t.op in ("obs", "inst", "list", "dict", "set") or isinstance(t, (Tup, K)) for t in (a, b)) and type(a) is not type(b):
            if not (isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (Str, B)) or isinstance(b, (Str, B))):
                return st.pc
        return bdd.and_(st.pc, bdd.not_(self.it.eqv(a, b, st)))
