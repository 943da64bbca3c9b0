"""C04: printed formulas parse back to the same formula."""
from ..program import Program
from ..report import Violation
from ..vals import *  # noqa
from .lang import NAMES, SYM_KIND, Lang, err_text, parse, show, subst, term

LEVEL = "other"

SORTS = {"pl": ["pl"], "ltl": ["ltl"], "pltl": ["pltl"], "ldl": ["ldl", "re", "pl"]}


class Printer:
    """Round trips of one language."""

    def __init__(self, p, rep, lang):
        self.p, self.rep, self.lang = p, rep, lang
        self.to_string = p.name("utils.to_string", "to_string")
        self.L = {s: Lang(p, s) for s in SORTS[lang]}
        self.not_ = p.cls("base", "Not")
        self.consts = (p.cls("base", "TrueFormula"), p.cls("base", "FalseFormula"))
        self.n = 0

    def hole(self, sort):
        """An opaque formula of the sort."""
        self.n += 1
        return Sym(f"{sort}{self.n}", self.p.Formula, False, (("logic", self.L[sort].logic()),))

    def sort_of(self, x):
        for s, L in self.L.items():
            if x.attrs.get("logic") == L.logic():
                return s
        raise Undecided(f"opaque part {x!r}")

    def text(self, t, follow=True):
        """[(guard, text, holes)] of the printed form of a term.

        follow: helpers of the printer are entered also on opaque formulas, up to the call of the printer."""
        it = self.p.it
        st = self.p.fresh()
        it.raw = True
        if follow:
            it.cut_opaque, it.fn_hook = True, self.hook
        try:
            r = it.call(self.to_string, [t], {}, st)
        finally:
            it.raw = it.cut_opaque = False
            it.fn_hook = None
        if self.p.raises():
            _, _, exc, where = self.p.raises()[0]
            return None, exc, where
        out = []
        for g, b in it.alts(r, st.pc):
            b = self.opaque(b)
            holes = {}
            if isinstance(b, K) and isinstance(b.value, str):
                out.append((g, b.value, holes))
                continue
            parts = b.parts if isinstance(b, Str) else (b,)
            memo, s = {}, ""
            for q in parts:
                if isinstance(q, str):
                    s += q
                    continue
                x = self.opaque(q)
                if not isinstance(x, Sym):
                    raise Undecided(f"the printer yields {q!r}")
                if x not in memo:
                    memo[x] = chr(0xE000 + len(memo))
                    sort = self.sort_of(x)
                    kind = "sym" if sort == "pl" else SYM_KIND[sort]
                    holes[memo[x]] = (x, kind)
                s += memo[x]
            out.append((g, s, holes))
        return out, None, None

    def hook(self, fn, args, kwargs, st):
        if fn is self.to_string and len(args) == 1 and not kwargs and isinstance(args[0], Sym):
            return App("call", self.to_string, Tup(args))

    def opaque(self, q):
        """The formula whose printed form is the part q."""
        while isinstance(q, App) and q.op == "str":
            q = q.args[0]
        if isinstance(q, App) and q.op == "call" and q.args[0] is self.to_string:
            a = q.args[1]
            a = a.items[0] if isinstance(a, Tup) and a.items else a
            return a
        if isinstance(q, App) and q.op == "call" and q.args and isinstance(q.args[0], Entity):
            # a recursive helper of the printer over one formula
            a = q.args[1]
            if isinstance(a, Tup) and len(a.items) == 1 and isinstance(a.items[0], Sym):
                return a.items[0]
        return q

    def check(self, key, t):
        """Round trip of a term with holes."""
        rep = self.rep
        rep.count("terms")
        for follow in (True, False) if holes_of(t) else (True,):
            try:
                outs, exc, where = self.text(t, follow)
                if exc is None:
                    bad = []
                    for g, s, holes in outs:
                        got, err, where, _, _ = parse(self.p, self.lang, s, holes)
                        if err is not None or got != term(self.p, t, self.p.fresh()):
                            bad.append(s)
                    if not bad:
                        return []
            except Undecided:
                if not holes_of(t):
                    raise
        # a witness
        if not holes_of(t):
            w = t
        else:
            env = {}
            for i, x in enumerate(holes_of(t)):
                s = self.sort_of(x)
                n = NAMES[i] if i < len(NAMES) else f"zr{i}"
                env[x] = self.L["ldl"].atom(n)[1] if s == "ldl" else self.L["re"].prop(n) if s == "re" else New(
                    self.L[s].cls("Atomic"), (K(n),))
            w = subst(t, env)
        want = term(self.p, w, self.p.fresh())
        outs, exc, where = self.text(w)
        if exc is not None:
            return [Violation(key, f"{self.lang}: printing {show(want)} raises {err_text(exc)}", where)]
        for g, s, _ in outs:
            got, err, where, _, _ = parse(self.p, self.lang, s)
            if err is not None:
                return [Violation(key, f"{self.lang}: {show(want)} is printed as {s!r}, which is rejected ({err_text(err)})", where)]
            if got != want:
                return [Violation(key, f"{self.lang}: {show(want)} is printed as {s!r}, which is read as {show(got)}", where)]
        raise Undecided("holds for atoms in the holes, but not for the template by itself")

    def allowed(self, cls, sub):
        """Can the constructor build this term as written?"""
        if cls is self.not_ and isinstance(sub, New):
            return not sub.cls.sub(self.not_) and not any(sub.cls.sub(c) for c in self.consts)
        if isinstance(sub, New) and any(sub.cls is c for c in self.consts) and cls in (
                self.p.cls("base", "And"), self.p.cls("base", "Or")):
            return False
        return True

    def terms(self, sort, depth):
        """Terms of the sort, with holes at the leaves; one child position is expanded."""
        L = self.L[sort]
        for t in L.leaves(f"q{self.n}"):
            self.n += 1
            yield t
        for cls, args, variadic in L.constructors():
            arities = ((2, 3) if depth < 3 or self.rep.tier != "quick" else (2,)) if variadic else (len(args),)
            for k in arities:
                srts = (args * k)[:k] if variadic else args
                yield New(cls, [self.hole(s) for s in srts])
                if depth <= 1:
                    continue
                for i in range(k):
                    for sub in self.terms(srts[i], depth - 1):
                        if not self.allowed(cls, sub):
                            continue
                        ops = [self.hole(s) for s in srts]
                        ops[i] = sub
                        yield New(cls, ops)


def holes_of(t):
    out = []

    def go(x):
        if isinstance(x, Sym):
            if x not in out:
                out.append(x)
        elif isinstance(x, New):
            for a in x.args:
                go(a)

    go(t)
    return out


def run(root, rep):
    p = Program(root)
    rep.rule = (
        "for every constructor C: parse(print(C(x1..xk))) = C(x1..xk), where print is the abstractly interpreted printer "
        "over opaque x_i, and the text of x_i is read as one unit of its sort (induction on the formula)"
    )
    rep.explanation = (
        "The printer is interpreted abstractly on every constructor over opaque subformulas, giving a template; the "
        "template goes through the LALR tables of the grammar file and the abstractly interpreted transformer. Holding "
        "for every constructor with holes is the induction step for all depths. Nestings of two (thorough: three) "
        "constructors in every slot are checked in the same way, so a printer that looks at its children is covered."
    )
    rep.assumptions = [
        "the tables and terminal patterns that lark derives from the grammar files",
        "atom names are texts that the parser of the logic reads as symbols (C07)",
        "operand lists longer than the bound behave like those up to it",
    ]
    for lang in SORTS:
        pr = Printer(p, rep, lang)
        p.name("parsers." + lang, "parse_" + lang)
        for sort in SORTS[lang]:
            if sort != lang:
                continue
            L = pr.L[sort]
            for cls, args, variadic in L.constructors():
                if variadic:
                    for k in range(4, 8):
                        t = New(cls, [pr.hole(s) for s in (args * k)[:k]])
                        rep.obligation(f"{lang} {cls.name}/{k}", pr.check, f"{lang}/{cls.name}", t)
                    x = pr.hole(args[0])
                    rep.obligation(f"{lang} {cls.name} repeated", pr.check, f"{lang}/{cls.name}", New(cls, [x, pr.hole(args[1]), x]))
            depth = 3 if lang == "ldl" or rep.tier == "thorough" else 2
            for t in pr.terms(sort, depth):
                name = show(term(p, t, p.fresh()))
                rep.obligation(f"{lang} {name}", pr.check, f"{lang}/{t.cls.name}", t)
        if lang == "ldl":
            # regular expressions inside a modality
            for name in ("Diamond", "Box"):
                for t in pr.terms("re", 2 if rep.tier == "quick" else 3):
                    t = pr.L["ldl"].new(name, t, pr.hole("ldl"))
                    rep.obligation(f"{lang} {show(term(p, t, p.fresh()))}", pr.check, f"{lang}/{name}", t)
                for t in pr.terms("re", 1):
                    if t.cls.name in ("Seq", "Union") and len(t.args) == 2:
                        for k in range(4, 7):
                            t2 = pr.L["ldl"].new(name, New(t.cls, [pr.hole("re") for _ in range(k)]), pr.hole("ldl"))
                            rep.obligation(f"{lang} {t.cls.name}/{k}", pr.check, f"{lang}/{t.cls.name}", t2)
        # names are printed as they are
        for sort in SORTS[lang]:
            if sort not in ("ldl", "re"):
                rep.obligation(f"{sort} atom name", atom_name, p, pr, sort)


def atom_name(p, pr, sort):
    it = p.it
    n = Sym("name", it.builtin_cls["str"] if hasattr(it, "builtin_cls") and "str" in it.builtin_cls else None)
    a = New(pr.L[sort].cls("Atomic"), (n,))
    st = p.fresh()
    it.raw = True
    try:
        r = it.call(pr.to_string, [a], {}, st)
    finally:
        it.raw = False
    if p.raises():
        return [Violation(f"{sort}/Atomic", f"printing an atom of {sort} raises {err_text(p.raises()[0][2])}", p.raises()[0][3])]
    for g, b in it.alts(r, st.pc):
        while isinstance(b, App) and b.op == "str":
            b = b.args[0]
        if b != n:
            return [Violation(f"{sort}/Atomic", f"the atom with name n of {sort} is printed as {b!r}", None)]
    return []
