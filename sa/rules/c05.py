"""C05: every symbol of the languages builds the operator it denotes."""
from ..program import Program
from ..report import Violation
from ..vals import *  # noqa
from .lang import BINARY, NAMES, SYM_KIND, UNARY, Lang, adaptive, err_text, parse, same, show, template, term

LEVEL = "other"


def run(root, rep):
    p = Program(root)
    rep.rule = (
        "for every spelling s and arity k, the LALR table of the grammar file applied to s over opaque operands, "
        "followed by the abstractly interpreted transformer, builds exactly Class(x1..xk)"
    )
    rep.explanation = (
        "Templates (an operator over holes that stand for any formula of the language, or over marked atoms) are "
        "run through the LALR tables computed from the grammar files and the transformer methods found in the "
        "source, abstractly interpreted on the resulting tree; the term built is compared with the documented operator."
    )
    rep.assumptions = [
        "the tables and terminal patterns that lark derives from the grammar files",
        "arities above the bound behave like those below it (the handlers are uniform in the length of their list)",
    ]
    top = 6 if rep.tier == "quick" else 10
    for sort in ("pl", "ltl", "pltl", "ldl"):
        L = Lang(p, sort)
        p.name("parsers." + sort, "parse_" + sort)

        def check(key, text, want, holes=None):
            rep.count("templates")
            if holes:
                ok, text2, got, where, want2 = template(p, sort, text, want, holes)
                if ok:
                    return []
                return [Violation(f"{sort}/{key}", f"{sort} text {text2!r} {got}, not {show(term(p, want2, p.fresh()))}", where)]
            ok, got, where = same(p, sort, text, want)
            if ok:
                return []
            return [Violation(f"{sort}/{key}", f"{sort} text {text!r} {got}, not {show(term(p, want, p.fresh()))}", where)]

        atoms = [L.atom(n) for n in NAMES]
        hs = [chr(0xE000 + i) for i in range(70)]
        hv = [Sym(f"x{i}", p.Formula) for i in range(70)]
        table = {h: (v, SYM_KIND[sort]) for h, v in zip(hs, hv)}
        word = lambda s: s[0].isalpha()
        for name, spellings in BINARY[sort]:
            for s in spellings:
                for k in range(2, top + 1):
                    sep = f" {s} "
                    want = L.new(name, *[t for _, t in atoms[:k]])
                    rep.obligation(f"{sort} {s} x{k}", check, s, sep.join(x for x, _ in atoms[:k]), want)
                    want = L.new(name, *hv[:k])
                    rep.obligation(f"{sort} ({s}) x{k}", check, s, sep.join(f"({h})" for h in hs[:k]), want, table)
                    rep.obligation(f"{sort} tight {s} x{k}", check, s, s.join(f"({h})" for h in hs[:k]), want, table)
                # the same operand twice is passed on twice
                rep.obligation(f"{sort} {s} repeated", check, s, f"({hs[0]}) {s} ({hs[1]}) {s} ({hs[0]})",
                               L.new(name, hv[0], hv[1], hv[0]), table)
        un = UNARY[sort]
        for name, spellings in un:
            for s in spellings:
                a, t = atoms[0]
                gap = " " if word(s) else ""
                rep.obligation(f"{sort} {s}", check, s, f"{s}{gap}{a}", L.new(name, t))
                rep.obligation(f"{sort} {s}(h)", check, s, f"{s}({hs[0]})", L.new(name, hv[0]), table)
                rep.obligation(f"{sort} {s} (h)", check, s, f"{s} ({hs[0]})", L.new(name, hv[0]), table)
                for name2, spellings2 in un:
                    for s2 in spellings2:
                        if name == name2 == "Not":
                            continue
                        rep.obligation(f"{sort} {s} {s2}", check, f"{s}{s2}", f"{s} {s2} ({hs[0]})" if word(s) else f"{s}{s2}({hs[0]})",
                                       L.new(name, L.new(name2, hv[0])), table)
                if name != "Not":
                    for k in range(3, top):
                        want = hv[0]
                        for _ in range(k):
                            want = L.new(name, want)
                        rep.obligation(f"{sort} {s} x{k}", check, s, f"{s} " * k + f"({hs[0]})", want, table)
        # an even and an odd number of negations
        if sort != "ldl":
            a, t = atoms[0]
        for k in range(2, top):
            text = "!" * k + (f"({hs[0]})")
            rep.obligation(f"{sort} !x{k}", negations, p, sort, text, hv[0], k, table)
        big = adaptive(p, top)
        rep.counts[f"largest_arity_{sort}"] = big
        for k in range(top + 1, big + 1):
            for name, spellings in BINARY[sort]:
                rep.obligation(f"{sort} {spellings[0]} x{k}", check, spellings[0],
                               f" {spellings[0]} ".join(f"({h})" for h in hs[:k]), L.new(name, *hv[:k]), table)
            for name, spellings in un:
                want = hv[0]
                for _ in range(k):
                    want = L.new(name, want)
                if name != "Not":
                    rep.obligation(f"{sort} {spellings[0]} x{k}", check, spellings[0], f"{spellings[0]} " * k + f"({hs[0]})", want, table)
        consts(p, L, sort, rep, check)
        if sort == "ldl":
            ldl(p, L, rep, check, hs, hv)


def clean(text):
    return "".join(f"φ{ord(c) - 0xE000}" if 0xE000 <= ord(c) < 0xF000 else c for c in text)


def negations(p, sort, text, x, k, table):
    t, err, where, _, _ = parse(p, sort, text, table)
    if err is not None:
        return [Violation(f"{sort}/!", f"{sort} text {clean(text)!r} is rejected ({err_text(err)})", where)]
    n = 0
    not_ = p.cls("base", "Not")
    while isinstance(t, tuple) and t[0] is not_:
        n += 1
        t = t[1]
    if t != x or n % 2 != k % 2:
        return [Violation(f"{sort}/!", f"{sort} text {clean(text)!r} gives {n} negations of {t!r}", where)]


def consts(p, L, sort, rep, check):
    if sort == "pl":
        table = [("true", L.const(True)), ("false", L.const(False))]
    elif sort in ("ltl", "pltl"):
        table = [("true", L.new("PropositionalTrue")), ("false", L.new("PropositionalFalse")),
                 ("tt", L.const(True)), ("ff", L.const(False))]
    else:
        table = [("tt", L.const(True)), ("ff", L.const(False))]
    true = New(L.cls("TrueFormula"), (p.logic("PL"),))
    if sort == "ltl":
        table.append(("last", ("ltl", "Last")))
    if sort == "pltl":
        table.append(("start", L.new("Not", L.new("Before", L.const(True)))))
    if sort == "ldl":
        end = L.new("Box", L.new("Prop", true), L.const(False))
        table += [("end", end), ("last", L.new("Diamond", L.new("Prop", true), end))]
    a, t = L.atom("zqa")
    for text, want in table:
        if isinstance(want, tuple):
            it = p.it
            it.raw = True
            st = p.fresh()
            try:
                want = it.call(p.name("syntax." + want[0], want[1]), [], {}, st)
            finally:
                it.raw = False
            if p.raises() or not isinstance(want, New):
                rep.undecide(f"{sort} {text}", "the constant of the syntax module cannot be built")
                continue
        rep.obligation(f"{sort} {text}", check, text, text, want)
        rep.obligation(f"{sort} ({text})", check, text, f"({text})", want)
        rep.obligation(f"{sort} {text} & a", check, text, f"{text} & {a}", L.new("And", want, t))
        rep.obligation(f"{sort} a -> {text}", check, text, f"{a} -> {text}", L.new("Implies", t, want))


def ldl(p, L, rep, check, hs, hv):
    R = Lang(p, "re")
    P = Lang(p, "pl")
    rs = [chr(0xE100 + i) for i in range(6)]
    rv = [Sym(f"r{i}", p.Formula) for i in range(6)]
    qs = [chr(0xE200 + i) for i in range(6)]
    qv = [Sym(f"q{i}", p.Formula) for i in range(6)]
    table = {h: (v, "mod") for h, v in zip(hs, hv)}
    table.update({h: (v, "both") for h, v in zip(rs, rv)})
    table.update({h: (v, "sym") for h, v in zip(qs, qv)})
    for name, l, r in (("Diamond", "<", ">"), ("Box", "[", "]")):
        key = l + r

        def modal(key2, re_text, re_want, tail=f"({hs[0]})", tail_want=hv[0]):
            for gap in ("", " "):
                rep.obligation(f"ldl {l}{clean(re_text)}{r} {key2}", check, key2, f"{l}{gap}{re_text}{gap}{r}{gap}{tail}",
                               L.new(name, re_want, tail_want), table)

        modal(key, rs[0], rv[0])
        modal(key, f"({rs[0]})", rv[0])
        modal(key, qs[0], R.new("Prop", qv[0]))
        for t, w in (("tt", L.const(True)), ("ff", L.const(False))):
            modal(key, rs[0], rv[0], t, w)
        for n2, l2, r2 in (("Diamond", "<", ">"), ("Box", "[", "]")):
            modal(key + l2 + r2, rs[0], rv[0], f"{l2}{rs[1]}{r2}({hs[0]})", L.new(n2, rv[1], hv[0]))
        modal(key + "!", rs[0], rv[0], f"!({hs[0]})", L.new("Not", hv[0]))
        for k in range(2, 6):
            for op, cls in (("+", "Union"), (";", "Seq")):
                for sep in (op, f" {op} "):
                    modal(op, sep.join(f"({x})" for x in rs[:k]), R.new(cls, *rv[:k]))
                modal(op, op.join(f"{n}" for n in NAMES[:k]), R.new(cls, *[L.prop(n) for n in NAMES[:k]]))
        for inner in (f"({rs[0]})",):
            modal("*", inner + "*", R.new("Star", rv[0]))
        modal("?", f"({hs[1]})?", R.new("Test", hv[1]))
        modal("?", "tt?", R.new("Test", L.const(True)))
        modal("?", f"(<{rs[0]}>({hs[1]}))?", R.new("Test", L.new("Diamond", rv[0], hv[1])))
        modal("?*", f"(({hs[1]})?)*", R.new("Star", R.new("Test", hv[1])))
        modal("**", f"(({rs[0]})*)*", R.new("Star", R.new("Star", rv[0])))
        # propositional regular expressions
        pa = lambda n: New(P.cls("Atomic"), (K(n),))
        props = [("zqa", pa("zqa")), ("true", P.const(True)), ("false", P.const(False)),
                 ("!zqa", P.new("Not", pa("zqa"))), ("~zqa", P.new("Not", pa("zqa"))),
                 ("zqa & zqb", P.new("And", pa("zqa"), pa("zqb"))), ("zqa && zqb", P.new("And", pa("zqa"), pa("zqb"))),
                 ("zqa | zqb", P.new("Or", pa("zqa"), pa("zqb"))), ("zqa || zqb", P.new("Or", pa("zqa"), pa("zqb"))),
                 ("zqa -> zqb", P.new("Implies", pa("zqa"), pa("zqb"))), ("zqa >> zqb", P.new("Implies", pa("zqa"), pa("zqb"))),
                 ("zqa <-> zqb", P.new("Equivalence", pa("zqa"), pa("zqb"))),
                 ("(zqa | zqb) & zqc", P.new("And", P.new("Or", pa("zqa"), pa("zqb")), pa("zqc")))]
        for text, want in props:
            modal("prop", text, R.new("Prop", want))
            modal("prop", f"({text})", R.new("Prop", want))
            modal("prop*", f"({text})*", R.new("Star", R.new("Prop", want)))
        for key2, op in (("Not", "!"),):
            modal("prop", f"!({qs[0]})", R.new("Prop", P.new("Not", qv[0])))
        modal("prop", f"({qs[0]}) & ({qs[1]})", R.new("Prop", P.new("And", qv[0], qv[1])))
