"""C06: documented precedence and grouping."""
import itertools

from ..program import Program
from ..report import Violation
from ..vals import *  # noqa
from .lang import BINARY, NAMES, SYM_KIND, UNARY, Lang, same, show, template, term
from .c05 import clean

LEVEL = "other"


def reading(L, ops, xs):
    """The term of a chain x0 op x1 op ...; ops are indices in the precedence table (0 = loosest)."""
    if not ops:
        return xs[0]
    loose = min(ops)
    parts, o, x = [], [], [xs[0]]
    for op, y in zip(ops, xs[1:]):
        if op == loose:
            parts.append(reading(L, o, x))
            o, x = [], [y]
        else:
            o.append(op)
            x.append(y)
    parts.append(reading(L, o, x))
    return L.new(BINARY[L.sort][loose][0], *parts)


def run(root, rep):
    p = Program(root)
    rep.rule = (
        "the term that the LALR tables and the abstractly interpreted transformer build for a mixed text over opaque "
        "operands is the one given by the documented precedence table"
    )
    rep.explanation = (
        "All sequences of two, three (thorough: four) binary operators, with unary operators and parentheses at every "
        "position, are read through the tables computed from the grammar files and compared with a precedence table "
        "written independently from the documentation."
    )
    rep.assumptions = [
        "the tables and terminal patterns that lark derives from the grammar files",
        "longer mixtures are read like the analysed ones (the grammars are layered)",
    ]
    for sort in ("pl", "ltl", "pltl", "ldl"):
        L = Lang(p, sort)
        p.name("parsers." + sort, "parse_" + sort)
        hs = [chr(0xE000 + i) for i in range(10)]
        hv = [Sym(f"x{i}", p.Formula) for i in range(10)]
        table = {h: (v, SYM_KIND[sort]) for h, v in zip(hs, hv)}
        atoms = [L.atom(n) for n in NAMES[:10]]
        B = BINARY[sort]
        U = UNARY[sort]

        def check(key, text, want, holes=None):
            rep.count("texts")
            if holes:
                ok, text2, got, where, want2 = template(p, sort, text, want, holes)
                if not ok:
                    return [Violation(f"{sort}/{key}", f"{sort} text {clean(text2)!r} {got}, not {show(term(p, want2, p.fresh()))}", where)]
                return []
            ok, got, where = same(p, sort, text, want)
            if not ok:
                return [Violation(f"{sort}/{key}", f"{sort} text {text!r} {got}, not {show(term(p, want, p.fresh()))}", where)]
            return []

        def ob(key, text, want, holes=None):
            rep.obligation(f"{sort} {clean(text)}", check, key, text, want, holes)

        sp = lambda i, j=0: B[i][1][j % len(B[i][1])]
        h = lambda i: f"({hs[i]})"
        # chains of mixed operators
        for n in (2, 3) if rep.tier == "quick" else (2, 3, 4):
            for ops in itertools.product(range(len(B)), repeat=n):
                text = h(0)
                plain = atoms[0][0]
                for k, op in enumerate(ops):
                    text += f" {sp(op)} {h(k + 1)}"
                    plain += f" {sp(op)} {atoms[k + 1][0]}"
                key = " ".join(sp(o) for o in ops[:2]) if n == 2 else "mixed"
                ob(key, text, reading(L, ops, hv), table)
                if n < 3 or rep.tier != "quick":
                    ob(key, plain, reading(L, ops, [t for _, t in atoms]))
        # every spelling
        for a, b in itertools.product(range(len(B)), repeat=2):
            for i, j in itertools.product(range(len(B[a][1])), range(len(B[b][1]))):
                if i or j:
                    ob(f"{sp(a, i)} {sp(b, j)}", f"{h(0)} {sp(a, i)} {h(1)} {sp(b, j)} {h(2)}", reading(L, (a, b), hv), table)
            # parentheses override
            l = L.new(B[b][0], L.new(B[a][0], hv[0], hv[1]), hv[2])
            r = L.new(B[a][0], hv[0], L.new(B[b][0], hv[1], hv[2]))
            ob("parentheses", f"({h(0)} {sp(a)} {h(1)}) {sp(b)} {h(2)}", l, table)
            ob("parentheses", f"{h(0)} {sp(a)} ({h(1)} {sp(b)} {h(2)})", r, table)
            ob("parentheses", f"(({h(0)} {sp(a)} {h(1)}) {sp(b)} {h(2)})", l, table)
            ob("parentheses", f"(({hs[0]} {sp(a)} {hs[1]})) {sp(b)} {h(2)}", l, table) if sort in () else None
            w = L.new(B[a][0], hv[0], L.new(B[b][0], hv[1], hv[2]), hv[3])
            ob("parentheses", f"{h(0)} {sp(a)} ({h(1)} {sp(b)} {h(2)}) {sp(a)} {h(3)}", w, table)
            both = L.new(B[a][0], L.new(B[b][0], hv[0], hv[1]), L.new(B[b][0], hv[2], hv[3]))
            ob("parentheses", f"({h(0)} {sp(b)} {h(1)}) {sp(a)} ({h(2)} {sp(b)} {h(3)})", both, table)
            # unary operators bind tighter than any binary one
            for n, us in U:
                u = us[0]
                gap = " " if u[0].isalpha() else ""
                U0 = lambda x: L.new(n, x)
                ob(f"{u} {sp(a)}", f"{u}{gap}{h(0)} {sp(a)} {h(1)} {sp(b)} {h(2)}",
                   reading(L, (a, b), [U0(hv[0]), hv[1], hv[2]]), table)
                ob(f"{sp(a)} {u}", f"{h(0)} {sp(a)} {u}{gap}{h(1)} {sp(b)} {h(2)}",
                   reading(L, (a, b), [hv[0], U0(hv[1]), hv[2]]), table)
                ob(f"{sp(a)} {u}", f"{h(0)} {sp(a)} {h(1)} {sp(b)} {u}{gap}{h(2)}",
                   reading(L, (a, b), [hv[0], hv[1], U0(hv[2])]), table)
        for a in range(len(B)):
            for n, us in U:
                for u in us:
                    gap = " " if u[0].isalpha() else ""
                    at = atoms[0][0], atoms[1][0]
                    ob(f"{u} {sp(a)}", f"{u}{gap}{at[0]} {sp(a)} {at[1]}", L.new(B[a][0], L.new(n, atoms[0][1]), atoms[1][1]))
                    ob(f"{sp(a)} {u}", f"{at[0]} {sp(a)} {u}{gap}{at[1]}", L.new(B[a][0], atoms[0][1], L.new(n, atoms[1][1])))
                    ob(f"{u} ({sp(a)})", f"{u}({h(0)} {sp(a)} {h(1)})", L.new(n, L.new(B[a][0], hv[0], hv[1])), table)
            # redundant parentheses and spaces
            want = L.new(B[a][0], hv[0], hv[1])
            s = sp(a)
            for text in (f"({hs[0]}) {s} (({hs[1]}))", f"(({hs[0]})) {s} ({hs[1]})", f"((({hs[0]})))   {s}   ((({hs[1]})))",
                         f"(({hs[0]}) {s} ({hs[1]}))", f"((({hs[0]}) {s} ({hs[1]})))", f"  ({hs[0]})  {s}  ({hs[1]})  ",
                         f"(  {hs[0]}  ) {s} (  {hs[1]}  )", f"({hs[0]}){s}({hs[1]})", f"({hs[0]})\t\n {s} \t({hs[1]})\n"):
                ob("redundant", text, want, table)
            n0, n1 = atoms[0], atoms[1]
            want = L.new(B[a][0], n0[1], n1[1])
            for text in (f"({n0[0]}) {s} {n1[0]}", f"{n0[0]} {s} ({n1[0]})", f"({n0[0]} {s} {n1[0]})", f"  {n0[0]}  {s}  {n1[0]}  ",
                         f"(({n0[0]})) {s} (({n1[0]}))", f"{n0[0]} {s}({n1[0]})", f"({n0[0]}){s} {n1[0]}"):
                ob("redundant", text, want)
        ob("redundant", f"(({hs[0]}))", hv[0], table)
        ob("redundant", f"({atoms[0][0]})", atoms[0][1])
        ob("redundant", f"  (  ( {atoms[0][0]} ) )  ", atoms[0][1])
        if sort == "ldl":
            dynamic(p, L, ob, hs, hv)


def dynamic(p, L, ob, hs, hv):
    R, P = Lang(p, "re"), Lang(p, "pl")
    rs = [chr(0xE100 + i) for i in range(6)]
    rv = [Sym(f"r{i}", p.Formula) for i in range(6)]
    qs = [chr(0xE200 + i) for i in range(6)]
    qv = [Sym(f"q{i}", p.Formula) for i in range(6)]
    table = {h: (v, "mod") for h, v in zip(hs, hv)}
    table.update({h: (v, "both") for h, v in zip(rs, rv)})
    table.update({h: (v, "sym") for h, v in zip(qs, qv)})
    pr = lambda n: L.prop(n)
    pa = lambda n: New(P.cls("Atomic"), (K(n),))
    h = lambda i: f"({hs[i]})"
    r = lambda i: f"({rs[i]})"
    for name, o, c in (("Diamond", "<", ">"), ("Box", "[", "]")):
        # modalities bind tighter than the boolean operators
        for n, sps in BINARY["ldl"]:
            for s in sps:
                ob(f"{o}{c} {s}", f"{o}{rs[0]}{c}{h(0)} {s} {h(1)}", L.new(n, L.new(name, rv[0], hv[0]), hv[1]), table)
                ob(f"{s} {o}{c}", f"{h(1)} {s} {o}{rs[0]}{c}{h(0)}", L.new(n, hv[1], L.new(name, rv[0], hv[0])), table)
                ob(f"{o}{c} ({s})", f"{o}{rs[0]}{c}({h(0)} {s} {h(1)})", L.new(name, rv[0], L.new(n, hv[0], hv[1])), table)
                ob(f"! {o}{c} {s}", f"!{o}{rs[0]}{c}{h(0)} {s} {h(1)}", L.new(n, L.new("Not", L.new(name, rv[0], hv[0])), hv[1]), table)
                # a test takes the whole formula
                ob(f"{s} ?", f"{o}({h(0)} {s} {h(1)})?{c}{h(2)}", L.new(name, R.new("Test", L.new(n, hv[0], hv[1])), hv[2]), table)
        tail = h(0)

        def modal(key, text, want):
            for w in (text, f" {text} ", f"({text})", f"(( {text} ))"):
                ob(key, f"{o}{w}{c}{tail}", L.new(name, want, hv[0]), table)

        x = [pr(n) for n in NAMES]
        a, b, d, e = NAMES[:4]
        U, S, T = (lambda *z: R.new("Union", *z)), (lambda *z: R.new("Seq", *z)), (lambda z: R.new("Star", z))
        v = rv
        modal("+ ;", f"{r(0)} + {r(1)} ; {r(2)}", U(v[0], S(v[1], v[2])))
        modal("; +", f"{r(0)} ; {r(1)} + {r(2)}", U(S(v[0], v[1]), v[2]))
        modal("+ ; +", f"{r(0)} + {r(1)} ; {r(2)} + {r(3)}", U(v[0], S(v[1], v[2]), v[3]))
        modal("; + ;", f"{r(0)} ; {r(1)} + {r(2)} ; {r(3)}", U(S(v[0], v[1]), S(v[2], v[3])))
        modal("( + ) ;", f"({r(0)} + {r(1)}) ; {r(2)}", S(U(v[0], v[1]), v[2]))
        modal("; ( + )", f"{r(0)} ; ({r(1)} + {r(2)})", S(v[0], U(v[1], v[2])))
        modal("(;) ;", f"({r(0)} ; {r(1)}) ; {r(2)}", S(S(v[0], v[1]), v[2]))
        modal("; (;)", f"{r(0)} ; ({r(1)} ; {r(2)})", S(v[0], S(v[1], v[2])))
        modal("(+) +", f"({r(0)} + {r(1)}) + {r(2)}", U(U(v[0], v[1]), v[2]))
        modal("* ;", f"{r(0)}* ; {r(1)}", S(T(v[0]), v[1]))
        modal("; *", f"{r(0)} ; {r(1)}*", S(v[0], T(v[1])))
        modal("* +", f"{r(0)}* + {r(1)}*", U(T(v[0]), T(v[1])))
        modal("(;)*", f"({r(0)} ; {r(1)})*", T(S(v[0], v[1])))
        modal("(+)*", f"({r(0)} + {r(1)})*", T(U(v[0], v[1])))
        modal("? ;", f"({hs[1]})? ; {r(1)}", S(R.new("Test", hv[1]), v[1]))
        modal("; ?", f"{r(0)} ; ({hs[1]})?", S(v[0], R.new("Test", hv[1])))
        modal("?*", f"({hs[1]})?*", T(R.new("Test", hv[1])))
        modal("? +", f"({hs[1]})? + ({hs[2]})?", U(R.new("Test", hv[1]), R.new("Test", hv[2])))
        # propositional formulas bind tighter than the regular operators
        for n, sps in BINARY["pl"]:
            for s in sps:
                pp = R.new("Prop", P.new(n, qv[0], qv[1]))
                t = f"({qs[0]}) {s} ({qs[1]})"
                modal(f"{s} +", f"{t} + {r(0)}", U(pp, v[0]))
                modal(f"+ {s}", f"{r(0)} + {t}", U(v[0], pp))
                modal(f"{s} ;", f"{t} ; {r(0)}", S(pp, v[0]))
                modal(f"; {s}", f"{r(0)} ; {t}", S(v[0], pp))
                modal(f"{s} *", f"{t}*", T(pp))
                modal(f"{s} ;", f"{a} {s} {b} ; {d}", S(R.new("Prop", P.new(n, pa(a), pa(b))), x[2]))
                modal(f"! {s}", f"!{a} {s} {b}", R.new("Prop", P.new(n, P.new("Not", pa(a)), pa(b))))
                for n2, sps2 in BINARY["pl"]:
                    s2 = sps2[0]
                    i, j = [k for k, z in enumerate(BINARY["pl"]) if z[0] in (n,)][0], [k for k, z in enumerate(BINARY["pl"]) if z[0] == n2][0]
                    want = reading(P, (i, j), [pa(a), pa(b), pa(d)])
                    ob(f"re {s} {s2}", f"{o}{a} {s} {b} {s2} {d}{c}{tail}", L.new(name, R.new("Prop", want), hv[0]), table)
        modal("!*", f"!{a}*", T(R.new("Prop", P.new("Not", pa(a)))))
        modal("* atoms", f"{a}*;{b}*+{d}", U(S(T(x[0]), T(x[1])), x[2]))
        modal("; atoms", f"{a};{b};{d}", S(x[0], x[1], x[2]))
