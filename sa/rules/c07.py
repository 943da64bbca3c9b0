"""C07: atoms accept exactly the documented symbol language, and parsers read exactly its words as symbols."""
from .. import regex
from ..program import Program
from ..report import Violation
from ..vals import *  # noqa
from .lang import Lang, err_text, parse, same, show, term

LEVEL = "other"

# the documented language of symbols
SPEC = r'[a-z_](?:[a-zA-Z0-9_-]*[a-zA-Z0-9_])?|"[ !#-~]+"'
RESERVED = {
    "pl": {"true", "false"}, "ltl": {"true", "false", "tt", "ff", "last"},
    "pltl": {"true", "false", "tt", "ff", "start"}, "ldl": {"true", "false", "tt", "ff", "last", "end"},
}
SAMPLES = [
    "a", "_", "z", "a0", "_0", "ab", "a_b", "a-b", "a--b", "aB-9", "a-_", "_-a", "__", "zZ9_", '"a"', '" "', '"A b"', '"~"', '"-"', '"!"',
    '"\\"', '"(a)"', "abc-def-ghi", "x1y2z3", '"a & b"', "a" * 40, "a-" * 20 + "b", '"' + "x y" * 20 + '"',
    "", "A", "0", "-", "a-", "-a", "a b", " a", "a ", "a\n", "\na", "a\t", "a.b", "a'", "a\"", '"a', 'a"', '""', '"a"b', '"a""b"', '"a"\n', "é",
    "aé", "\"é\"", "a٣", '"\n"', '"\t"', '"\x7f"', "a$", "a\0", "a\x0b", "ａ", "a/b", "a!", "Ab", "9a", "-a-", "a- b", "tt ", "a\r", "a\u2028", "a\x1c",
]


def in_spec(w):
    import re

    return re.fullmatch(SPEC, w) is not None


def atom_classes(p):
    """Concrete classes of atoms."""
    base = p.cls("base", "AbstractAtomic")
    for m in ("pl", "ltl", "pltl", "ldl", "fol"):
        p.module("syntax." + m)
    return [c for c in p.concrete() if c.sub(base)]


def accept_term(it, a, n):
    """The regex whose membership the atom states about the name, as (pattern, flags, mode)."""
    import re

    if a[0] == "truth" and isinstance(a[1], App) and a[1].op == "match":
        mode, rx, text = a[1].args
        while isinstance(text, App) and text.op == "str":
            text = text.args[0]
        if text == n and isinstance(rx.args[0], K):
            f = regex.flags_of(rx.args[1])
            if f is not None:
                return rx.args[0].value, f, mode
    if a[0] == "eq" and n in a[1:3]:
        o = a[2] if a[1] == n else a[1]
        if isinstance(o, K) and isinstance(o.value, str):
            return re.escape(o.value), 0, "fullmatch"
    if a[0] == "truth" and a[1] == n:
        return "(?:.|\n)+", 0, "fullmatch"
    raise Undecided(f"condition {a!r} on the name")


def run(root, rep):
    p = Program(root)
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    rep.rule = (
        "the path condition under which an atom class accepts an opaque name, as a regular language, equals the documented "
        "language; the symbol terminals of each grammar have the same language, are always matched to the end of the word, and "
        "hand their text unchanged to the atom"
    )
    rep.explanation = (
        "Constructors are interpreted on an opaque name; the regular expressions in the path conditions and in the grammar "
        "files are turned into deterministic automata over all of Unicode and compared by product construction, so every "
        "string is covered. Priorities of terminals and of alternatives inside a terminal (leftmost preference) are modelled."
    )
    rep.assumptions = [
        "Python's re engine implements the leftmost-preference semantics modelled by the automata",
        "reserved words of a logic (true, false, tt, ff, last, end, start) denote constants and not symbols",
    ]
    for c in atom_classes(p):
        rep.obligation(f"{c.qual} accepts the documented names", construction, p, c, rep)
        rep.obligation(f"{c.qual} rejects with an error", rejects, p, c)
    it.stub_meta = None
    for sort in ("pl", "ltl", "pltl", "ldl"):
        p.name("parsers." + sort, "parse_" + sort)
        rep.obligation(f"{sort}: symbol terminal", terminal, p, sort, rep)
        rep.obligation(f"{sort}: name of the atom", text_kept, p, sort, rep)
        for w in SAMPLES:
            rep.obligation(f"{sort} word {w!r}", word, p, sort, w)


def construction(p, c, rep):
    it = p.it
    bdd = it.bdd
    st = p.fresh()
    n = Sym("name", it.builtin_cls["str"], True)
    try:
        r = it.call(c, [n], {}, st)
        ok = st.pc
        atoms = list(bdd.support(ok))
        specs = [accept_term(it, a, n) for a in atoms]
        ds = regex.dfas([(SPEC, 0, "fullmatch")] + specs)
        rep.count("automata", len(ds))
        rep.count("automaton_states", sum(len(d.delta) for d in ds))

        def accepted(v):
            f = ok
            for a, b in zip(atoms, v):
                f = bdd.and_(f, bdd.atom(a) if b else bdd.not_(bdd.atom(a)))
            return f != 0

        w = regex.witness(ds, lambda v: v[0] != accepted(v[1:]))
        if w is not None:
            what = "is rejected" if in_spec(w) else "is accepted"
            return [Violation(f"{c.name}/language", f"{c.qual}({w!r}) {what}", p.raises()[0][3] if p.raises() else None,
                              "; ".join(s[0] for s in specs))]
        v = it.getattr(r, "name", st) if not isinstance(r, Alt) else it.each(r, st, lambda b, s: it.getattr(b, "name", s))
        for g, b in it.alts(v, st.pc):
            while isinstance(b, App) and b.op == "str":
                b = b.args[0]
            if isinstance(b, Ref):
                b = it.rec(st, b.id).content
            if b != n:
                return [Violation(f"{c.name}/name", f"the name of {c.qual}(n) is {b!r}, not n", None)]
        return []
    except Undecided as e:
        bad = []
        for w in SAMPLES:
            got = concrete_ok(p, c, w)
            if got != in_spec(w):
                bad.append(Violation(f"{c.name}/language", f"{c.qual}({w!r}) is {'accepted' if got else 'rejected'}", None))
        if bad:
            return bad
        raise


def concrete_ok(p, c, w):
    it = p.it
    st = p.fresh()
    r = it.call(c, [K(w)], {}, st)
    if st.pc == 0:
        return False
    if p.raises():
        raise Undecided("acceptance of a constant name is not constant")
    v = it.each(r, st, lambda b, s: it.getattr(b, "name", s))
    v = it.canon(v, st)
    if v != K(w):
        raise Violation(f"{c.name}/name", f"the name of {c.qual}({w!r}) is {v!r}")
    return True


def rejects(p, c):
    """Things that are not symbols are rejected with an error."""
    it = p.it
    bad = []
    for v in (K(None), K(5)):
        st = p.fresh()
        it.call(c, [v], {}, st)
        if st.pc != 0:
            bad.append(Violation(f"{c.name}/kind", f"{c.qual}({v!r}) is accepted", None))
    return bad


def terminal(p, sort, rep):
    it = p.it
    text = "<zqa>tt" if sort == "ldl" else "zqa"
    t, err, where, _, _ = parse(p, sort, text)
    from .. import grammar

    g = it.last_grammar
    if g is None or g.lark is None:
        raise Undecided(f"grammar of {sort} not found")
    wrap = (lambda w: f"<{w}>tt") if sort == "ldl" else (lambda w: w)
    # terminals of symbols
    names = set()
    for w in ("zqa", "z-q", "_", '"A b"', "zQ_1"):
        try:
            tree = g.parse(wrap(w), {})
        except grammar.SyntaxRejected as e:
            return [Violation(f"{sort}/symbol", f"{sort} does not read {w!r} as a symbol ({e})", None)]
        names |= {t.type for t in tree.scan_values(lambda v: str(v) == w)}
    if len(names) != 1:
        raise Undecided(f"symbols are read by {len(names)} terminals")
    T = names.pop()
    pattern = g.terminals[T].pattern.to_regexp()
    out = []
    spec, full, pref = regex.dfas([(SPEC, 0, "fullmatch"), (pattern, 0, "fullmatch"), (pattern, 0, "prefer")])
    rep.count("automata", 3)
    w = regex.witness([spec, full], lambda v: v[1] and not v[0])
    if w is not None:
        out.append(Violation(f"{sort}/too-much", f"the parser of {sort} reads {w!r} as one symbol", g.path, pattern))
    w = regex.witness([spec, full], lambda v: v[0] and not v[1])
    if w is not None:
        out.append(Violation(f"{sort}/too-little", f"the parser of {sort} does not read the name {w!r} as a symbol", g.path, pattern))
    w = regex.witness([spec, full, pref], lambda v: v[0] and v[1] and not v[2])
    if w is not None:
        out.append(Violation(f"{sort}/split", f"the parser of {sort} splits the name {w!r}", g.path, pattern))
    # terminals that take precedence
    lexers = g.lexer.lexers.values() if g.contextual else [g.lexer]
    earlier = {}
    for lx in lexers:
        ts = [t for t in lx.terminals]
        if any(t.name == T for t in ts):
            for t in ts[: [t.name for t in ts].index(T)]:
                earlier[t.name] = t
    rep.count("terminals_with_precedence", len(earlier))
    for name, t in sorted(earlier.items()):
        pat = t.pattern.to_regexp()
        spec, pre, full = regex.dfas([(SPEC, 0, "fullmatch"), (pat, 0, "match"), (pat, 0, "fullmatch")])
        w = regex.witness([spec, full], lambda v: v[0] and v[1])
        if w is None:
            w = regex.witness([spec, pre], lambda v: v[0] and v[1])
            if w is not None:
                out.append(Violation(f"{sort}/hidden/{name}", f"the name {w!r} is not read as a symbol of {sort} (terminal {name})", g.path, pat))
            continue
        if w not in RESERVED[sort]:
            out.append(Violation(f"{sort}/reserved/{w}", f"the name {w!r} is not read as a symbol of {sort} (terminal {name})", g.path, pat))
            continue
        same_word = regex.dfas([(SPEC, 0, "fullmatch"), (pat, 0, "fullmatch"), (__import__("re").escape(w), 0, "fullmatch")])
        w3 = regex.witness(same_word, lambda v: v[0] and v[1] and not v[2])
        if w3 is not None:
            out.append(Violation(f"{sort}/reserved/{w3}", f"the name {w3!r} is not read as a symbol of {sort} (terminal {name})", g.path, pat))
            continue
        w2 = regex.witness([spec, pre, full], lambda v: v[0] and v[1] and not v[2])
        if w2 is not None:
            out.append(Violation(f"{sort}/reserved-prefix/{w}", f"the name {w2!r} is not read as a symbol of {sort}, because it begins with the reserved word {w!r}", g.path, pat))
    return out


def text_kept(p, sort, rep):
    """The atom gets the text of its token, whatever it is."""
    it = p.it
    n = Sym("text", it.builtin_cls["str"], True)
    L = Lang(p, sort)
    it.token_subst = {"zqa": n}
    try:
        t, err, where, _, _ = parse(p, sort, "<zqa>tt" if sort == "ldl" else "zqa")
    finally:
        it.token_subst = {}
    if err is not None:
        return [Violation(f"{sort}/text", f"a symbol of {sort} is rejected ({err_text(err)})", where)]

    def strip(x):
        if isinstance(x, tuple):
            return tuple(strip(y) for y in x)
        while isinstance(x, App) and x.op == "str":
            x = x.args[0]
        return x

    _, want = L.atom("zqa")
    want = term(p, want, p.fresh())

    def sub(x):
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return n if x == K("zqa") else x

    if strip(t) == sub(want):
        return []
    # a witness
    bad = [v for w in SAMPLES if in_spec(w) for v in word(p, sort, w)]
    if bad:
        return bad
    raise Undecided(f"the atom of a symbol is {show(t)}")


def word(p, sort, w):
    """One word, read as a whole."""
    if any(w.startswith(r) for r in RESERVED[sort]):
        return []
    L = Lang(p, sort)
    text = f"<{w}>tt" if sort == "ldl" else w
    if in_spec(w):
        want = L.prop(w) if sort == "ldl" else New(L.cls("Atomic"), (K(w),))
        want = L.new("Diamond", want, L.const(True)) if sort == "ldl" else want
        ok, got, where = same(p, sort, text, want)
        if not ok:
            return [Violation(f"{sort}/word", f"the text {text!r} of {sort} {got}", where)]
        return []
    # not a symbol: it must not be read as an atom with another name
    t, err, where, _, _ = parse(p, sort, text)
    if err is not None:
        return []
    import re

    bad = [n for n in names_of(p, t) if not in_spec(n)]
    if bad:
        return [Violation(f"{sort}/word", f"the text {text!r} of {sort} is read as an atom named {bad[0]!r}", where)]
    if w.strip() != w and in_spec(w.strip()):
        return []  # white space around a symbol
    if isinstance(t, tuple) and t[0].name == "Atomic":
        return [Violation(f"{sort}/word", f"the text {text!r} of {sort} is read as {show(t)}", where)]
    return []


def names_of(p, t):
    out = []
    if isinstance(t, tuple):
        for x in t[1:]:
            out += names_of(p, x)
        if t and isinstance(t[0], Cls) and t[0].name == "Atomic" and isinstance(t[1], K):
            out.append(t[1].value)
    return out
