"""C17: library operations are pure and repeatable."""
import ast

from ..interp import St
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c08 import Equality
from .lang import BINARY, UNARY, Lang
from .ops import Ops, RULES

LEVEL = "other"
# sources of values that are not arguments
IMPURE = ("random.", "time.", "datetime.", "uuid.", "secrets.", "os.environ", "os.getenv", "os.urandom", "os.getpid", "os.times",
          "threading.", "gc.", "weakref.", "sys.getrefcount", "sys.getsizeof", "builtins.input", "builtins.open")


class Op:
    """An operation: family, label, run(st, prefix) -> value."""

    def __init__(self, family, label, run, objects=None):
        self.family, self.label, self.run, self.objects = family, label, run, objects


def texts(sort):
    """Texts of a language, accepted and refused."""
    a, b, c = ("a", "b", "c") if sort != "ldl" else ("<a>tt", "<b>tt", "[c]ff")
    out = [a, "true", "false", "tt", "ff", f"({a})", f"(({b}))", f" {a} "]
    for _, sp in BINARY[sort]:
        for s in sp:
            out += [f"{a} {s} {b}", f"{b} {s} {a}"]
        out += [f"{a} {sp[0]} {b} {sp[0]} {c}", f"({a} {sp[0]} {b}) {sp[0]} {c}"]
    for _, sp in UNARY[sort]:
        for s in sp:
            gap = " " if s[0].isalpha() else ""
            out += [f"{s}{gap}{a}", f"{s}{gap}{s}{gap}{b}", f"{s}({a} & {b})"]
    if sort == "ltl":
        out += ["last", '"x y"']
    if sort == "pltl":
        out += ["start", '"x y"']
    if sort == "pl":
        out += ['"x y"', "a-b", "_a"]
    if sort == "ldl":
        out += ["end", "last", "<a;b>tt", "<a + b>tt", "[a*]ff", "<(<a>tt)?>tt", "<(a;b)*>tt", "[a & b]tt", "<!a>tt", "<true>tt", "[[a]tt?]ff"]
    out += ["", "(", ")", f"{a} &", f"& {a}", f"{a} {b}", f"({a}", f"{a})", f"{a} & & {b}", "A", "1", "!", "<", "<a>", "X", "Y", f"{a} -> ", "()", '"', "a-",
            f"{a} @ {b}", f"!{a} & ({b}", f"{a} & {b} |"]
    return list(dict.fromkeys(out))


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    meta = p.hash_consing()
    it.stub_meta, it.stub_deep = meta, True
    it.cut_late = True
    E = Equality(p)
    O = Ops(p)
    P = O.P
    thorough = rep.tier == "thorough"
    rep.rule = (
        "an operation writes to nothing that exists before the call (module variables, class and function attributes, default "
        "arguments, long-lived objects) except memoised hashes and the formula cache, and its result contains nothing that is not "
        "determined by the arguments; where an operation does write, every operation that follows it gives the same value or "
        "exception as in a fresh state"
    )
    rep.explanation = (
        "Effect analysis by abstract interpretation: every operation (parsing of every production and of refused texts, printing, "
        "evaluation, comparison, hashing, construction, proof checking) is interpreted on opaque components and each write to an "
        "object older than the call is recorded with its path condition. For operations with such effects the values and "
        "exceptions of the operations that follow, in the resulting state, are compared with those in the initial state. The "
        "formula cache is interpreted as it is: what a construction shows may not depend on the constructions before it."
    )
    rep.assumptions = [
        "the parser objects of lark are pure (as modelled)",
        "an operation without effects on older objects cannot influence a later one",
    ]
    for s in O.unknown:
        rep.undecide(f"class {s.name}", "the shape of its constructor is not known")

    def unsat(q):
        return bdd.and_(q, E.axioms(q)) if q else 0

    # ------------------------------------------------------------ the operations

    ops = []
    for sort in ("pl", "ltl", "pltl", "ldl"):
        fn = p.name("parsers." + sort, "parse_" + sort)
        for t in texts(sort):
            ops.append(Op("parse_" + sort, f"parse_{sort}({t!r})", lambda st, x, fn=fn, t=t: it.call(fn, [K(t)], {}, st)))
    for label, s, logic, own, make in O.subjects((2, 3), "some", True):
        simple = " with " not in label
        if not simple and not thorough and logic not in ("PL", "LDL", "FOL"):
            continue
        for name, f in O.ops(s, own, simple):
            if not simple and not ("to_string" in name or "evaluate" in name or name in ("hash(x)", "str(x)", "repr(x)") or "check" in name):
                continue
            fam = name.split("(")[0].split(" ")[0] if "x ==" not in name and "== x" not in name else "=="
            ops.append(Op(fam, f"{name} on {label}", lambda st, x, f=f: f(x, st), make))
    for s in O.known:
        for logic in s.operand_logics():
            for n in (2, 3) if s.variadic else (None,):
                def cons(st, prefix, s=s, logic=logic, n=n):
                    return s.construct(O.comps(s, logic, n, prefix), st)
                ops.append(Op("construct", f"{s.name}{'/%d' % n if n else ''} over {logic}", lambda st, x, f=cons: f(st, x)))
        ops.append(Op("construct", f"{s.name} without arguments", lambda st, x, s=s: it.call(s.cls, [], {}, st)))
        if s.parts and not s.const:
            ops.append(Op("construct", f"{s.name} of something else", lambda st, x, s=s: s.construct([NONE] * max(len(s.parts), 1), st)))
    h = lambda n: p.name("helpers.misc", n)
    lst = lambda st, x, n=2: it.alloc(st, HList(Tup([Sym(f"{x}{i}") for i in range(n)])))
    for n, args in (
        ("enforce", lambda st, x: [Sym(x), K("m")]), ("ensure", lambda st, x: [Sym(x), Sym(x + "d")]),
        ("ensure_set", lambda st, x: [lst(st, x)]), ("ensure_set", lambda st, x: [NONE]), ("ensure_sequence", lambda st, x: [lst(st, x)]),
        ("ensure_sequence", lambda st, x: [NONE]), ("safe_index", lambda st, x: [lst(st, x), Sym(x + "e")]),
        ("safe_get", lambda st, x: [lst(st, x), K(1), Sym(x + "d")]), ("safe_get", lambda st, x: [lst(st, x), K(5)]),
    ):
        ops.append(Op(n, n, lambda st, x, n=n, args=args: it.call(h(n), args(st, x), {}, st)))
    logic = p.logic("LTL")
    mk = p.name("syntax.base", "make_boolean")
    for v in (TRUE, FALSE):
        ops.append(Op("make_boolean", f"make_boolean({v!r})", lambda st, x, v=v: it.call(mk, [v, logic], {}, st)))
    for n, m in (("Last", "ltl"), ("End", "ldl"), ("Last", "ldl"), ("start", "pltl")):
        if n in (it.rec(p.st0, p.module("syntax." + m).fid).vars):
            f = p.name("syntax." + m, n)
            ops.append(Op("constants", f"{m}.{n}()", lambda st, x, f=f: it.call(f, [], {}, st)))

    # ------------------------------------------------------------ effects

    def outcome(op, st, prefix, x=None):
        """[value, {exception class: condition}]; the state becomes the one after the operation."""
        n = len(it.sink[-1])
        pc = st.pc
        O.tag = "" if prefix == "x" else prefix + "_"
        try:
            v = op.run(st, x if op.objects else prefix)
        finally:
            O.tag = ""
        exc = {}
        for e in it.sink[-1][n:]:
            c = it.exc_cls(e[2], st)
            exc[c] = bdd.or_(exc.get(c, 0), e[0])
        failed = it.sink[-1][n:]
        del it.sink[-1][n:]
        return v, exc, failed, pc

    def obj(op, st, prefix):
        if op.objects is None:
            return None
        x = op.objects(st, prefix)
        if x is None or p.raises():
            raise Undecided(f"cannot build the formula: {p.raises()[:1]}")
        return x

    def impure(v, st, seen, depth=0):
        """Sources of the value that are not arguments."""
        if isinstance(v, Alt):
            for g, b in v.alts:
                yield from impure(b, st, seen, depth)
        elif isinstance(v, App):
            if v.op == "ext" and isinstance(v.args[0], str) and v.args[0].startswith(IMPURE):
                yield v.args[0]
            elif v.op in ("call", "attr") and isinstance(v.args[0], Ext) and v.args[0].name.startswith(IMPURE):
                yield v.args[0].name
            elif v.op == "id":
                yield "id()"
            for a in v.args:
                if isinstance(a, Val):
                    yield from impure(a, st, seen, depth + 1)
        elif isinstance(v, Ext) and v.name.startswith(IMPURE):
            yield v.name
        elif isinstance(v, Str):
            for a in v.parts:
                if isinstance(a, Val):
                    yield from impure(a, st, seen, depth + 1)
        elif isinstance(v, Tup):
            for a in v.items:
                yield from impure(a, st, seen, depth + 1)
        elif isinstance(v, Ref) and st is not None and v.id not in seen and depth < 30:
            seen.add(v.id)
            r = it.rec(st, v.id)
            if isinstance(r, HInst):
                for a in r.attrs.values():
                    yield from impure(a, st, seen, depth + 1)
            elif isinstance(r, HList):
                yield from impure(r.content, st, seen, depth + 1)
            elif isinstance(r, HMap):
                for k, w, _ in r.entries:
                    yield from impure(k, st, seen, depth + 1)
                    if w is not None:
                        yield from impure(w, st, seen, depth + 1)

    def foreign(q):
        """Names in a path condition that are not arguments."""
        for a in bdd.support(q):
            for t in a[1:]:
                if isinstance(t, Val):
                    yield from impure(t, None, set())

    seen_fns = set()

    def reached(fns):
        for fn in fns:
            rep.count(f"#{fn.module.name}:{fn.node.lineno}:{fn.qual}")

    def effects(i):
        """One operation: its effects, and whether its result is determined by the arguments."""
        op = ops[i]
        st = p.fresh()
        seen_fns.update(it.calls_seen)
        x = obj(op, st, "x")
        it.protected = dict(base_protected)
        if isinstance(x, Ref):
            reach(x, st, it.protected)
        it.effects = []
        v, exc, failed, pc = outcome(op, st, "x", x)
        rep.count("operations")
        reached(it.calls_seen - seen_fns)
        sites = set()
        for e in it.effects:
            if e[1] == "output" or not unsat(e[0]):
                continue
            if e[1] == "param" and "hash" in str(e[3]):
                continue
            if e[1] == "opaque":
                raise Undecided(f"writes to {e[2]} ({e[3]}), which is not modelled")
            if e[1] in ("global", "param"):
                sites.add(":".join(str(w) for w in e[4]) if isinstance(e[4], tuple) else str(e[4]))
        if sites:
            rep.count(f"@{i}@{'; '.join(sorted(sites)[:4])}")
        for src in list(impure(v, st, set()))[:1] + [s for f in failed for s in foreign(f[0])][:1]:
            return [Violation(f"{op.family}/source", f"{op.label}: the result depends on {src}, which is not an argument", None)]
        if isinstance(v, Alt):
            for g, _ in it.alts(v, st.pc):
                for src in foreign(g):
                    return [Violation(f"{op.family}/source", f"{op.label}: the result depends on {src}, which is not an argument", None)]

    def reach(v, st, seen):
        if isinstance(v, Alt):
            for _, b in v.alts:
                reach(b, st, seen)
        elif isinstance(v, Tup):
            for b in v.items:
                reach(b, st, seen)
        elif isinstance(v, Ref) and v.id not in seen:
            seen[v.id] = "x"
            r = it.rec(st, v.id)
            for b in [*r.attrs.values(), r.content] if isinstance(r, HInst) else [r.content] if isinstance(r, HList) else [b for k, w, _ in r.entries for b in (k, w)] if isinstance(r, HMap) else []:
                if b is not None:
                    reach(b, st, seen)

    base_protected = dict(it.protected)

    # ------------------------------------------------------------ histories

    def history(label, before, op, same, reached):
        """op after the operations of before, against op in a fresh state."""
        if len(rep.violations) > 12 and not thorough:
            rep.count("histories_skipped_after_violations")
            return
        st0 = p.fresh()
        x0 = obj(op, st0, "x")
        v0, exc0, _, pc0 = outcome(op, st0, "x", x0)
        want = O.observe(v0, st0) if st0.pc else None
        st = St(1, {})
        x = obj(op, st, "x")
        states = [st]
        for k, (o, tag) in enumerate(before):
            nxt = []
            for s in states:
                try:
                    y = x if same else obj(o, s, tag)
                    _, _, failed, _ = outcome(o, s, tag, y)
                except Undecided:
                    continue
                nxt += [s] if s.pc else []
                nxt += [St(f[0], f[1]) for f in failed if unsat(f[0])][:4]
            states = nxt[:6]
        out = []
        for s in states:
            start = s.pc
            v, exc, failed, _ = outcome(op, s, "x", x)
            rep.count("histories")
            # where it returned before, it returns the same value
            for c in set(exc) | set(exc0):
                d = bdd.and_(start, bdd.xor(exc.get(c, 0), bdd.and_(start, exc0.get(c, 0))))
                d = unsat(d)
                if d:
                    where = [f[3] for f in failed][:1]
                    out.append(Violation(f"{op.family}/history", f"{op.label} {'raises' if unsat(bdd.and_(d, exc.get(c, 0))) else 'does not raise'} {c.name if c else 'an exception'} after {label}, otherwise than by itself",
                                         where[0] if where else reached, model_text(bdd, bdd.pick(d))))
                    return out
            if want is not None and s.pc:
                got = O.observe(v, s)
                d = unsat(bdd.and_(s.pc, O.differ(want, got, s)))
                if d:
                    out.append(Violation(f"{op.family}/history", f"{op.label} gives {got!r} after {label}, and {want!r} by itself", reached, model_text(bdd, bdd.pick(d))))
                    return out
        return out

    def constructions(label, s, logic, n, hist):
        """What a construction shows does not depend on the ones before (with the formula cache)."""
        it.stub_meta = None
        try:
            st0 = p.fresh()
            v0 = s.construct(O.comps(s, logic, n, "x"), st0)
            if not st0.pc or any(unsat(e[0]) for e in p.raises()):
                raise Undecided("the construction fails")
            want = O.observe(v0, st0)
            st = p.fresh()
            for h in hist:
                if h == "failed":
                    s.construct([NONE] * max(len(s.parts), 1), st)
                    if p.raises():
                        st.pc, st.heap = p.raises()[-1][0], dict(p.raises()[-1][1])
                    continue
                s.construct(O.comps(s, logic, n, h), st)
            if not st.pc:
                raise Undecided("the history fails")
            v = s.construct(O.comps(s, logic, n, "x"), st)
            rep.count("histories")
            got = O.observe(v, st)
            d = unsat(bdd.and_(st.pc, O.differ(want, got, st)))
            if d:
                return [Violation(f"{s.name}/construction", f"{label} shows {got!r} after the construction of others, and {want!r} by itself",
                                  getattr(meta.attrs.get("__call__"), "where", None) if meta else None, model_text(bdd, bdd.pick(d)))]
        finally:
            it.stub_meta = meta

    # ------------------------------------------------------------ proof checking with one checker

    def reused(label, first, second):
        st0 = p.fresh()
        def ask(nd, spec, st):
            pf = it.call(it.getattr(P.N, "Proof", st), [it.alloc(st, HList(Tup(P.lines(spec, st))))], {}, st)
            r = it.call(it.getattr(nd, "check_proof", st), [pf], {}, st)
            acc = bdd.and_(st.pc, it.truth(r, st)) if st.pc else 0
            return acc
        nd = it.call(P.N, [], {}, st0)
        want = ask(nd, second("x", st0), st0)
        n = len(p.raises())
        st = St(1, {})
        nd = it.call(P.N, [], {}, st)
        ask(nd, first("y", st), st)
        states = [st] + [St(e[0], e[1]) for e in p.raises()[n:] if P.sat(e[0])][:3]
        for s in states:
            if not s.pc:
                continue
            start = s.pc
            got = ask(nd, second("x", s), s)
            d = P.sat(bdd.and_(start, bdd.xor(got, bdd.and_(want, start))))
            rep.count("histories")
            if d:
                return [Violation("check_proof/history", f"after {label} the verdict of the same checker differs from that of a new one",
                                  getattr(P.N.lookup("check_proof")[0], "where", None), model_text(bdd, bdd.pick(d)))]

    def proof_specs():
        def good(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, b, "premise", []), (3, P.conj(a, b, st), "and_i", [1, 2])]

        def open_box(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, [(None, b, "assumption", []), (3, a, "copy", [1])]), (4, P.imp(b, a, st), "impl_i", [2])]

        def bad_cite(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, b, "copy", [3])]

        def uses_missing(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(4, a, "premise", []), (5, b, "copy", [2])]

        def inside(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, [(None, b, "assumption", []), (3, a, "copy", [1])]), (4, a, "copy", [3])]

        def crash(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, a, "impl_i", [1])]

        def box_fails(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, [(None, b, "assumption", []), (3, b, "copy", [1])]), (4, a, "copy", [1])]

        def assumes(x, st):
            a, b = P.S(x + "a"), P.S(x + "b")
            return [(1, a, "premise", []), (2, b, "assumption", [])]

        def term_box(x, st):
            name = lambda n: it.build(p.cls("fol", "Variable"), [Sym(x + n, it.builtin_cls["str"], True)], st)
            v = name("t")
            u = it.alloc(st, HList(Tup([name("u")])))
            a = it.build(p.cls("fol", "Predicate"), [K("P"), u], st)
            return [(1, a, "premise", []), (2, [("term", v), (None, a, "assumption", []), (3, a, "copy", [1])]), (4, a, "copy", [1])]

        def quantified(op, rule, instance, wrong=False):
            def go(x, st):
                var = lambda n: it.build(p.cls("fol", "Variable"), [Sym(x + n, it.builtin_cls["str"], True)], st)
                pred = lambda *ts: it.build(p.cls("fol", "Predicate"), [K("P"), it.alloc(st, HList(Tup(ts)))], st)
                v, u, t = var("v"), var("u"), var("t")
                q = it.build(p.cls("fol", op), [v, pred(v, u)], st)
                i = pred(t, t if wrong else u)
                lines = [(1, q, "premise", []), (2, i, rule, [1])] if instance else [(1, i, "premise", []), (2, q, rule, [1])]
                return lines
            go.__name__ = f"{rule}{' with another instance' if wrong else ''}"
            return go

        def generalise(wrong):
            def go(x, st):
                var = lambda n: it.build(p.cls("fol", "Variable"), [Sym(x + n, it.builtin_cls["str"], True)], st)
                pred = lambda *ts: it.build(p.cls("fol", "Predicate"), [K("P"), it.alloc(st, HList(Tup(ts)))], st)
                v, u, t = var("v"), var("u"), var("t")
                q = it.build(p.cls("fol", "ForAll"), [v, pred(v, u)], st)
                box = [("term", t), (3, pred(t, t if wrong else u), "forall_e", [1])]
                return [(1, q, "premise", []), (2, box), (4, it.build(p.cls("fol", "ForAll"), [v, pred(v, u)], st), "forall_i", [2])]
            go.__name__ = "forall_i" + (" of another instance" if wrong else "")
            return go

        more = [quantified(o, r, i, w) for o, r, i in (("ForAll", "forall_e", True), ("Exists", "exists_i", False)) for w in (False, True)]
        more += [generalise(False), generalise(True)]
        return more + [good, open_box, bad_cite, uses_missing, inside, crash, box_fails, assumes, term_box]

    # ------------------------------------------------------------ plan

    jobs = []

    # the effects decide which histories are needed
    rep.parallel([(op.label, effects, i) for i, op in enumerate(ops)])
    groups = {}
    fams = {}
    for op in ops:
        fams.setdefault(op.family, []).append(op)
    for k in [k for k in rep.counts if k.startswith("@")]:
        del rep.counts[k]
        _, i, where = k.split("@", 2)
        groups.setdefault((ops[int(i)].family, where), []).append(ops[int(i)])
    rep.counts["operations_with_effects"] = sum(map(len, groups.values()))
    plain = lambda xs: sorted(xs, key=lambda o: " with " in o.label)
    for (fam, where), group in sorted(groups.items()):
        # constants of the functions that write may be thresholds
        where_fns = [f for f in p.functions() if any(f"{f.module.path}:" in w for w in where.split("; "))]
        c = min(p.max_const(where_fns), 100)
        times = sorted({2, 3, 5, 9} | {k for k in (c - 1, c, c + 1, 2 * c) if k > 1})
        chosen = spread(group, len(group) if thorough else 12)
        simple = spread([o for o in group if " with " not in o.label and "/3" not in o.label], 6)
        for op in plain(list(dict.fromkeys(chosen + simple))):
            for fam2, others in fams.items():
                for o in plain(spread(others, 80 if fam2 == fam else 2)):
                    jobs.append((f"{o.label} after {op.label}", history, op.label, [(op, "y")], o, False, where))
            for o in ops:
                if o.objects is not None and o.objects is op.objects:
                    jobs.append((f"{o.label} after {op.label} on the same formula", history, f"{op.label} of the same formula", [(op, "y")], o, True, where))
        for op in spread(simple, 6 if max(times) < 10 else 3):
            for k in times:
                jobs.append((f"{op.label} after {k} of them", history, f"{k} times {op.label}", [(op, f"y{j}") for j in range(k)], op, False, where))
                jobs.append((f"{op.label} repeated {k} times", history, f"{k} times the same call", [(op, "x")] * k, op, op.objects is not None, where))
    if groups and not thorough:
        rep.limit = 15
    # memory on the formula itself: two operations on one formula
    for s in O.known:
        if not s.cls.sub(p.Formula):
            continue
        for logic in s.operand_logics():
            for n in (2, 3) if s.variadic else (None,):
                for hist in (["y"], ["x", "y"], ["y", "z"], ["failed"], ["y", "failed"]):
                    if n == 3 and hist != ["y"]:
                        continue
                    lab = f"{s.name}{'/%d' % n if n else ''} over {logic}"
                    jobs.append((f"{lab} after {hist}", constructions, lab, s, logic, n, hist))
    specs = proof_specs()
    first = []
    for a in specs:
        for b in specs:
            first.append((f"checker reused: {a.__name__} then {b.__name__}", reused, a.__name__, a, b))
    rep.parallel(first)
    rep.parallel(jobs)
    # functions that no operation reached
    for fn in it.calls_seen:
        rep.counts[f"#{fn.module.name}:{fn.node.lineno}:{fn.qual}"] = 1
    seen = {k[1:] for k in rep.counts if k.startswith("#")}
    for k in seen:
        del rep.counts["#" + k]
    missed = []
    for fn in p.functions():
        if f"{fn.module.name}:{fn.node.lineno}:{fn.qual}" in seen:
            continue
        missed.append(fn.qual)
        w = writes(fn)
        if w and not (meta is not None and w.startswith(meta.name + ".")):
            rep.undecide(f"{fn.qual}", f"no operation reaches it, and it writes to {w}")
    rep.counts["functions_reached"] = len([k for k in seen if k.startswith("pylogics")])
    rep.counts["functions_not_reached_without_writes"] = len(missed)
    rep.sample("not reached: " + ", ".join(missed[:30]))


def spread(xs, n):
    """At most n elements, from everywhere in the list."""
    if len(xs) <= n:
        return list(xs)
    return [xs[i * len(xs) // n] for i in range(n)]


def writes(fn):
    """Names outside the function that its body may write to (syntactically)."""
    node = fn.node
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    local = {a.arg for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs}
    local |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return ", ".join(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
    for n in ast.walk(node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r = n
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name) and r.id not in local:
                return ast.unparse(n)
    return None
