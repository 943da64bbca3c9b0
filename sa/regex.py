"""Regular expressions as automata over the whole of Unicode (prioritised, as in Python's re)."""
import re

try:
    from re import _parser as sre_parse
    from re import _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from .vals import App, Ext, K, Undecided

TOP = 0x110000
_CATS = {}


def flags_of(v):
    """The integer value of a flags term."""
    if isinstance(v, K) and isinstance(v.value, int):
        return int(v.value)
    if isinstance(v, Ext) and v.name.startswith("re."):
        f = getattr(re, v.name.split(".", 1)[1].replace("RegexFlag.", ""), None)
        if f is not None:
            return int(f)
    if isinstance(v, App) and v.op in ("or", "BitOr", "|", "bitor"):
        a, b = flags_of(v.args[0]), flags_of(v.args[1])
        if a is not None and b is not None:
            return a | b
    return None


def concrete(rx, meth, text):
    """Does the regex match the text? None if the regex is not a constant."""
    if not isinstance(rx.args[0], K):
        return None
    f = flags_of(rx.args[1])
    if f is None:
        return None
    try:
        return getattr(re.compile(rx.args[0].value, f), meth)(text) is not None
    except re.error:
        return None


def norm(iv):
    """Sorted disjoint intervals [a, b)."""
    out = []
    for a, b in sorted(iv):
        if a >= b:
            continue
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def negate(iv):
    out, last = [], 0
    for a, b in norm(iv):
        if last < a:
            out.append((last, a))
        last = b
    if last < TOP:
        out.append((last, TOP))
    return out


def category(name, flags):
    key = (str(name), bool(flags & re.ASCII))
    if key not in _CATS:
        n = str(name).lower()
        c = "d" if "digit" in n else "s" if "space" in n else "w" if "word" in n else None
        if c is None:
            raise Undecided(f"regex category {name}")
        if "not" in n:
            c = c.upper()
        rx = re.compile("\\" + c, re.ASCII if flags & re.ASCII else 0)
        out, start = [], None
        for i in range(TOP):
            ok = not 0xD800 <= i < 0xE000 and rx.match(chr(i)) is not None
            if ok and start is None:
                start = i
            if not ok and start is not None:
                out.append((start, i))
                start = None
        if start is not None:
            out.append((start, TOP))
        _CATS[key] = out
    return _CATS[key]


class NFA:
    """Thompson automaton with ordered epsilon moves."""

    def __init__(self):
        self.eps = []  # state -> [targets] in order of preference
        self.edge = []  # state -> (intervals, target) or None
        self.accept = None

    def state(self):
        self.eps.append([])
        self.edge.append(None)
        return len(self.eps) - 1


def compile_nfa(pattern, flags=0, newline=False):
    """The automaton of a pattern (anchored at the start)."""
    tree = sre_parse.parse(pattern, flags)
    flags |= tree.state.flags if hasattr(tree, "state") else 0
    if flags & (re.LOCALE | re.VERBOSE) and not flags & re.VERBOSE:
        raise Undecided("regex flags")
    n = NFA()
    n.end_only = set()  # states whose epsilon moves need the end of the text

    def chars(iv):
        if flags & re.IGNORECASE:
            raise Undecided("case-insensitive regex")
        return norm(iv)

    def cls(op, av):
        if op is sre_c.LITERAL:
            return chars([(av, av + 1)])
        if op is sre_c.NOT_LITERAL:
            return negate(chars([(av, av + 1)]))
        if op is sre_c.ANY:
            return [(0, TOP)] if flags & re.DOTALL else negate([(10, 11)])
        if op is sre_c.RANGE:
            return chars([(av[0], av[1] + 1)])
        if op is sre_c.CATEGORY:
            return category(av, flags)
        if op is sre_c.IN:
            out, neg = [], False
            for o, a in av:
                if o is sre_c.NEGATE:
                    neg = True
                else:
                    out += cls(o, a)
            return negate(out) if neg else norm(out)
        return None

    def seq(items, s, top=False, final=False):
        items = list(items)
        for i, (op, av) in enumerate(items):
            s = one(op, av, s, top, final and i == len(items) - 1)
        return s

    def build(m, items):
        nonlocal n
        old, n = n, m
        n.start = n.state()
        n.accept = seq(items, n.start)
        n = old

    def one(op, av, s, top, last):
        iv = cls(op, av)
        if iv is not None:
            t = n.state()
            u = n.state()
            n.eps[s].append(t)
            n.edge[t] = (iv, u)
            return u
        if op is sre_c.SUBPATTERN:
            if av[1] or av[2]:
                raise Undecided("inline regex flags")
            return seq(av[3], s, False, last)
        if op is sre_c.BRANCH:
            end = n.state()
            for b in av[1]:
                t = n.state()
                n.eps[s].append(t)
                n.eps[seq(b, t, False, last)].append(end)
            return end
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, body = av
            if lo > 200 or (hi is not sre_c.MAXREPEAT and hi > 200):
                raise Undecided("large repetition")
            greedy = op is sre_c.MAX_REPEAT
            for _ in range(lo):
                s = seq(body, s)
            end = n.state()
            if hi is sre_c.MAXREPEAT:
                loop, t = n.state(), n.state()
                n.eps[s].append(loop)
                n.eps[loop] += [t, end] if greedy else [end, t]
                n.eps[seq(body, t)].append(loop)
                return end
            for _ in range(hi - lo):
                t = n.state()
                n.eps[s] += [t, end] if greedy else [end, t]
                s = seq(body, t)
            n.eps[s].append(end)
            return end
        if op is sre_c.AT:
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING) and not flags & re.MULTILINE:
                if s != n.start or not top:
                    raise Undecided("anchor inside a regex")
                n.anchored = True
                return s
            if av is sre_c.AT_END_STRING:
                t = n.state()
                n.end_only.add(s)
                n.eps[s].append(t)
                return t
            if av is sre_c.AT_END and not flags & re.MULTILINE:
                # the end, or before a final newline
                t = n.state()
                if newline:
                    w, u = n.state(), n.state()
                    pre = n.state()
                    n.eps[s] += [pre, w]
                    n.edge[w] = ([(10, 11)], u)
                    n.end_only.add(u)
                    n.eps[u].append(t)
                    s = pre
                n.end_only.add(s)
                n.eps[s].append(t)
                return t
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT) and av[0] == 1 and last:
            return lookahead(op is sre_c.ASSERT, av[1], s)
        raise Undecided(f"regex construct {op}")

    def lookahead(positive, body, s):
        """A final lookahead: what follows the match is the rest of the word."""
        sub = NFA()
        sub.end_only, sub.anchored = set(), False
        build(sub, body)
        if not newline:
            # the match is the whole text: nothing follows
            empty = determinise(sub, cuts_of([sub]), "match")
            ok = (empty.start in empty.accepting) == positive
            return s if ok else n.state()
        d = determinise(sub, cuts_of([sub]), "match")
        out = n.state()
        at = {}
        for q in d.delta:
            at[q] = n.state()
        for q, row in d.delta.items():
            hit = q == ("done",)
            if hit and not positive:
                continue
            if hit:
                n.eps[at[q]].append(out)
                continue
            if (q in d.accepting) == positive:
                n.end_only.add(at[q])
                n.eps[at[q]].append(out)
            by = {}
            for i, r in enumerate(row):
                a = d.cuts[i]
                b = d.cuts[i + 1] if i + 1 < len(d.cuts) else TOP
                by.setdefault(r, []).append((a, b))
            moves = at[q]
            if q in d.accepting and positive or q not in d.accepting and not positive:
                # the exit is taken at the end only; the moves are not
                moves = n.state()
                entry[at[q]] = moves
            for r, iv in by.items():
                t = n.state()
                n.edge[t] = (norm(iv), at[r])
                n.eps[moves].append(t)
        for a, m in entry.items():
            # a state before both the exit and the moves
            x = n.state()
            n.eps[x] = n.eps[a]
            n.eps[a] = [x, m]
            n.end_only.discard(a)
            n.end_only.add(x)
        entry.clear()
        n.eps[s].append(at[d.start])
        return out

    entry = {}
    n.anchored = False
    n.start = n.state()
    n.accept = seq(tree, n.start, True, True)
    return n


class DFA:
    """Deterministic automaton over interval classes."""

    def __init__(self, cuts, start, delta, accepting):
        self.cuts, self.start, self.delta, self.accepting = cuts, start, delta, accepting

    def index(self, cp):
        import bisect

        return bisect.bisect_right(self.cuts, cp) - 1

    def accepts(self, text):
        s = self.start
        for c in text:
            s = self.delta[s][self.index(ord(c))]
        return s in self.accepting


def cuts_of(nfas):
    out = {0}
    for n in nfas:
        for e in n.edge:
            if e is not None:
                for a, b in e[0]:
                    out.add(a)
                    out.add(b)
    return sorted(x for x in out if x < TOP)


def sample(cuts, i):
    """A readable representative of a class of characters."""
    a = cuts[i]
    b = cuts[i + 1] if i + 1 < len(cuts) else TOP
    for c in "abz_-AZ019\" .":
        if a <= ord(c) < b:
            return c
    for c in range(a, min(b, a + 200)):
        if chr(c).isprintable():
            return chr(c)
    return chr(a)


def determinise(n, cuts, mode):
    """DFA of the texts that fullmatch / match (some prefix) / search / prefer (the preferred match is the whole text)."""
    if mode == "search":
        mode, floating = "match", not n.anchored
    else:
        floating = False

    def closure(states, at_end=False):
        out, seen = [], set()

        def go(s):
            if s in seen:
                return
            seen.add(s)
            out.append(s)
            if s in n.end_only and not at_end:
                return
            for t in n.eps[s]:
                go(t)

        for s in states:
            go(s)
        return out

    ends = bool(n.end_only)
    if ends and mode == "prefer":
        raise Undecided("anchor in a terminal")

    def cut(states):
        """Drop the threads of lower priority than a match."""
        if mode == "prefer" and not ends and n.accept in states:
            return states[: states.index(n.accept) + 1]
        return states

    DONE = ("done",)

    def norm_state(states):
        c = closure(states)
        if mode == "match" and n.accept in c:
            return DONE
        c = cut(c)
        return tuple(c) if mode == "prefer" else tuple(sorted(c))

    def acc(q):
        if q == DONE:
            return True
        return n.accept in closure(q, True)

    init = norm_state([n.start])
    delta, todo, accepting = {}, [init], set()
    while todo:
        q = todo.pop()
        if q in delta:
            continue
        if len(delta) > 4000:
            raise Undecided("automaton too large")
        if acc(q):
            accepting.add(q)
        row = []
        for i, a in enumerate(cuts):
            if q == DONE:
                row.append(DONE)
                continue
            nxt = []
            for s in q:
                e = n.edge[s]
                if e is not None and any(x <= a < y for x, y in e[0]):
                    nxt.append(e[1])
            if floating:
                nxt.append(n.start)
            row.append(norm_state(nxt))
        delta[q] = row
        todo += row
    return DFA(cuts, init, delta, accepting)


def dfas(specs):
    """DFAs over common classes: specs [(pattern, flags, mode)]."""
    ns = [compile_nfa(p, f, m in ("match", "search")) for p, f, m in specs]
    cuts = cuts_of(ns)
    return [determinise(n, cuts, m) for n, (_, _, m) in zip(ns, specs)]


def witness(automata, predicate):
    """A shortest text w with predicate([automaton accepts w ...]), or None; automata share their classes."""
    from collections import deque

    cuts = automata[0].cuts
    start = tuple(d.start for d in automata)
    seen = {start: None}
    todo = deque([start])
    while todo:
        q = todo.popleft()
        if predicate([s in d.accepting for s, d in zip(q, automata)]):
            out = []
            while seen[q] is not None:
                q, i = seen[q]
                out.append(sample(cuts, i))
            return "".join(reversed(out))
        for i in range(len(cuts)):
            r = tuple(d.delta[s][i] for s, d in zip(q, automata))
            if r not in seen:
                seen[r] = (q, i)
                todo.append(r)
                if len(seen) > 200000:
                    raise Undecided("product automaton too large")
    return None
