"""LALR tables of the grammar files, and a driver that parses templates with holes.

A template is a text whose private-use characters stand for any text derived from
a nonterminal.  Only the tables and terminal patterns computed by lark from the
grammar *file* are used; no code of the repository runs.
"""
import os

import lark
from lark.exceptions import UnexpectedCharacters, UnexpectedInput, UnexpectedToken
from lark.lexer import LexerState
from lark.parsers.lalr_analysis import Shift

from .vals import AnalysisBroken, Undecided

HOLE0 = 0xE000


class Hole:
    """A subtree given from outside."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"<hole {self.value!r}>"


class SyntaxRejected(Exception):
    """The text is not in the language."""


_CACHE = {}


def load(root, path=None, text=None, options=()):
    """The grammar of a file (or of a literal text)."""
    key = (path, text, tuple(sorted(options)))
    g = _CACHE.get(key)
    if g is None:
        g = _CACHE[key] = Grammar(path, text, dict(options))
    return g


class Grammar:
    def __init__(self, path, text, options):
        self.path = path
        if path is not None:
            with open(path, encoding="utf8") as f:
                text = f.read()
            dirs = [os.path.dirname(path)]
        else:
            dirs = options.pop("dirs", [])
        options.pop("dirs", None)
        if options.get("parser", "earley") != "lalr":
            raise Undecided(f"parser {options.get('parser', 'earley')}")
        try:
            self.lark = lark.Lark(text, import_paths=dirs, **options)
        except Exception as e:
            self.error = f"{type(e).__name__}: {str(e).splitlines()[0]}"
            self.lark = None
            return
        self.error = None
        fe = self.lark.parser
        self.table = fe.parser.parser.parse_table
        self.callbacks = fe.parser.parser.callbacks
        self.lexer = fe.lexer
        self.contextual = hasattr(self.lexer, "lexers")
        self.start = self.lark.options.start[0]
        self.rules = self.lark.rules
        self.terminals = {t.name: t for t in self.lark.terminals}

    def first_sets(self):
        """Terminals a nonterminal can start with."""
        first, nullable = {}, set()
        changed = True
        while changed:
            changed = False
            for r in self.rules:
                n = r.origin.name
                f = first.setdefault(n, set())
                size = len(f)
                empty = True
                for s in r.expansion:
                    if s.is_term:
                        f.add(s.name)
                        empty = False
                        break
                    f |= first.setdefault(s.name, set())
                    if s.name not in nullable:
                        empty = False
                        break
                if empty and n not in nullable:
                    nullable.add(n)
                    changed = True
                changed = changed or len(f) != size
        return first

    def kinds(self):
        """{kind: the most general nonterminal}: sym (starts with a symbol), mod (with < or [), both."""
        if getattr(self, "_kinds", None) is not None:
            return self._kinds
        import re

        def starts(name, sample):
            t = self.terminals.get(name)
            return t is not None and re.fullmatch(t.pattern.to_regexp(), sample) is not None

        first = self.first_sets()
        cls = {}
        for n, f in first.items():
            if n == self.start or n.startswith("__"):
                continue
            sym = any(starts(t, "zq") for t in f)
            mod = any(starts(t, "<") for t in f)
            if sym or mod:
                cls[n] = "both" if sym and mod else "sym" if sym else "mod"
        unit = {}
        for r in self.rules:
            if len(r.expansion) == 1 and not r.expansion[0].is_term:
                unit.setdefault(r.origin.name, set()).add(r.expansion[0].name)
        for _ in range(len(unit) + 1):
            for a in unit:
                for b in list(unit[a]):
                    unit[a] |= unit.get(b, set())
        out = {}
        for r in self.rules:
            e = r.expansion
            if len(e) == 3 and e[0].is_term and e[2].is_term and not e[1].is_term:
                if starts(e[0].name, "(") and starts(e[2].name, ")") and e[1].name in cls:
                    out.setdefault(cls[e[1].name], set()).add(e[1].name)
        out = {k: v.pop() for k, v in out.items() if len(v) == 1}
        for kind in ("sym", "mod", "both"):
            if kind in out:
                continue
            ns = [n for n in cls if cls[n] == kind]
            tops = [n for n in ns if not any(n in unit.get(m, ()) and m not in unit.get(n, ()) for m in ns)]
            if len(tops) == 1:
                out[kind] = tops[0]
        self._kinds = out
        return out

    def parse(self, text, holes):
        """Parse a text; holes: {char: (value, [nonterminal, ...])} -> lark tree with Hole leaves."""
        table = self.table.states
        end = self.table.end_states[self.start]
        states = [self.table.start_states[self.start]]
        values = []
        ls = LexerState(text)
        lc = ls.line_ctr

        def reduce(rule):
            size = len(rule.expansion)
            if size:
                s = values[-size:]
                del states[-size:]
                del values[-size:]
            else:
                s = []
            v = self.callbacks[rule](s) if rule in self.callbacks else s
            _, new = table[states[-1]][rule.origin.name]
            states.append(new)
            values.append(v)

        while True:
            # one symbol
            while lc.char_pos < len(text) and text[lc.char_pos] in holes:
                # white space before a hole was already skipped
                break
            lexer = self.lexer.lexers[states[-1]] if self.contextual else self.lexer
            tok = None
            pos = lc.char_pos
            # skip ignored tokens up to a hole
            while pos < len(text) and text[pos] not in holes:
                m = lexer.match(text, pos)
                if m and m[1] in lexer.ignore_types:
                    lc.feed(m[0], m[1] in lexer.newline_types)
                    pos = lc.char_pos
                else:
                    break
            if pos >= len(text):
                name = "$END"
            elif text[pos] in holes:
                c = text[pos]
                value, names = holes[c]
                before, after = text[pos - 1: pos], text[pos + 1: pos + 2]
                for x in (before, after):
                    if x and (x.isalnum() or x in '_"-' or x in holes):
                        raise SyntaxRejected(f"a component is glued to {x!r} in {text!r}")
                name = None
                # reductions before a hole need no lookahead only if goto exists
                for n in names:
                    if n in table[states[-1]]:
                        name = n
                        break
                if name is None:
                    raise SyntaxRejected(f"a component cannot stand at position {pos} of {text!r}")
                states.append(table[states[-1]][name][1])
                values.append(Hole(value))
                lc.feed(c, False)
                continue
            else:
                try:
                    tok = lexer.next_token(ls)
                except UnexpectedCharacters:
                    raise SyntaxRejected(f"no symbol of the language at position {pos} of {text!r}")
                except EOFError:
                    name = "$END"
                else:
                    name = tok.type
            while True:
                act = table[states[-1]].get(name)
                if act is None:
                    what = f"{tok!s}" if tok is not None else "the end"
                    raise SyntaxRejected(f"unexpected {what!r} at position {pos} of {text!r}")
                kind, arg = act
                if kind is Shift:
                    states.append(arg)
                    values.append(tok if tok.type not in self.callbacks else self.callbacks[tok.type](tok))
                    break
                reduce(arg)
                if name == "$END" and states[-1] == end:
                    return values[-1]
