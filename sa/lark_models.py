"""What the package uses of the lark library, modelled on the tables of its grammar files."""
import os

import lark as _lark

from . import grammar
from .vals import *  # noqa
from .vals import Entity

TRANSFORMERS = {
    "lark.Transformer", "lark.visitors.Transformer", "lark.Transformer_NonRecursive",
    "lark.visitors.Transformer_NonRecursive", "lark.Transformer_InPlace", "lark.visitors.Transformer_InPlace",
}
TOKEN_ATTRS = {"line", "column", "end_line", "end_column", "start_pos", "end_pos", "pos_in_stream"}


class TreeV(Entity):
    """A parse tree."""

    def __init__(self, tree):
        self.tree = tree

    def __repr__(self):
        return f"<tree {self.tree.data}>"


class LarkModels:
    """Mixin of the interpreter."""

    def setup_lark(self):
        bc = self.builtin_cls
        self.grammars_used = {}
        self.token_subst = {}
        self.last_grammar = None
        tok = self.token_cls = Cls("Token", [bc["str"]], {}, None, "lark", None, True)
        for n in ("lark.Token", "lark.lexer.Token"):
            self.ext_classes[n] = tok
        exc = {}
        for n, b in (
            ("LarkError", bc["Exception"]), ("GrammarError", "LarkError"), ("ConfigurationError", "LarkError"),
            ("ParseError", "LarkError"), ("LexError", "LarkError"), ("UnexpectedInput", "LarkError"),
            ("UnexpectedEOF", "UnexpectedInput"), ("UnexpectedCharacters", "UnexpectedInput"),
            ("UnexpectedToken", "UnexpectedInput"), ("VisitError", "LarkError"),
        ):
            exc[n] = Cls(n, [b if isinstance(b, Cls) else exc[b]], {}, None, "lark.exceptions", None, True)
            for m in ("lark", "lark.exceptions"):
                self.ext_classes[f"{m}.{n}"] = exc[n]
        self.lark_exc = exc

    # ------------------------------------------------------------ grammars

    def lark_grammar(self, term):
        """The grammar of a lark.Lark(...) term."""
        kw = {}
        for t in term.args[2:]:
            kw[t.items[0].value] = t.items[1]
        args = list(term.args[1].items)
        src = args[0] if args else kw.pop("grammar", None)
        leaves = []

        def walk(v):
            if isinstance(v, K) and isinstance(v.value, str):
                leaves.append(v.value)
            elif isinstance(v, str):
                leaves.append(v)
            elif isinstance(v, Val):
                for x in v.key:
                    walk(x)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)

        walk(src)
        options = {}
        for k, v in kw.items():
            if k in ("import_paths", "rel_to", "transformer", "cache"):
                continue
            if isinstance(v, K):
                options[k] = v.value
            elif isinstance(v, B) and v.bdd in (0, 1):
                options[k] = bool(v.bdd)
            else:
                raise Undecided(f"parser option {k}", self.where)
        opts = tuple(sorted(options.items(), key=repr))
        whole = [x for x in leaves if "\n" in x and ":" in x]
        if whole and isinstance(src, K):
            base = os.path.join(self.root, self.package, "parsers")
            return grammar.Grammar(None, src.value, {**options, "dirs": [base]}), kw
        names = [os.path.basename(x) for x in leaves if x.endswith(".lark")]
        if len(set(names)) != 1:
            raise Undecided(f"grammar file of the parser: {sorted(set(names))}", self.where)
        found = []
        for d, _, fs in os.walk(os.path.join(self.root, self.package)):
            if names[0] in fs:
                found.append(os.path.join(d, names[0]))
        if len(found) != 1:
            raise Undecided(f"grammar file {names[0]}", self.where)
        self.grammars_used[found[0]] = self.grammars_used.get(found[0], 0) + 1
        return grammar.load(self.root, found[0], None, opts), kw

    def is_lark(self, t):
        return isinstance(t, App) and t.op == "ext" and t.args[0] in ("lark.Lark", "lark.Lark.open", "lark.lark.Lark", "lark.lark.Lark.open")

    def lark_parse(self, term, args, kwargs, st):
        g, kw = self.lark_grammar(term)
        if g.error:
            return self.raise_(st, App("exc", self.lark_exc["GrammarError"], K(g.error)))
        text = args[0] if args else kwargs.get("text")
        self.last_grammar = g

        def go(b, s1):
            b = self.unstr(b, s1)
            if not isinstance(b, K) or not isinstance(b.value, str):
                return App("tree", K(g.path), self.canon(b, s1))
            holes = {}
            for c in b.value:
                h = self.holes.get(c)
                if h is not None:
                    value, kind = h
                    n = g.kinds().get(kind)
                    if n is None:
                        raise Undecided(f"no nonterminal of kind {kind} in the grammar")
                    holes[c] = (value, [n])
            try:
                tree = g.parse(b.value, holes)
            except grammar.SyntaxRejected as e:
                return self.raise_(s1, App("exc", self.lark_exc["UnexpectedInput"], K(str(e))))
            tv = TreeV(tree) if isinstance(tree, _lark.Tree) else self.leaf(tree, s1)
            if "transformer" in kw and kw["transformer"] != NONE:
                return self.lark_transform(kw["transformer"], tv, s1)
            return tv

        return self.each(text, st, go)

    # ------------------------------------------------------------ transformers

    def is_transformer(self, c):
        return isinstance(c, Cls) and any(getattr(k, "external", False) and k.name in TRANSFORMERS for k in c.mro)

    def leaf(self, x, st):
        if isinstance(x, grammar.Hole):
            return x.value
        if isinstance(x, _lark.Token):
            text = self.token_subst.get(str(x), K(str(x)))
            attrs = {"type": K(x.type), "value": text}
            return self.alloc(st, HInst(self.token_cls, attrs, text))
        if x is None:
            return NONE
        raise Undecided(f"parse tree leaf {x!r}", self.where)

    def lark_transform(self, obj, tree, st):
        if isinstance(tree, Alt):
            return self.each(tree, st, lambda b, s1: self.lark_transform(obj, b, s1))
        if not isinstance(tree, TreeV):
            if isinstance(tree, App) and tree.op == "tree":
                return App("transformed", self.class_of(obj, st) or obj, tree)
            return tree  # a Token: Transformer.transform expects a Tree

        def node(t, s1):
            if not isinstance(t, _lark.Tree):
                v = self.leaf(t, s1)
                if isinstance(t, _lark.Token):
                    f = self.try_getattr(obj, t.type, s1)
                    if f is not None:
                        return self.user_call(f, [v], s1, t.type)
                    f = self.try_getattr(obj, "__default_token__", s1)
                    if isinstance(f, Bound):
                        return self.user_call(f, [v], s1, t.type)
                return v
            kids = []
            for c in t.children:
                v = node(c, s1)
                if not s1.pc:
                    return BOT
                if v == Ext("lark.Discard") or v == Ext("lark.visitors.Discard"):
                    continue
                kids.append(v)
            lst = self.alloc(s1, HList(Tup(kids)))
            data = str(t.data)
            f = self.try_getattr(obj, data, s1)
            if not s1.pc:
                return BOT
            if f is None:
                d = self.try_getattr(obj, "__default__", s1)
                if isinstance(d, Bound):
                    return self.call(d, [K(data), lst, NONE], {}, s1)
                return App("tree_node", K(data), Tup(kids))
            fn = f
            while isinstance(fn, (Bound, Part)):
                fn = fn.fn
            if isinstance(fn, Fn) and fn.attrs.get("v_args") is not None:
                mode = fn.attrs["v_args"]
                if mode == "inline":
                    return self.user_call(f, kids, s1, data)
                raise Undecided(f"v_args({mode})", self.where)
            return self.user_call(f, [lst], s1, data)

        return node(tree.tree, st)

    def user_call(self, f, args, st, data):
        """A callback of the transformer: its exceptions are wrapped."""
        self.sink.append([])
        try:
            v = self.call(f, args, {}, st)
        finally:
            raised = self.sink.pop()
        for p, heap, exc, where in raised:
            cls = self.exc_cls(exc, st)
            if cls is not None and cls.sub(self.lark_exc["GrammarError"]):
                self.sink[-1].append((p, heap, exc, where))
            else:
                self.sink[-1].append((p, heap, App("exc", self.lark_exc["VisitError"], K(f"{data}: {exc!r}")), where))
        return v

    def try_getattr(self, obj, name, st):
        """getattr, or None if it raises AttributeError (always, or never)."""
        self.sink.append([])
        pc = st.pc
        try:
            s1 = type(st)(st.pc, dict(st.heap))
            v = self.getattr(obj, name, s1)
        finally:
            raised = self.sink.pop()
        if not raised:
            st.heap = s1.heap
            return v
        attr = self.builtin_cls["AttributeError"]
        if all((self.exc_cls(e[2], st) or attr).sub(attr) for e in raised) and not s1.pc:
            return None
        self.sink[-1].extend(raised)
        if s1.pc and s1.pc != pc:
            raise Undecided(f"attribute {name} of a transformer exists on some paths only", self.where)
        st.pc = s1.pc
        return v

    def x_lark_v_args(self, a, k, st):
        inline = k.get("inline", FALSE)
        mode = "inline" if inline == TRUE else "other"
        return App("v_args", mode)
