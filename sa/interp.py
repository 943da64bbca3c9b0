"""The abstract interpreter: gated value-flow over the syntax trees of the package.

No code of the repository is executed.  Both sides of an undecided branch are
analysed once and *joined*: every value is a set of terms guarded by BDDs.
"""
import ast
import os

from .bdd import Bdd
from .vals import *  # noqa
from .vals import Entity
from . import builtin_models

MAX_DEPTH = 70
MAX_LOOP = 80
LAZY = [Ext("builtins.all"), Ext("builtins.any"), Ext("builtins.next")]


class St:
    """Abstract state: a path condition (BDD) and a heap overlay."""

    __slots__ = ("pc", "heap")

    def __init__(self, pc, heap):
        self.pc, self.heap = pc, heap

    def fork(self, g, bdd):
        return St(bdd.and_(self.pc, g), dict(self.heap))


class Cx:
    """Context of one function activation."""

    def __init__(self, fid, module, fn=None, cell=None, first=None):
        self.fid, self.module, self.fn, self.cell, self.first = fid, module, fn, cell, first
        self.rets, self.loops = [], []
        self.gen = None
        self.locals = None
        self.globals, self.nonlocals = set(), set()
        self.exc = None


_LOCALS = {}


def scope_info(node):
    """Names assigned in a scope, its globals and nonlocals, and whether it yields."""
    r = _LOCALS.get(node)
    if r is not None:
        return r
    names, globs, nonl, gen = set(), set(), set(), [False]

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    args = getattr(node, "args", None)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            names.add(a.arg)
        for a in (args.vararg, args.kwarg):
            if a:
                names.add(a.arg)
    r = _LOCALS[node] = (names - globs - nonl, globs, nonl, gen[0])
    return r


def self_recursive(node):
    """Does the body mention its own name (as a name or an attribute)?"""
    r = getattr(node, "_selfrec", None)
    if r is None:
        name = getattr(node, "name", None)
        r = any(
            (isinstance(n, ast.Name) and n.id == name)
            or (isinstance(n, ast.Attribute) and n.attr == name)
            for s in (node.body if isinstance(node.body, list) else [node.body])
            for n in ast.walk(s)
        )
        node._selfrec = r
    return r


class Interp(builtin_models.Models):
    """The interpreter."""

    def __init__(self, root, package):
        self.root, self.package = root, package
        self.bdd = Bdd()
        self.base = {}
        self.nid = 0
        self.modules = {}
        self.sink = [[]]
        self.stack = []
        self.over = []
        self.where = None
        self.effects = []
        self.dicts_assigned = []
        self.overlays, self.overlay_of, self.over_names = {}, {}, set()
        self.protected = {}  # heap id -> description
        self.raw = False  # build formulas as uninterpreted New terms
        self.stub_meta = None  # metaclass whose __call__ is bypassed
        self.cut_opaque = False  # recursion is cut where a function over an opaque value comes back to itself
        self.cut_late = False  # functions may be entered again once: recursion is cut at the outermost function
        self.stub_deep = False  # also when it is reached by super()
        self.formula = None
        self.fn_hook = None
        self.axioms = 1
        self.sources = {}
        self.calls_seen = set()
        self.materialised = {}
        self.core = {}  # class -> attributes that the initialiser sets
        self.late_names = (0, frozenset())
        self.loading = False
        self.gatoms = {}
        self.opaque_truth = {}
        self.setup_builtins()

    # ------------------------------------------------------------ heap

    def new_id(self):
        self.nid += 1
        return self.nid

    def rec(self, st, i):
        r = st.heap.get(i)
        return r if r is not None else self.base[i]

    def alloc(self, st, rec):
        i = self.new_id()
        st.heap[i] = rec
        return Ref(i)

    def put(self, st, i, rec, what=None, silent=False):
        if not silent:
            if i in self.protected:
                self.effects.append((st.pc, "param", self.protected[i], what, self.where, i))
            elif i in self.base and not self.loading:
                self.effects.append((st.pc, "global", i, what, self.where, i))
        st.heap[i] = rec

    # ------------------------------------------------------------ guards and joins

    def alts(self, v, pc):
        """Feasible (guard and pc, base) alternatives."""
        if not isinstance(v, Alt):
            return [(pc, v)] if pc else []
        out = []
        for g, b in v.alts:
            q = self.bdd.and_(g, pc)
            if q:
                out.append((q, b))
        return out

    def combine(self, pairs):
        """Merge [(pc, V)] (disjoint pcs) into one V."""
        bdd = self.bdd
        pairs = [(p, v) for p, v in pairs if p]
        if not pairs:
            return BOT
        if len(pairs) == 1 and not isinstance(pairs[0][1], Alt):
            return pairs[0][1]
        first = pairs[0][1]
        if not isinstance(first, (Alt, B)) and all(v == first for _, v in pairs):
            return first
        groups = {}
        bg, bv = 0, 0
        tups = {}
        for p, v in pairs:
            for g, b in self.alts(v, p):
                if isinstance(b, B):
                    bg = bdd.or_(bg, g)
                    bv = bdd.or_(bv, bdd.and_(g, b.bdd))
                elif isinstance(b, Tup):
                    tups.setdefault(len(b.items), []).append((g, b))
                else:
                    groups[b] = bdd.or_(groups.get(b, 0), g)
        out = [(g, b) for b, g in groups.items()]
        for n, ts in tups.items():
            if len(ts) == 1 or all(t == ts[0][1] for _, t in ts):
                t = ts[0][1]
            else:
                t = Tup(self.combine([(g, t.items[i]) for g, t in ts]) for i in range(n))
            out.append((bdd.or_(*[g for g, _ in ts]), t))
        if bg:
            out.append((bg, B(bv)))
        if len(out) == 1:
            return out[0][1]
        return Alt(tuple(out))

    def merge_rec(self, parts):
        """Merge [(pc, record)] of the same object."""
        bdd = self.bdd
        r0 = parts[0][1]
        if any(type(r) is not type(r0) for _, r in parts):
            raise Undecided("incompatible heap records", self.where)
        if isinstance(r0, HFrame):
            names = {}
            for _, r in parts:
                names.update(dict.fromkeys(r.vars))
            return HFrame(
                {n: self.combine([(p, r.vars.get(n, ABSENT)) for p, r in parts]) for n in names},
                r0.parent,
            )
        if isinstance(r0, HInst):
            names = {}
            for _, r in parts:
                names.update(dict.fromkeys(r.attrs))
            attrs = {n: self.combine([(p, r.attrs.get(n, ABSENT)) for p, r in parts]) for n in names}
            content = None
            if r0.content is not None:
                content = self.combine([(p, r.content) for p, r in parts])
            return HInst(r0.cls, attrs, content, r0.new)
        if isinstance(r0, HList):
            return HList(self.combine([(p, r.content) for p, r in parts]), r0.kind)
        if isinstance(r0, HMap):
            order, val = [], {}
            for p, r in parts:
                for k, v, g in r.entries:
                    q = bdd.and_(p, g)
                    if k not in val:
                        order.append(k)
                        val[k] = [0, []]
                    val[k][0] = bdd.or_(val[k][0], q)
                    val[k][1].append((q, v))
            ents = []
            for k in order:
                g, vs = val[k]
                if r0.kind == "set":
                    ents.append((k, None, g))
                else:
                    ents.append((k, self.combine(vs), g))
            if any(r.opaque != r0.opaque for _, r in parts):
                raise Undecided("join of different opaque maps", self.where)
            return HMap(tuple(ents), r0.kind, r0.opaque, r0.factory)
        raise Undecided("unknown record", self.where)

    def join(self, st, sts):
        """Join states into st."""
        sts = [s for s in sts if s.pc]
        if not sts:
            st.pc = 0
            return
        if len(sts) == 1:
            st.pc, st.heap = sts[0].pc, sts[0].heap
            return
        heap = {}
        ids = {}
        for s in sts:
            ids.update(dict.fromkeys(s.heap))
        for i in ids:
            recs = [(s.pc, s.heap[i] if i in s.heap else self.base.get(i)) for s in sts]
            recs = [(p, r) for p, r in recs if r is not None]
            r0 = recs[0][1]
            if all(r is r0 for _, r in recs):
                heap[i] = r0
            else:
                heap[i] = self.merge_rec(recs)
        st.pc = self.bdd.or_(*[s.pc for s in sts])
        st.heap = heap

    def each(self, v, st, f):
        """Apply f(base, st) to every alternative; join states and values."""
        al = self.alts(v, st.pc)
        if not al:
            st.pc = 0
            return BOT
        if len(al) == 1:
            return f(al[0][1], st)
        sts, vals = [], []
        for g, b in al:
            s = St(g, dict(st.heap))
            r = f(b, s)
            if s.pc:
                sts.append(s)
                vals.append((s.pc, r))
        self.join(st, sts)
        return self.combine(vals)

    def emap(self, v, pc, f):
        """Apply a pure function to every alternative."""
        if not isinstance(v, Alt):
            return f(v) if pc else BOT
        return self.combine([(g, f(b)) for g, b in self.alts(v, pc)])

    def split(self, st, cond, f1, f2):
        """Evaluate f1 under cond and f2 otherwise; join."""
        bdd = self.bdd
        p1 = bdd.and_(st.pc, cond)
        p2 = bdd.and_(st.pc, bdd.not_(cond))
        if not p1 and not p2:
            st.pc = 0
            return BOT
        if not p2:
            return f1(st)
        if not p1:
            return f2(st)
        s1, s2 = St(p1, dict(st.heap)), St(p2, dict(st.heap))
        v1 = f1(s1)
        v2 = f2(s2)
        self.join(st, [s1, s2])
        return self.combine([(s1.pc, v1), (s2.pc, v2)])

    def raise_(self, st, exc, cond=1):
        """Raise under cond: the state goes on without it."""
        p = self.bdd.and_(st.pc, cond)
        if p:
            self.sink[-1].append((p, dict(st.heap), exc, self.where))
            st.pc = self.bdd.and_(st.pc, self.bdd.not_(cond))
        return BOT

    def error(self, st, name, msg="", cond=1):
        """Raise a builtin exception."""
        cls = self.builtin_cls[name]
        self.raise_(st, App("exc", cls, K(msg)), cond)
        return BOT

    def atom(self, *key):
        return self.bdd.atom(key)

    # ------------------------------------------------------------ functions

    def receiver(self, b, st):
        """The argument of a call that is cut (the hypothesis of the induction): which object of a class it is does not matter."""
        if isinstance(b, Ref):
            r = self.rec(st, b.id)
            if isinstance(r, HInst) and r.new is None and r.content is None:
                f, c = r.cls.lookup("__eq__")
                if f is None or c.builtin:  # not a value
                    return App("self", r.cls)
            if self.cut_late and isinstance(r, (HMap, HList)):
                return self.canon(b, st)
        return b

    def call_fn(self, fn, args, kwargs, st, node=None):
        if self.fn_hook is not None:
            r = self.fn_hook(fn, args, kwargs, st)
            if r is not None:
                return r
        if self.stub_deep and self.stub_meta is not None and fn is self.stub_meta.attrs.get("__call__") and args and isinstance(args[0], Cls):
            return self.type_call(args[0], args[1:], kwargs, st)
        over = self.cut_opaque and self.is_opaque_recursion(fn, args, kwargs, st)
        if self.cut_opaque:
            again = over and any(f is fn and o for f, o in zip(self.stack, self.over))
        else:
            again = fn in self.stack and not (self.cut_late and self.stack.count(fn) < 2 and fn is not self.stack[0])
        if again:
            if self.is_opaque_recursion(fn, args, kwargs, st):
                return App("call", fn, Tup([self.receiver(a, st) for a in args]))
        if len(self.stack) > MAX_DEPTH:
            raise Undecided("call depth", self.where)
        self.calls_seen.add(fn)
        n = fn.node
        saved = self.where
        names, globs, nonl, gen = scope_info(n)
        vars_ = self.bind(fn, args, kwargs, st)
        if vars_ is None or not st.pc:
            return BOT
        fid = self.new_id()
        st.heap[fid] = HFrame(vars_, fn.fid)
        a = n.args
        pos = a.posonlyargs + a.args
        first = vars_.get(pos[0].arg) if pos else None
        cx = Cx(fid, fn.module, fn, fn.cell, first)
        cx.locals, cx.globals, cx.nonlocals = names, globs, nonl
        self.stack.append(fn)
        self.over.append(over)
        try:
            if isinstance(n, ast.Lambda):
                r = self.eval(n.body, st, cx)
                return r
            if gen:
                cx.gen = self.alloc(st, HList(Tup(()), "iter"))
            self.block(n.body, st, cx)
            outs = list(cx.rets)
            if st.pc:
                outs.append((st.pc, st.heap, NONE))
            self.join(st, [St(p, h) for p, h, _ in outs])
            if cx.gen is not None:
                return cx.gen
            return self.combine([(p, v) for p, _, v in outs])
        finally:
            self.stack.pop()
            self.over.pop()
            self.where = saved

    def is_opaque_recursion(self, fn, args, kwargs, st):
        """A recursive call whose structural arguments are all opaque."""
        vals = list(args) + list(kwargs.values())
        opaque = False
        for v in vals:
            for _, b in self.alts(v, st.pc):
                if isinstance(b, (New,)):
                    return False
                if isinstance(b, Ref) and isinstance(self.rec(st, b.id), HInst):
                    r = self.rec(st, b.id)
                    if r.cls.sub(self.formula) if self.formula else False:
                        return False
                if isinstance(b, (Ref, Tup)):
                    c = self.seq_content(b, st)
                    if c is not None and any(len(t.items) for _, t in self.alts(c, st.pc) if isinstance(t, Tup)):
                        return False
                if isinstance(b, Tup) and b.items:
                    return False
                if isinstance(b, (Sym, App)):
                    opaque = True
        return opaque

    def bind(self, fn, args, kwargs, st):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        vars_ = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            vars_[n] = v
        if len(args) > len(pos):
            if not a.vararg:
                self.error(st, "TypeError", f"{fn.qual}: too many positional arguments")
                return None
            vars_[a.vararg.arg] = Tup(args[len(pos):])
        elif a.vararg:
            vars_[a.vararg.arg] = Tup(())
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos[npos:] or k in kwn:
                if k in vars_:
                    self.error(st, "TypeError", f"{fn.qual}: multiple values for {k}")
                    return None
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.error(st, "TypeError", f"{fn.qual}: unexpected keyword {k}")
                return None
        for n, d in zip(pos[len(pos) - len(fn.defaults):], fn.defaults):
            if n not in vars_:
                vars_[n] = d
        for n, d in zip(kwn, fn.kwdefaults):
            if n not in vars_ and d is not None:
                vars_[n] = d
        for n in pos + kwn:
            if n not in vars_:
                self.error(st, "TypeError", f"{fn.qual}: missing argument {n}")
                return None
        if a.kwarg:
            vars_[a.kwarg.arg] = self.alloc(
                st, HMap(tuple((K(k), v, 1) for k, v in extra.items()), "dict")
            )
        return vars_

    # ------------------------------------------------------------ statements

    def block(self, stmts, st, cx):
        for s in stmts:
            if not st.pc:
                return
            self.stmt(s, st, cx)

    def stmt(self, s, st, cx):
        self.where = (cx.module.path, getattr(s, "lineno", 0), cx.fn.qual if cx.fn else "<module>")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}", self.where)
        m(s, st, cx)

    def s_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, cx)

    def s_Pass(self, s, st, cx):
        pass

    def s_Global(self, s, st, cx):
        pass

    s_Nonlocal = s_Global

    def s_Return(self, s, st, cx):
        v = self.eval(s.value, st, cx) if s.value is not None else NONE
        if st.pc:
            cx.rets.append((st.pc, st.heap, v))
            st.pc, st.heap = 0, {}

    def s_Assign(self, s, st, cx):
        v = self.eval(s.value, st, cx)
        for t in s.targets:
            if st.pc:
                self.assign(t, v, st, cx)

    def s_AnnAssign(self, s, st, cx):
        if s.value is not None:
            v = self.eval(s.value, st, cx)
            if st.pc:
                self.assign(s.target, v, st, cx)

    def s_AugAssign(self, s, st, cx):
        t = s.target
        load = ast.copy_location(type(t)(**{**dict(ast.iter_fields(t)), "ctx": ast.Load()}), t)
        old = self.eval(load, st, cx)
        val = self.eval(s.value, st, cx)
        if not st.pc:
            return

        def go(o, s1):
            if isinstance(o, Ref):
                r = self.rec(s1, o.id)
                if isinstance(r, HList) and isinstance(s.op, ast.Add):
                    self.list_method(o, "extend", [val], {}, s1)
                    return o
                if isinstance(r, HMap) and r.kind == "set" and isinstance(s.op, ast.BitOr):
                    self.map_method(o, "update", [val], {}, s1)
                    return o
            return self.each(val, s1, lambda v, s2: self.binop(type(s.op).__name__, o, v, s2))

        self.assign(t, self.each(old, st, go), st, cx)

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, cx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, cx)
            self.each(o, st, lambda b, s1: self.setattr(b, self.mangle(t.attr, cx), v, s1))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, cx)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, st, cx)
                return
            i = self.eval(t.slice, st, cx)
            self.each(
                o, st, lambda b, s1: self.each(i, s1, lambda k, s2: self.setitem(b, k, v, s2))
            )
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_content(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]

            def go(tup, s1):
                if not isinstance(tup, Tup):
                    if star:
                        raise Undecided("unpacking an opaque sequence", self.where)
                    xs = [App("item", tup, K(i)) for i in range(len(t.elts))]
                    for x, y in zip(t.elts, xs):
                        self.assign(x, y, s1, cx)
                    return NONE
                xs = list(tup.items)
                n = len(t.elts)
                if star:
                    if len(xs) < n - 1:
                        return self.error(s1, "ValueError", "not enough values to unpack")
                    k = star[0]
                    mid = xs[k: len(xs) - (n - 1 - k)]
                    xs = xs[:k] + [self.alloc(s1, HList(Tup(mid)))] + xs[len(xs) - (n - 1 - k):]
                elif len(xs) != n:
                    return self.error(s1, "ValueError", "wrong number of values to unpack")
                for x, y in zip(t.elts, xs):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, s1, cx)
                return NONE

            self.each(items, st, go)
        else:
            raise Undecided(f"assignment to {type(t).__name__}", self.where)

    def set_slice(self, o, sl, v, st, cx):
        lo = self.eval(sl.lower, st, cx) if sl.lower else NONE
        hi = self.eval(sl.upper, st, cx) if sl.upper else NONE
        if sl.step is not None:
            raise Undecided("extended slice assignment", self.where)
        new = self.iter_content(v, st)

        def go(b, s1):
            r = self.rec(s1, b.id) if isinstance(b, Ref) else None
            if not isinstance(r, HList):
                raise Undecided("slice assignment", self.where)

            def sub(t, l, h, n):
                if not all(isinstance(x, Tup) for x in (t, n)):
                    raise Undecided("slice assignment of opaque", self.where)
                xs = list(t.items)
                xs[slice(l.value, h.value)] = list(n.items)
                return Tup(xs)

            c = self.pure([r.content, lo, hi, new], s1.pc, sub)
            self.put(s1, b.id, HList(c, r.kind), "slice assignment")
            return NONE

        self.each(o, st, go)

    def pure(self, vs, pc, f):
        """Apply a pure function of several values to all combinations of alternatives."""
        def go(i, p, acc):
            if i == len(vs):
                return f(*acc)
            return self.combine([(g, go(i + 1, g, acc + [b])) for g, b in self.alts(vs[i], p)])

        return go(0, pc, [])

    def s_Delete(self, s, st, cx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(t.id, ABSENT, st, cx)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, cx)
                self.each(o, st, lambda b, s1: self.delattr(b, self.mangle(t.attr, cx), s1))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, cx)
                if isinstance(t.slice, ast.Slice):
                    empty = self.alloc(st, HList(Tup(())))
                    self.set_slice(o, t.slice, empty, st, cx)
                    continue
                i = self.eval(t.slice, st, cx)
                self.each(
                    o, st, lambda b, s1: self.each(i, s1, lambda k, s2: self.delitem(b, k, s2))
                )
            else:
                raise Undecided("del", self.where)

    def s_If(self, s, st, cx):
        c = self.truth(self.eval(s.test, st, cx), st)
        if not st.pc:
            return
        self.split(
            st,
            c,
            lambda s1: self.block(s.body, s1, cx) or NONE,
            lambda s2: self.block(s.orelse, s2, cx) or NONE,
        )

    def s_Assert(self, s, st, cx):
        c = self.truth(self.eval(s.test, st, cx), st)
        self.error(st, "AssertionError", ast.unparse(s.test), self.bdd.not_(c))

    def s_Raise(self, s, st, cx):
        if s.exc is None:
            self.raise_(st, cx.exc if cx.exc is not None else App("exc", self.builtin_cls["RuntimeError"], NONE))
            return
        v = self.eval(s.exc, st, cx)

        def go(b, s1):
            if isinstance(b, Cls):
                b = self.call(b, [], {}, s1)
            self.raise_(s1, b)
            return BOT

        self.each(v, st, go)

    def iterator(self, node, v, st):
        """The iterator object that v is, if a loop over it shares it with other code."""
        if not isinstance(node, (ast.Name, ast.Attribute)):
            return None
        al = self.alts(v, st.pc)
        if len(al) == 1 and isinstance(al[0][1], Ref):
            r = self.rec(st, al[0][1].id)
            if isinstance(r, HList) and r.kind == "iter":
                return al[0][1]
        return None

    def steps(self, it, st, body):
        """Draw the elements of an iterator one by one; body(element, st) for each; st is left at the end."""
        exits = []
        for n in range(MAX_LOOP + 1):
            if not st.pc:
                break
            v = self.next_(it, [ABSENT], st)
            if not st.pc:
                break
            al = self.alts(v, st.pc)
            end = self.bdd.or_(*[g for g, x in al if x == ABSENT])
            if end:
                exits.append(St(end, dict(st.heap)))
            st.pc = self.bdd.and_(st.pc, self.bdd.not_(end))
            if not st.pc:
                break
            if n == MAX_LOOP:
                raise Undecided("loop bound", self.where)
            body(self.combine([(g, x) for g, x in al if x != ABSENT]), st)
        self.join(st, exits)

    def s_For(self, s, st, cx):
        it = self.eval(s.iter, st, cx)
        if not st.pc:
            return
        shared = self.iterator(s.iter, it, st)
        if shared is None:
            it = self.iter_content(it, st)
            if not st.pc:
                return

        def go(tup, s1):
            if not isinstance(tup, Tup) and shared is None:
                return self.opaque_for(s, tup, s1, cx)
            lp = {"brk": [], "cont": []}
            cx.loops.append(lp)

            def body(x, s2):
                self.assign(s.target, x, s2, cx)
                self.block(s.body, s2, cx)
                if lp["cont"]:
                    self.join(s2, [St(s2.pc, s2.heap)] + lp["cont"])
                    lp["cont"] = []

            try:
                if shared is not None:
                    self.steps(shared, s1, body)
                else:
                    for x in tup.items:
                        if not s1.pc:
                            break
                        body(x, s1)
            finally:
                cx.loops.pop()
            if s1.pc and s.orelse:
                self.block(s.orelse, s1, cx)
            if lp["brk"]:
                self.join(s1, [St(s1.pc, s1.heap)] + lp["brk"])
            return NONE

        if shared is not None:
            go(shared, st)
        else:
            self.each(it, st, go)

    def opaque_for(self, s, tup, st, cx):
        raise Undecided(f"loop over an opaque sequence {tup!r}", self.where)

    def s_While(self, s, st, cx):
        lp = {"brk": [], "cont": []}
        cx.loops.append(lp)
        exits = []
        where = self.where
        try:
            for n in range(MAX_LOOP + 1):
                if not st.pc:
                    break
                self.where = where
                c = self.truth(self.eval(s.test, st, cx), st)
                no = self.bdd.and_(st.pc, self.bdd.not_(c))
                if no:
                    exits.append(St(no, dict(st.heap)))
                st.pc = self.bdd.and_(st.pc, c)
                if not st.pc:
                    break
                if n == MAX_LOOP:
                    raise Undecided("loop bound", where)
                self.block(s.body, st, cx)
                if lp["cont"]:
                    self.join(st, [St(st.pc, st.heap)] + lp["cont"])
                    lp["cont"] = []
        finally:
            cx.loops.pop()
        self.join(st, exits)
        if st.pc and s.orelse:
            self.block(s.orelse, st, cx)
        if lp["brk"]:
            self.join(st, [St(st.pc, st.heap)] + lp["brk"])

    def s_Break(self, s, st, cx):
        cx.loops[-1]["brk"].append(St(st.pc, st.heap))
        st.pc, st.heap = 0, {}

    def s_Continue(self, s, st, cx):
        cx.loops[-1]["cont"].append(St(st.pc, st.heap))
        st.pc, st.heap = 0, {}

    def exc_cls(self, exc, st):
        if isinstance(exc, App) and exc.op == "exc":
            return exc.args[0]
        if isinstance(exc, Ref):
            r = self.rec(st, exc.id)
            if isinstance(r, HInst):
                return r.cls
        if isinstance(exc, New):
            return exc.cls
        return None

    def s_Try(self, s, st, cx):
        self.sink.append([])
        try:
            self.block(s.body, st, cx)
        finally:
            raised = self.sink.pop()
        outs = []
        body = St(st.pc, st.heap)
        if body.pc and s.orelse:
            self.block(s.orelse, body, cx)
        outs.append(body)
        for p, heap, exc, where in raised:
            s1 = St(p, heap)
            cls = self.exc_cls(exc, s1)
            handled = False
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    tv = self.eval(h.type, s1, cx)
                    ts = tv.items if isinstance(tv, Tup) else [tv]
                    if cls is None:
                        match = any(
                            isinstance(t, Cls) and t.name in ("Exception", "BaseException") for t in ts
                        )
                        if not match:
                            raise Undecided("unknown exception class", where)
                    else:
                        match = any(isinstance(t, Cls) and cls.sub(t) for t in ts)
                if match:
                    old, cx.exc = cx.exc, exc
                    if h.name:
                        self.setname(h.name, exc, s1, cx)
                    self.block(h.body, s1, cx)
                    cx.exc = old
                    outs.append(s1)
                    handled = True
                    break
            if not handled:
                if s.finalbody:
                    self.block(s.finalbody, s1, cx)
                if s1.pc:
                    self.sink[-1].append((s1.pc, s1.heap, exc, where))
        self.join(st, outs)
        if s.finalbody and st.pc:
            self.block(s.finalbody, st, cx)

    def s_With(self, s, st, cx):
        for it in s.items:
            v = self.eval(it.context_expr, st, cx)
            if isinstance(v, App) and v.op == "suppress":
                if len(s.items) != 1:
                    raise Undecided("with", self.where)
                self.sink.append([])
                try:
                    self.block(s.body, st, cx)
                finally:
                    raised = self.sink.pop()
                outs = [St(st.pc, st.heap)]
                for p, heap, exc, where in raised:
                    cls = self.exc_cls(exc, St(p, heap))
                    if cls is not None and any(isinstance(t, Cls) and cls.sub(t) for t in v.args):
                        outs.append(St(p, heap))
                    else:
                        self.sink[-1].append((p, heap, exc, where))
                self.join(st, outs)
                return
            if isinstance(v, App) and v.op in ("ext", "call"):
                # a context manager of a library: entering and leaving it has no effect here
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, App("enter", v), st, cx)
                continue
            raise Undecided("with statement", self.where)
        self.block(s.body, st, cx)

    def s_Import(self, s, st, cx):
        for a in s.names:
            m = self.import_module(a.name, st)
            if a.asname:
                self.setname(a.asname, m, st, cx)
            else:
                top = a.name.split(".")[0]
                self.setname(top, self.modules.get(top, Ext(top)), st, cx)

    def s_ImportFrom(self, s, st, cx):
        name = s.module or ""
        if s.level:
            pkg = cx.module.name.split(".")
            if not cx.module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (s.level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        m = self.import_module(name, st)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, Mod):
                    raise Undecided("import *", self.where)
                for k, v in self.rec(st, m.fid).vars.items():
                    if not k.startswith("_"):
                        self.setname(k, v, st, cx)
                continue
            self.setname(a.asname or a.name, self.mod_attr(m, a.name, st), st, cx)

    def mod_attr(self, m, attr, st):
        if isinstance(m, Mod):
            v = self.rec(st, m.fid).vars.get(attr)
            if v is not None:
                return v
            sub = f"{m.name}.{attr}"
            if self.find_module(sub):
                return self.import_module(sub, st)
            if st.pc:
                raise AnalysisBroken(f"name {attr} not found in module {m.name}")
            return BOT
        return self.ext_attr(m, attr)

    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        return None

    def import_module(self, name, st):
        if name.split(".")[0] != self.package:
            return self.ext_module(name)
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            m = self.load(".".join(parts[:i]), st)
        return m

    def load(self, name, st):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            raise AnalysisBroken(f"module {name} not found")
        with open(path, encoding="utf8") as f:
            src = f.read()
        rel = os.path.relpath(path, self.root)
        self.sources[rel] = src
        tree = ast.parse(src, rel)
        m = Mod(name, rel)
        m.tree = tree
        self.modules[name] = m
        m.fid = self.new_id()
        st.heap[m.fid] = HFrame({"__name__": K(name), "__file__": K(path)}, None)
        cx = Cx(m.fid, m)
        saved = self.where
        self.block(tree.body, st, cx)
        self.where = saved
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            pf = self.modules[parent].fid
            r = self.rec(st, pf)
            v = dict(r.vars)
            v.setdefault(leaf, m)
            st.heap[pf] = HFrame(v, r.parent)
        return m

    def s_FunctionDef(self, s, st, cx):
        v = self.make_fn(s, st, cx)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, cx)
            v = self.call(dv, [v], {}, st)
        self.setname(s.name, v, st, cx)

    def make_fn(self, n, st, cx):
        a = n.args
        defaults = [self.eval(d, st, cx) for d in a.defaults]
        kwd = [self.eval(d, st, cx) if d is not None else None for d in a.kw_defaults]
        name = getattr(n, "name", "<lambda>")
        if cx.cell is not None and cx.fn is None:
            qual = f"{cx.cell.name}.{name}"
        elif cx.fn is not None:
            qual = f"{cx.fn.qual}.<locals>.{name}"
        else:
            qual = name
        return Fn(n, cx.fid, cx.module, cx.cell, qual, defaults, kwd, None)

    def s_ClassDef(self, s, st, cx):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                raise Undecided("starred base", self.where)
            v = self.eval(b, st, cx)
            v = self.as_class(v)
            if v is not None:
                bases.append(v)
        kw = {k.arg: self.eval(k.value, st, cx) for k in s.keywords}
        meta = kw.pop("metaclass", None)
        cands = ([meta] if isinstance(meta, Cls) else []) + [b.meta for b in bases if b.meta]
        best = None
        for m in cands:
            if best is None or m.sub(best):
                best = m
        fid = self.new_id()
        cell = Cell(s.name)
        st.heap[fid] = HFrame({"__module__": K(cx.module.name), "__qualname__": K(s.name)}, cx.fid)
        bx = Cx(fid, cx.module, None, cell)
        bx.locals = None
        doc = ast.get_docstring(s)
        self.block(s.body, st, bx)
        ns = dict(self.rec(st, fid).vars)
        ns["__doc__"] = K(doc)
        # functions of the body do not see its names
        for v in ns.values():
            self.rescope(v, fid, cx.fid)
        self.cur_class_node = (s, cx.module, cell)
        newm = best.lookup("__new__")[0] if best is not None else None
        if isinstance(newm, Fn):
            nsref = self.alloc(st, HMap(tuple((K(k), v, 1) for k, v in ns.items()), "dict"))
            c = self.call_fn(
                newm, [best, K(s.name), Tup(bases), nsref], kw, st, s
            )
        else:
            c = self.new_class(best, s.name, bases, ns, st)
        if not isinstance(c, Cls):
            raise Undecided("class statement does not build a class", self.where)
        if kw and not isinstance(newm, Fn):
            pass
        cell.cls = c
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, st, cx), [c], {}, st)
        self.setname(s.name, c, st, cx)

    def rescope(self, v, fid, outer):
        if isinstance(v, Fn) and v.fid == fid:
            v.fid = outer
        elif isinstance(v, Wrap):
            for x in v.key[1:]:
                self.rescope(x, fid, outer)
        elif isinstance(v, Dispatch):
            self.rescope(v.default, fid, outer)
            for _, f in v.registry:
                self.rescope(f, fid, outer)

    def new_class(self, meta, name, bases, ns, st):
        s, module, cell = self.cur_class_node
        if not bases:
            bases = [self.builtin_cls["object"]]
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = NONE
        c = Cls(name, bases, ns, meta, module.name, s)
        self.classes.append(c)
        if any(b.members is not None or b is self.builtin_cls["Enum"] for b in bases):
            self.make_enum(c, st)
        if cell.cls is None:
            cell.cls = c
        return c

    def make_enum(self, c, st):
        c.members = []
        for k, v in list(c.attrs.items()):
            if k.startswith("_") or isinstance(v, (Fn, Wrap, Dispatch)):
                continue
            if isinstance(v, App) and v.op == "enum.auto":
                v = K(len(c.members) + 1)
            m = EnumM(c, k, v)
            for o in c.members:
                if o.value == v:
                    m = o
                    break
            else:
                c.members.append(m)
            c.attrs[k] = m

    # ------------------------------------------------------------ names

    def mangle(self, name, cx):
        if cx.cell is not None and name.startswith("__") and not name.endswith("__"):
            n = cx.cell.name.lstrip("_")
            if n:
                return f"_{n}{name}"
        return name

    def setname(self, name, v, st, cx):
        name = self.mangle(name, cx)
        fid = cx.fid
        if name in cx.globals:
            fid = cx.module.fid
        elif name in cx.nonlocals:
            fid = self.rec(st, fid).parent
            while fid is not None and name not in self.rec(st, fid).vars:
                fid = self.rec(st, fid).parent
            if fid is None:
                raise Undecided("nonlocal", self.where)
        r = self.rec(st, fid)
        vs = dict(r.vars)
        vs[name] = v
        if fid in self.base and not self.loading:
            self.put(st, fid, HFrame(vs, r.parent), f"assignment to {name}")
        else:
            st.heap[fid] = HFrame(vs, r.parent)

    def getname(self, name, st, cx):
        name = self.mangle(name, cx)
        if name in cx.globals:
            fid = cx.module.fid
        else:
            fid = cx.fid
        todo = []
        pc = st.pc
        while fid is not None:
            r = self.rec(st, fid)
            v = r.vars.get(name)
            if v is not None:
                if not (v is ABSENT or isinstance(v, Alt)):
                    if not todo:
                        return v
                    todo.append((pc, v))
                    return self.combine(todo)
                rest = 0
                for g, b in self.alts(v, pc):
                    if b == ABSENT:
                        rest = self.bdd.or_(rest, g)
                    else:
                        todo.append((g, b))
                pc = rest
                if not pc:
                    return self.combine(todo)
            fid = r.parent
        b = self.builtin_name(name)
        if b is not None:
            todo.append((pc, b))
            return self.combine(todo)
        self.error(st, "NameError", f"name {name} is not defined", pc)
        return self.combine(todo)

    # ------------------------------------------------------------ expressions

    def eval(self, n, st, cx):
        if not st.pc:
            return BOT
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__}", self.where)
        if hasattr(n, "lineno") and self.where is not None and cx.module.path:
            self.where = (cx.module.path, n.lineno, cx.fn.qual if cx.fn else "<module>")
        return m(n, st, cx)

    def e_Constant(self, n, st, cx):
        v = n.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        return K(v)

    def e_Name(self, n, st, cx):
        return self.getname(n.id, st, cx)

    def e_NamedExpr(self, n, st, cx):
        v = self.eval(n.value, st, cx)
        if st.pc:
            self.setname(n.target.id, v, st, cx)
        return v

    def e_Attribute(self, n, st, cx):
        o = self.eval(n.value, st, cx)
        name = self.mangle(n.attr, cx)
        return self.each(o, st, lambda b, s1: self.getattr(b, name, s1))

    def e_Lambda(self, n, st, cx):
        return self.make_fn(n, st, cx)

    def e_IfExp(self, n, st, cx):
        c = self.truth(self.eval(n.test, st, cx), st)
        return self.split(
            st, c, lambda s1: self.eval(n.body, s1, cx), lambda s2: self.eval(n.orelse, s2, cx)
        )

    def e_BoolOp(self, n, st, cx):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s, cx)
            if i == len(n.values) - 1 or not s.pc:
                return v
            c = self.truth(v, s)
            vt = self.narrow(v, c if not is_and else self.bdd.not_(c), s)
            if is_and:
                return self.split(s, c, lambda s1: go(i + 1, s1), lambda s2: vt)
            return self.split(s, c, lambda s1: vt, lambda s2: go(i + 1, s2))

        return go(0, st)

    def narrow(self, v, cond, st):
        """Restrict a value to cond."""
        if isinstance(v, B):
            return v
        return v

    def e_UnaryOp(self, n, st, cx):
        v = self.eval(n.operand, st, cx)
        if isinstance(n.op, ast.Not):
            return B(self.bdd.not_(self.truth(v, st))) if st.pc else BOT

        def go(b, s1):
            if isinstance(n.op, ast.Invert):
                return self.invert(b, s1)
            if isinstance(b, K) and isinstance(b.value, (int, float)):
                return K(-b.value if isinstance(n.op, ast.USub) else +b.value)
            if isinstance(b, B):
                return self.each(self.as_int(b), s1, lambda x, s2: K(-x.value))
            return App("neg", b)

        return self.each(v, st, go)

    def as_int(self, b):
        """A boolean as an int value."""
        if b.bdd == 1:
            return K(1)
        if b.bdd == 0:
            return K(0)
        return Alt(((b.bdd, K(1)), (self.bdd.not_(b.bdd), K(0))))

    def e_BinOp(self, n, st, cx):
        a = self.eval(n.left, st, cx)
        b = self.eval(n.right, st, cx)
        op = type(n.op).__name__
        return self.each(
            a, st, lambda x, s1: self.each(b, s1, lambda y, s2: self.binop(op, x, y, s2))
        )

    def e_Compare(self, n, st, cx):
        left = self.eval(n.left, st, cx)

        def go(i, left, s):
            right = self.eval(n.comparators[i], s, cx)
            op = type(n.ops[i]).__name__
            v = self.compare(op, left, right, s)
            if i == len(n.ops) - 1 or not s.pc:
                return v
            c = self.truth(v, s)
            return self.split(s, c, lambda s1: go(i + 1, right, s1), lambda s2: FALSE)

        return go(0, left, st)

    def e_Call(self, n, st, cx):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            if cx.cell is None or cx.first is None:
                c = self.outer_first(cx, st)
                if c is None:
                    raise Undecided("super()", self.where)
                return self.each(c[1], st, lambda b, s1: Super(c[0], b))
            first = cx.first
            return self.each(first, st, lambda b, s1: Super(cx.cell.cls, b))
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals"):
            raise Undecided(n.func.id, self.where)
        f = self.eval(n.func, st, cx)
        if n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords and f in LAZY and (
                len(n.args) == 1 or f == LAZY[2] and len(n.args) == 2 and isinstance(n.args[1], (ast.Constant, ast.Name))):
            return self.lazy(LAZY.index(f), n, st, cx)
        args, kwargs, stars = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.iter_content(self.eval(a.value, st, cx), st)
                args.append(("*", v))
            else:
                args.append(("", self.eval(a, st, cx)))
            if not st.pc:
                return BOT
        for k in n.keywords:
            v = self.eval(k.value, st, cx)
            if not st.pc:
                return BOT
            if k.arg is None:
                stars.append(v)
            else:
                kwargs[k.arg] = v
        where = self.where

        def expand(i, acc, s):
            if i == len(args):
                return kw(0, dict(kwargs), acc, s)
            t, v = args[i]
            if t == "":
                return expand(i + 1, acc + [v], s)

            def one(tup, s1):
                if not isinstance(tup, Tup):
                    return expand(i + 1, acc + [App("star", tup)], s1)
                return expand(i + 1, acc + list(tup.items), s1)

            return self.each(v, s, one)

        def kw(i, kws, acc, s):
            if i == len(stars):
                self.where = where

                def docall(b, s1):
                    return self.call(b, acc, kws, s1, n)

                return self.each(f, s, docall)

            def one(b, s1):
                ents = self.map_entries(b, s1)
                k2 = dict(kws)
                for k, v, g in ents:
                    if not (isinstance(k, K) and isinstance(k.value, str)) or self.bdd.and_(
                        s1.pc, self.bdd.not_(g)
                    ):
                        raise Undecided("** of an unknown mapping", self.where)
                    k2[k.value] = v
                return kw(i + 1, k2, acc, s1)

            return self.each(stars[i], s, one)

        return expand(0, [], st)

    def outer_first(self, cx, st):
        return None

    def e_Starred(self, n, st, cx):
        raise Undecided("starred expression", self.where)

    def seq_elts(self, elts, st, cx):
        """Evaluate the elements of a display: V of Tup."""
        acc = Tup(())
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.iter_content(self.eval(e.value, st, cx), st)
                acc = self.pure([acc, v], st.pc, self.cat)
            else:
                v = self.eval(e, st, cx)
                acc = self.pure([acc], st.pc, lambda t: Tup(t.items + (v,)))
        return acc

    def cat(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and not a.items:
            return b
        if isinstance(b, Tup) and not b.items:
            return a
        raise Undecided("concatenation of opaque sequences", self.where)

    def e_Tuple(self, n, st, cx):
        return self.seq_elts(n.elts, st, cx)

    def e_List(self, n, st, cx):
        t = self.seq_elts(n.elts, st, cx)
        return self.alloc(st, HList(t)) if st.pc else BOT

    def e_Set(self, n, st, cx):
        t = self.seq_elts(n.elts, st, cx)
        return self.make_set(t, st)

    def e_Dict(self, n, st, cx):
        d = self.alloc(st, HMap((), "dict"))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.map_method(d, "update", [self.eval(v, st, cx)], {}, st)
                continue
            kv = self.eval(k, st, cx)
            vv = self.eval(v, st, cx)
            if not st.pc:
                return BOT
            self.each(kv, st, lambda kb, s1: self.setitem(d, kb, vv, s1))
        return d

    def comp(self, n, st, cx, emit):
        """Run the generators of a comprehension."""
        fid = self.new_id()
        st.heap[fid] = HFrame({}, cx.fid)
        c2 = Cx(fid, cx.module, cx.fn, cx.cell, cx.first)
        c2.gen = None
        walrus = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
        if walrus:
            c2.nonlocals = walrus
            for w in walrus:
                r = self.rec(st, cx.fid)
                if w not in r.vars:
                    vs = dict(r.vars)
                    vs[w] = ABSENT
                    st.heap[cx.fid] = HFrame(vs, r.parent)

        def go(i, s):
            if not s.pc:
                return
            if i == len(n.generators):
                emit(s, c2)
                return
            g = n.generators[i]
            it = self.eval(g.iter, s, c2 if i else cx)
            if not s.pc:
                return
            shared = self.iterator(g.iter, it, s)
            if shared is None:
                it = self.iter_content(it, s)

            def run(tup, s1):
                if not isinstance(tup, Tup):
                    return self.opaque_comp(n, g, tup, s1, c2)
                for x in tup.items:
                    if not s1.pc:
                        break
                    step(x, s1)
                return NONE

            def step(x, s1):
                self.assign(g.target, x, s1, c2)
                conds = list(g.ifs)

                def test(j, s2):
                    if not s2.pc:
                        return NONE
                    if j == len(conds):
                        go(i + 1, s2)
                        return NONE
                    c = self.truth(self.eval(conds[j], s2, c2), s2)
                    return self.split(s2, c, lambda s3: test(j + 1, s3), lambda s3: NONE)

                test(0, s1)

            if shared is not None:
                self.steps(shared, s, step)
            else:
                self.each(it, s, run)

        go(0, st)

    def opaque_comp(self, n, g, tup, st, cx):
        raise Undecided(f"comprehension over an opaque sequence {tup!r}", self.where)

    def e_ListComp(self, n, st, cx):
        out = self.alloc(st, HList(Tup(())))

        def emit(s, c):
            v = self.eval(n.elt, s, c)
            if s.pc:
                self.list_append(out, v, s)

        self.comp(n, st, cx, emit)
        return out if st.pc else BOT

    def lazy(self, which, n, st, cx):
        """all, any or next of a generator expression: later elements are not evaluated."""
        bdd = self.bdd
        stops, vals = [], []

        def emit(s, c):
            v = self.eval(n.args[0].elt, s, c)
            if not s.pc:
                return
            if which == 2:
                hit = s.pc
            else:
                t = self.truth(v, s)
                hit = bdd.and_(s.pc, bdd.not_(t) if which == 0 else t)
            if hit:
                stops.append(St(hit, dict(s.heap)))
                vals.append((hit, v if which == 2 else B(which)))
            s.pc = bdd.and_(s.pc, bdd.not_(hit))

        self.comp(n.args[0], st, cx, emit)
        if st.pc:
            if which < 2:
                v = B(1 - which)
            elif len(n.args) == 2:
                v = self.eval(n.args[1], st, cx)
            else:
                v = self.error(st, "StopIteration", "")
            if st.pc:
                vals.append((st.pc, v))
        self.join(st, [St(st.pc, st.heap)] + stops)
        return self.combine(vals) if st.pc else BOT

    def e_GeneratorExp(self, n, st, cx):
        v = self.e_ListComp(n, st, cx)
        if isinstance(v, Ref):
            r = self.rec(st, v.id)
            st.heap[v.id] = HList(r.content, "iter")
        return v

    def e_SetComp(self, n, st, cx):
        v = self.e_ListComp(n, st, cx)
        if not st.pc:
            return BOT
        return self.make_set(self.iter_content(v, st), st)

    def e_DictComp(self, n, st, cx):
        g = n.generators[0]
        if (len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(n.key, ast.Name) and isinstance(n.value, ast.Constant)
                and n.key.id == g.target.id and isinstance(g.iter, (ast.Name, ast.Attribute))):
            v = self.eval(g.iter, st, cx)
            if st.pc and not isinstance(v, Alt) and isinstance(v, (Sym, App)):
                return self.call(self.getattr(self.builtin_cls["dict"], "fromkeys", st), [v, K(n.value.value)], {}, st)
        d = self.alloc(st, HMap((), "dict"))

        def emit(s, c):
            k = self.eval(n.key, s, c)
            v = self.eval(n.value, s, c)
            if s.pc:
                self.each(k, s, lambda kb, s1: self.setitem(d, kb, v, s1))

        self.comp(n, st, cx, emit)
        return d if st.pc else BOT

    def e_Yield(self, n, st, cx):
        v = self.eval(n.value, st, cx) if n.value is not None else NONE
        if st.pc:
            self.list_append(cx.gen, v, st)
        return NONE

    def e_YieldFrom(self, n, st, cx):
        v = self.eval(n.value, st, cx)
        if st.pc:
            self.list_method(cx.gen, "extend", [v], {}, st)
        return NONE

    def e_Subscript(self, n, st, cx):
        o = self.eval(n.value, st, cx)
        if isinstance(n.slice, ast.Slice):
            ks = [
                self.eval(x, st, cx) if x is not None else NONE
                for x in (n.slice.lower, n.slice.upper, n.slice.step)
            ]
            return self.each(o, st, lambda b, s1: self.get_slice(b, ks, s1))
        i = self.eval(n.slice, st, cx)
        return self.each(
            o, st, lambda b, s1: self.each(i, s1, lambda k, s2: self.getitem(b, k, s2))
        )

    def e_JoinedStr(self, n, st, cx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value, st, cx)
                if not st.pc:
                    return BOT
                spec = v.format_spec
                if spec is not None and spec.values:
                    raise Undecided("format spec", self.where)
                if v.conversion == ord("r"):
                    parts.append(self.each(x, st, lambda b, s1: self.repr_(b, s1)))
                else:
                    parts.append(self.each(x, st, lambda b, s1: self.str_(b, s1)))
                if not st.pc:
                    return BOT
        return self.pure(parts, st.pc, lambda *ps: mkstr(ps))

    def e_FormattedValue(self, n, st, cx):
        x = self.eval(n.value, st, cx)
        return self.each(x, st, lambda b, s1: self.str_(b, s1))
