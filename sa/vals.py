"""Abstract values: guarded sets of terms."""


class Undecided(Exception):
    """The analysis cannot decide an obligation (unsupported construct or bound)."""

    def __init__(self, reason, where=None):
        super().__init__(reason)
        self.reason = reason
        self.where = where

    def __str__(self):
        return f"{self.reason}" + (f" at {self.where}" if self.where else "")


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished."""


class Val:
    """A hash-consable immutable value."""

    __slots__ = ("key", "_h")

    def __init__(self, *key):
        self.key = key
        self._h = hash((type(self).__name__,) + key)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other or (
            type(self) is type(other) and self._h == other._h and self.key == other.key
        )

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return f"{type(self).__name__}{self.key!r}"


class B(Val):
    """A boolean, as a BDD."""

    __slots__ = ()
    bdd = property(lambda s: s.key[0])


class K(Val):
    """A constant that is not a boolean."""

    __slots__ = ()

    def __init__(self, value):
        super().__init__(type(value).__name__, value)

    value = property(lambda s: s.key[1])

    def __repr__(self):
        return repr(self.value)


class Tup(Val):
    """A tuple."""

    __slots__ = ()
    items = property(lambda s: s.key[0])

    def __init__(self, items):
        super().__init__(tuple(items))

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class FSet(Val):
    """A frozenset: ((element, guard), ...)."""

    __slots__ = ()
    entries = property(lambda s: s.key[0])


class Ref(Val):
    """A reference to an object in the heap."""

    __slots__ = ()
    id = property(lambda s: s.key[0])

    def __repr__(self):
        return f"#{self.id}"


class Sym(Val):
    """An opaque value: any value of the class (of exactly that class if exact)."""

    __slots__ = ()

    def __init__(self, name, cls=None, exact=False, attrs=()):
        super().__init__(name, cls, exact, tuple(attrs))

    name = property(lambda s: s.key[0])
    cls = property(lambda s: s.key[1])
    exact = property(lambda s: s.key[2])
    attrs = property(lambda s: dict(s.key[3]))

    def __repr__(self):
        return self.name


class App(Val):
    """An uninterpreted application."""

    __slots__ = ()
    op = property(lambda s: s.key[0])
    args = property(lambda s: s.key[1])

    def __init__(self, op, *args):
        super().__init__(op, tuple(args))

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"


class New(Val):
    """A formula built by its constructor, not simplified."""

    __slots__ = ()
    cls = property(lambda s: s.key[0])
    args = property(lambda s: s.key[1])

    def __init__(self, cls, args):
        super().__init__(cls, tuple(args))

    def __repr__(self):
        return f"{self.cls.name}({', '.join(map(repr, self.args))})"


class Str(Val):
    """A string made of literal and opaque parts."""

    __slots__ = ()
    parts = property(lambda s: s.key[0])

    def __repr__(self):
        return "s<" + "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in self.parts) + ">"


class Alt(Val):
    """Guarded alternatives ((guard, base), ...), with disjoint guards."""

    __slots__ = ()
    alts = property(lambda s: s.key[0])

    def __repr__(self):
        return "{" + " | ".join(f"{g}?{b!r}" for g, b in self.alts) + "}"


class EnumM(Val):
    """A member of an enumeration."""

    __slots__ = ()
    cls = property(lambda s: s.key[0])
    name = property(lambda s: s.key[1])
    value = property(lambda s: s.key[2])

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Ext(Val):
    """Something from outside the package, by dotted name."""

    __slots__ = ()
    name = property(lambda s: s.key[0])

    def __repr__(self):
        return f"ext:{self.name}"


class Bound(Val):
    """A bound method."""

    __slots__ = ()
    fn = property(lambda s: s.key[0])
    self_ = property(lambda s: s.key[1])


class Super(Val):
    """super(cls, obj)."""

    __slots__ = ()
    cls = property(lambda s: s.key[0])
    obj = property(lambda s: s.key[1])


class Part(Val):
    """functools.partial."""

    __slots__ = ()
    fn = property(lambda s: s.key[0])
    args = property(lambda s: s.key[1])
    kwargs = property(lambda s: s.key[2])


class Wrap(Val):
    """property / classmethod / staticmethod / cached_property object."""

    __slots__ = ()
    kind = property(lambda s: s.key[0])
    fn = property(lambda s: s.key[1])
    setter = property(lambda s: s.key[2] if len(s.key) > 2 else None)


class DirOf(Val):
    """dir(x)."""

    __slots__ = ()
    obj = property(lambda s: s.key[0])


class BMeth(Val):
    """A method of a builtin type bound to an object: (obj, name)."""

    __slots__ = ()
    obj = property(lambda s: s.key[0])
    name = property(lambda s: s.key[1])


NONE = K(None)
NOTIMPL = K(NotImplemented)
ABSENT = Ext("<absent>")
BOT = Alt(())
TRUE = B(1)
FALSE = B(0)


def mkstr(parts):
    """Normalise string parts."""
    out = []
    for p in parts:
        if isinstance(p, K):
            p = p.value
        if isinstance(p, Str):
            qs = p.parts
        else:
            qs = (p,)
        for q in qs:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q == "" and isinstance(q, str):
                continue
            else:
                out.append(q)
    if not out:
        return K("")
    if len(out) == 1:
        return K(out[0]) if isinstance(out[0], str) else out[0]
    return Str(tuple(out))


class Entity:
    """An identity-compared program entity."""


class Mod(Entity):
    def __init__(self, name, path=None):
        self.name, self.path, self.fid, self.tree = name, path, None, None

    def __repr__(self):
        return f"<module {self.name}>"


class Cell:
    """The __class__ cell of a class body."""

    def __init__(self, name):
        self.name, self.cls = name, None


class Cls(Entity):
    def __init__(self, name, bases, attrs, meta=None, module=None, node=None, builtin=False):
        self.name, self.bases, self.attrs = name, list(bases), attrs
        self.meta, self.module, self.node, self.builtin = meta, module, node, builtin
        self.members = None  # enum members
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisBroken(f"no MRO for class {self.name}")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def sub(self, other):
        return other in self.mro

    @property
    def qual(self):
        return f"{self.module}.{self.name}" if self.module else self.name

    def __repr__(self):
        return self.name


class Fn(Entity):
    def __init__(self, node, fid, module, cell, qual, defaults, kwdefaults, env):
        self.node, self.fid, self.module, self.cell, self.qual = node, fid, module, cell, qual
        self.defaults, self.kwdefaults, self.env = defaults, kwdefaults, env
        self.attrs = {}
        self.name = getattr(node, "name", "<lambda>")
        self.abstract = False

    @property
    def where(self):
        return f"{self.module.path}:{getattr(self.node, 'lineno', 0)} {self.qual}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class Dispatch(Entity):
    def __init__(self, default):
        self.default = default
        self.registry = []  # (cls, fn), later registrations win

    def __repr__(self):
        return f"<dispatch {self.default!r}>"

    def find(self, cls):
        reg = dict((id(c), f) for c, f in self.registry)
        for c in cls.mro:
            if id(c) in reg:
                return reg[id(c)]
        return self.default


# heap records (immutable: replaced on every write)


class HInst:
    __slots__ = ("cls", "attrs", "content", "new")

    def __init__(self, cls, attrs, content=None, new=None):
        self.cls, self.attrs, self.content, self.new = cls, attrs, content, new


class HList:
    """content: V whose bases are Tup."""

    __slots__ = ("content", "kind")

    def __init__(self, content, kind="list"):
        self.content, self.kind = content, kind


class HMap:
    """entries ((key, value or None, guard), ...); kind 'dict' or 'set'."""

    __slots__ = ("entries", "kind", "opaque", "factory")

    def __init__(self, entries, kind, opaque=None, factory=None):
        self.entries, self.kind, self.opaque, self.factory = entries, kind, opaque, factory


class HFrame:
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent
