"""A small reduced ordered BDD package: the gates of the gated value-flow domain."""
import sys

sys.setrecursionlimit(20000)


class Bdd:
    """Nodes are ints; 0 is false, 1 is true."""

    def __init__(self):
        self.var = [10 ** 9, 10 ** 9]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.atoms = []  # variable index -> atom (any hashable)
        self.index = {}

    def atom(self, key):
        """Get the variable of an atom, creating it if needed."""
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.index[key] = i
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def and_(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
            if r == 0:
                return 0
        return r

    def or_(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
            if r == 1:
                return 1
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def xor(self, f, g):
        return self.ite(f, self.not_(g), g)

    def iff(self, f, g):
        return self.ite(f, g, self.not_(g))

    def implies(self, f, g):
        return self.ite(f, g, 1)

    def support(self, f):
        """Atoms that the function depends on."""
        seen, out, todo = set(), set(), [f]
        while todo:
            n = todo.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            todo += [self.lo[n], self.hi[n]]
        return [self.atoms[i] for i in sorted(out)]

    def pick(self, f):
        """Get one satisfying partial assignment {atom: bool}, or None."""
        if f == 0:
            return None
        out = {}
        while f != 1:
            if self.hi[f] != 0:
                out[self.atoms[self.var[f]]] = True
                f = self.hi[f]
            else:
                out[self.atoms[self.var[f]]] = False
                f = self.lo[f]
        return out

    def restrict(self, f, fn):
        """Substitute atoms: fn(atom) returns a BDD or None (keep)."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                a = self.atoms[self.var[n]]
                t = fn(a)
                if t is None:
                    t = self.mk(self.var[n], 0, 1)
                r = memo[n] = self.ite(t, go(self.hi[n]), go(self.lo[n]))
            return r

        return go(f)

    def exists(self, f, pred):
        """Existentially quantify the atoms satisfying pred."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                lo, hi = go(self.lo[n]), go(self.hi[n])
                if pred(self.atoms[self.var[n]]):
                    r = self.or_(lo, hi)
                else:
                    r = self.ite(self.mk(self.var[n], 0, 1), hi, lo)
                memo[n] = r
            return r

        return go(f)
