"""Numeric domain: affine equalities (Karr) plus a set of linear inequalities.

Integers of the analysed program are linear expressions over integer atoms.
No solver is involved: equalities are kept in echelon form, inequalities are
entailed by interval evaluation after subtracting at most two known facts.
"""
from fractions import Fraction


class Dead(Exception):
    """The current abstract path is infeasible."""


class Atom(object):
    __slots__ = ('name', 'uid')
    _n = 0

    def __init__(self, name):
        Atom._n += 1
        self.uid = Atom._n
        self.name = name

    def __repr__(self):
        return self.name


class Lin(object):
    """Linear expression; .t maps atom -> coefficient."""
    __slots__ = ('t', 'c')

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, Atom):
            return Lin({x: 1}, 0)
        return Lin({}, int(x) if isinstance(x, bool) else x)

    def add(self, o, k=1):
        o = Lin.of(o)
        t = dict(self.t)
        for a, c in o.t.items():
            n = t.get(a, 0) + k * c
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Lin(t, self.c + k * o.c)

    def scale(self, k):
        if not k:
            return Lin()
        return Lin({a: c * k for a, c in self.t.items()}, self.c * k)

    def subst(self, a, e):
        k = self.t.get(a)
        if k is None:
            return self
        t = dict(self.t)
        del t[a]
        return Lin(t, self.c).add(e, k)

    def const(self):
        return not self.t

    def key(self):
        return (tuple(sorted((a.uid, c) for a, c in self.t.items())), self.c)

    def __repr__(self):
        s = '+'.join(('%s*%s' % (c, a) if c != 1 else str(a)) for a, c in
                     sorted(self.t.items(), key=lambda x: x[0].uid))
        if self.c or not s:
            s += ('+' if s else '') + str(self.c)
        return s.replace('+-', '-')


def simp(e):
    """Lin -> int when constant."""
    if isinstance(e, Lin) and not e.t:
        c = e.c
        if isinstance(c, Fraction):
            c = int(c) if c.denominator == 1 else c
        return c
    return e


class Num(object):
    """A conjunction of affine equalities and inequalities."""

    def __init__(self):
        self.eqs = {}    # pivot atom -> Lin (pivot = Lin, fully reduced)
        self.ges = []    # Lin >= 0, normalised

    def copy(self):
        n = Num()
        n.eqs = dict(self.eqs)
        n.ges = list(self.ges)
        return n

    def norm(self, e):
        e = Lin.of(e)
        if not self.eqs or not e.t:
            return e
        if not any(a in self.eqs for a in e.t):
            return e
        r = Lin({}, e.c)
        for a, c in e.t.items():
            if a in self.eqs:
                r = r.add(self.eqs[a], c)
            else:
                r = r.add(Lin({a: 1}), c)
        return r

    # -- bounds
    def _bounds(self):
        lo, hi = {}, {}
        for g in self.ges:
            if len(g.t) == 1:
                (a, c), = g.t.items()
                v = -Fraction(g.c) / c
                if c > 0:
                    if a not in lo or v > lo[a]:
                        lo[a] = v
                else:
                    if a not in hi or v < hi[a]:
                        hi[a] = v
        return lo, hi

    @staticmethod
    def _lb(e, lo, hi):
        v = e.c
        for a, c in e.t.items():
            b = lo.get(a) if c > 0 else hi.get(a)
            if b is None:
                return None
            v += c * b
        return v

    def prove_ge(self, e):
        """e >= 0 holds in every state described."""
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self._bounds()
        v = self._lb(e, lo, hi)
        if v is not None and v >= 0:
            return True
        multi = [g for g in self.ges if any(a in e.t for a in g.t)]
        for g in multi:
            d = e.add(g, -1)
            v = self._lb(d, lo, hi)
            if v is not None and v >= 0:
                return True
        ges = [g for g in self.ges if len(g.t) > 1]
        for g in multi:
            d = e.add(g, -1)
            for h in ges:
                v = self._lb(d.add(h, -1), lo, hi)
                if v is not None and v >= 0:
                    return True
        return False

    def decide_ge(self, e):
        if self.prove_ge(e):
            return True
        if self.prove_ge(Lin.of(e).scale(-1).add(-1)):
            return False
        return None

    def decide_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        # integrality: gcd test not needed here
        if self.prove_ge(e.add(-1)) or self.prove_ge(e.scale(-1).add(-1)):
            return False
        if self.prove_ge(e) and self.prove_ge(e.scale(-1)):
            return True
        return None

    def assume_ge(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c < 0:
                raise Dead()
            return
        if self.prove_ge(e.scale(-1).add(-1)):
            raise Dead()
        if self.prove_ge(e):
            return
        if self.prove_ge(e.scale(-1)):     # e >= 0 and e <= 0
            self.assume_eq(e)
            return
        self.ges = [g for g in self.ges if not self._covers(e, g)]
        self.ges.append(e)

    @staticmethod
    def _covers(e, g):
        d = g.add(e, -1)
        return not d.t and d.c >= 0

    def assume_eq(self, e, prefer=None):
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                raise Dead()
            return
        pivot = None
        if prefer:
            for a in e.t:
                if a in prefer:
                    pivot = a
                    break
        if pivot is None:
            pivot = max(e.t, key=lambda a: (abs(e.t[a]) == 1, a.uid))
        k = e.t[pivot]
        rest = Lin({a: c for a, c in e.t.items() if a is not pivot}, e.c)
        d = Fraction(-1) / k
        rest = Lin({a: _i(c * d) for a, c in rest.t.items()}, _i(rest.c * d))
        for p in list(self.eqs):
            self.eqs[p] = self.eqs[p].subst(pivot, rest)
        self.eqs[pivot] = rest
        old = self.ges
        self.ges = []
        for g in old:
            g = g.subst(pivot, rest)
            if not g.t:
                if g.c < 0:
                    raise Dead()
                continue
            self.assume_ge(g)

    # -- projection / join
    def project(self, keep):
        """Forget every atom not in keep (a set)."""
        # make dropped atoms pivots wherever possible
        eqs = [Lin({p: -1}).add(e) for p, e in self.eqs.items()]
        ges = list(self.ges)
        n = Num()
        n.ges = []
        drop = set()
        for e in eqs:
            drop.update(a for a in e.t if a not in keep)
        m = Num()
        for e in eqs:
            m.assume_eq(e, prefer=drop)
        # re-pivot: an eq whose pivot is kept but that mentions dropped atoms
        changed = True
        while changed:
            changed = False
            for p, e in list(m.eqs.items()):
                if p in keep and any(a not in keep for a in e.t):
                    full = Lin({p: -1}).add(e)
                    del m.eqs[p]
                    m.assume_eq(full, prefer=set(a for a in e.t if a not in keep))
                    changed = True
                    break
        for p, e in m.eqs.items():
            if p in keep and all(a in keep for a in e.t):
                n.eqs[p] = e
        for g in ges:
            g = m.norm(g)
            if not g.t:
                if g.c < 0:
                    raise Dead()
                continue
            if all(a in keep for a in g.t):
                try:
                    n.assume_ge(g)
                except Dead:
                    raise
        # one Fourier-Motzkin step per dropped atom for the common chain a<x<b
        bad = [m.norm(g) for g in ges]
        bad = [g for g in bad if any(a not in keep for a in g.t)]
        for i, g in enumerate(bad):
            for h in bad[i + 1:]:
                for a in g.t:
                    if a in keep or a not in h.t:
                        continue
                    if g.t[a] * h.t[a] < 0:
                        s = g.scale(abs(h.t[a])).add(h.scale(abs(g.t[a])))
                        if s.t and all(x in keep for x in s.t):
                            n.assume_ge(s)
        return n

    def rename(self, m):
        """Substitute atoms by atoms."""
        def f(e):
            r = Lin({}, e.c)
            for a, c in e.t.items():
                r = r.add(Lin({m.get(a, a): 1}), c)
            return r
        n = Num()
        n.eqs = {}
        for p, e in self.eqs.items():
            n.eqs[m.get(p, p)] = f(e)
        n.ges = [f(g) for g in self.ges]
        return n

    def leq(self, o):
        """Every state of self is a state of o."""
        for p, e in o.eqs.items():
            d = self.norm(Lin({p: 1}).add(e, -1))
            if d.t or d.c != 0:
                return False
        return all(self.prove_ge(g) for g in o.ges)

    def join(self, o, widen=False, refs=()):
        """Least upper bound; with widen only inequalities of self survive."""
        atoms = set()
        for n in (self, o):
            for p, e in n.eqs.items():
                atoms.add(p)
                atoms.update(e.t)
        atoms = sorted(atoms, key=lambda a: a.uid)
        r = Num()
        r.eqs = {}
        for e in affine_hull(atoms, self, o):
            r.assume_eq(e)
        if widen:
            for g in self.ges:
                if o.prove_ge(g):
                    r.assume_ge(g)
            return r
        cand = list(self.ges) + list(o.ges)
        # an equality of one side may survive as inequality
        for n in (self, o):
            for p, e in n.eqs.items():
                d = Lin({p: 1}).add(e, -1)
                cand += [d, d.scale(-1)]
        # differences to the reference atoms (the sizes of the inputs)
        seen = set()
        free = sorted(set(a for n in (self, o) for p, e in n.eqs.items() for a in [p] + list(e.t)) |
                      set(a for n in (self, o) for g in n.ges for a in g.t), key=lambda a: a.uid)
        for x in free:
            for y in refs:
                if x is y:
                    continue
                d = r.norm(Lin({x: -1, y: 1}))
                for k in (d, d.scale(-1)):
                    if k.t and k.key() not in seen:
                        seen.add(k.key())
                        cand.append(k)
        for g in cand:
            if self.prove_ge(g) and o.prove_ge(g) and not r.prove_ge(g):
                r.assume_ge(g)
        return r

    def __repr__(self):
        return '{%s}' % ', '.join(
            ['%s=%s' % (p, e) for p, e in self.eqs.items()] +
            ['%s>=0' % g for g in self.ges])


def _i(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def _param(n, atoms):
    """Affine subspace of n over atoms as (point, directions)."""
    free = [a for a in atoms if a not in n.eqs]
    extra = set()
    for a in atoms:
        if a in n.eqs:
            extra.update(x for x in n.eqs[a].t if x not in free)
    free = free + sorted(extra, key=lambda a: a.uid)
    point = []
    for a in atoms:
        point.append(Fraction(n.eqs[a].c) if a in n.eqs else Fraction(0))
    dirs = []
    for f in free:
        d = []
        for a in atoms:
            if a in n.eqs:
                d.append(Fraction(n.eqs[a].t.get(f, 0)))
            else:
                d.append(Fraction(1 if a is f else 0))
        dirs.append(d)
    return point, dirs


def affine_hull(atoms, x, y):
    if not atoms:
        return []
    p1, d1 = _param(x, atoms)
    p2, d2 = _param(y, atoms)
    dirs = d1 + d2 + [[b - a for a, b in zip(p1, p2)]]
    # nullspace: vectors v with v.d = 0 for all d
    rows = [list(d) for d in dirs if any(d)]
    n = len(atoms)
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        f = rows[r][c]
        rows[r] = [v / f for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fraction(0)] * n
        v[c] = Fraction(1)
        for i, pc in enumerate(piv):
            v[pc] = -rows[i][c]
        k = sum(a * b for a, b in zip(v, p1))
        e = Lin({a: _i(q) for a, q in zip(atoms, v) if q}, _i(-k))
        out.append(e)
    return out
