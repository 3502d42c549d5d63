"""Exploration of all abstract paths of a driver, and verdicts.

Two phases per driver:

* ``sym``: sizes are symbolic integers; loops over text of symbolic length are
  solved by a fixpoint at their head.  If every obligation is true on every
  abstract path the obligation is PROVED for all sizes of the given shapes.
* ``pin``: (only when the first phase leaves something open) the size domain
  is partitioned into small constants; characters stay abstract.  Without
  joins every surviving path is exact, so a false obligation is a real
  violation (REFUTED) and comes with an abstract witness.
"""
import os
import re
import time

from .interp import Budget, Cut, Interp, Path, PyExc, Restart
from .num import Dead, Lin, simp
from .strs import Unsupported
from .vals import (ANY, CS, Cell, Ch, Dec, Fn, Rep, Sl, Str, VDict, VList, VObj,
                   VSet, is_native)

PKG = 'os_urlpattern.'


class AnchorGone(Exception):
    """A public entry point named by a property no longer exists."""


class Stop(Exception):
    """Driver ends this path (input not of interest)."""


def type_of(x):
    return 'a' if x.islower() else 'A' if x.isupper() else '9' if x.isdigit() else '?'


class Ctx(object):
    def __init__(self, ex, I):
        self.ex = ex
        self.I = I
        self.P = I.P
        self.sym = I.P.sym
        self.named = []
        self.tags = []
        self.big = False
        self.sub = None
        self.tier = ex.tier

    # -- anchors
    def mod(self, name):
        m = self.I.modules.get(PKG + name)
        if m is None:
            raise AnchorGone('module %s' % name)
        return m

    def get(self, path):
        """'module:name.attr' -> value"""
        m, n = path.split(':')
        v = self.mod(m)
        ns = v.ns
        parts = n.split('.')
        if parts[0] not in ns:
            raise AnchorGone(path)
        v = ns[parts[0]]
        for p in parts[1:]:
            v = self.I.getattr(v, p)
        self.ex.anchors.add(path)
        return v

    # -- inputs
    def pick(self, n, label='case'):
        """Case split of the driver itself (an input shape)."""
        if isinstance(n, (list, tuple)):
            i = self.I.choose(len(n), label)
            self.tags.append('%s=%r' % (label, n[i]))
            return n[i]
        i = self.I.choose(n, label)
        self.tags.append('%s=%d' % (label, i))
        return i

    def size(self, name, lo=1, pins=(1, 2, 3), extra=True):
        if extra and not self.sym and not self.big:
            more = tuple(k for k in self.I.thresholds if k not in pins and k >= lo)
            if more:
                n = self.I.choose(len(pins) + len(more), 'size ' + name)
                v = (pins + more)[n]
                self.big = n >= len(pins)
                self.named.append((name, v))
                return v
        if self.sym:
            a = self.I.new_atom(name)
            self.P.inputs.add(a)
            v = Lin.of(a)
            self.P.num.assume_ge(v.add(-lo))
        else:
            v = pins[self.I.choose(len(pins), 'size ' + name)]
        self.named.append((name, v))
        return v

    def pristine(self, fn):
        """Result of fn() in the state of a new process: effects on global objects are taken back."""
        k = len(self.P.undo)
        r = fn()
        for u in reversed(self.P.undo[k:]):
            u()
        del self.P.undo[k:]
        return r

    def grow(self, label, base):
        """Number of components: the given ones and, once per path, numbers around the constants of the source."""
        more = () if self.big else tuple(k for k in self.I.thresholds if k <= 40 and k not in base)
        n = self.pick(tuple(base) + more, label)
        if n in more:
            self.big = True
        return n

    def word(self, text):
        """A constant of an abstract input: itself or, for the first constant of a path, a text named by the source."""
        if self.sub is None:
            ws = []
            for w in self.I.words:
                for x in re.findall('[a-z]+|[A-Z]+|[0-9]+', w):
                    if type_of(x) == type_of(text) and x not in ws and x != text:
                        ws.append(x)
            self.sub = (text, self.pick([text] + ws[:5], 'constant') if ws else text)
        return self.sub[1] if text == self.sub[0] else text

    def words(self, ok=None):
        """Texts named by the source, of characters ok."""
        return [w for w in self.I.words if ok is None or all(x in ok for x in w)]

    def count(self, name, lo=0):
        """Symbolic integer in both phases."""
        a = self.I.new_atom(name)
        self.P.inputs.add(a)
        v = Lin.of(a)
        self.P.num.assume_ge(v.add(-lo))
        self.named.append((name, v))
        return v

    def state_key(self):
        return (tuple(self.tags), len(self.named))

    def _own(self, s):
        self.P.roots.append(s)
        return s

    def ch(self, cs=ANY):
        if isinstance(cs, str):
            cs = CS(cs)
        return self._own(self.I.mk([Ch(self.I.new_cell(cs))]))

    def run(self, name, cs, n):
        """Text of length n, each character any of cs."""
        if isinstance(cs, str):
            cs = CS(cs)
        I = self.I
        if isinstance(n, int):
            return self._own(I.mk([Ch(I.new_cell(cs)) for _ in range(n)]))
        s = I.new_src(name, cs, n)
        return self._own(I.mk([Sl(s, 0, n)]))

    def rep(self, cs, n):
        if isinstance(cs, str):
            cs = CS(cs)
        return self._own(self.I.mk([Rep(self.I.new_cell(cs, rep=True), n)]))

    def cat(self, *parts):
        out = []
        for p in parts:
            out += self.I.parts(p)
        return self.I.mk(out)

    def note(self, name, v):
        self.named.append((name, v))
        return v

    def keep(self, v):
        """Keep a value of the program alive across loop heads."""
        self.P.roots.append(v)
        return len(self.P.roots) - 1

    def kept(self, i):
        return self.P.roots[i]

    # -- program
    def call(self, f, *args, **kw):
        """('ok', value) or ('exc', exception object, where)."""
        if isinstance(f, str):
            f = self.get(f)
        i = len(self.P.roots)
        try:
            return ('ok', self.I.call(f, list(args), kw))
        except PyExc as e:
            return ('exc', e.val, e.where)

    def need(self, f, *args, **kw):
        """Value; an exception ends the path as a violation of ``total``."""
        r = self.call(f, *args, **kw)
        if r[0] != 'ok':
            self.fail('no exception', '%s raised at %s' % (r[1].cls.name, r[2]))
        return r[1]

    def attr(self, o, n):
        try:
            return self.I.getattr(o, n)
        except PyExc as e:
            # a property that exists and fails; a name that is gone stays open
            if isinstance(o, VObj) and o.cls.lookup(n)[0] is not None:
                self.fail('no exception', '%s raised at %s' % (e.val.cls.name, e.where))
            raise

    def meth(self, o, n, *args, **kw):
        return self.call(self.I.getattr(o, n), *args, **kw)

    def is_exc(self, r, name):
        if r[0] != 'exc':
            return False
        cls = self.I.modules[PKG + 'exceptions'].ns.get(name) or self.I.builtins.get(name)
        if cls is None:
            raise AnchorGone('exception %s' % name)
        return r[1].cls.sub(cls)

    def eq(self, a, b):
        return self.I.py_eq(a, b)

    def items(self, v):
        """All items; an exception while iterating is a violation."""
        try:
            return self.I.listify(v)
        except PyExc as e:
            self.fail('no exception', '%s raised at %s' % (e.val.cls.name, e.where))

    # -- verdicts
    def require(self, ob, cond, detail=''):
        self.ex.obligation(self, ob, cond, detail)

    def req_eq(self, ob, got, want):
        r = self.I.py_eq(got, want)
        self.ex.obligation(self, ob, r, lambda f: 'expected %s, the code computes %s' % (f(want), f(got)))

    def fail(self, ob, detail=''):
        self.ex.obligation(self, ob, False, detail)
        raise Stop()

    def stop(self):
        raise Stop()


class Result(object):
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.obs = {}          # obligation -> [true, false, open]
        self.violations = []
        self.open = []
        self.paths = 0
        self.dead = 0
        self.cuts = 0
        self.wall = 0.0
        self.forks = {}
        self.done = False
        self.funcs = set()

    def proved(self):
        return self.done and not self.open and not self.violations and \
            all(o[1] == 0 and o[2] == 0 for o in self.obs.values())


class Explorer(object):
    def __init__(self, I, tier='quick'):
        self.I = I
        self.tier = tier
        self.anchors = set()
        self.res = None

    def obligation(self, ctx, ob, cond, detail):
        o = self.res.obs.setdefault(ob, [0, 0, 0])
        if cond is True:
            o[0] += 1
            return
        if cond is None:
            o[2] += 1
            self._open('%s: undecided' % ob)
            return
        P = self.I.P
        m = None
        if P.exact:
            m = model(self.I, P.num, ctx)
        if m is None:
            o[2] += 1
            self._open('%s: cannot be confirmed on %s path' % (ob, 'an exact' if P.exact else 'a joined'))
            return
        o[1] += 1
        if len(self.res.violations) < 5 or ob not in [v['obligation'] for v in self.res.violations]:
            f = lambda v: show(self.I, v, m)
            self.res.violations.append({
                'obligation': ob,
                'detail': detail(f) if callable(detail) else str(detail),
                'inputs': [[n, f(v)] for n, v in ctx.named],
                'shape': list(ctx.tags),
                'path': ['%s: %s -> %s' % x for x in P.forks if not x[0].startswith('?')][-25:],
                'functions': sorted(P.funcs),
                'mode': self.res.mode})

    def _open(self, why):
        r = self.res
        if len(r.open) < 200:
            r.open.append(why)

    def run(self, name, driver, mode='sym', max_paths=20000, max_s=60, stop_on=1,
            rev=False, stubs=None):
        """Explore every path of the driver in one mode."""
        I = self.I
        restarts = 0
        while True:
            try:
                return self._run(name, driver, mode, max_paths, max_s, stop_on, rev, stubs or {})
            except Restart:
                restarts += 1
                if restarts > 20:
                    raise

    def _run(self, name, driver, mode, max_paths, max_s, stop_on, rev, stubs):
        I = self.I
        t0 = time.time()
        res = self.res = Result(name, mode)
        I.heads = {}
        I.worklist = [[]]
        I.stubs = stubs
        while I.worklist:
            if res.paths >= max_paths or time.time() - t0 > max_s:
                self._open('budget: %d paths, %.0f s' % (res.paths, time.time() - t0))
                break
            if stop_on and len(res.violations) >= stop_on:
                break
            prefix = I.worklist.pop()
            P = I.P = Path(prefix, mode == 'sym')
            P.rev = rev
            P.deadline = t0 + max_s * 2
            I.frames = []
            I.temps = []
            ctx = Ctx(self, I)
            P.ctx = ctx
            res.paths += 1
            try:
                driver(ctx)
            except Stop:
                pass
            except Dead:
                res.dead += 1
            except Cut:
                res.cuts += 1
            except PyExc as e:
                self._open('driver saw %s at %s' % (e.val.cls.name, e.where))
            except Unsupported as e:
                self._open('unsupported at %s: %s' % (I.where() if I.frames else '', e))
            except Budget as e:
                self._open('budget: %s' % e)
            except RecursionError:
                self._open('analyser recursion')
            finally:
                for u in reversed(P.undo):
                    u()
                P.undo = []
                res.funcs |= P.funcs
                for x in P.forks:
                    res.forks[x[0]] = res.forks.get(x[0], 0) + 1
        else:
            res.done = True
        res.wall = time.time() - t0
        I.stubs = {}
        return res


# -- concrete witnesses -----------------------------------------------------
def _atoms(num):
    s = set()
    for p, e in num.eqs.items():
        s.update(e.t)
    for g in num.ges:
        s.update(g.t)
    return sorted((a for a in s if a not in num.eqs), key=lambda a: a.uid)


def model(I, num, ctx):
    """Small integer model of the path's numeric facts, or None."""
    free = set(_atoms(num))
    for n, v in ctx.named:
        if isinstance(v, Lin):
            free.update(a for a in num.norm(v).t)
    free = sorted(free, key=lambda a: a.uid)
    ges = [num.norm(g) for g in num.ges]
    val = {}
    tries = [0]

    def ok():
        for g in ges:
            if all(a in val for a in g.t):
                if g.c + sum(c * val[a] for a, c in g.t.items()) < 0:
                    return False
        return True

    def go(i):
        tries[0] += 1
        if tries[0] > 20000:
            return False
        if i == len(free):
            for p, e in num.eqs.items():
                v = e.c + sum(c * val[a] for a, c in e.t.items())
                if v != int(v):
                    return False
            return True
        for v in list(range(0, 14)) + [-1, 20, 50, 101]:
            val[free[i]] = v
            if ok() and go(i + 1):
                return True
            del val[free[i]]
        return False
    if not go(0):
        return None
    m = dict(val)
    for p, e in num.eqs.items():
        m[p] = int(e.c + sum(c * val[a] for a, c in e.t.items()))
    chars = {}
    m['$chars'] = chars
    return m


PREF = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./%\\' 


def char_of(cell, m):
    chars = m['$chars']
    cell = cell.find()
    if id(cell) in chars:
        return chars[id(cell)]
    bad = set(chars.get(id(d.find())) for d in cell.diseq)
    if not cell.cs.neg:
        cand = sorted(cell.cs.s, key=lambda c: (PREF.find(c) if c in PREF else 99, c))
    else:
        cand = [c for c in PREF if c not in cell.cs.s] + \
            [chr(i) for i in range(33, 0x250) if chr(i) not in cell.cs.s]
    for c in cand:
        if c not in bad:
            break
    else:
        c = cand[0] if cand else '?'
    chars[id(cell)] = c
    return c


def num_of(v, m, I):
    e = I.P.num.norm(Lin.of(v))
    x = e.c + sum(c * m.get(a, 1) for a, c in e.t.items())
    return int(x)


def text(I, v, m):
    out = []
    for p in I.parts(v):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Ch):
            out.append(char_of(p.cell, m))
        elif isinstance(p, Rep):
            out.append(char_of(p.cell, m) * num_of(p.n, m, I))
        elif isinstance(p, Sl):
            b, e = num_of(p.b, m, I), num_of(p.e, m, I)
            known = {}
            for pos, c in p.src.cells:
                known[num_of(pos, m, I)] = c
            fake = Cell(0, p.cs)
            for i in range(b, min(e, b + 60)):
                out.append(char_of(known[i], m) if i in known else char_of(fake, m))
        elif isinstance(p, Dec):
            out.append(str(num_of(p.v, m, I)))
        else:
            out.append('<%s>' % p.name)
    return ''.join(out)


def show(I, v, m, depth=0):
    if depth > 5:
        return '...'
    if isinstance(v, Str):
        return repr(text(I, v, m))
    if isinstance(v, Lin):
        return str(num_of(v, m, I))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(I, x, m, depth + 1) for x in v)
    if isinstance(v, (VList, VSet)):
        return '[%s]' % ', '.join(show(I, x, m, depth + 1) for x in v.items)
    if isinstance(v, VDict):
        return '{%s}' % ', '.join('%s: %s' % (show(I, k, m, depth + 1), show(I, x, m, depth + 1)) for k, x in v.entries)
    if isinstance(v, VObj):
        return '%s(%s)' % (v.cls.name, ', '.join('%s=%s' % (k, show(I, x, m, depth + 1)) for k, x in sorted(v.attrs.items()) if k[:1] != '_'))
    return repr(v)
