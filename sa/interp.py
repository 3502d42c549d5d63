"""Path-sensitive abstract interpreter for the Python subset of the repository.

The program is never executed: its syntax trees are evaluated over abstract
values (charsets, symbolic text, affine integers, opaque objects).
"""
import ast
import os
import time

from .num import Atom, Dead, Lin, Num, simp
from .strs import StrOps, Unsupported
from .vals import (ANY, BI, CS, Cell, Ch, Dec, Fn, Obj, Opq, OrdV, Rep, Sl, Src,
                   Str, Top, VBound, VClass, VDict, VFunc, VList, VModule,
                   VObj, VProp, VSet, VSlice, VStatic, VStringIO, VSuper,
                   is_native)

BREAK, CONTINUE, RETURN = 'break', 'continue', 'return'


class PyExc(Exception):
    def __init__(self, val, where=None):
        Exception.__init__(self, val)
        self.val = val
        self.where = where


class StopIter(Exception):
    pass


class Cut(Exception):
    """Path subsumed at a loop head."""


class Poison(Opq):
    """What a statement that cannot be interpreted would have bound."""

    def __init__(self, name, why):
        Opq.__init__(self, name)
        self.strict = True
        self.why = why


class Budget(Exception):
    pass


class HashV(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class IdV(object):
    """id(x): an abstract, identity-dependent number."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class ObjDict(object):
    def __init__(self, obj):
        self.obj = obj


class Frame(object):
    __slots__ = ('fn', 'locals', 'env', 'module', 'names', 'globs', 'cls', 'first',
                 'nonlocals', 'line', 'iters')

    def __init__(self, fn, module, env=None, names=None):
        self.fn = fn
        self.locals = {}
        self.env = env
        self.module = module
        self.names = names
        self.globs = ()
        self.nonlocals = ()
        self.cls = None
        self.first = None
        self.line = 0
        self.iters = []


class FInfo(object):
    """Static facts on a function body."""

    def __init__(self, node):
        self.names = set()
        self.globs = set()
        self.nonlocals = set()
        self.isgen = False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                self.names.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.scan(s)
        self.names -= self.globs
        self.names -= self.nonlocals

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.names.add(n.name)
            for d in n.decorator_list:
                self.scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.scan(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    self.names.add(w.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.isgen = True
        if isinstance(n, ast.Global):
            self.globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)
        if isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
            self.names.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            self.names.add(n.rest)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                self.names.add((x.asname or x.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self.scan(c)


# -- iterators ------------------------------------------------------------
class It(Obj):
    fields = ()

    def symbolic(self, I):
        return False

    def state(self):
        return [(f, getattr(self, f)) for f in self.fields]


class SeqIt(It):
    """Over a live VList or a tuple."""
    fields = ('seq', 'i')

    def __init__(self, seq):
        self.seq = seq
        self.i = 0

    def next(self, I):
        items = self.seq.items if isinstance(self.seq, VList) else self.seq
        i = I.cint(self.i)
        if i >= len(items):
            raise StopIter()
        self.i = i + 1
        return items[i]


class RevIt(It):
    fields = ('seq', 'i')

    def __init__(self, seq):
        self.seq = seq
        self.i = len(seq.items if isinstance(seq, VList) else seq) - 1

    def next(self, I):
        items = self.seq.items if isinstance(self.seq, VList) else self.seq
        i = I.cint(self.i)
        if i < 0:
            raise StopIter()
        self.i = i - 1
        return items[i]


class StrIt(It):
    fields = ('s', 'k', 'off')

    def __init__(self, I, s):
        if I.kind(s) == 'bytes':
            raise Unsupported('iterate bytes')
        self.s = s
        self.k = 0
        self.off = 0

    def part(self, I):
        ps = I.parts(self.s)
        k = I.cint(self.k)
        return ps[k] if k < len(ps) else None

    def symbolic(self, I):
        p = self.part(I)
        return isinstance(p, (Rep, Sl)) and not I.P.num.norm(I.plen(p)).const()

    def next(self, I):
        while True:
            p = self.part(I)
            if p is None:
                raise StopIter()
            if isinstance(p, str):
                o = I.cint(self.off)
                if o < len(p):
                    self.off = o + 1
                    return p[o]
            elif isinstance(p, Ch):
                if I.cint(self.off) == 0:
                    self.off = 1
                    return I.mk([p])
            elif isinstance(p, (Rep, Sl)):
                n = I.plen(p)
                if I.ge0(n.add(self.off, -1).add(-1)):
                    o = Lin.of(self.off)
                    self.off = simp(I.P.num.norm(o.add(1)))
                    if isinstance(p, Rep):
                        return I.mk([Ch(p.cell)])
                    return I.mk([Ch(I.src_char(p.src, p.b.add(o), p.cs))])
            else:
                raise Unsupported('iterate %r' % (p,))
            self.k = I.cint(self.k) + 1
            self.off = 0


class RangeIt(It):
    fields = ('i', 'e', 'step')

    def __init__(self, a, e, step):
        self.i, self.e, self.step = a, e, step

    def symbolic(self, I):
        return not I.P.num.norm(Lin.of(self.e).add(self.i, -1)).const()

    def next(self, I):
        d = Lin.of(self.e).add(self.i, -1)
        if self.step < 0:
            d = d.scale(-1)
        if not I.ge0(d.add(-1)):
            raise StopIter()
        v = simp(I.P.num.norm(self.i))
        self.i = simp(I.P.num.norm(Lin.of(self.i).add(self.step)))
        return v


class MultiIt(It):
    """zip / enumerate / chain / map / filter / islice."""
    fields = ('what', 'its', 'fn', 'n')

    def __init__(self, what, its, fn=None, n=0):
        self.what, self.its, self.fn, self.n = what, its, fn, n

    def symbolic(self, I):
        return any(i.symbolic(I) for i in self.its if isinstance(i, It))

    def next(self, I):
        w = self.what
        if w == 'zip':
            return tuple([i.next(I) for i in self.its])
        if w == 'enumerate':
            v = self.its[0].next(I)
            n = self.n
            self.n = simp(I.P.num.norm(Lin.of(n).add(1)))
            return (n, v)
        if w == 'chain':
            while self.its:
                try:
                    return self.its[0].next(I)
                except StopIter:
                    self.its = self.its[1:]
            raise StopIter()
        if w == 'chain_from':
            while True:
                if len(self.its) > 1:
                    try:
                        return self.its[1].next(I)
                    except StopIter:
                        self.its = self.its[:1]
                self.its = [self.its[0], I.iter(self.its[0].next(I))]
        if w == 'map':
            args = [i.next(I) for i in self.its]
            return I.call(self.fn, args)
        if w == 'filter':
            while True:
                v = self.its[0].next(I)
                if self.fn is None:
                    if I.truth(v):
                        return v
                elif I.truth(I.call(self.fn, [v])):
                    return v
        if w == 'takewhile':
            v = self.its[0].next(I)
            if not I.truth(I.call(self.fn, [v])):
                self.its = [SeqIt(())]
                raise StopIter()
            return v
        if w == 'dropwhile':
            while True:
                v = self.its[0].next(I)
                if self.n == 0 and I.truth(I.call(self.fn, [v])):
                    continue
                self.n = 1
                return v
        raise Unsupported(w)


class CallIt(It):
    """Iterator backed by a user object with __next__, or by a stub."""
    fields = ('obj',)

    def __init__(self, obj, nxt=None):
        self.obj = obj
        self.nxt = nxt

    def next(self, I):
        if self.nxt is not None:
            return self.nxt(I)
        try:
            return I.call(I.getattr(self.obj, '__next__'), [])
        except PyExc as e:
            if e.val.cls.sub(I.exc('StopIteration')):
                raise StopIter()
            raise


class VGen(It):
    fields = ()

    def __init__(self, fr, gen):
        self.fr = fr
        self.gen = gen
        self.done = False
        self.sent = None

    def next(self, I):
        if self.done:
            raise StopIter()
        I.frames.append(self.fr)
        try:
            v = next(self.gen)
        except StopIteration:
            self.done = True
            raise StopIter()
        except BaseException:
            self.done = True
            raise
        finally:
            I.frames.pop()
        return v


class Path(object):
    def __init__(self, prefix, sym):
        self.prefix = prefix
        self.trace = []
        self.num = Num()
        self.natom = 0
        self.ncell = 0
        self.nsrc = 0
        self.inputs = set()
        self.exact = True
        self.sym = sym
        self.eqmemo = {}
        self.opqmemo = {}
        self.events = []
        self.forks = []
        self.steps = 0
        self.roots = []
        self.undo = []
        self.ctx = None
        self.visits = {}
        self.funcs = set()
        self.rev = False
        self.globwrites = []
        self.deadline = float('inf')


class Interp(StrOps):
    MAXSTEPS = 400000
    MAXDEPTH = 120
    ACTIVE = 150

    def __init__(self, root='/repo/src'):
        self.root = root
        self.modules = {}
        self.trees = {}
        self.thresholds = ()
        self.words = ()
        self.frames = []
        self.temps = []
        self.atoms = []
        self.finfo = {}
        self.heads = {}
        self.symloops = set()
        self.worklist = []
        self.stubs = {}
        self.loading = False
        self.load_errors = []
        self.analysed = set()
        self.P = Path([], False)
        from . import models
        self.models = models
        models.install(self)
        self.stats = {'paths': 0, 'cuts': 0, 'dead': 0, 'joins': 0}

    # -- modules ----------------------------------------------------------
    def load_all(self, package='os_urlpattern'):
        self.loading = True
        base = os.path.join(self.root, package)
        names = []
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel.pop()
                    names.append('.'.join(rel))
        for n in names:
            self.import_module(n)
        self.loading = False
        self.thresholds = self.program_constants()
        self.words = self.program_words()
        self.freeze()

    def program_constants(self):
        """Sizes worth distinguishing: integer constants of the source (as in widening with thresholds)."""
        out = set()
        for name, tree in self.trees.items():
            if '.' not in name or not name.startswith('os_urlpattern'):
                continue
            skip = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
                    skip.add(id(n.left))
                    skip.add(id(n.right))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and id(n) not in skip and 4 < n.value <= 600:
                    out.update((n.value, n.value + 1))
        return tuple(sorted(out))[:8]

    STRM = frozenset('startswith endswith find rfind index rindex split rsplit partition rpartition strip lstrip rstrip '
                     'replace count removeprefix removesuffix get fullmatch match search'.split())
    CONFIG = frozenset('NOTSET CLUSTER INLINE ETE PATTERN JSON NULL last_path_as_pattern Formatter %(memory)s memory / .'.split())

    def program_words(self):
        """Texts worth distinguishing: string constants that the source compares with or looks for."""
        out = []

        def add(n):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)):
                    v = x.value if isinstance(x.value, str) else x.value.decode('latin-1')
                    if 0 < len(v) <= 16 and v not in self.CONFIG and v not in out and v.isascii() and v.isprintable():
                        out.append(v)
        for name in sorted(self.trees):
            if '.' not in name or not name.startswith('os_urlpattern'):
                continue
            for n in ast.walk(self.trees[name]):
                if isinstance(n, ast.Compare):
                    for x in [n.left] + n.comparators:
                        if isinstance(x, (ast.Constant, ast.Tuple, ast.List, ast.Set)):
                            add(x)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.STRM:
                    for x in n.args:
                        add(x)
                elif isinstance(n, ast.Assign) and not name.endswith(('.cmdline', '.utils')) and not any(getattr(t, 'id', '') == '__slots__' for t in n.targets):
                    v = n.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('frozenset', 'set', 'tuple') and v.args:
                        v = v.args[0]
                    if isinstance(v, (ast.Tuple, ast.List, ast.Set)) and v.elts and all(
                            isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in v.elts):
                        add(v)
                    elif isinstance(v, ast.Dict) and v.keys and all(
                            isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) and len(x.value) > 1
                            for x in v.keys):
                        for x in v.keys:
                            add(x)
        return tuple(out)[:8]

    def freeze(self):
        """Flag every object reachable from module globals."""
        seen = set()
        stack = [m for m in self.modules.values() if not m.external]
        while stack:
            o = stack.pop()
            if isinstance(o, (tuple, list)):
                stack.extend(o)
                continue
            if isinstance(o, VBound):
                stack.append(o.self)
                continue
            if isinstance(o, VProp):
                stack.extend([o.fget, o.fset])
                continue
            if isinstance(o, VStatic):
                stack.append(o.fn)
                continue
            if not isinstance(o, Obj) or id(o) in seen:
                continue
            seen.add(id(o))
            o.glob = True
            if isinstance(o, VModule):
                stack.extend(o.ns.values())
            elif isinstance(o, VList):
                stack.extend(o.items)
            elif isinstance(o, VDict):
                for k, v in o.entries:
                    stack.extend([k, v])
            elif isinstance(o, VSet):
                stack.extend(o.items)
            elif isinstance(o, VClass):
                stack.extend(o.ns.values())
                stack.extend(o.bases)
            elif isinstance(o, VObj):
                stack.extend(o.attrs.values())
            elif isinstance(o, VFunc):
                stack.extend(o.defaults)
                stack.extend(o.kwdefaults.values())

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] != 'os_urlpattern':
            m = self.models.external(self, name)
            self.modules[name] = m
            return m
        p = os.path.join(self.root, *name.split('.'))
        path = p + '.py'
        pkg = False
        if os.path.isdir(p):
            path = os.path.join(p, '__init__.py')
            pkg = True
        if not os.path.exists(path):
            self.throw('ImportError', name)
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = VModule(name, {'__name__': name, '__file__': path,
                           '__package__': name if pkg else name.rpartition('.')[0],
                           '__doc__': None}, path)
        m.pkg = pkg
        self.modules[name] = m
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.trees[name] = tree
        fr = Frame(None, m)
        fr.locals = m.ns
        self.frames.append(fr)
        try:
            if self.loading:
                self.load_block(tree.body, fr)
            else:
                self.run_plain(tree.body, fr)
        finally:
            self.frames.pop()
        if parent is not None:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    # -- decisions --------------------------------------------------------
    def choose(self, n, label=''):
        P = self.P
        if n <= 1:
            return 0
        if self.loading:
            raise Unsupported('undecided branch while loading: %s' % label)
        i = len(P.trace)
        if i < len(P.prefix):
            d = P.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.worklist.append(P.trace + [k])
        P.trace.append(d)
        fr = self.frames[-1] if self.frames else None
        P.forks.append((self.where(fr), label, d))
        return d

    def where(self, fr=None):
        fr = fr or (self.frames[-1] if self.frames else None)
        if fr is None:
            return '?'
        return '%s:%d' % (os.path.relpath(fr.module.path, os.path.dirname(self.root)) if fr.module.path else fr.module.name, fr.line)

    def ge0(self, e):
        if isinstance(e, (int, bool)):
            return e >= 0
        d = self.P.num.decide_ge(e)
        if d is not None:
            return d
        e = Lin.of(e)
        self.P.numforks = getattr(self.P, 'numforks', 0) + 1
        if self.choose(2, '%s >= 0' % (self.P.num.norm(e),)) == 0:
            self.P.num.assume_ge(e)
            return True
        self.P.num.assume_ge(e.scale(-1).add(-1))
        return False

    def eq0(self, e):
        if isinstance(e, (int, bool)):
            return e == 0
        d = self.P.num.decide_eq(e)
        if d is not None:
            return d
        e = Lin.of(e)
        opts = ['eq']
        if not self.P.num.prove_ge(e.scale(-1)):
            opts.append('gt')
        if not self.P.num.prove_ge(e):
            opts.append('lt')
        self.P.numforks = getattr(self.P, 'numforks', 0) + 1
        o = opts[self.choose(len(opts), '%s == 0' % (self.P.num.norm(e),))]
        if o == 'eq':
            self.P.num.assume_eq(e)
            return True
        if o == 'gt':
            self.P.num.assume_ge(e.add(-1))
        else:
            self.P.num.assume_ge(e.scale(-1).add(-1))
        return False

    def new_atom(self, name='v'):
        i = self.P.natom
        self.P.natom += 1
        while len(self.atoms) <= i:
            self.atoms.append(Atom('%s%d' % (name, len(self.atoms))))
        a = self.atoms[i]
        a.name = '%s%d' % (name, i)
        return a

    def new_src(self, name, cs, length, tags=()):
        self.P.nsrc += 1
        return Src(self.P.nsrc, name, cs, length, tags)

    def cint(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Lin):
            n = simp(self.P.num.norm(v))
            if isinstance(n, int):
                return n
            raise Unsupported('symbolic integer where a constant is needed: %s' % (n,))
        raise Unsupported('integer expected, got %r' % (v,))

    # -- mutation log -----------------------------------------------------
    def w(self, o):
        """Called before mutating o."""
        if not o.glob or self.loading:
            return
        P = self.P
        P.globwrites.append((self.where(), o))
        if isinstance(o, VList):
            old = list(o.items)
            P.undo.append(lambda: setattr(o, 'items', old))
        elif isinstance(o, VDict):
            e, ix = [list(x) for x in o.entries], dict(o.index)

            def back():
                o.entries, o.index = e, ix
            P.undo.append(back)
        elif isinstance(o, VSet):
            i, n = list(o.items), set(o.nat)

            def back2():
                o.items, o.nat = i, n
            P.undo.append(back2)
        elif isinstance(o, VObj):
            a = dict(o.attrs)

            def back3():
                o.attrs.clear()
                o.attrs.update(a)
            P.undo.append(back3)
        elif isinstance(o, (VClass, VModule)):
            a2 = dict(o.ns)

            def back4():
                o.ns.clear()
                o.ns.update(a2)
            P.undo.append(back4)
        elif isinstance(o, VStringIO):
            c = (o.content, o.pos)

            def back5():
                o.content, o.pos = c
            P.undo.append(back5)
        elif isinstance(o, VFunc):
            a3 = dict(o.attrs)

            def back6():
                o.attrs.clear()
                o.attrs.update(a3)
            P.undo.append(back6)

    # -- exceptions -------------------------------------------------------
    def exc(self, name):
        return self.builtins[name]

    def throw(self, name, msg=''):
        cls = self.builtins[name]
        o = VObj(cls)
        o.attrs['args'] = (msg,)
        raise PyExc(o, self.where())

    # -- statements -------------------------------------------------------
    def run_plain(self, body, fr):
        """Run statements that do not yield; returns a signal."""
        g = self.block(body, fr)
        try:
            next(g)
        except StopIteration as e:
            return e.value
        raise Unsupported('unexpected yield')

    def load_block(self, body, fr):
        """Statements of a module or of a class while loading: what a
        statement that cannot be interpreted would have bound is poison."""
        for s in body:
            try:
                r = self.run_plain([s], fr)
                if r is not None:
                    raise Unsupported('unexpected %r' % (r,))
            except (Unsupported, PyExc, Budget) as e:
                if not self.loading:
                    raise
                self.load_errors.append('%s:%d %s' % (fr.module.name, s.lineno, e))
                names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
                         and isinstance(n.ctx, (ast.Store, ast.Del))}
                names |= {n.name for n in ast.walk(s) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
                for n in ast.walk(s):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        names |= {(x.asname or x.name).split('.')[0] for x in n.names}
                for n in sorted(names):
                    self.store(n, Poison(n, '%s' % e), fr)

    def block(self, body, fr):
        for s in body:
            fr.line = s.lineno
            P = self.P
            P.steps += 1
            if P.steps > self.MAXSTEPS:
                raise Budget('step budget')
            m = self.SIMPLE.get(type(s))
            if m is not None:
                r = m(self, s, fr)
            else:
                c = self.COMPOUND.get(type(s))
                if c is None:
                    raise Unsupported('statement %s' % type(s).__name__)
                r = yield from c(self, s, fr)
            if r is not None:
                return r
        return None

    def x_expr(self, s, fr):
        self.ev(s.value, fr)

    def x_pass(self, s, fr):
        pass

    def x_assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_annassign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_augassign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            new = self.augop(s.op, old, self.ev(s.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index_of(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported('augassign')

    def augop(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add):
            self.w(a)
            a.items.extend(self.listify(b))
            return a
        if isinstance(a, VSet) and isinstance(op, ast.BitOr) and not a.frozen:
            self.w(a)
            for x in self.listify(b):
                self.set_add(a, x)
            return a
        if isinstance(a, VDict) and isinstance(b, VDict) and a.kind != 'Counter' and isinstance(op, ast.BitOr):
            for k, v in list(b.entries):
                self.dict_set(a, k, v)
            return a
        if isinstance(a, VSet) and isinstance(b, VSet) and not a.frozen:
            r = self.binop(op, a, b)
            self.w(a)
            a.items, a.nat = list(r.items), set(r.nat)
            return a
        if isinstance(a, VDict) or isinstance(a, VSet) and not a.frozen or isinstance(a, VList):
            raise Unsupported('%s in place' % type(op).__name__)
        if isinstance(a, VObj):
            n = '__i%s__' % self.OPN.get(type(op), '')
            f = a.cls.lookup(n)[0]
            if f is not None:
                return self.call(VBound(f, a), [b])
        return self.binop(op, a, b)

    def x_return(self, s, fr):
        return (RETURN, self.ev(s.value, fr) if s.value is not None else None)

    def x_break(self, s, fr):
        return (BREAK, None)

    def x_continue(self, s, fr):
        return (CONTINUE, None)

    def x_delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                else:
                    self.throw('NameError', t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.index_of(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, VObj) and t.attr in o.attrs:
                    self.w(o)
                    del o.attrs[t.attr]
                else:
                    raise Unsupported('del attribute')

    def x_raise(self, s, fr):
        if s.exc is None:
            cur = fr.locals.get('$exc')
            if cur is None:
                for f in reversed(self.frames):
                    if f.locals.get('$exc') is not None:
                        cur = f.locals['$exc']
                        break
            if cur is None:
                self.throw('RuntimeError', 'No active exception to reraise')
            raise PyExc(cur, self.where(fr))
        v = self.ev(s.exc, fr)
        if isinstance(v, VClass):
            v = self.call(v, [])
        if isinstance(v, Opq):
            raise Unsupported('raise of unknown object')
        raise PyExc(v, self.where(fr))

    def x_assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw('AssertionError')

    def x_global(self, s, fr):
        pass

    def x_import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), fr)

    def x_importfrom(self, s, fr):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            pkg = fr.module.name.split('.')
            up = s.level - (1 if getattr(fr.module, 'pkg', False) else 0)
            if up:
                pkg = pkg[:-up]
            name = '.'.join(pkg + ([s.module] if s.module else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in list(m.ns.items()):
                    if not k.startswith('_'):
                        self.store(k, v, fr)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif m.external:
                v = self.models.ext_attr(self, m, a.name)
            else:
                try:
                    v = self.import_module(name + '.' + a.name)
                except PyExc:
                    self.throw('ImportError', 'cannot import name %r' % a.name)
            self.store(a.asname or a.name, v, fr)

    def x_functiondef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f])
        self.store(s.name, f, fr)

    def mkfunc(self, s, fr):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, fr)
        env = fr
        if fr.fn == 'class' or fr.locals is fr.module.ns:
            env = fr.env
        f = VFunc(s, fr.module, env, defaults, kwd,
                  cls=fr.cls if fr.fn == 'class' else None)
        if id(s) not in self.finfo:
            self.finfo[id(s)] = (FInfo(s), s)
        f.isgen = self.finfo[id(s)][0].isgen
        return f

    def x_classdef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b if isinstance(b, VClass) else self.models.opaque_class(self, b) for b in bases]
        if not bases:
            bases = [self.builtins['object']]
        cf = Frame('class', fr.module, env=fr if fr.locals is not fr.module.ns else None)
        cf.line = s.lineno
        cf.cls = s
        self.frames.append(cf)
        try:
            if self.loading:
                self.load_block(s.body, cf)
            else:
                self.run_plain(s.body, cf)
        finally:
            self.frames.pop()
        special = [b for b in bases if getattr(b, 'special', None)]
        if special:
            cls = self.models.special_class(self, special[0], s, bases, cf.locals, fr)
            self.store(s.name, cls, fr)
            return
        cls = VClass(s.name, bases, cf.locals, fr.module, s)
        cls.ns.setdefault('__module__', fr.module.name)
        for v in list(cf.locals.values()):
            self._own(v, cls)
        if '__slots__' in cf.locals:
            sl = cf.locals['__slots__']
            cls.slots = [sl] if isinstance(sl, str) else list(self.listify(sl))
        else:
            cls.slots = None
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, fr), [cls])
        self.store(s.name, cls, fr)

    def _own(self, v, cls):
        if isinstance(v, VFunc) and (v.cls is None or isinstance(v.cls, ast.AST)):
            v.cls = cls
        elif isinstance(v, VProp):
            self._own(v.fget, cls)
            self._own(v.fset, cls)
        elif isinstance(v, VStatic):
            self._own(v.fn, cls)

    # compound
    def c_if(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return (yield from self.block(s.body, fr))
        return (yield from self.block(s.orelse, fr))

    def c_match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            b = {}
            if self.pat(c.pattern, v, b, fr):
                for n, x in b.items():
                    self.store(n, x, fr)
                if c.guard is None or self.truth(self.ev(c.guard, fr)):
                    return (yield from self.block(c.body, fr))
        return None

    def pat(self, p, v, b, fr):
        if isinstance(v, Top):
            raise Unsupported('match of unknown (%s)' % v.why)
        if isinstance(p, ast.MatchValue):
            return bool(self.py_eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pat(p.pattern, v, b, fr):
                return False
            if p.name is not None:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pat(q, v, b, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, VObj) and v.cls.fields is not None:
                v = tuple(v.attrs[f] for f in v.cls.fields)
            if isinstance(v, Opq):
                raise Unsupported('match of an unknown object')
            if not isinstance(v, (VList, tuple)):
                return False
            xs = list(v.items if isinstance(v, VList) else v)
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st:
                return len(xs) == len(p.patterns) and all(
                    self.pat(q, x, b, fr) for q, x in zip(p.patterns, xs))
            i = st[0]
            after = len(p.patterns) - i - 1
            if len(xs) < i + after:
                return False
            if not all(self.pat(q, x, b, fr) for q, x in zip(p.patterns[:i], xs)):
                return False
            if p.patterns[i].name is not None:
                b[p.patterns[i].name] = VList(xs[i:len(xs) - after])
            return all(self.pat(q, x, b, fr)
                       for q, x in zip(p.patterns[i + 1:], xs[len(xs) - after:]))
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr)
            if not self.truth(self.call(self.builtins['isinstance'], [v, cls])):
                return False
            if p.patterns:
                names = None
                if isinstance(cls, VClass):
                    if cls.builtin is not None and cls.name in (
                            'bool', 'bytes', 'dict', 'float', 'frozenset', 'int', 'list',
                            'set', 'str', 'tuple') and len(p.patterns) == 1:
                        if not self.pat(p.patterns[0], v, b, fr):
                            return False
                        names = ()
                    elif cls.fields is not None:
                        names = cls.fields
                    else:
                        m = cls.lookup('__match_args__')[0]
                        names = self.listify(m) if m is not None else None
                if names is None:
                    raise Unsupported('class pattern')
                for n, q in zip(names, p.patterns):
                    if not self.pat(q, self.getattr(v, n), b, fr):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, n, StopIter)
                if x is StopIter or not self.pat(q, x, b, fr):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, Opq):
                raise Unsupported('match of an unknown object')
            if not isinstance(v, VDict) or p.rest is not None:
                if not isinstance(v, VDict):
                    return False
                raise Unsupported('mapping pattern with a rest')
            for k, q in zip(p.keys, p.patterns):
                key = self.ev(k, fr)
                if not self.truth(self.contains(v, key)):
                    return False
                if not self.pat(q, self.getitem(v, key), b, fr):
                    return False
            return True
        raise Unsupported('pattern %s' % type(p).__name__)

    def c_for(self, s, fr):
        it = self.iter(self.ev(s.iter, fr))
        fr.iters.append(it)
        n = 0
        try:
            while True:
                fr.line = s.lineno
                if it.symbolic(self):
                    self.head(s, fr)
                    if n > 16 and self.P.sym:
                        raise Budget('no fixpoint: the state grows')
                n += 1
                if n > 3000:
                    raise Budget('loop budget')
                if not n % 50:
                    self.clock()
                try:
                    v = it.next(self)
                except StopIter:
                    r = yield from self.block(s.orelse, fr)
                    return r
                self.assign(s.target, v, fr)
                r = yield from self.block(s.body, fr)
                if r is not None:
                    if r[0] is BREAK:
                        return None
                    if r[0] is RETURN:
                        return r
        finally:
            if fr.iters and fr.iters[-1] is it:
                fr.iters.pop()
            elif it in fr.iters:
                fr.iters.remove(it)

    def clock(self):
        if time.time() > self.P.deadline:
            raise Budget('time')

    def c_while(self, s, fr):
        n = 0
        while True:
            fr.line = s.lineno
            if id(s) in self.symloops:
                self.head(s, fr)
                if n > 16 and self.P.sym:
                    raise Budget('no fixpoint: the state grows')
            n += 1
            if n > 3000:
                raise Budget('loop budget')
            if not n % 50:
                self.clock()
            before = getattr(self.P, 'numforks', 0)
            t = self.truth(self.ev(s.test, fr))
            if getattr(self.P, 'numforks', 0) > before and id(s) not in self.symloops and self.P.sym:
                self.symloops.add(id(s))
                raise Restart()
            if not t:
                return (yield from self.block(s.orelse, fr))
            r = yield from self.block(s.body, fr)
            if r is not None:
                if r[0] is BREAK:
                    return None
                if r[0] is RETURN:
                    return r

    def c_with(self, s, fr):
        mgrs = []
        for item in s.items:
            m = self.ev(item.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [])
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        try:
            r = yield from self.block(s.body, fr)
        except PyExc as e:
            for m in reversed(mgrs):
                x = self.call(self.getattr(m, '__exit__'), [e.val.cls, e.val, None])
                if not isinstance(x, (Opq, Top)) and self.truth(x):
                    return None
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, '__exit__'), [None, None, None])
        return r

    def c_try(self, s, fr):
        r = None
        try:
            try:
                r = yield from self.block(s.body, fr)
            except PyExc as e:
                h = None
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.val, self.ev(h.type, fr)):
                        break
                else:
                    raise
                self.P.events.append(('caught', self.where(fr), e.val.cls.name, h))
                if h.name:
                    fr.locals[h.name] = e.val
                old = fr.locals.get('$exc')
                fr.locals['$exc'] = e.val
                try:
                    r = yield from self.block(h.body, fr)
                finally:
                    fr.locals['$exc'] = old
                    if h.name:
                        fr.locals.pop(h.name, None)
            else:
                if r is None:
                    r = yield from self.block(s.orelse, fr)
        except PyExc:
            if s.finalbody:
                r2 = yield from self.block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = yield from self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def exc_match(self, val, t):
        if isinstance(t, tuple):
            return any(self.exc_match(val, x) for x in t)
        if isinstance(t, VClass):
            return val.cls.sub(t)
        raise Unsupported('except %r' % (t,))

    SIMPLE = {ast.Expr: None}

    # -- names ------------------------------------------------------------
    def name(self, n, fr):
        v = self._name(n, fr)
        if isinstance(v, Poison):
            raise Unsupported('%s: %s' % (v.name, v.why))
        return v

    def _name(self, n, fr):
        f = fr
        if n not in f.globs:
            if n in f.locals:
                return f.locals[n]
            if f.names is not None and n in f.names and n not in f.nonlocals:
                self.throw('UnboundLocalError', n)
            e = f.env
            while e is not None:
                if n in e.locals and n not in e.globs:
                    return e.locals[n]
                e = e.env
        if n in fr.module.ns:
            return fr.module.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        self.throw('NameError', n)

    def store(self, n, v, fr):
        if n in fr.globs:
            self.w(fr.module)
            fr.module.ns[n] = v
            return
        if n in fr.nonlocals:
            e = fr.env
            while e is not None:
                if n in e.locals or (e.names and n in e.names):
                    e.locals[n] = v
                    return
                e = e.env
        if fr.locals is fr.module.ns and not self.loading:
            self.w(fr.module)
        fr.locals[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Top):
                for x in t.elts:
                    self.assign(x, v, fr)
                return
            vs = self.listify(v)
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, VList(vs[i:len(vs) - k]), fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts):
                self.throw('ValueError', 'unpack %d into %d' % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.temps.append(v)
            o = self.ev(t.value, fr)
            k = self.index_of(t.slice, fr)
            self.temps.pop()
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign')

    # -- expressions ------------------------------------------------------
    def ev(self, e, fr):
        f = self.EXPR.get(type(e))
        if f is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return f(self, e, fr)

    def e_constant(self, e, fr):
        return e.value

    def e_name(self, e, fr):
        return self.name(e.id, fr)

    def e_attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def index_of(self, s, fr):
        if isinstance(s, ast.Slice):
            return VSlice(*[None if x is None else self.ev(x, fr)
                            for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_subscript(self, e, fr):
        o = self.ev(e.value, fr)
        self.temps.append(o)
        k = self.index_of(e.slice, fr)
        self.temps.pop()
        return self.getitem(o, k)

    def seq_items(self, elts, fr):
        out = []
        hold = VList(out)
        self.temps.append(hold)
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.listify(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        self.temps.pop()
        return hold.items

    def e_tuple(self, e, fr):
        return tuple(self.seq_items(e.elts, fr))

    def e_list(self, e, fr):
        return VList(self.seq_items(e.elts, fr))

    def e_set(self, e, fr):
        s = VSet()
        for v in self.seq_items(e.elts, fr):
            self.set_add(s, v)
        return s

    def e_dict(self, e, fr):
        d = VDict()
        self.temps.append(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                for a, b in self.dict_items(src):
                    self.dict_set(d, a, b)
            else:
                kk = self.ev(k, fr)
                self.temps.append(kk)
                vv = self.ev(v, fr)
                self.temps.pop()
                self.dict_set(d, kk, vv)
        self.temps.pop()
        return d

    def e_binop(self, e, fr):
        a = self.ev(e.left, fr)
        self.temps.append(a)
        b = self.ev(e.right, fr)
        a = self.temps.pop()
        return self.binop(e.op, a, b)

    def e_boolop(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v

    def e_unaryop(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (Top, Opq)):
            return Top('unary')
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else simp(Lin.of(v).scale(-1))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Unsupported('unary')

    def e_compare(self, e, fr):
        a = self.ev(e.left, fr)
        for op, x in zip(e.ops, e.comparators):
            self.temps.append(a)
            b = self.ev(x, fr)
            a = self.temps.pop()
            r = self.compare(op, a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return r
            a = b
        return r

    def e_ifexp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_lambda(self, e, fr):
        f = self.mkfunc(e, fr)
        f.name = '<lambda>'
        return f

    def e_call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args \
                and 'super' not in fr.locals:
            return VSuper(fr.cls, fr.first)
        f = self.ev(e.func, fr)
        args = []
        hold = VList(args)
        self.temps.append((f, hold))
        kw = {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.listify(self.ev(x.value, fr)))
            else:
                args.append(self.ev(x, fr))
            args = hold.items
        for k in e.keywords:
            if k.arg is None:
                for a, b in self.dict_items(self.ev(k.value, fr)):
                    kw[a] = b
            else:
                v = self.ev(k.value, fr)
                kw[k.arg] = v
        self.temps.pop()
        fr.line = e.lineno
        return self.call(f, hold.items, kw)

    def e_joinedstr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord('r'):
                    x = self.repr(x)
                x = self.fmt_spec(x, v.format_spec, fr)
                if isinstance(x, Top):
                    return x
                out.extend(self.parts(x))
        return self.mk(out)

    def fmt_spec(self, x, spec, fr):
        if spec is None:
            return self.to_str(x)
        sp = self.ev(spec, fr)
        if sp in ('', 's', 'd') and not isinstance(x, (Top, Opq)):
            return self.to_str(x)
        if is_native(x):
            return format(x, sp)
        return Top('format')

    def comp(self, gens, fr, emit):
        cf = Frame(fr.fn, fr.module, env=fr, names=None)
        cf.cls, cf.first, cf.line = fr.cls, fr.first, fr.line
        if fr.fn == 'class':
            pass
        self.frames.append(cf)
        try:
            self._comp(gens, 0, cf, emit, fr)
        finally:
            self.frames.pop()

    def _comp(self, gens, i, cf, emit, outer):
        if i == len(gens):
            emit(cf)
            return
        g = gens[i]
        it = self.iter(self.ev(g.iter, outer if i == 0 else cf))
        cf.iters.append(it)
        n = 0
        while True:
            if it.symbolic(self):
                self.head(g, cf)
            n += 1
            if n > 3000:
                raise Budget('loop budget')
            try:
                v = it.next(self)
            except StopIter:
                break
            self.assign(g.target, v, cf)
            if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                self._comp(gens, i + 1, cf, emit, outer)
        cf.iters.pop()

    def e_listcomp(self, e, fr):
        out = VList()
        self.temps.append(out)
        self.comp(e.generators, fr, lambda cf: out.items.append(self.ev(e.elt, cf)))
        self.temps.pop()
        return out

    def e_setcomp(self, e, fr):
        out = VSet()
        self.temps.append(out)
        self.comp(e.generators, fr, lambda cf: self.set_add(out, self.ev(e.elt, cf)))
        self.temps.pop()
        return out

    def e_dictcomp(self, e, fr):
        out = VDict()
        self.temps.append(out)

        def emit(cf):
            k = self.ev(e.key, cf)
            self.dict_set(out, k, self.ev(e.value, cf))
        self.comp(e.generators, fr, emit)
        self.temps.pop()
        return out

    def e_genexp(self, e, fr):
        cf = Frame(fr.fn, fr.module, env=fr)
        cf.cls, cf.first, cf.line = fr.cls, fr.first, fr.line
        first = self.iter(self.ev(e.generators[0].iter, fr))

        def run(i):
            g = e.generators[i]
            it = first if i == 0 else self.iter(self.ev(g.iter, cf))
            cf.iters.append(it)
            while True:
                if it.symbolic(self):
                    self.head(g, cf)
                try:
                    v = it.next(self)
                except StopIter:
                    break
                self.assign(g.target, v, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    if i + 1 < len(e.generators):
                        yield from run(i + 1)
                    else:
                        yield self.ev(e.elt, cf)
            cf.iters.pop()
        return VGen(cf, run(0))

    def e_namedexpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_starred(self, e, fr):
        raise Unsupported('starred')

    def e_yield(self, e, fr):
        raise Unsupported('yield inside an expression')

    # yield as a statement
    def c_expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Yield):
            yield (self.ev(v.value, fr) if v.value is not None else None)
            return None
        if isinstance(v, ast.YieldFrom):
            it = self.iter(self.ev(v.value, fr))
            fr.iters.append(it)
            while True:
                if it.symbolic(self):
                    self.head(s, fr)
                try:
                    x = it.next(self)
                except StopIter:
                    break
                yield x
            fr.iters.remove(it)
            return None
        self.ev(v, fr)
        return None

    # -- operators --------------------------------------------------------
    OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Mod: 'mod',
           ast.FloorDiv: 'floordiv', ast.Div: 'truediv', ast.BitOr: 'or',
           ast.BitAnd: 'and', ast.BitXor: 'xor'}

    def binop(self, op, a, b):
        if isinstance(a, Str):
            c = self.const(a)
            a = a if c is None else c
        if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)):
            return self.models.percent(self, a, b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('arith')
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Top('arith on %r %r' % (a, b))
        num = (int, float, Lin)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Lin) and not isinstance(b, Lin):
                try:
                    return self.NUMOPS[type(op)](a, b)
                except ZeroDivisionError:
                    self.throw('ZeroDivisionError')
            if isinstance(a, float) or isinstance(b, float):
                return Top('float')
            la, lb = self.P.num.norm(a), self.P.num.norm(b)
            if isinstance(op, ast.Add):
                return simp(la.add(lb))
            if isinstance(op, ast.Sub):
                return simp(la.add(lb, -1))
            if isinstance(op, ast.Mult):
                if la.const():
                    return simp(lb.scale(simp(la)))
                if lb.const():
                    return simp(la.scale(simp(lb)))
                return Top('product')
            if la.const() and lb.const():
                return self.binop(op, simp(la), simp(lb))
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and lb.const() and lb.c > 0:
                k = simp(lb)
                q = Lin.of(self.new_atom('q'))
                r = la.add(q.scale(k), -1)
                self.P.num.assume_ge(r)
                self.P.num.assume_ge(r.scale(-1).add(k - 1))
                return simp(q if isinstance(op, ast.FloorDiv) else self.P.num.norm(r))
            return Top('arith')
        if self.is_str(a) and self.is_str(b) and isinstance(op, ast.Add):
            if self.kind(a) != self.kind(b):
                self.throw('TypeError', 'concat')
            return self.mk(self.parts(a) + self.parts(b), self.kind(a))
        if isinstance(op, ast.Mult):
            if self.is_str(a) and isinstance(b, (int, Lin)):
                return self.s_mul(a, simp(self.P.num.norm(b)) if isinstance(b, Lin) else b)
            if self.is_str(b) and isinstance(a, (int, Lin)):
                return self.s_mul(b, a)
            if isinstance(a, VList):
                return VList(a.items * self.cint(b))
            if isinstance(a, tuple):
                return a * self.cint(b)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
        if isinstance(a, VSet) and isinstance(b, VSet):
            if isinstance(op, ast.BitOr):
                return self.models.set_union(self, a, [b])
            if isinstance(op, ast.BitAnd):
                return self.models.set_inter(self, a, [b])
            if isinstance(op, ast.Sub):
                return self.models.set_diff(self, a, [b])
            raise Unsupported('%s of sets' % type(op).__name__)
        if isinstance(a, VObj) or isinstance(b, VObj):
            n = self.OPN.get(type(op))
            if isinstance(a, VObj):
                if a.cls.fields is not None and isinstance(op, ast.Add):
                    return self.binop(op, tuple(a.attrs[f] for f in a.cls.fields), b)
                f = a.cls.lookup('__%s__' % n)[0]
                if f is not None:
                    return self.call(VBound(f, a), [b])
            if isinstance(b, VObj):
                f = b.cls.lookup('__r%s__' % n)[0]
                if f is not None:
                    return self.call(VBound(f, b), [a])
        if isinstance(a, VDict) and isinstance(b, VDict) and isinstance(op, ast.BitOr):
            if a.kind == 'Counter' or b.kind == 'Counter':
                raise Unsupported('| of counters')
            d = VDict([list(x) for x in a.entries], kind=a.kind)
            d.default = a.default
            for k, v in b.entries:
                self.dict_set(d, k, v)
            return d
        if isinstance(a, VDict) and a.kind == 'Counter' and isinstance(b, VDict) and isinstance(op, ast.Add):
            d = VDict(kind='Counter')
            for k, v in a.entries:
                self.dict_set(d, k, v)
            for k, v in b.entries:
                i = self.dict_find(d, k)
                self.dict_set(d, k, v if i is None else self.binop(op, d.entries[i][1], v))
            if any(not isinstance(v, int) or v <= 0 for _, v in d.entries):
                raise Unsupported('+ of counters')
            return d
        if isinstance(a, VDict) and a.kind == 'Counter':
            raise Unsupported('%s of counters' % type(op).__name__)
        if (isinstance(a, VList) or isinstance(b, VList)) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            raise Unsupported('set operation on a list or view')  # keys() and items() are modelled as lists
        if isinstance(a, (VList, tuple, VDict, VSet, type(None))) or self.is_str(a):
            self.throw('TypeError', 'unsupported operand')
        raise Unsupported('binop %s %r %r' % (type(op).__name__, a, b))

    NUMOPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
              ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
              ast.FloorDiv: lambda a, b: a // b, ast.Div: lambda a, b: a / b,
              ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b,
              ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
              ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.py_ne(a, b)
        n = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
        return self.order(n, a, b)

    def is_(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if (isinstance(a, Top) and a.why == 'nonnull' and b is None):
                return False
            raise Unsupported('identity of unknown')
        if isinstance(a, Opq) and a.truth == 'maybe_none' and b is None:
            pass
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (VBound,)) and isinstance(b, VBound):
            return a.fn is b.fn and a.self is b.self
        if self.is_str(a) and self.is_str(b):
            if a is b:
                return True
            raise Unsupported('identity of strings')
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return self.py_eq(a, b)
        return a is b

    REFL = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}

    def order(self, n, a, b):
        num = (int, Lin, bool)
        if isinstance(b, OrdV) and not isinstance(a, OrdV):
            return self.order(self.REFL[n], b, a)
        if isinstance(a, OrdV):
            if isinstance(b, OrdV):
                return self.order(n, self.mk([a.ch]), self.mk([b.ch]))
            if isinstance(b, int) and b <= 0x3000:
                k = b + (n in ('le', 'gt'))
                r = k > 0 and self.ch_in(a.ch, self.below(chr(k)))
                return r if n in ('lt', 'le') else not r
        if isinstance(a, num) and isinstance(b, num):
            d = Lin.of(a).add(b, -1)
            if n == 'lt':
                return self.ge0(d.scale(-1).add(-1))
            if n == 'le':
                return self.ge0(d.scale(-1))
            if n == 'gt':
                return self.ge0(d.add(-1))
            return self.ge0(d)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[n]
        if isinstance(a, (Top, Opq)) or isinstance(b, (Top, Opq)):
            raise Unsupported('order of unknown values %r %r' % (a, b))
        if self.is_str(a) and self.is_str(b):
            x, y = self.const(a), self.const(b)
            if x is not None and y is not None:
                return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[n]
            if self.s_eq(a, b):
                return n in ('le', 'ge')
            k = ('ord', self.vkey(a), self.vkey(b))
            if k not in self.P.eqmemo:
                r = self.s_cmp(a, b)
                if r is not None:
                    return (r < 0) == (n in ('lt', 'le'))
                self.P.exact = False
                r = bool(self.choose(2, 'order'))
                self.P.eqmemo[k] = r
                self.P.eqmemo[('ord', k[2], k[1])] = not r
            r = self.P.eqmemo[k]
            return r if n in ('lt', 'le') else not r
        a2, b2 = self.as_tuple(a), self.as_tuple(b)
        if a2 is not None and b2 is not None:
            for x, y in zip(a2, b2):
                if not self.py_eq(x, y):
                    return self.order(n, x, y)
            return self.order(n, len(a2), len(b2))
        if isinstance(a, VSet) and isinstance(b, VSet):
            if n in ('le', 'lt'):
                r = all(self.contains(b, x) for x in a.items)
                return r and (n == 'le' or len(a.items) < len(b.items))
            return self.order(self.REFL[n], b, a)
        if isinstance(a, VObj):
            f = self.find_order(a.cls, n)
            if f is not None:
                return self.truth(f(a, b))
            if isinstance(b, VObj):
                f = self.find_order(b.cls, self.REFL[n])
                if f is not None:
                    return self.truth(f(b, a))
        self.throw('TypeError', 'not orderable')

    def find_order(self, cls, n):
        f = cls.lookup('__%s__' % n)[0]
        if f is not None:
            return lambda a, b: self.call(VBound(f, a), [b])
        if not cls.total:
            return None
        root = None
        for r in ('lt', 'le', 'gt', 'ge'):
            g = cls.lookup('__%s__' % r)[0]
            if g is not None:
                root = (r, g)
                break
        if root is None:
            return None
        r, g = root
        base = lambda a, b: self.truth(self.call(VBound(g, a), [b]))
        ne = lambda a, b: self.py_ne(a, b)
        eq = lambda a, b: self.py_eq(a, b)
        table = {
            ('lt', 'gt'): lambda a, b: not base(a, b) and ne(a, b),
            ('lt', 'le'): lambda a, b: base(a, b) or eq(a, b),
            ('lt', 'ge'): lambda a, b: not base(a, b),
            ('le', 'ge'): lambda a, b: not base(a, b) or eq(a, b),
            ('le', 'lt'): lambda a, b: base(a, b) and ne(a, b),
            ('le', 'gt'): lambda a, b: not base(a, b),
            ('gt', 'lt'): lambda a, b: not base(a, b) and ne(a, b),
            ('gt', 'ge'): lambda a, b: base(a, b) or eq(a, b),
            ('gt', 'le'): lambda a, b: not base(a, b),
            ('ge', 'le'): lambda a, b: not base(a, b) or eq(a, b),
            ('ge', 'gt'): lambda a, b: base(a, b) and ne(a, b),
            ('ge', 'lt'): lambda a, b: not base(a, b),
        }
        return table[(r, n)]

    def as_tuple(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, VList):
            return tuple(v.items)
        if isinstance(v, VObj) and v.cls.fields is not None:
            return tuple(v.attrs[f] for f in v.cls.fields)
        return None

    def py_ne(self, a, b):
        if isinstance(a, VObj):
            f = a.cls.lookup('__ne__')[0]
            if f is not None:
                return self.truth(self.call(VBound(f, a), [b]))
        return not self.py_eq(a, b)

    def py_eq(self, a, b):
        if a is b and not isinstance(a, (VObj, float)):
            return True
        if isinstance(a, Top) or isinstance(b, Top):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, OrdV) and isinstance(y, int):
                    return 0 <= y < 0x110000 and self.ch_eq(x.ch, chr(y))
                if isinstance(x, OrdV) and isinstance(y, OrdV):
                    return self.ch_eq(x.ch, y.ch)
            raise Unsupported('equality of unknown')
        num = (int, Lin)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.eq0(Lin.of(a).add(b, -1))
        if self.is_str(a) and self.is_str(b):
            return self.s_eq(a, b)
        if isinstance(a, HashV) and isinstance(b, HashV):
            return self.key_eq(a.v, b.v)
        if isinstance(a, IdV) and isinstance(b, IdV):
            return a.v is b.v
        if isinstance(a, VObj):
            f = a.cls.lookup('__eq__')[0]
            if f is not None:
                r = self.call(VBound(f, a), [b])
                if r is not self.builtins['NotImplemented']:
                    return self.truth(r)
        if isinstance(b, VObj):
            f = b.cls.lookup('__eq__')[0]
            if f is not None:
                r = self.call(VBound(f, b), [a])
                if r is not self.builtins['NotImplemented']:
                    return self.truth(r)
        if isinstance(a, VObj) and a is b:
            return True
        ta = a if isinstance(a, tuple) else (self.as_tuple(a) if isinstance(a, VObj) else None)
        tb = b if isinstance(b, tuple) else (self.as_tuple(b) if isinstance(b, VObj) else None)
        if ta is not None and tb is not None:
            return len(ta) == len(tb) and all(self.py_eq(x, y) for x, y in zip(ta, tb))
        if isinstance(a, VList) and isinstance(b, VList):
            return len(a.items) == len(b.items) and all(
                self.py_eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VSet) and isinstance(b, VSet):
            return len(a.items) == len(b.items) and all(self.contains(b, x) for x in a.items)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.entries) != len(b.entries):
                return False
            for k, v in a.entries:
                i = self.dict_find(b, k)
                if i is None or not self.py_eq(v, b.entries[i][1]):
                    return False
            return True
        if isinstance(a, VBound) and isinstance(b, VBound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, (Opq,)) or isinstance(b, (Opq,)):
            if isinstance(a, Opq) and isinstance(b, Opq) and (a.strict or b.strict):
                return False
            x, y = (a, b) if isinstance(a, Opq) else (b, a)
            if x.strict:
                return False
            if y is None:
                return False
            raise Unsupported('equality of opaque %r %r' % (a, b))
        if isinstance(a, float) and isinstance(b, (int, float)):
            return a == b
        if isinstance(b, float) and isinstance(a, int):
            return a == b
        return False

    # keys of sets and dicts
    def hash_val(self, v):
        if isinstance(v, VObj):
            f, c = v.cls.lookup('__hash__')
            g, c2 = v.cls.lookup('__eq__')
            if f is None or (c2 is not None and g is not None and
                             v.cls.mro.index(c2) < (v.cls.mro.index(c) if c else 99)):
                if g is not None and (f is None or v.cls.mro.index(c2) < v.cls.mro.index(c)):
                    self.throw('TypeError', 'unhashable type')
            if f is not None:
                return self.call(VBound(f, v), [])
            if v.cls.fields is not None:
                return HashV(self.as_tuple(v))
            return IdV(v)
        if isinstance(v, (VList, VDict)) or (isinstance(v, VSet) and not v.frozen):
            self.throw('TypeError', 'unhashable type')
        return HashV(v)

    def key_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, VObj) or isinstance(b, VObj):
            ha, hb = self.hash_val(a), self.hash_val(b)
            if isinstance(ha, IdV) and isinstance(hb, IdV):
                return ha.v is hb.v
            if type(ha) is not type(hb) and not (isinstance(ha, (int, Lin)) and isinstance(hb, (int, Lin))):
                if isinstance(ha, IdV) or isinstance(hb, IdV):
                    return False
                raise Unsupported('hash comparison')
            if not self.py_eq(ha, hb):
                return False
            return self.py_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.key_eq(x, y) for x, y in zip(a, b))
        return self.py_eq(a, b)

    def ckey(self, k):
        """Native key if k is fully determined."""
        if isinstance(k, Str):
            c = self.const(k)
            return k if c is None else c
        if isinstance(k, Lin):
            return simp(self.P.num.norm(k))
        if isinstance(k, tuple) and not is_native(k):
            return tuple(self.ckey(x) for x in k)
        return k

    def _single_ch(self, k):
        return isinstance(k, Str) and len(k.parts) == 1 and isinstance(k.parts[0], Ch)

    def dict_find(self, d, k):
        k = self.ckey(k)
        if isinstance(k, (VList, VDict)) or (isinstance(k, VSet) and not k.frozen):
            self.throw('TypeError', 'unhashable type')
        if is_native(k) and k.__class__ is not float:
            i = d.index.get(k)
            if i is not None:
                return i
            if len(d.index) == len(d.entries):
                return None
            for i, (x, _) in enumerate(d.entries):
                if not is_native(x) and self.key_eq(x, k):
                    return i
            return None
        if self._single_ch(k) and len(d.index) == len(d.entries):
            ch = k.parts[0]
            cell = ch.cell.find()
            groups = []      # (value, chars, index)
            known = set()
            for x, i in d.index.items():
                if isinstance(x, str) and len(x) == 1 and x in cell.cs:
                    known.add(x)
                    v = d.entries[i][1]
                    for g in groups:
                        if g[0] is v or (is_native(v) and is_native(g[0]) and type(v) is type(g[0]) and v == g[0]):
                            g[1].append(x)
                            break
                    else:
                        groups.append((v, [x], i))
            opts = [(CS(g[1]), g[2]) for g in groups]
            miss = cell.cs - CS(known)
            if not miss.empty():
                opts.append((miss, None))
            if len(opts) > 1:
                o = opts[self.choose(len(opts), 'key %r' % (ch,))]
                self.refine(cell, o[0])
                return o[1]
            return opts[0][1]
        for i, (x, _) in enumerate(d.entries):
            if self.key_eq(x, k):
                return i
        return None

    def dict_has(self, d, k):
        k = self.ckey(k)
        if self._single_ch(k) and len(d.index) == len(d.entries):
            return self.ch_in(k.parts[0], CS([x for x in d.index if isinstance(x, str) and len(x) == 1]))
        return self.dict_find(d, k) is not None

    def dict_set(self, d, k, v):
        self.w(d)
        k = self.ckey(k)
        if isinstance(k, VObj):
            self.hash_val(k)
        i = self.dict_find(d, k)
        if i is None:
            if is_native(k):
                d.index[k] = len(d.entries)
            d.entries.append([k, v])
        else:
            d.entries[i][1] = v

    def dict_del(self, d, k):
        i = self.dict_find(d, k)
        if i is None:
            self.throw('KeyError', k)
        self.w(d)
        v = d.entries.pop(i)[1]
        d.index = {}
        for j, (x, _) in enumerate(d.entries):
            if is_native(x):
                d.index[x] = j
        return v

    def dict_get(self, d, k):
        if isinstance(d, ObjDict):
            if k in d.obj.attrs:
                return d.obj.attrs[k]
            self.throw('KeyError', k)
        if d.open is not None and self.dict_find(d, k) is None:
            v = d.open(self, k)
            if v is not None:
                return v
        i = self.dict_find(d, k)
        if i is None:
            if d.kind == 'Counter':
                return 0
            if d.default is not None:
                v = self.call(d.default, [])
                self.dict_set(d, k, v)
                return v
            self.throw('KeyError', k)
        return d.entries[i][1]

    def dict_items(self, d):
        if isinstance(d, ObjDict):
            return list(d.obj.attrs.items())
        if isinstance(d, VDict):
            return [(k, v) for k, v in d.entries]
        raise Unsupported('mapping %r' % (d,))

    def set_add(self, s, v):
        self.w(s)
        v = self.ckey(v)
        if not is_native(v):
            self.hash_val(v)
        if not self.set_has(s, v):
            if is_native(v):
                s.nat.add(v)
            s.items.append(v)

    def set_has(self, s, v):
        v = self.ckey(v)
        if isinstance(v, (VList, VDict)):
            self.throw('TypeError', 'unhashable type')
        if is_native(v):
            if v in s.nat:
                return True
            if len(s.nat) == len(s.items):
                return False
        elif self._single_ch(v) and len(s.nat) == len(s.items):
            return self.ch_in(v.parts[0], CS([x for x in s.nat if isinstance(x, str) and len(x) == 1]))
        elif isinstance(v, VSet) and v.frozen:
            return any(isinstance(x, VSet) and self.py_eq(x, v) for x in s.items)
        return any(self.key_eq(x, v) for x in s.items)

    def set_del(self, s, v):
        for i, x in enumerate(s.items):
            if self.key_eq(x, self.ckey(v)):
                self.w(s)
                s.items.pop(i)
                if is_native(x):
                    s.nat.discard(x)
                return True
        return False

    def contains(self, c, v):
        if isinstance(c, VDict):
            return self.dict_has(c, v)
        if isinstance(c, ObjDict):
            return v in c.obj.attrs
        if isinstance(c, VSet):
            return self.set_has(c, v)
        if isinstance(c, (VList, tuple)):
            items = c.items if isinstance(c, VList) else c
            return any([True for x in items if x is v]) or any(self.py_eq(x, v) for x in items)
        if self.is_str(c):
            if not self.is_str(v):
                self.throw('TypeError', 'in <string>')
            if isinstance(c, str) and self._single_ch(v):
                return self.ch_in(v.parts[0], CS(c))
            x = self.const(v)
            if x is None:
                raise Unsupported('substring test with symbolic text')
            if x == '':
                return True
            r = self.s_find(c, x)
            return not (isinstance(r, int) and r < 0)
        if isinstance(c, VObj):
            f = c.cls.lookup('__contains__')[0]
            if f is not None:
                return self.truth(self.call(VBound(f, c), [v]))
            t = self.as_tuple(c)
            if t is not None:
                return any(self.py_eq(x, v) for x in t)
        if isinstance(c, (Top, Opq)):
            raise Unsupported('membership in unknown')
        it = self.iter(c)
        while True:
            try:
                x = it.next(self)
            except StopIter:
                return False
            if x is v or self.py_eq(x, v):
                return True

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Lin):
            return not self.eq0(v)
        if isinstance(v, Str):
            return self.ge0(Lin.of(self.s_len(v)).add(-1))
        if isinstance(v, VList):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.entries)
        if isinstance(v, VSet):
            return bool(v.items)
        if isinstance(v, VObj):
            f = v.cls.lookup('__bool__')[0] or v.cls.lookup('__nonzero__')[0]
            if f is not None:
                return self.truth(self.call(VBound(f, v), []))
            f = v.cls.lookup('__len__')[0]
            if f is not None:
                return self.truth(self.call(VBound(f, v), []))
            if v.cls.fields is not None:
                return bool(v.cls.fields)
            return True
        if isinstance(v, Opq):
            if v.truth is not None:
                return v.truth
            k = ('truth', v.uid)
            if k not in self.P.opqmemo:
                self.P.opqmemo[k] = bool(self.choose(2, 'truth of %r' % (v,)))
            return self.P.opqmemo[k]
        if isinstance(v, Top):
            raise Unsupported('truth of unknown (%s)' % v.why)
        return True

    # -- attributes -------------------------------------------------------
    def getattr(self, o, n, default=Ellipsis):
        try:
            v = self._getattr(o, n)
            if isinstance(v, Poison):
                raise Unsupported('%s: %s' % (v.name, v.why))
            return v
        except KeyError:
            if default is not Ellipsis:
                return default
            if isinstance(o, Opq) or isinstance(o, Top):
                raise
            if self.models.real_attr(self, o, n):
                raise Unsupported('attribute %s of %s' % (n, self.type_name(o)))
            self.throw('AttributeError', '%s has no attribute %r' % (self.type_name(o), n))

    def type_name(self, o):
        t = self.models.type_of(self, o)
        return t.name if isinstance(t, VClass) else str(t)

    def _bind(self, v, o, cls):
        if isinstance(v, VFunc) or isinstance(v, BI):
            return VBound(v, o)
        if isinstance(v, VProp):
            return self.call(v.fget, [o])
        if isinstance(v, VStatic):
            if v.kind == 'static':
                return v.fn
            return VBound(v.fn, cls)
        if isinstance(v, VObj):
            g = v.cls.lookup('__get__')[0]
            if g is not None:
                return self.call(VBound(g, v), [o, cls])
        return v

    def _getattr(self, o, n):
        if isinstance(o, VObj):
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return ObjDict(o)
            v, c = o.cls.lookup(n)
            if isinstance(v, VProp):
                return self.call(v.fget, [o])
            if isinstance(v, VObj) and v.cls.lookup('__set__')[0] is not None:
                return self._bind(v, o, o.cls)
            if n in o.attrs:
                return o.attrs[n]
            if c is not None:
                return self._bind(v, o, o.cls)
            if o.cls.fields is not None:
                if n == '_fields':
                    return o.cls.fields
                m = self.models.nt_method(self, o, n)
                if m is not None:
                    return m
            ext = [b for b in o.cls.mro if getattr(b, 'opaque', False)]
            f = o.cls.lookup('__getattr__')[0]
            if f is not None:
                return self.call(VBound(f, o), [n])
            m = self.models.object_attr(self, o, n)
            if m is not None:
                return m
            if ext:
                q = Opq('%s.%s' % (o.cls.name, n))
                o.attrs[n] = q
                return q
            if n in o.cls.slots_all():
                raise KeyError(n)
            raise KeyError(n)
        if isinstance(o, VModule):
            if n in o.ns:
                return o.ns[n]
            if o.external:
                return self.models.ext_attr(self, o, n)
            raise KeyError(n)
        if isinstance(o, VClass):
            if n == '__name__' or n == '__qualname__':
                return o.name
            if n == '__class__':
                return self.builtins['type']
            if n == '__mro__':
                return tuple(o.mro)
            v, c = o.lookup(n)
            if c is not None:
                if isinstance(v, VStatic):
                    return v.fn if v.kind == 'static' else VBound(v.fn, o)
                return v
            if n == '__doc__':
                return None
            m = self.models.class_attr(self, o, n)
            if m is not None:
                return m
            raise KeyError(n)
        if isinstance(o, VSuper):
            mro = o.obj.cls.mro if isinstance(o.obj, VObj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if n in c.ns:
                    return self._bind(c.ns[n], o.obj, mro[0])
            m = self.models.object_attr(self, o.obj, n) if isinstance(o.obj, VObj) else None
            if m is not None:
                return m
            if any(getattr(b, 'opaque', False) for b in mro):
                return Opq('super.%s' % n)
            raise KeyError(n)
        if isinstance(o, Opq):
            if n in o.attrs:
                return o.attrs[n]
            if o.strict:
                raise Unsupported('attribute %s of %r' % (n, o))
            q = Opq('%s.%s' % (o.name, n))
            q.data = ('attr', o, n)
            o.attrs[n] = q
            return q
        if isinstance(o, Top):
            return Top('attr')
        if isinstance(o, VBound):
            if n == '__self__':
                return o.self
            if n == '__func__':
                return o.fn
            o = o.fn
        if isinstance(o, VFunc):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__name__':
                return o.name
            if n == '__doc__':
                return None
            if n == '__module__':
                return o.module.name
            if n == '__dict__':
                return ObjDict(o)
            if n == '__get__':
                return BI('__get__', lambda I, a, k: VBound(o, a[0]))
            raise KeyError(n)
        if isinstance(o, VProp):
            if n == 'setter':
                return BI('setter', lambda I, a, k: VProp(o.fget, a[0]))
            if n == 'fget':
                return o.fget
            if n == 'getter':
                return BI('getter', lambda I, a, k: VProp(a[0], o.fset))
            raise KeyError(n)
        m = self.models.method(self, o, n)
        if m is None:
            raise KeyError(n)
        return m

    def setattr(self, o, n, v):
        if isinstance(o, VObj):
            c = o.cls.lookup(n)[0]
            if isinstance(c, VProp):
                if c.fset is None:
                    self.throw('AttributeError', 'property %s has no setter' % n)
                self.call(c.fset, [o, v])
                return
            f = o.cls.lookup('__setattr__')[0]
            if f is not None:
                self.call(VBound(f, o), [n, v])
                return
            if isinstance(c, VObj) and c.cls.lookup('__set__')[0] is not None:
                self.call(VBound(c.cls.lookup('__set__')[0], c), [o, v])
                return
            if not o.cls.can_set(n):
                self.throw('AttributeError', '%s has no attribute %r' % (o.cls.name, n))
            self.w(o)
            o.attrs[n] = v
            self.on_setattr(o, n, v)
            return
        if isinstance(o, (VClass, VModule)):
            self.w(o)
            o.ns[n] = v
            return
        if isinstance(o, (VFunc, Opq)):
            if isinstance(o, VFunc):
                self.w(o)
            o.attrs[n] = v
            return
        if isinstance(o, Top):
            return
        self.throw('AttributeError', n)

    def on_setattr(self, o, n, v):
        pass

    # -- items ------------------------------------------------------------
    def getitem(self, o, k):
        if isinstance(o, VDict) or isinstance(o, ObjDict):
            return self.dict_get(o, k)
        if isinstance(o, VObj):
            f = o.cls.lookup('__getitem__')[0]
            if f is not None:
                return self.call(VBound(f, o), [k])
            t = self.as_tuple(o)
            if t is not None:
                return self.getitem(t, k)
            self.throw('TypeError', 'not subscriptable')
        if isinstance(o, Top):
            return Top('item')
        if isinstance(o, Opq):
            key = ('item', self.vkey(k) if not isinstance(k, VSlice) else 'slice')
            if 'getitem' in o.attrs:
                return self.call(o.attrs['getitem'], [k])
            if o.strict:
                raise Unsupported('item of %r' % (o,))
            if key not in o.attrs:
                o.attrs[key] = Opq('%s[..]' % o.name)
            return o.attrs[key]
        if isinstance(k, VSlice):
            if self.is_str(o):
                if k.c is not None and self.cint(k.c) != 1:
                    c = self.const(o)
                    if c is not None:
                        return c[k.a:k.b:k.c]
                    chs = self.chars(o)
                    if chs is None or k.a is not None or k.b is not None:
                        raise Unsupported('stepped slice')
                    return self.mk(chs[::self.cint(k.c)], self.kind(o))
                return self.s_slice(o, k.a, k.b)
            if isinstance(o, (tuple, VList)):
                items = o.items if isinstance(o, VList) else o
                a = None if k.a is None else self.cint(k.a)
                b = None if k.b is None else self.cint(k.b)
                c = None if k.c is None else self.cint(k.c)
                r = items[a:b:c]
                return VList(list(r)) if isinstance(o, VList) else r
            self.throw('TypeError', 'slice')
        if self.is_str(o):
            if not isinstance(k, (int, Lin)):
                self.throw('TypeError', 'string indices must be integers')
            return self.s_index(o, simp(self.P.num.norm(k)) if isinstance(k, Lin) else k)
        if isinstance(o, (tuple, VList)):
            items = o.items if isinstance(o, VList) else o
            if not isinstance(k, (int, Lin)):
                self.throw('TypeError', 'indices must be integers')
            i = self.cidx(k, len(items))
            if i is None:
                self.throw('IndexError', 'index out of range')
            return items[i]
        self.throw('TypeError', '%r not subscriptable' % (o,))

    def cidx(self, k, n):
        """Index k into a sequence of n items (forks); None if out of range."""
        if isinstance(k, Lin):
            k = simp(self.P.num.norm(k))
        if isinstance(k, Lin):
            for i in range(-n, n):
                if self.eq0(k.add(-i)):
                    k = i
                    break
            else:
                return None
        if -n <= k < n:
            return k % n if n else None
        return None

    def setitem(self, o, k, v):
        if isinstance(o, VDict):
            self.dict_set(o, k, v)
        elif isinstance(o, ObjDict):
            if isinstance(o.obj, VObj):
                self.w(o.obj)
            o.obj.attrs[k] = v
        elif isinstance(o, VList):
            self.w(o)
            if isinstance(k, VSlice):
                a = None if k.a is None else self.cint(k.a)
                b = None if k.b is None else self.cint(k.b)
                c = None if k.c is None else self.cint(k.c)
                o.items[a:b:c] = self.listify(v)
                return
            i = self.cidx(k, len(o.items))
            if i is None:
                self.throw('IndexError', 'assignment index out of range')
            o.items[i] = v
        elif isinstance(o, VObj):
            f = o.cls.lookup('__setitem__')[0]
            if f is None:
                self.throw('TypeError', 'item assignment')
            self.call(VBound(f, o), [k, v])
        elif isinstance(o, (Opq, Top)):
            self.P.events.append(('setitem', o, k, v))
        else:
            self.throw('TypeError', 'item assignment')

    def delitem(self, o, k):
        if isinstance(o, VDict):
            self.dict_del(o, k)
        elif isinstance(o, VList):
            self.w(o)
            if isinstance(k, VSlice):
                a = None if k.a is None else self.cint(k.a)
                b = None if k.b is None else self.cint(k.b)
                del o.items[a:b]
                return
            i = self.cidx(k, len(o.items))
            if i is None:
                self.throw('IndexError')
            del o.items[i]
        else:
            raise Unsupported('del item')

    # -- iteration --------------------------------------------------------
    def iter(self, v):
        if isinstance(v, It):
            return v
        if isinstance(v, (VList, tuple)):
            return SeqIt(v)
        if isinstance(v, VDict):
            return SeqIt(tuple(k for k, _ in v.entries))
        if isinstance(v, ObjDict):
            return SeqIt(tuple(v.obj.attrs))
        if isinstance(v, VSet):
            items = tuple(v.items)
            if len(items) > 1 and self.P.rev:
                items = items[::-1]
            return SeqIt(items)
        if self.is_str(v):
            c = self.const(v)
            if c is not None and isinstance(c, str) and not isinstance(v, Str):
                return SeqIt(tuple(c))
            return StrIt(self, v)
        if isinstance(v, VObj):
            f = v.cls.lookup('__iter__')[0]
            if f is not None:
                return self.iter(self.call(VBound(f, v), []))
            t = self.as_tuple(v)
            if t is not None:
                return SeqIt(t)
            if v.cls.lookup('__next__')[0] is not None:
                return CallIt(v)
            self.throw('TypeError', 'not iterable')
        if isinstance(v, VStringIO):
            raise Unsupported('iterate StringIO')
        if isinstance(v, Opq):
            if 'iter' in v.attrs:
                return self.iter(self.call(v.attrs['iter'], []))
            raise Unsupported('iterate %r' % (v,))
        if isinstance(v, Top):
            raise Unsupported('iterate unknown')
        self.throw('TypeError', '%s is not iterable' % self.type_name(v))

    def listify(self, v):
        if isinstance(v, VList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        it = self.iter(v)
        out = []
        while True:
            if it.symbolic(self) and not self.P.sym:
                pass
            if len(out) > 3000:
                raise Budget('list budget')
            try:
                out.append(it.next(self))
            except StopIter:
                return out

    # -- calls ------------------------------------------------------------
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, VBound):
            if f.self is not None or not isinstance(f.fn, BI):
                return self.call(f.fn, [f.self] + list(args), kw)
            f = f.fn
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), kw)
        if isinstance(f, BI):
            return f.fn(self, list(args), kw)
        if isinstance(f, VClass):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, VObj):
            g = f.cls.lookup('__call__')[0]
            if g is not None:
                return self.call(VBound(g, f), args, kw)
            if any(getattr(b, 'opaque', False) for b in f.cls.mro):
                return Opq('%s()' % f.cls.name)
            self.throw('TypeError', 'not callable')
        if isinstance(f, Opq):
            self.P.events.append(('call', f, tuple(args), dict(kw), self.where()))
            if f.call is not None:
                return f.call(self, list(args), kw)
            if f.strict:
                raise Unsupported('call of %r' % (f,))
            return Opq('%s()' % f.name)
        if isinstance(f, VStatic):
            return self.call(f.fn, args, kw)
        if isinstance(f, Top):
            return Top('call')
        self.throw('TypeError', '%r is not callable' % (f,))

    def qual(self, f):
        c = f.cls.name + '.' if isinstance(f.cls, VClass) else ''
        return '%s:%s%s' % (f.module.name, c, f.name)

    def call_func(self, f, args, kw):
        q = self.qual(f)
        if q in self.stubs and not self.loading:
            return self.stubs[q](self, args, kw)
        if not self.loading:
            self.analysed.add(q)
            self.P.funcs.add(q)
        if len(self.frames) > self.MAXDEPTH:
            # the inputs have a handful of levels, runs and URLs: a function that is active this often does not come back
            if self.P.exact and not self.P.sym and not self.loading \
                    and sum(1 for x in self.frames if getattr(x.fn, 'node', None) is f.node) > self.ACTIVE:
                self.throw('RecursionError', 'maximum recursion depth exceeded')
            if len(self.frames) > 4 * self.MAXDEPTH:
                raise Budget('call depth')
        fr = Frame(f, f.module, env=f.env)
        info = self.finfo[id(f.node)][0]
        fr.names, fr.globs, fr.nonlocals = info.names, info.globs, info.nonlocals
        fr.line = f.node.lineno
        self.bind(f, args, kw, fr)
        if isinstance(f.cls, VClass):
            fr.cls = f.cls
            fr.first = args[0] if args else None
        elif f.env is not None:
            fr.cls, fr.first = f.env.cls, f.env.first
            if isinstance(fr.cls, ast.AST):
                fr.cls = None
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.frames.pop()
        if f.isgen:
            return VGen(fr, self.genbody(f, fr))
        self.frames.append(fr)
        try:
            r = self.run_plain(f.node.body, fr)
        finally:
            self.frames.pop()
        if r is not None and r[0] is RETURN:
            return r[1]
        return None

    def genbody(self, f, fr):
        r = yield from self.block(f.node.body, fr)
        return r

    def bind(self, f, args, kw, fr):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        L = fr.locals
        kw = dict(kw)
        n = len(pos)
        if len(args) > n and not a.vararg:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for name, v in zip(pos, args):
            if name in kw and name not in [x.arg for x in a.posonlyargs]:
                self.throw('TypeError', 'multiple values for %s' % name)
            L[name] = v
        if a.vararg:
            L[a.vararg.arg] = tuple(args[n:])
        d0 = n - len(f.defaults)
        for i, name in enumerate(pos):
            if name in L:
                continue
            if name in kw:
                L[name] = kw.pop(name)
            elif i >= d0:
                L[name] = f.defaults[i - d0]
            else:
                self.throw('TypeError', '%s() missing argument %r' % (f.name, name))
        for x in a.kwonlyargs:
            if x.arg in kw:
                L[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                L[x.arg] = f.kwdefaults[x.arg]
            else:
                self.throw('TypeError', 'missing keyword %r' % x.arg)
        if a.kwarg:
            d = VDict()
            for k, v in kw.items():
                self.dict_set(d, k, v)
            L[a.kwarg.arg] = d
        elif kw:
            self.throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, next(iter(kw))))

    def instantiate(self, cls, args, kw):
        q = '%s:%s' % (cls.module.name if cls.module else '', cls.name)
        if q in self.stubs and not self.loading:
            return self.stubs[q](self, args, kw)
        if cls.builtin is not None:
            return cls.builtin(self, args, kw)
        for b in cls.mro:
            if b.builtin is not None and b.name != 'object' and not getattr(b, 'is_exc', False):
                new = self.models.sub_builtin(self, cls, b, args, kw)
                if new is not None:
                    return new
        nw, c = cls.lookup('__new__')
        if nw is not None:
            fn = nw.fn if isinstance(nw, VStatic) else nw
            o = self.call(fn, [cls] + args, kw)
            if not (isinstance(o, VObj) and o.cls.sub(cls)):
                return o
        else:
            o = self.new_obj(cls, args, kw)
        init, c = cls.lookup('__init__')
        if init is not None:
            self.call(VBound(init, o), args, kw)
        elif (args or kw) and cls.fields is None and nw is None and \
                not any(getattr(b, 'is_exc', False) or getattr(b, 'opaque', False) for b in cls.mro):
            self.throw('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def new_obj(self, cls, args=(), kw=None):
        o = VObj(cls)
        if any(getattr(b, 'is_exc', False) for b in cls.mro):
            o.attrs['args'] = tuple(args)
        if cls.fields is not None:
            vals = dict(zip(cls.fields, args))
            for k, v in (kw or {}).items():
                if k not in cls.fields:
                    self.throw('TypeError', 'unexpected keyword %s' % k)
                vals[k] = v
            dfl = getattr(cls, 'nt_defaults', None)
            for b in cls.mro:
                dfl = dfl or getattr(b, 'nt_defaults', None)
            if dfl:
                for f, v in zip(cls.fields[-len(dfl):], dfl):
                    vals.setdefault(f, v)
            if len(args) > len(cls.fields) or set(vals) != set(cls.fields):
                self.throw('TypeError', 'wrong number of fields for %s' % cls.name)
            o.attrs.update((f, vals[f]) for f in cls.fields)
        return o

    # -- text conversion --------------------------------------------------
    def to_str(self, v):
        if self.is_str(v) and self.kind(v) == 'str':
            return v
        if isinstance(v, Lin):
            v = simp(self.P.num.norm(v))
        if isinstance(v, Lin):
            if not self.ge0(v):
                return self.mk(['-'] + self.parts(self.dec(v.scale(-1))))
            return self.dec(v)
        if isinstance(v, VObj):
            f = v.cls.lookup('__str__')[0] or v.cls.lookup('__repr__')[0]
            if f is not None:
                return self.call(VBound(f, v), [])
            if any(getattr(b, 'is_exc', False) for b in v.cls.mro):
                a = v.attrs.get('args', ())
                if len(a) == 1:
                    return self.to_str(a[0])
                return Top('str(exc)')
            return Top('str(%s)' % v.cls.name)
        if is_native(v):
            return str(v)
        if isinstance(v, (Opq,)):
            if 'str' in v.attrs:
                return v.attrs['str']
            return self.mk([Fn('str', (v,), self.atom_ge(0, 'len'))])
        return Top('str')

    def repr(self, v):
        if is_native(v):
            return repr(v)
        if isinstance(v, Str):
            return self.mk([Fn('repr', (v,), self.atom_ge(2, 'len'))])
        if isinstance(v, VObj):
            f = v.cls.lookup('__repr__')[0]
            if f is not None:
                return self.call(VBound(f, v), [])
        return Top('repr')

    def dec(self, v):
        k = ('dec', self.P.num.norm(v).key())
        if k not in self.P.opqmemo:
            self.P.opqmemo[k] = self.atom_ge(1, 'declen')
        return self.mk([Dec(v, self.P.opqmemo[k])])

    def atom_ge(self, lo, name='v'):
        a = Lin.of(self.new_atom(name))
        self.P.num.assume_ge(a.add(-lo))
        return a

    # -- loop heads -------------------------------------------------------
    def walk_state(self, f, fcs, key):
        memo = {}
        W = Walker(self, f, fcs, key, memo)
        for fr in self.frames:
            W.frame(fr)
        self.temps[:] = [W.val(t) for t in self.temps]
        self.P.roots[:] = [W.val(t) for t in self.P.roots]
        return W

    def head(self, node, fr):
        P = self.P
        if not P.sym or self.loading:
            return
        if P.globwrites:
            raise Unsupported('global state changed before a symbolic loop')
        c = P.__dict__.setdefault('passes', {})
        c[id(node)] = c.get(id(node), 0) + 1
        if c[id(node)] > 60:
            raise Budget('no fixpoint: the state grows')
        if time.time() > P.deadline:
            raise Budget('time')
        holes, css, key = [], [], []

        def f(v):
            holes.append(P.num.norm(v))
            return v

        def fcs(c):
            css.append(c)
            return c
        W = self.walk_state(f, fcs, key)
        i = len(P.trace)
        if i < len(P.prefix):
            ent = P.prefix[i]
            P.trace.append(ent)
            if ent is not None:
                self.apply_head(ent)
            return
        k = (id(node), P.ctx.state_key() if P.ctx else None, tuple(key))
        st = self.heads.get(k)
        if st is None:
            H = [Atom('h%d' % j) for j in range(len(holes))]
            st = self.heads[k] = [H, None, None, 0]
        H = st[0]
        num = P.num.copy()
        for h, e in zip(H, holes):
            num.assume_eq(e.add(h, -1))
        num = num.project(set(H) | P.inputs)
        if st[1] is None:
            st[1], st[2] = num, css
            P.trace.append(None)
            return
        if num.leq(st[1]) and all(a <= b for a, b in zip(css, st[2])):
            raise Cut()
        self.stats['joins'] += 1
        st[1] = st[1].join(num, widen=st[3] >= 2, refs=P.inputs)
        st[2] = [a | b for a, b in zip(css, st[2])]
        st[3] += 1
        if st[3] > 40:
            raise Budget('no fixpoint')
        F = [self.new_atom('w') for _ in H]
        ent = (st[1].rename(dict(zip(H, F))), F, list(st[2]), P.natom)
        P.trace.append(ent)
        self.apply_head(ent)

    def apply_head(self, ent):
        P = self.P
        num, F, css, natom = ent
        P.natom = max(P.natom, natom)
        P.exact = False
        fi = iter(F)
        ci = iter(css)
        P.num = num.copy()
        P.eqmemo = {}
        W = self.walk_state(lambda v: simp(P.num.norm(Lin.of(next(fi)))),
                            lambda c: next(ci), [])
        W.finish()


class Restart(Exception):
    pass


class Walker(object):
    """Traverses the abstract state in a canonical order."""

    def __init__(self, I, f, fcs, key, memo):
        self.I, self.f, self.fcs, self.key, self.memo = I, f, fcs, key, memo
        self.cells = []
        self.srcs = {}

    def frame(self, fr):
        if id(fr) in self.memo:
            self.key.append(self.memo[id(fr)])
            return
        self.memo[id(fr)] = ('F', len(self.memo))
        self.key.append(('frame', fr.fn.name if isinstance(fr.fn, VFunc) else fr.fn if isinstance(fr.fn, str) else '', fr.line))
        if fr.locals is fr.module.ns:
            return
        for n in sorted(fr.locals):
            self.key.append(n)
            fr.locals[n] = self.val(fr.locals[n])
        fr.iters[:] = [self.val(x) for x in fr.iters]
        if fr.env is not None:
            self.frame(fr.env)

    def num(self, v):
        self.key.append('#')
        return self.f(Lin.of(v))

    def cell(self, c):
        c = c.find()
        if id(c) in self.memo:
            self.key.append(self.memo[id(c)])
            return
        self.memo[id(c)] = ('c', len(self.memo))
        self.key.append(('cell', c.cs.key(), c.rep, c.src.uid if c.src else None))
        self.cells.append(c)
        if c.src is not None:
            c.pos = Lin.of(self.num(c.pos))

    def part(self, p):
        if isinstance(p, str):
            self.key.append(p)
            return p
        if isinstance(p, Ch):
            self.key.append('C')
            self.cell(p.cell)
            return p
        if isinstance(p, Rep):
            self.key.append('R')
            self.cell(p.cell)
            return Rep(p.cell, self.num(p.n))
        if isinstance(p, Sl):
            self.key.append(('S', p.src.uid))
            self.srcs[id(p.src)] = p.src
            return Sl(p.src, self.num(p.b), self.num(p.e), self.fcs(p.cs))
        if isinstance(p, Dec):
            self.key.append('D')
            return Dec(self.num(p.v), self.num(p.len))
        self.key.append(('fn', p.name))
        return Fn(p.name, tuple(self.val(a) for a in p.args), self.num(p.len), p.cs)

    def val(self, v):
        k = self.key
        if v is None or isinstance(v, (bool, str, bytes, float)):
            k.append(v)
            return v
        if isinstance(v, (int, Lin)):
            return simp(self.num(v))
        if isinstance(v, Str):
            k.append(('str', v.kind, len(v.parts)))
            return Str([self.part(p) for p in v.parts], v.kind)
        if isinstance(v, tuple):
            k.append(('t', len(v)))
            return tuple([self.val(x) for x in v])
        if isinstance(v, list):
            k.append(('l', len(v)))
            v[:] = [self.val(x) for x in v]
            return v
        if isinstance(v, VBound):
            k.append('bound')
            return VBound(self.val(v.fn), self.val(v.self))
        if isinstance(v, (HashV, IdV)):
            k.append(type(v).__name__)
            return type(v)(self.val(v.v))
        if isinstance(v, Top):
            k.append('Top')
            return v
        if isinstance(v, VSlice):
            k.append('slice')
            return VSlice(self.val(v.a), self.val(v.b), self.val(v.c))
        if isinstance(v, Obj) and v.glob:
            k.append(('g', id(v)))
            return v
        if isinstance(v, (BI, VProp, VStatic, ObjDict, VSuper, VModule, VClass)):
            k.append(('g', id(v)) if not isinstance(v, (VSuper, ObjDict)) else 'sup')
            return v
        if isinstance(v, Opq):
            k.append(('q', v.uid if v.strict else v.name))
            return v
        if id(v) in self.memo:
            k.append(self.memo[id(v)])
            return v
        self.memo[id(v)] = ('o', len(self.memo))
        k.append(type(v).__name__)
        if isinstance(v, VList):
            k.append(len(v.items))
            v.items[:] = [self.val(x) for x in v.items]
        elif isinstance(v, VDict):
            k.append((v.kind, len(v.entries)))
            for e in v.entries:
                e[0] = self.val(e[0]) if not is_native(e[0]) else (k.append(e[0]), e[0])[1]
                e[1] = self.val(e[1])
        elif isinstance(v, VSet):
            k.append(len(v.items))
            v.items[:] = [self.val(x) if not is_native(x) else (k.append(x), x)[1] for x in v.items]
        elif isinstance(v, VObj):
            k.append(id(v.cls))
            for n in sorted(v.attrs):
                k.append(n)
                v.attrs[n] = self.val(v.attrs[n])
        elif isinstance(v, VStringIO):
            v.content = self.val(v.content)
            v.pos = self.val(v.pos)
        elif isinstance(v, VGen):
            k.append((v.done,))
            self.frame(v.fr)
        elif isinstance(v, It):
            for n, x in v.state():
                setattr(v, n, self.val(x))
        elif isinstance(v, VFunc):
            k.append(id(v.node))
            if v.env is not None:
                self.frame(v.env)
        else:
            raise Unsupported('state contains %r' % (v,))
        return v

    def finish(self):
        """Forget character facts the state no longer refers to."""
        by = {}
        for c in self.cells:
            if c.src is not None:
                by.setdefault(id(c.src), (c.src, []))[1].append((c.pos, c))
        for s in self.srcs.values():
            s.cells = []
        for s, cs in by.values():
            s.cells = cs


I_ = Interp
I_.SIMPLE = {ast.Pass: I_.x_pass, ast.Assign: I_.x_assign,
             ast.AnnAssign: I_.x_annassign, ast.AugAssign: I_.x_augassign,
             ast.Return: I_.x_return, ast.Break: I_.x_break, ast.Continue: I_.x_continue,
             ast.Delete: I_.x_delete, ast.Raise: I_.x_raise, ast.Assert: I_.x_assert,
             ast.Global: I_.x_global, ast.Nonlocal: I_.x_global,
             ast.Import: I_.x_import, ast.ImportFrom: I_.x_importfrom,
             ast.FunctionDef: I_.x_functiondef, ast.ClassDef: I_.x_classdef}
I_.COMPOUND = {ast.If: I_.c_if, ast.For: I_.c_for, ast.While: I_.c_while,
               ast.With: I_.c_with, ast.Try: I_.c_try, ast.Expr: I_.c_expr,
               ast.Match: I_.c_match}
I_.EXPR = {ast.Constant: I_.e_constant, ast.Name: I_.e_name,
           ast.Attribute: I_.e_attribute, ast.Subscript: I_.e_subscript,
           ast.Tuple: I_.e_tuple, ast.List: I_.e_list, ast.Set: I_.e_set,
           ast.Dict: I_.e_dict, ast.BinOp: I_.e_binop, ast.BoolOp: I_.e_boolop,
           ast.UnaryOp: I_.e_unaryop, ast.Compare: I_.e_compare,
           ast.IfExp: I_.e_ifexp, ast.Lambda: I_.e_lambda, ast.Call: I_.e_call,
           ast.JoinedStr: I_.e_joinedstr, ast.ListComp: I_.e_listcomp,
           ast.SetComp: I_.e_setcomp, ast.DictComp: I_.e_dictcomp,
           ast.GeneratorExp: I_.e_genexp, ast.NamedExpr: I_.e_namedexpr,
           ast.Starred: I_.e_starred, ast.Yield: I_.e_yield,
           ast.YieldFrom: I_.e_yield}


def _slots_all(self):
    out = set()
    for c in self.mro:
        if getattr(c, 'slots', None):
            out.update(c.slots)
    return out


def _can_set(self, n):
    """Does an instance have a __dict__ or a slot n."""
    for c in self.mro:
        if c.name == 'object' and c.builtin is not None:
            continue
        s = getattr(c, 'slots', None)
        if s is None:
            if c.fields is not None and c.ns.get('$nt'):
                continue
            return True
        if n in s:
            return True
    return False


VClass.slots_all = _slots_all
VClass.can_set = _can_set
VClass.slots = None
