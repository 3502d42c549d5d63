"""Abstract values."""
from .num import Atom, Lin, simp


class CS(object):
    """Finite or co-finite set of characters."""
    __slots__ = ('neg', 's')

    def __init__(self, s=(), neg=False):
        self.s = frozenset(s)
        self.neg = neg

    def __contains__(self, c):
        return (c in self.s) != self.neg

    def __and__(self, o):
        if not self.neg and not o.neg:
            return CS(self.s & o.s)
        if self.neg and o.neg:
            return CS(self.s | o.s, True)
        if self.neg:
            return CS(o.s - self.s)
        return CS(self.s - o.s)

    def __invert__(self):
        return CS(self.s, not self.neg)

    def __or__(self, o):
        return ~((~self) & (~o))

    def __sub__(self, o):
        return self & ~o

    def empty(self):
        return not self.neg and not self.s

    def single(self):
        if not self.neg and len(self.s) == 1:
            return next(iter(self.s))
        return None

    def key(self):
        return (self.neg, self.s)

    def __eq__(self, o):
        return self.neg == o.neg and self.s == o.s

    def __hash__(self):
        return hash((self.neg, self.s))

    def __le__(self, o):
        return (self - o).empty()

    def __repr__(self):
        t = ''.join(sorted(self.s))
        return ('~' if self.neg else '') + '{%s}' % t


ANY = CS((), True)
DIGITS = CS('0123456789')


class Src(object):
    """A symbolic text whose characters all lie in cs."""
    __slots__ = ('uid', 'name', 'cs', 'len', 'cells', 'tags')

    def __init__(self, uid, name, cs, length, tags=()):
        self.uid = uid
        self.name = name
        self.cs = cs
        self.len = Lin.of(length)
        self.cells = []        # (position, Cell) read so far
        self.tags = frozenset(tags)

    def __repr__(self):
        return '<%s>' % self.name


class Cell(object):
    """One unknown character; refined in place by the tests on a path."""
    __slots__ = ('uid', 'cs', 'up', 'src', 'pos', 'diseq', 'rep')

    def __init__(self, uid, cs, src=None, pos=None, rep=False):
        self.uid = uid
        self.cs = cs
        self.up = None
        self.src = src
        self.pos = pos
        self.diseq = []
        self.rep = rep

    def find(self):
        c = self
        while c.up is not None:
            c = c.up
        return c


class Ch(object):
    """A single character of a string."""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    @property
    def cs(self):
        return self.cell.find().cs

    def __repr__(self):
        return 'c%d%r' % (self.cell.find().uid, self.cs)


class Rep(object):
    """n copies of one (unknown) character."""
    __slots__ = ('cell', 'n')

    def __init__(self, cell, n):
        self.cell = cell
        self.n = Lin.of(n)

    @property
    def cs(self):
        return self.cell.find().cs

    def __repr__(self):
        return 'c%d%r*%r' % (self.cell.find().uid, self.cs, self.n)


class Sl(object):
    """Slice [b, e) of a Src."""
    __slots__ = ('src', 'b', 'e', 'cs')

    def __init__(self, src, b, e, cs=None):
        self.src = src
        self.b = Lin.of(b)
        self.e = Lin.of(e)
        self.cs = src.cs if cs is None else cs

    def length(self):
        return self.e.add(self.b, -1)

    def __repr__(self):
        if self.b.const() and self.b.c == 0 and self.e.key() == self.src.len.key():
            return repr(self.src)
        return '%r[%s:%s]' % (self.src, self.b, self.e)


class Dec(object):
    """Decimal digits of a non-negative linear expression."""
    __slots__ = ('v', 'len')
    cs = DIGITS

    def __init__(self, v, length):
        self.v = Lin.of(v)
        self.len = Lin.of(length)

    def __repr__(self):
        return 'dec(%s)' % (self.v,)


class Fn(object):
    """Text produced by an uninterpreted function."""
    __slots__ = ('name', 'args', 'len', 'cs')

    def __init__(self, name, args, length, cs=ANY):
        self.name = name
        self.args = args
        self.len = Lin.of(length)
        self.cs = cs

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class Str(object):
    """Concatenation with at least one symbolic part."""
    __slots__ = ('parts', 'kind')

    def __init__(self, parts, kind='str'):
        self.parts = tuple(parts)
        self.kind = kind

    def __repr__(self):
        return '~(' + ' '.join(repr(p) for p in self.parts) + ')'


class Top(object):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class OrdV(Top):
    """The code point of an unknown character; comparable with constants."""
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.why = 'ord'
        self.ch = ch


class Opq(object):
    """Opaque object with identity; attributes are memoised."""
    _n = 0

    def __init__(self, name, truth=None, attrs=None, call=None, cls=None, data=None):
        Opq._n += 1
        self.uid = Opq._n
        self.name = name
        self.truth = truth
        self.attrs = attrs if attrs is not None else {}
        self.call = call
        self.cls = cls
        self.data = data
        self.strict = False

    def __repr__(self):
        return '<%s>' % self.name


class Obj(object):
    """Mutable heap things of the interpreter."""
    glob = False


class VList(Obj):
    def __init__(self, items=None):
        self.items = items if items is not None else []

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.items))


class VDict(Obj):
    def __init__(self, items=None, default=None, kind='dict'):
        # entries: list of [key, value]; keys may be symbolic
        self.entries = items if items is not None else []
        self.index = {}
        for i, (k, _) in enumerate(self.entries):
            if is_native(k):
                self.index[k] = i
        self.default = default
        self.kind = kind
        self.open = None      # callable(key) -> value: unknown further entries

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % (k, v) for k, v in self.entries)


class VSet(Obj):
    def __init__(self, items=None, frozen=False):
        self.items = []
        self.nat = set()
        self.frozen = frozen
        for i in items or ():
            self.add(i)

    def add(self, v):
        if is_native(v):
            if v in self.nat:
                return
            self.nat.add(v)
        self.items.append(v)

    def __repr__(self):
        return 'set(%s)' % ', '.join(map(repr, self.items))


class VClass(Obj):
    def __init__(self, name, bases, ns, module=None, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.builtin = None
        self.fields = None      # namedtuple fields
        self.total = False
        self.mro = mro(self)
        for b in self.mro[1:]:
            if b.fields and self.fields is None:
                self.fields = b.fields
            if b.total:
                self.total = True

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def sub(self, o):
        return o in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def mro(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise TypeError('mro')
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class VObj(Obj):
    _n = 0

    def __init__(self, cls):
        VObj._n += 1
        self.uid = VObj._n
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return '<%s obj %s>' % (self.cls.name, ', '.join('%s=%s' % (k, v if not isinstance(v, Obj) else '..') for k, v in self.attrs.items()))


class VFunc(Obj):
    def __init__(self, node, module, env, defaults, kwdefaults, cls=None, name=None):
        self.node = node
        self.module = module
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.isgen = False
        self.attrs = {}

    def __repr__(self):
        return '<fn %s>' % self.name


class VBound(object):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class VProp(object):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class VStatic(object):
    __slots__ = ('fn', 'kind')

    def __init__(self, fn, kind):
        self.fn = fn
        self.kind = kind


class VModule(Obj):
    def __init__(self, name, ns=None, path=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.path = path
        self.external = False

    def __repr__(self):
        return '<module %s>' % self.name


class BI(object):
    """Built-in function implemented by the analyser."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class VStringIO(Obj):
    def __init__(self, content=''):
        self.content = content
        self.pos = 0

    def __repr__(self):
        return 'StringIO(%r)' % (self.content,)


class VSuper(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class VSlice(object):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


NATIVE = (str, bytes, int, float, bool, type(None))


def is_native(v):
    if isinstance(v, NATIVE):
        return True
    if isinstance(v, tuple):
        return all(is_native(x) for x in v)
    return False
