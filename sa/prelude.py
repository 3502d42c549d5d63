"""Library pieces written in Python, analysed like the repository's own code."""
SOURCE = r'''
class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.attrname = func.__name__
    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        if self.attrname not in d:
            d[self.attrname] = self.func(obj)
        return d[self.attrname]

class partialmethod(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.kw = kw
    def __get__(self, obj, cls=None):
        def call(*args, **kw):
            k = dict(self.kw)
            k.update(kw)
            return self.func(obj, *(self.args + args), **k)
        return call

class _cm(object):
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return next(self.gen)
    def __exit__(self, t, v, tb):
        if t is None:
            next(self.gen, None)
            return False
        return self.gen.throw(v)
    def __call__(self, f):
        raise NotImplementedError

def contextmanager(f):
    def make(*a, **k):
        return _cm(f(*a, **k))
    return make

class suppress(object):
    def __init__(self, *exc):
        self.exc = exc
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.exc)

class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, t, v, tb):
        self.thing.close()

class nullcontext(object):
    def __init__(self, result=None):
        self.result = result
    def __enter__(self):
        return self.result
    def __exit__(self, t, v, tb):
        return None

class Lock(object):
    def acquire(self, *a):
        return True
    def release(self):
        return None
    def __enter__(self):
        return True
    def __exit__(self, t, v, tb):
        return None

class SimpleNamespace(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

def count(start=0, step=1):
    while True:
        yield start
        start += step

def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x

def accumulate(iterable, func=None, initial=None):
    it = iter(iterable)
    total = initial
    if initial is None:
        for total in it:
            break
        else:
            return
    yield total
    for x in it:
        total = func(total, x) if func is not None else total + x
        yield total

def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d

def filterfalse(f, iterable):
    for x in iterable:
        if not (f(x) if f is not None else x):
            yield x

def pairwise(iterable):
    it = iter(iterable)
    for a in it:
        break
    else:
        return
    for b in it:
        yield a, b
        a = b

def product(*its):
    pools = [tuple(p) for p in its]
    result = [[]]
    for p in pools:
        result = [x + [y] for x in result for y in p]
    for r in result:
        yield tuple(r)

def cycle(iterable):
    saved = list(iterable)
    while saved:
        for x in saved:
            yield x

def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:n]

def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:n]

class ABC(object):
    pass

def same(x):
    return x

def second(t, x):
    return x

def is_(a, b):
    return a is b

def is_not(a, b):
    return a is not b

def contains(a, b):
    return b in a

def truth(a):
    return bool(a)
'''

PLACES = {
    'functools': ('cached_property', 'partialmethod'),
    'contextlib': ('contextmanager', 'suppress', 'closing', 'nullcontext'),
    'threading': ('Lock', ('RLock', 'Lock')),
    'types': ('SimpleNamespace', ('MappingProxyType', 'same')),
    'itertools': ('count', 'repeat', 'accumulate', 'compress', 'filterfalse', 'pairwise',
                  'product', 'cycle'),
    'heapq': ('nlargest', 'nsmallest'),
    'abc': ('ABC', ('abstractmethod', 'same')),
    'typing': (('cast', 'second'), ('overload', 'same'), ('final', 'same')),
    'operator': ('is_', 'is_not', 'contains', 'truth'),
}
