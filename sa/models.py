"""Models of the built-ins and of the standard library used by the repository."""
import builtins as _b
import hashlib as _hashlib
import math as _math
import operator as _operator
import os as _os
import string as _string
import sys as _sys

from . import prelude
from .num import Dead, Lin, simp
from .strs import Unsupported
from .vals import (ANY, BI, CS, Ch, Dec, Fn, Obj, Opq, OrdV, Rep, Sl, Str, Top,
                   VBound, VClass, VDict, VFunc, VList, VModule, VObj, VProp,
                   VSet, VStatic, VStringIO, VSuper, is_native)


def bi(name):
    def deco(fn):
        return BI(name, fn)
    return deco


def F(fn, name=None):
    return BI(name or fn.__name__, fn)


# -- exceptions and builtin classes ---------------------------------------
def install(I):
    B = I.builtins = {}
    obj = VClass('object', [], {})
    B['object'] = obj

    def cls(name, make, bases=None):
        c = VClass(name, bases or [obj], {})
        c.builtin = make
        B[name] = c
        return c

    obj.builtin = None

    def new_object(I, a, k):
        return VObj(obj)
    obj.builtin = new_object

    excs = [e for e in vars(_b).values() if isinstance(e, type) and issubclass(e, BaseException)]
    excs.sort(key=lambda e: len(e.__mro__))
    for e in excs:
        bases = [B[b.__name__] for b in e.__bases__ if b.__name__ in B]
        c = VClass(e.__name__, bases or [obj], {})
        c.is_exc = True
        B[e.__name__] = c
    B['IOError'] = B['EnvironmentError'] = B['OSError']

    cls('str', b_str)
    cls('bytes', b_bytes)
    cls('int', b_int)
    cls('bool', lambda I, a, k: I.truth(a[0]) if a else False, [B['int']])
    cls('float', b_float)
    cls('list', lambda I, a, k: VList(I.listify(a[0]) if a else []))
    cls('tuple', lambda I, a, k: tuple(I.listify(a[0])) if a else ())
    cls('dict', b_dict)
    cls('set', lambda I, a, k: mkset(I, a[0] if a else (), False))
    cls('frozenset', lambda I, a, k: mkset(I, a[0] if a else (), True))
    cls('type', b_type)
    cls('property', lambda I, a, k: VProp(a[0] if a else None, a[1] if len(a) > 1 else None))
    cls('staticmethod', lambda I, a, k: VStatic(a[0], 'static'))
    cls('classmethod', lambda I, a, k: VStatic(a[0], 'class'))
    cls('super', lambda I, a, k: VSuper(a[0], a[1]))
    cls('bytearray', lambda I, a, k: Top('bytearray'))
    cls('memoryview', lambda I, a, k: Top('memoryview'))
    cls('slice', lambda I, a, k: Top('slice'))
    B['NotImplemented'] = Opq('NotImplemented', truth=True)
    B['Ellipsis'] = Opq('Ellipsis', truth=True)
    B['__debug__'] = True
    B['None'], B['True'], B['False'] = None, True, False

    def reg(name, fn):
        B[name] = BI(name, fn)
    reg('len', b_len)
    reg('isinstance', b_isinstance)
    reg('issubclass', b_issubclass)
    reg('iter', b_iter)
    reg('next', b_next)
    reg('range', b_range)
    B['xrange'] = B['range']
    del B['xrange']
    reg('enumerate', b_enumerate)
    reg('zip', b_zip)
    reg('map', b_map)
    reg('filter', b_filter)
    reg('reversed', b_reversed)
    reg('sorted', b_sorted)
    reg('sum', b_sum)
    reg('max', lambda I, a, k: b_minmax(I, a, k, True))
    reg('min', lambda I, a, k: b_minmax(I, a, k, False))
    reg('any', b_any)
    reg('all', b_all)
    reg('abs', b_abs)
    reg('hash', lambda I, a, k: I.hash_val(a[0]))
    reg('id', b_id)
    reg('repr', lambda I, a, k: I.repr(a[0]))
    reg('ord', b_ord)
    reg('chr', lambda I, a, k: chr(I.cint(a[0])))
    reg('getattr', b_getattr)
    reg('setattr', lambda I, a, k: I.setattr(a[0], a[1], a[2]))
    reg('hasattr', lambda I, a, k: b_getattr(I, [a[0], a[1], _MISSING], {}) is not _MISSING)
    reg('callable', lambda I, a, k: isinstance(a[0], (VFunc, VBound, BI, VClass, Opq)) or
        (isinstance(a[0], VObj) and a[0].cls.lookup('__call__')[0] is not None))
    reg('print', b_print)
    reg('divmod', lambda I, a, k: (I.binop(_ast('//'), a[0], a[1]), I.binop(_ast('%'), a[0], a[1])))
    reg('round', lambda I, a, k: round(*a) if all(is_native(x) for x in a) else Top('round'))
    reg('pow', lambda I, a, k: pow(*a) if all(is_native(x) for x in a) else Top('pow'))
    reg('format', lambda I, a, k: format(*a) if all(is_native(x) for x in a) else (I.to_str(a[0]) if len(a) == 1 else Top('format')))
    reg('vars', lambda I, a, k: I.getattr(a[0], '__dict__'))
    reg('open', lambda I, a, k: Opq('file'))
    reg('input', lambda I, a, k: Top('input'))
    reg('globals', lambda I, a, k: Top('globals'))
    reg('locals', lambda I, a, k: Top('locals'))
    reg('dir', lambda I, a, k: Top('dir'))
    reg('__import__', lambda I, a, k: I.import_module(a[0]))
    reg('exec', _uns('exec'))
    reg('eval', _uns('eval'))


def _uns(n):
    def f(I, a, k):
        raise Unsupported(n)
    return f


import ast as _astm
_AST = {'//': _astm.FloorDiv(), '%': _astm.Mod(), '+': _astm.Add(), '-': _astm.Sub(), '*': _astm.Mult()}


def _ast(o):
    return _AST[o]


class _M(object):
    pass


_MISSING = _M()


def b_getattr(I, a, k):
    from .interp import PyExc
    if len(a) == 2:
        return I.getattr(a[0], a[1])
    try:
        return I.getattr(a[0], a[1], a[2])
    except PyExc as e:
        if e.val.cls.sub(I.exc('AttributeError')):
            return a[2]
        raise


def b_str(I, a, k):
    if not a:
        return ''
    if len(a) > 1 or k:
        return decode(I, a[0], a[1:], k)
    return I.to_str(a[0])


def b_bytes(I, a, k):
    if not a:
        return b''
    if len(a) > 1:
        return encode(I, a[0])
    if I.is_str(a[0]) and I.kind(a[0]) == 'bytes':
        return a[0]
    raise Unsupported('bytes()')


def b_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, Lin) or isinstance(v, int):
        return int(v) if isinstance(v, bool) else v
    if isinstance(v, float):
        return int(v)
    if I.is_str(v):
        c = I.const(v)
        if c is not None:
            try:
                return int(c, *a[1:])
            except ValueError:
                I.throw('ValueError', 'invalid literal for int()')
        ps = I.parts(v)
        if len(ps) == 1 and isinstance(ps[0], Dec):
            return simp(ps[0].v)
        digits = CS('0123456789')
        ok = all((isinstance(p, str) and p.isdigit()) or (not isinstance(p, str) and I.pcs(p) <= digits)
                 for p in ps)
        if ok and I.ge0(Lin.of(I.s_len(v)).add(-1)):
            key = ('int', I.vkey(v))
            if key not in I.P.opqmemo:
                I.P.opqmemo[key] = I.atom_ge(0, 'int')
                I.P.exact = False
            return I.P.opqmemo[key]
        cs = I.chars(v)
        if cs is not None and any((CS(x) if isinstance(x, str) else x.cs) &
                                  CS('0123456789 \t\n_+-') == CS() for x in cs):
            I.throw('ValueError', 'invalid literal for int()')
        raise Unsupported('int(%r)' % (v,))
    if isinstance(v, (Top, Opq)):
        return Top('int')
    if v is None:
        I.throw('TypeError', 'int(None)')
    raise Unsupported('int()')


def b_float(I, a, k):
    if a and isinstance(a[0], (int, float, str)):
        return float(a[0])
    return Top('float')


def b_dict(I, a, k):
    d = VDict()
    if a:
        fill(I, d, a[0])
    for n, v in k.items():
        I.dict_set(d, n, v)
    return d


def fill(I, d, src):
    from .interp import ObjDict
    if isinstance(src, (VDict, ObjDict)):
        for x, y in I.dict_items(src):
            I.dict_set(d, x, y)
        return
    for it in I.listify(src):
        p = I.listify(it)
        if len(p) != 2:
            I.throw('ValueError', 'dictionary update sequence')
        I.dict_set(d, p[0], p[1])


def mkset(I, src, frozen):
    s = VSet(frozen=frozen)
    for v in I.listify(src):
        v = I.ckey(v)
        if not is_native(v):
            I.hash_val(v)
        if not I.set_has(s, v):
            if is_native(v):
                s.nat.add(v)
            s.items.append(v)
    return s


def b_type(I, a, k):
    if len(a) == 1:
        return type_of(I, a[0])
    name, bases, ns = a
    return VClass(name, list(bases) or [I.builtins['object']],
                  dict(I.dict_items(ns)))


def type_of(I, v):
    B = I.builtins
    if isinstance(v, VObj):
        return v.cls
    if isinstance(v, VClass):
        return B['type']
    if isinstance(v, bool):
        return B['bool']
    if isinstance(v, (int, Lin)):
        return B['int']
    if isinstance(v, float):
        return B['float']
    if I.is_str(v):
        return B['str'] if I.kind(v) == 'str' else B['bytes']
    if isinstance(v, VList):
        return B['list']
    if isinstance(v, tuple):
        return B['tuple']
    if isinstance(v, VDict):
        return I.dict_kinds.get(v.kind, B['dict']) if hasattr(I, 'dict_kinds') else B['dict']
    if isinstance(v, VSet):
        return B['frozenset'] if v.frozen else B['set']
    if v is None:
        if 'NoneType' not in I.__dict__:
            I.NoneType = VClass('NoneType', [B['object']], {})
        return I.NoneType
    if isinstance(v, (Opq, Top)):
        if isinstance(v, Opq) and v.cls is not None:
            return v.cls
        raise Unsupported('type of %r' % (v,))
    if not hasattr(I, 'misc_types'):
        I.misc_types = {}
    n = type(v).__name__
    if n not in I.misc_types:
        I.misc_types[n] = VClass(n, [B['object']], {})
    return I.misc_types[n]


def b_isinstance(I, a, k):
    v, t = a
    if isinstance(t, tuple):
        return any(b_isinstance(I, [v, x], k) for x in t)
    if isinstance(t, VClass):
        if isinstance(v, VObj) and any(getattr(c, 'opaque', False) for c in v.cls.mro) and not v.cls.sub(t):
            return False
        return type_of(I, v).sub(t)
    if isinstance(t, (Opq, Top)):
        if isinstance(v, VObj) or is_native(v):
            return False
        raise Unsupported('isinstance')
    raise Unsupported('isinstance')


def b_issubclass(I, a, k):
    c, t = a
    if isinstance(t, tuple):
        return any(b_issubclass(I, [c, x], k) for x in t)
    if isinstance(c, VClass) and isinstance(t, VClass):
        return c.sub(t)
    raise Unsupported('issubclass')


def b_len(I, a, k):
    v = a[0]
    if I.is_str(v):
        return I.s_len(v)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, VList):
        return len(v.items)
    if isinstance(v, VDict):
        return len(v.entries)
    if isinstance(v, VSet):
        return len(v.items)
    if isinstance(v, VObj):
        f = v.cls.lookup('__len__')[0]
        if f is not None:
            return I.call(VBound(f, v), [])
        if v.cls.fields is not None:
            return len(v.cls.fields)
    if isinstance(v, Opq):
        if 'len' in v.attrs:
            return v.attrs['len']
        return Top('len')
    if isinstance(v, Top):
        return Top('len')
    from .interp import ObjDict
    if isinstance(v, ObjDict):
        return len(v.obj.attrs)
    I.throw('TypeError', 'object of type %s has no len()' % I.type_name(v))


def b_iter(I, a, k):
    if len(a) == 2:
        raise Unsupported('iter with sentinel')
    return I.iter(a[0])


def b_next(I, a, k):
    from .interp import It, StopIter
    it = a[0]
    if not isinstance(it, It):
        if isinstance(it, VObj) and it.cls.lookup('__next__')[0] is not None:
            it = I.iter(it)
        else:
            I.throw('TypeError', 'not an iterator')
    try:
        return it.next(I)
    except StopIter:
        if len(a) > 1:
            return a[1]
        I.throw('StopIteration')


def b_range(I, a, k):
    from .interp import RangeIt, SeqIt
    if any(isinstance(x, (Top, Opq)) for x in a):
        raise Unsupported('range of unknown')
    st, step = 0, 1
    if len(a) == 1:
        e = a[0]
    else:
        st, e = a[0], a[1]
        if len(a) > 2:
            step = I.cint(a[2])
    n = [simp(I.P.num.norm(x)) if isinstance(x, Lin) else x for x in (st, e)]
    if all(isinstance(x, int) for x in n):
        return VList(list(range(n[0], n[1], step)))
    return RangeIt(n[0], n[1], step)


def b_enumerate(I, a, k):
    from .interp import MultiIt
    n = a[1] if len(a) > 1 else k.get('start', 0)
    return MultiIt('enumerate', [I.iter(a[0])], n=n)


def b_zip(I, a, k):
    from .interp import MultiIt
    return MultiIt('zip', [I.iter(x) for x in a])


def b_map(I, a, k):
    from .interp import MultiIt
    return MultiIt('map', [I.iter(x) for x in a[1:]], fn=a[0])


def b_filter(I, a, k):
    from .interp import MultiIt
    return MultiIt('filter', [I.iter(a[1])], fn=a[0])


def b_reversed(I, a, k):
    from .interp import RevIt
    v = a[0]
    if isinstance(v, (VList, tuple)):
        return RevIt(v)
    if isinstance(v, VDict):
        return RevIt(tuple(x for x, _ in v.entries))
    if I.is_str(v):
        cs = I.chars(v)
        if cs is None:
            raise Unsupported('reversed symbolic string')
        return RevIt(tuple(I.mk([c]) for c in cs))
    if isinstance(v, VObj):
        t = I.as_tuple(v)
        if t is not None:
            return RevIt(t)
        f = v.cls.lookup('__reversed__')[0]
        if f is not None:
            return I.iter(I.call(VBound(f, v), []))
    raise Unsupported('reversed')


def sort_items(I, items, key, reverse):
    ks = [x if key is None else I.call(key, [x]) for x in items]
    idx = list(range(len(items)))
    if reverse:
        idx.reverse()
    out = []
    for i in idx:                      # stable binary-free insertion sort on <
        j = len(out)
        while j > 0 and I.order('lt', ks[i], ks[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    if reverse:
        out.reverse()
    return [items[i] for i in out]


def b_sorted(I, a, k):
    key = k.get('key')
    return VList(sort_items(I, I.listify(a[0]), key, I.truth(k.get('reverse', False))))


def b_sum(I, a, k):
    t = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.listify(a[0]):
        t = I.binop(_ast('+'), t, x)
    return t


def b_minmax(I, a, k, mx):
    key = k.get('key')
    items = I.listify(a[0]) if len(a) == 1 else list(a)
    if not items:
        if 'default' in k:
            return k['default']
        I.throw('ValueError', 'empty sequence')
    best = items[0]
    bk = best if key is None else I.call(key, [best])
    for x in items[1:]:
        xk = x if key is None else I.call(key, [x])
        if I.order('gt' if mx else 'lt', xk, bk):
            best, bk = x, xk
    return best


def b_any(I, a, k):
    from .interp import StopIter
    it = I.iter(a[0])
    while True:
        try:
            v = it.next(I)
        except StopIter:
            return False
        if I.truth(v):
            return True


def b_all(I, a, k):
    from .interp import StopIter
    it = I.iter(a[0])
    while True:
        try:
            v = it.next(I)
        except StopIter:
            return True
        if not I.truth(v):
            return False


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Lin):
        return v if I.ge0(v) else simp(v.scale(-1))
    return Top('abs')


def b_id(I, a, k):
    from .interp import IdV
    return IdV(a[0])


def b_ord(I, a, k):
    c = I.const(a[0])
    if c is not None:
        return ord(c)
    if I.is_str(a[0]):
        cs = I.chars(a[0])
        if cs is not None and len(cs) == 1 and not isinstance(cs[0], str):
            return OrdV(cs[0])
    return Top('ord')


def b_print(I, a, k):
    I.P.events.append(('print', tuple(a), dict(k), I.where()))
    return None


# -- encode / decode ------------------------------------------------------
ASCII = CS([chr(i) for i in range(128)])


def encode(I, s, args=(), kw=None):
    if isinstance(s, str):
        try:
            return s.encode(*[I.const(x) for x in args])
        except UnicodeError:
            I.throw('UnicodeEncodeError', 'encode')
    if I.kind(s) != 'str':
        I.throw('AttributeError', 'encode')
    return I.mk(I.parts(s), 'bytes')


def decode(I, s, args=(), kw=None):
    if isinstance(s, bytes):
        try:
            return s.decode(*[I.const(x) for x in args])
        except UnicodeError:
            I.throw('UnicodeDecodeError', 'decode')
    if I.kind(s) != 'bytes':
        I.throw('AttributeError', 'decode')
    errors = (list(args[1:]) + [(kw or {}).get('errors')])[0]
    for p in s.parts:
        if isinstance(p, str):
            if any(ord(c) > 127 for c in p):
                raise Unsupported('decode')
            continue
        if I.pcs(p) <= ASCII:
            continue
        key = ('undecodable', p.src.uid if isinstance(p, Sl) else id(p))
        if key not in I.P.opqmemo:
            I.P.opqmemo[key] = I.choose(2, 'undecodable bytes in %r' % (p,))
        if I.P.opqmemo[key]:
            if errors is not None and errors != 'strict':
                # lossy: the text no longer determines the bytes
                return I.mk([Fn('lossy', (s,), I.atom_ge(0, 'len'))])
            I.throw('UnicodeDecodeError', 'decode')
    return I.mk(I.parts(s), 'str')


# -- % formatting ---------------------------------------------------------
def percent(I, fmt, args):
    if isinstance(fmt, bytes):
        raise Unsupported('bytes formatting')
    if isinstance(args, VDict):
        return Top('format')
    args = list(args) if isinstance(args, tuple) else [args]
    out = []
    i = 0
    ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in '0123456789.-+ #':
            j += 1
        if j >= len(fmt):
            I.throw('ValueError', 'incomplete format')
        t = fmt[j]
        spec = fmt[i + 1:j]
        i = j + 1
        if t == '%':
            out.append('%')
            continue
        if ai >= len(args):
            I.throw('TypeError', 'not enough arguments for format string')
        v = args[ai]
        ai += 1
        if isinstance(v, Lin):
            v = simp(I.P.num.norm(v))
        if is_native(v) and not isinstance(v, tuple):
            try:
                out.append(('%' + spec + t) % (v,))
            except (TypeError, ValueError):
                I.throw('TypeError', 'format')
            continue
        if spec:
            return Top('format')
        if t == 's':
            x = I.to_str(v)
        elif t in 'di':
            if isinstance(v, Lin):
                x = I.to_str(v)
            elif isinstance(v, (Top, Opq)):
                return Top('format')
            else:
                I.throw('TypeError', '%d format: a number is required')
        elif t == 'r':
            x = I.repr(v)
        else:
            return Top('format')
        if isinstance(x, Top):
            return x
        out.extend(I.parts(x))
    if ai < len(args):
        I.throw('TypeError', 'not all arguments converted during string formatting')
    return I.mk(out)


def str_format(I, fmt, args, kw):
    out = []
    auto = 0
    try:
        parsed = list(_string.Formatter().parse(fmt))
    except ValueError:
        I.throw('ValueError', 'format')
    for lit, field, spec, conv in parsed:
        out.append(lit)
        if field is None:
            continue
        base = field
        if not (base == '' or base.isidentifier() or base.isdigit()):
            return Top('format')
        if base == '':
            base = str(auto)
            auto += 1
        if base.isdigit():
            if int(base) >= len(args):
                I.throw('IndexError', 'format')
            v = args[int(base)]
        else:
            if base not in kw:
                I.throw('KeyError', base)
            v = kw[base]
        if conv == 'r':
            v = I.repr(v)
        if isinstance(v, Lin):
            v = simp(I.P.num.norm(v))
        if is_native(v):
            out.append(format(v, spec))
            continue
        if spec and spec not in ('s', 'd'):
            return Top('format')
        x = I.to_str(v)
        if isinstance(x, Top):
            return x
        out.extend(I.parts(x))
    return I.mk(out)


# -- methods --------------------------------------------------------------
def method(I, o, n):
    """Bound method n of a built-in object."""
    from .interp import It, ObjDict, HashV
    if n == '__class__':
        return type_of(I, o)
    if I.is_str(o):
        f = STR.get(n)
    elif isinstance(o, VList):
        f = LIST.get(n)
    elif isinstance(o, tuple):
        f = TUPLE.get(n)
    elif isinstance(o, VDict):
        f = COUNTER.get(n) if o.kind == 'Counter' else None
        f = f or DICT.get(n)
        if f is None and o.kind == 'OrderedDict':
            f = ODICT.get(n)
    elif isinstance(o, VSet):
        f = SET.get(n)
    elif isinstance(o, VStringIO):
        f = SIO.get(n)
    elif isinstance(o, ObjDict):
        f = {'get': lambda I, o, a, k: o.obj.attrs.get(a[0], a[1] if len(a) > 1 else None),
             'items': lambda I, o, a, k: VList([tuple(x) for x in o.obj.attrs.items()]),
             'keys': lambda I, o, a, k: VList(list(o.obj.attrs)),
             'update': lambda I, o, a, k: o.obj.attrs.update(I.dict_items(a[0])),
             'pop': lambda I, o, a, k: o.obj.attrs.pop(a[0], *a[1:]),
             'setdefault': lambda I, o, a, k: o.obj.attrs.setdefault(a[0], a[1])}.get(n)
    elif isinstance(o, It):
        f = {'__next__': lambda I, o, a, k: b_next(I, [o], {}),
             'next': None,
             '__iter__': lambda I, o, a, k: o,
             'close': lambda I, o, a, k: None,
             'send': lambda I, o, a, k: b_next(I, [o], {})}.get(n)
    elif isinstance(o, (int, Lin)):
        f = {'bit_length': lambda I, o, a, k: Top('bits')}.get(n)
    elif isinstance(o, BI):
        if n == 'from_iterable' and o.name == 'chain':
            from .interp import MultiIt
            return BI('chain.from_iterable', lambda I, a, k: MultiIt('chain_from', [I.iter(a[0])]))
        if n == '__name__':
            return o.name
        return None
    else:
        f = None
    if f is None:
        if n in DUNDER:
            g = DUNDER[n]
            return BI(n, lambda I, a, k: g(I, o, *a))
        return None
    return BI(n, lambda I, a, k: f(I, o, a, k))


DUNDER = {
    '__len__': lambda I, o: b_len(I, [o], {}),
    '__iter__': lambda I, o: I.iter(o),
    '__contains__': lambda I, o, x: I.contains(o, x),
    '__getitem__': lambda I, o, x: I.getitem(o, x),
    '__setitem__': lambda I, o, x, y: I.setitem(o, x, y),
    '__eq__': lambda I, o, x: I.py_eq(o, x),
    '__ne__': lambda I, o, x: not I.py_eq(o, x),
    '__str__': lambda I, o: I.to_str(o),
    '__repr__': lambda I, o: I.repr(o),
    '__hash__': lambda I, o: I.hash_val(o),
    '__add__': lambda I, o, x: I.binop(_ast('+'), o, x),
}


def object_attr(I, o, n):
    """Methods every object inherits."""
    if n == '__init__':
        return BI('__init__', lambda I, a, k: None)
    if n == '__eq__':
        return BI('__eq__', lambda I, a, k: o is a[0])
    if n == '__ne__':
        return BI('__ne__', lambda I, a, k: not I.py_eq(o, a[0]))
    if n == '__hash__':
        from .interp import IdV
        return BI('__hash__', lambda I, a, k: IdV(o))
    if n == '__str__' or n == '__repr__':
        return BI(n, lambda I, a, k: I.to_str(o))
    if n == '__setattr__':
        def f(I, a, k):
            I.w(o)
            o.attrs[a[0]] = a[1]
        return BI(n, f)
    if n == '__init_subclass__':
        return BI(n, lambda I, a, k: None)
    if n == '__doc__':
        return None
    if n == 'with_traceback' and any(getattr(b, 'is_exc', False) for b in o.cls.mro):
        return BI(n, lambda I, a, k: o)
    return None


def class_attr(I, c, n):
    """Unbound methods of built-in classes."""
    table = {'str': STR, 'bytes': STR, 'list': LIST, 'tuple': TUPLE, 'dict': DICT,
             'set': SET, 'frozenset': SET, 'Counter': COUNTER, 'OrderedDict': DICT}
    for b in c.mro:
        if b.builtin is not None and b.name in table and n in table[b.name]:
            f = table[b.name][n]
            return BI(n, lambda I, a, k: f(I, a[0], a[1:], k))
        if b.name == 'dict' and n == 'fromkeys':
            def fk(I, a, k):
                d = VDict()
                for x in I.listify(a[0]):
                    I.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return BI('fromkeys', fk)
    if n == '__init__':
        return BI(n, lambda I, a, k: None)
    if n == '__new__':
        return BI(n, lambda I, a, k: I.new_obj(a[0], a[1:], k))
    if n == '__eq__':
        return BI(n, lambda I, a, k: a[0] is a[1])
    if n == '__hash__':
        from .interp import IdV
        return BI(n, lambda I, a, k: IdV(a[0]))
    if n == '__setattr__':
        def f(I, a, k):
            I.w(a[0])
            a[0].attrs[a[1]] = a[2]
        return BI(n, f)
    if c.fields is not None and n == '_make':
        return BI(n, lambda I, a, k: I.call(c, I.listify(a[0])))
    if c.fields is not None and n == '_fields':
        return tuple(c.fields)
    if n == '__subclasses__':
        return BI(n, _uns('__subclasses__'))
    if n == '__dict__':
        return VDict([[k, v] for k, v in c.ns.items()])
    if n == '__bases__':
        return tuple(c.bases)
    return None


def nt_method(I, o, n):
    c = o.cls
    if n == '_replace':
        def f(I, a, k):
            vals = [k.get(f, o.attrs[f]) for f in c.fields]
            if set(k) - set(c.fields):
                I.throw('ValueError', 'unexpected field')
            x = VObj(c)
            x.attrs.update(zip(c.fields, vals))
            return x
        return BI(n, f)
    if n == '_asdict':
        return BI(n, lambda I, a, k: VDict([[f, o.attrs[f]] for f in c.fields]))
    if n in ('index', 'count'):
        return method(I, I.as_tuple(o), n)
    if n == '__iter__':
        return BI(n, lambda I, a, k: I.iter(I.as_tuple(o)))
    if n == '__len__':
        return BI(n, lambda I, a, k: len(c.fields))
    if n == '__getitem__':
        return BI(n, lambda I, a, k: I.getitem(I.as_tuple(o), a[0]))
    if n == '__eq__':
        return BI(n, lambda I, a, k: I.py_eq(I.as_tuple(o), I.as_tuple(a[0])))
    if n == '__hash__':
        from .interp import HashV
        return BI(n, lambda I, a, k: HashV(I.as_tuple(o)))
    return None


def sub_builtin(I, cls, base, args, kw):
    """Instances of user classes deriving from list/dict/set/...: unsupported."""
    if base.name in ('dict', 'Counter', 'OrderedDict', 'defaultdict', 'list', 'set', 'tuple', 'str', 'int'):
        raise Unsupported('instance of a subclass of %s' % base.name)
    return None


def _slice_args(I, s, a):
    """Restrict s to optional (start, end) arguments of str methods."""
    return s


def m_find(rev, idx):
    def f(I, s, a, k):
        r = I.s_find(s, a[0], a[1] if len(a) > 1 else 0, a[2] if len(a) > 2 else None, rev)
        if idx and isinstance(r, int) and r < 0:
            I.throw('ValueError', 'substring not found')
        return r
    return f


def m_starts(I, s, a, k):
    if len(a) > 1:
        s = I.s_slice(s, a[1], a[2] if len(a) > 2 else None)
    return I.s_startswith(s, a[0])


def m_ends(I, s, a, k):
    if len(a) > 1:
        s = I.s_slice(s, a[1], a[2] if len(a) > 2 else None)
    return I.s_endswith(s, a[0])


def m_split(rev):
    def f(I, s, a, k):
        sep = a[0] if a else k.get('sep')
        mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
        c = I.const(s)
        return VList(I.s_split(c if c is not None else s, sep, I.cint(mx), rev))
    return f


def m_partition(rev):
    def f(I, s, a, k):
        i = I.s_find(s, a[0], rev=rev)
        e = I.mk([], I.kind(s))
        if isinstance(i, int) and i < 0:
            return (e, e, s) if rev else (s, e, e)
        j = simp(Lin.of(i).add(I.s_len(a[0])))
        return (I.s_slice(s, 0, i), a[0], I.s_slice(s, j, None))
    return f


def m_strip(l, r):
    def f(I, s, a, k):
        return I.s_strip(s, a[0] if a else None, l, r)
    return f


_CASE = {}
SPECIAL = {'lower': '\u212a\u0130\xc4', 'upper': '\u0131\u017f\xdf\xe4', 'casefold': '\u212a\u017f\xdf\xc4',
           'swapcase': '\u212a\u017f\xdf\xc4'}


def case_same(n):
    """Characters that the case mapping leaves alone, as a co-finite set."""
    if n not in _CASE:
        _CASE[n] = CS([chr(i) for i in range(0x110000) if getattr(chr(i), n)() != chr(i)], True)
    return _CASE[n]


def case_char(I, p, n):
    """Case mapping of one unknown character.  A letter that changes is partitioned into the letters fixed earlier on
    this path and one other letter (letters are interchangeable unless the program names them)."""
    same = case_same(n)
    if p.cs <= same or I.ch_in(p, same):
        return [p]
    used = I.P.opqmemo.setdefault('case letters', [])
    k = None
    for x in list(used):
        if x in p.cs and I.ch_eq(p, x):
            k = x
            break
    if k is None:
        if I.ch_in(p, CS(_string.ascii_letters)):
            k = None
            for x in 'kzqjwvxkbdfghlmnprstcyaeiou':
                for y in (x, x.upper()):
                    if k is None and y in p.cs and y.lower() not in used:
                        k = y
            if k is None:
                raise Unsupported('case of many letters')
        else:
            sp = [x for x in SPECIAL[n] if x in p.cs]
            if not sp:
                raise Unsupported('case of %r' % (p,))
            k = sp[I.choose(len(sp), 'character with a case')]
        if not I.ch_eq(p, k):
            raise Dead()
        if k.isascii():
            used.append(k.lower())
            used.append(k.upper())
    return [getattr(k, n)()]


def m_case(n):
    def f(I, s, a, k):
        c = I.const(s)
        if c is not None:
            return getattr(c, n)()
        if n in ('title', 'capitalize'):
            cs = I.chars(s)
            if cs is None or n == 'title':
                raise Unsupported(n)
            out = []
            for i, p in enumerate(cs):
                m = 'upper' if not i else 'lower'
                out += [getattr(p, m)()] if isinstance(p, str) else case_char(I, p, m)
            return I.mk(out, I.kind(s))
        out = []
        for p in I.parts(s):
            if isinstance(p, str):
                out.append(getattr(p, n)())
                continue
            cs = I.pcs(p)
            if cs <= case_same(n):
                out.append(p)
            elif isinstance(p, Ch):
                out += case_char(I, p, n)
            elif isinstance(p, Rep) and p.cell is not None:
                q = case_char(I, Ch(p.cell), n)
                if isinstance(q[0], str):
                    out += I.parts(I.s_mul(q[0], p.n))
                else:
                    out.append(p)
            else:
                key = (n, I.skey([p]))
                if key not in I.P.opqmemo:
                    I.P.opqmemo[key] = Fn(n, (I.mk([p]),), I.plen(p),
                                          CS([getattr(x, n)() for x in cs.s]) if not cs.neg else ANY)
                out.append(I.P.opqmemo[key])
        return I.mk(out, I.kind(s))
    return f


_ISSET = {}


def isset(n, ascii_only=False):
    """All characters for which str.<n>() holds, as a (co-)finite set."""
    key = (n, ascii_only)
    if key not in _ISSET:
        top = 128 if ascii_only else 0x110000
        yes = [chr(i) for i in range(top) if getattr(chr(i), n)()]
        if len(yes) * 2 > top and not ascii_only:
            t = set(yes)
            _ISSET[key] = CS([chr(i) for i in range(top) if chr(i) not in t], True)
        else:
            _ISSET[key] = CS(yes)
    return _ISSET[key]


def m_is(n):
    def f(I, s, a, k):
        c = I.const(s)
        if c is not None:
            return getattr(c, n)()
        b = I.kind(s) == 'bytes'
        if n == 'isascii' and simp(I.P.num.norm(Lin.of(I.s_len(s)))) == 0:
            return True
        return I.s_all(s, isset(n, b), lambda x: getattr(x, n)())
    return f


def m_cased(n):
    """isupper / islower: some cased character, and none of the other case."""
    def f(I, s, a, k):
        c = I.const(s)
        if c is not None:
            return getattr(c, n)()
        b = I.kind(s) == 'bytes'
        yes = isset(n, b)
        no = isset('islower' if n == 'isupper' else 'isupper', b) | isset('istitle', b) - yes
        some = False
        for p in I.parts(s):
            if isinstance(p, str):
                for x in p:
                    if x in yes:
                        some = True
                    elif x in no:
                        return False
                continue
            cs = I.pcs(p)
            if (cs & yes).empty() and (cs & no).empty():
                continue
            if isinstance(p, Ch):
                if I.ch_in(p, yes):
                    some = True
                elif I.ch_in(p, no):
                    return False
            elif cs <= yes:
                if some or I.ge0(I.plen(p).add(-1)):
                    some = True
            elif cs <= no:
                if I.ge0(I.plen(p).add(-1)):
                    return False
            else:
                raise Unsupported('%s of %r' % (n, p))
        return some
    return f


def m_replace(I, s, a, k):
    return I.s_replace(s, a[0], a[1], I.cint(a[2]) if len(a) > 2 else -1)


def m_count(I, s, a, k):
    c = I.const(s)
    if c is not None and all(isinstance(x, (str, bytes, int)) for x in a):
        return c.count(*a)
    sub = I.const(a[0])
    if sub is None or len(sub) != 1 or len(a) > 1:
        raise Unsupported('count')
    t = Lin()
    for p in I.parts(s):
        if isinstance(p, str):
            t = t.add(p.count(sub))
        elif sub not in I.pcs(p):
            continue
        elif isinstance(p, Ch):
            t = t.add(1 if I.ch_eq(p, sub) else 0)
        elif isinstance(p, Rep):
            if I.ch_eq(Ch(p.cell), sub):
                t = t.add(p.n)
        elif isinstance(p, Sl) and p.cs.single() == sub:
            t = t.add(I.plen(p))
        else:
            cs = I.chars(I.mk([p]))
            if cs is None:
                raise Unsupported('count in %r' % (p,))
            for c in cs:
                t = t.add(1 if I.ch_eq(c, sub) else 0)
    return simp(I.P.num.norm(t))


def m_pad(n):
    def f(I, s, a, k):
        c = I.const(s)
        if c is not None:
            return getattr(c, n)(*a)
        return Top(n)
    return f


def m_prefix(suf):
    def f(I, s, a, k):
        if suf:
            if I.truth(a[0]) and I.s_endswith(s, a[0]):
                return I.s_slice(s, 0, simp(Lin.of(I.s_len(s)).add(I.s_len(a[0]), -1)))
        elif I.s_startswith(s, a[0]):
            return I.s_slice(s, I.s_len(a[0]), None)
        return s
    return f


ALNUM = CS(_string.ascii_letters + _string.digits)
STR = {
    'find': m_find(False, False), 'rfind': m_find(True, False),
    'index': m_find(False, True), 'rindex': m_find(True, True),
    'startswith': m_starts, 'endswith': m_ends,
    'split': m_split(False), 'rsplit': m_split(True),
    'partition': m_partition(False), 'rpartition': m_partition(True),
    'strip': m_strip(True, True), 'lstrip': m_strip(True, False), 'rstrip': m_strip(False, True),
    'upper': m_case('upper'), 'lower': m_case('lower'), 'title': m_case('title'),
    'capitalize': m_case('capitalize'), 'swapcase': m_case('swapcase'), 'casefold': m_case('casefold'),
    'isdigit': m_is('isdigit'), 'isdecimal': m_is('isdecimal'), 'isnumeric': m_is('isnumeric'),
    'isalpha': m_is('isalpha'), 'isalnum': m_is('isalnum'), 'isspace': m_is('isspace'),
    'isascii': m_is('isascii'), 'isprintable': m_is('isprintable'),
    'isupper': m_cased('isupper'), 'islower': m_cased('islower'),
    'join': lambda I, s, a, k: I.s_join(s, I.listify(a[0])),
    'encode': lambda I, s, a, k: encode(I, s, a, k),
    'decode': lambda I, s, a, k: decode(I, s, a, k),
    'format': lambda I, s, a, k: str_format(I, I.const(s), a, k) if I.const(s) is not None else Top('format'),
    'replace': m_replace, 'count': m_count,
    'zfill': m_pad('zfill'), 'ljust': m_pad('ljust'), 'rjust': m_pad('rjust'), 'center': m_pad('center'),
    'splitlines': m_pad('splitlines'), 'translate': m_pad('translate'),
    'removeprefix': m_prefix(False), 'removesuffix': m_prefix(True),
    '__len__': lambda I, s, a, k: I.s_len(s),
}


def l_mut(fn):
    def f(I, o, a, k):
        I.w(o)
        return fn(I, o, a, k)
    return f


def l_pop(I, o, a, k):
    I.w(o)
    if not o.items:
        I.throw('IndexError', 'pop from empty list')
    i = I.cidx(a[0] if a else -1, len(o.items))
    if i is None:
        I.throw('IndexError', 'pop index out of range')
    return o.items.pop(i)


def l_remove(I, o, a, k):
    for i, x in enumerate(o.items):
        if x is a[0] or I.py_eq(x, a[0]):
            I.w(o)
            o.items.pop(i)
            return None
    I.throw('ValueError', 'list.remove(x): x not in list')


def l_index(I, o, a, k):
    items = o.items if isinstance(o, VList) else o
    for i, x in enumerate(items):
        if x is a[0] or I.py_eq(x, a[0]):
            return i
    I.throw('ValueError', 'not in list')


def l_sort(I, o, a, k):
    I.w(o)
    o.items[:] = sort_items(I, list(o.items), k.get('key'), I.truth(k.get('reverse', False)))


def l_insert(I, o, a, k):
    I.w(o)
    i = a[0]
    if isinstance(i, Lin):
        i = simp(I.P.num.norm(i))
    if isinstance(i, Lin):
        for j in range(len(o.items) + 1):
            if I.eq0(i.add(-j)):
                i = j
                break
        else:
            raise Unsupported('insert position')
    o.items.insert(i, a[1])


def l_count(I, o, a, k):
    items = o.items if isinstance(o, VList) else o
    return sum(1 for x in items if x is a[0] or I.py_eq(x, a[0]))


LIST = {
    'append': l_mut(lambda I, o, a, k: o.items.append(a[0])),
    'extend': l_mut(lambda I, o, a, k: o.items.extend(I.listify(a[0]))),
    'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
    'count': l_count, 'sort': l_sort,
    'reverse': l_mut(lambda I, o, a, k: o.items.reverse()),
    'clear': l_mut(lambda I, o, a, k: o.items.clear()),
    'copy': lambda I, o, a, k: VList(list(o.items)),
}
TUPLE = {'index': l_index, 'count': l_count}


def d_get(I, o, a, k):
    if not I.dict_has(o, a[0]) if I._single_ch(I.ckey(a[0])) else I.dict_find(o, a[0]) is None:
        return a[1] if len(a) > 1 else k.get('default')
    i = I.dict_find(o, a[0])
    return o.entries[i][1]


def d_setdefault(I, o, a, k):
    i = I.dict_find(o, a[0])
    if i is not None:
        return o.entries[i][1]
    v = a[1] if len(a) > 1 else None
    I.dict_set(o, a[0], v)
    return v


def d_pop(I, o, a, k):
    i = I.dict_find(o, a[0])
    if i is None:
        if len(a) > 1:
            return a[1]
        I.throw('KeyError', a[0])
    return I.dict_del(o, a[0])


def d_update(I, o, a, k):
    if a:
        fill(I, o, a[0])
    for n, v in k.items():
        I.dict_set(o, n, v)


def d_clear(I, o, a, k):
    I.w(o)
    o.entries[:] = []
    o.index = {}


def d_popitem(I, o, a, k):
    if not o.entries:
        I.throw('KeyError', 'empty')
    last = k.get('last', a[0] if a else True)
    kk, v = o.entries[-1 if last else 0]
    I.dict_del(o, kk)
    return (kk, v)


def d_copy(I, o, a, k):
    d = VDict([list(e) for e in o.entries], default=o.default, kind=o.kind)
    return d


DICT = {
    'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'update': d_update,
    'keys': lambda I, o, a, k: VList([x for x, _ in o.entries]),
    'values': lambda I, o, a, k: VList([v for _, v in o.entries]),
    'items': lambda I, o, a, k: VList([(x, v) for x, v in o.entries]),
    'clear': d_clear, 'popitem': d_popitem, 'copy': d_copy,
}


def c_update(I, o, a, k):
    def add(x, n):
        i = I.dict_find(o, x)
        I.dict_set(o, x, n if i is None else I.binop(_ast('+'), o.entries[i][1], n))
    if a:
        if isinstance(a[0], VDict):
            for x, n in a[0].entries:
                add(x, n)
        else:
            for x in I.listify(a[0]):
                add(x, 1)
    for x, n in k.items():
        add(x, n)


COUNTER = {'update': c_update,
           'most_common': lambda I, o, a, k: VList(sort_items(I, [(x, v) for x, v in o.entries],
                                                              BI('k', lambda I, a, k: a[0][1]), True)[:a[0] if a else None]),
           'total': lambda I, o, a, k: b_sum(I, [VList([v for _, v in o.entries])], {}),
           'elements': _uns('elements'), 'subtract': _uns('subtract'), 'fromkeys': _uns('fromkeys')}
ODICT = {'move_to_end': _uns('move_to_end')}


def _newset(I, items, frozen):
    s = VSet(frozen=frozen)
    for v in items:
        if not I.set_has(s, v):
            if is_native(I.ckey(v)):
                s.nat.add(I.ckey(v))
            s.items.append(I.ckey(v))
    return s


def set_union(I, o, others):
    items = list(o.items)
    for x in others:
        items += I.listify(x)
    return _newset(I, items, o.frozen)


def _tosets(I, others):
    return [x if isinstance(x, (VSet, VDict)) else mkset(I, x, False) for x in others]


def set_inter(I, o, others):
    others = _tosets(I, others)
    return _newset(I, [v for v in o.items if all(I.contains(x, v) for x in others)], o.frozen)


def set_diff(I, o, others):
    others = _tosets(I, others)
    return _newset(I, [v for v in o.items if not any(I.contains(x, v) for x in others)], o.frozen)


def s_update(I, o, a, k):
    for x in a:
        for v in I.listify(x):
            I.set_add(o, v)


def s_remove(I, o, a, k):
    if not I.set_del(o, a[0]):
        I.throw('KeyError', a[0])


def s_pop(I, o, a, k):
    if not o.items:
        I.throw('KeyError', 'pop from an empty set')
    v = o.items[-1 if I.P.rev else 0]
    I.set_del(o, v)
    return v


def s_clear(I, o, a, k):
    I.w(o)
    o.items[:] = []
    o.nat.clear()


SET = {
    'add': lambda I, o, a, k: I.set_add(o, a[0]),
    'update': s_update, 'discard': lambda I, o, a, k: (I.set_del(o, a[0]), None)[1],
    'remove': s_remove, 'pop': s_pop, 'clear': s_clear,
    'union': lambda I, o, a, k: set_union(I, o, a),
    'intersection': lambda I, o, a, k: set_inter(I, o, a),
    'difference': lambda I, o, a, k: set_diff(I, o, a),
    'issubset': lambda I, o, a, k: all(I.contains(_tosets(I, a)[0], v) for v in o.items),
    'issuperset': lambda I, o, a, k: all(I.contains(o, v) for v in I.listify(a[0])),
    'isdisjoint': lambda I, o, a, k: not any(I.contains(o, v) for v in I.listify(a[0])),
    'copy': lambda I, o, a, k: _newset(I, o.items, o.frozen),
    'symmetric_difference': _uns('symmetric_difference'),
}


# StringIO
def io_write(I, o, a, k):
    I.w(o)
    s = a[0]
    if isinstance(s, Top):
        raise Unsupported('write of unknown text')
    if not I.is_str(s) or I.kind(s) != 'str':
        I.throw('TypeError', 'string argument expected')
    n = I.s_len(o.content)
    if I.vkey(o.pos) == I.vkey(n) or I.eq0(Lin.of(n).add(o.pos, -1)):
        o.content = I.mk(I.parts(o.content) + I.parts(s))
    else:
        end = simp(I.P.num.norm(Lin.of(o.pos).add(I.s_len(s))))
        head = I.s_slice(o.content, 0, o.pos)
        tail = I.s_slice(o.content, end, None)
        o.content = I.mk(I.parts(head) + I.parts(s) + I.parts(tail))
        o.pos = end
        return I.s_len(s)
    o.pos = I.s_len(o.content)
    return I.s_len(s)


def io_seek(I, o, a, k):
    I.w(o)
    wh = a[1] if len(a) > 1 else 0
    if wh == 0:
        o.pos = a[0]
    elif wh == 2:
        o.pos = I.s_len(o.content)
    return o.pos


def io_read(I, o, a, k):
    I.w(o)
    if isinstance(o.pos, int) and o.pos == 0 and not a:
        o.pos = I.s_len(o.content)
        return o.content
    e = None
    if a and a[0] is not None:
        if I.ge0(a[0]):
            e = simp(Lin.of(o.pos).add(a[0]))
    s = I.s_slice(o.content, o.pos, e)
    o.pos = simp(I.P.num.norm(Lin.of(o.pos).add(I.s_len(s))))
    return s


def io_trunc(I, o, a, k):
    I.w(o)
    n = a[0] if a and a[0] is not None else o.pos
    o.content = I.s_slice(o.content, 0, n)
    return n


SIO = {'write': io_write, 'seek': io_seek, 'read': io_read, 'truncate': io_trunc,
       'getvalue': lambda I, o, a, k: o.content, 'tell': lambda I, o, a, k: o.pos,
       'close': lambda I, o, a, k: None,
       'writelines': lambda I, o, a, k: [io_write(I, o, [x], {}) for x in I.listify(a[0])] and None}


# -- external modules -----------------------------------------------------
def opaque_class(I, b):
    if not hasattr(I, 'opq_classes'):
        I.opq_classes = {}
    n = getattr(b, 'name', repr(b))
    if n not in I.opq_classes:
        c = VClass(n, [I.builtins['object']], {})
        c.opaque = True
        I.opq_classes[n] = c
    return I.opq_classes[n]


def ext_attr(I, m, n):
    if n in m.ns:
        return m.ns[n]
    missing = REMOVED.get((m.name, n))
    if missing:
        I.throw('AttributeError', '%s.%s' % (m.name, n))
    sub = m.name + '.' + n
    if sub in KNOWN_MODULES:
        v = I.import_module(sub)
    else:
        v = Opq('%s.%s' % (m.name, n))
    m.ns[n] = v
    return v


REMOVED = {}
KNOWN_MODULES = {'os.path', 'logging.config', 'urllib.parse'}


def external(I, name):
    m = VModule(name)
    m.external = True
    f = EXT.get(name)
    if name in ('psutil', 'ete3', 'cStringIO', 'urlparse', 'ConfigParser'):
        I.throw('ImportError', name)
    if f is not None:
        f(I, m.ns)
    if name in prelude.PLACES:
        pre = load_prelude(I)
        for n in prelude.PLACES[name]:
            n, src = (n, n) if isinstance(n, str) else n
            m.ns[n] = pre.ns[src]
    if '.' in name:
        top = I.import_module(name.rsplit('.', 1)[0])
        top.ns[name.rsplit('.', 1)[1]] = m
    return m


def load_prelude(I):
    if '$prelude' not in I.modules:
        from .interp import Frame
        m = VModule('$prelude', {'__name__': '$prelude'}, None)
        m.pkg = False
        I.modules['$prelude'] = m
        fr = Frame(None, m)
        fr.locals = m.ns
        was, I.loading = I.loading, True
        I.frames.append(fr)
        try:
            I.run_plain(_astm.parse(prelude.SOURCE).body, fr)
        finally:
            I.frames.pop()
            I.loading = was
    return I.modules['$prelude']


def real_attr(I, o, n):
    """Does the real object have an attribute the model lacks?"""
    import collections
    import io
    from .interp import It, VGen
    if I.is_str(o):
        t = [str if I.kind(o) == 'str' else bytes]
    elif isinstance(o, VList):
        t = [collections.deque if getattr(o, 'deque', False) else list]
    elif isinstance(o, tuple):
        t = [tuple]
    elif isinstance(o, VDict):
        t = [getattr(collections, o.kind or '', dict)]
    elif isinstance(o, VSet):
        t = [frozenset if o.frozen else set]
    elif isinstance(o, VStringIO):
        t = [io.StringIO]
    elif isinstance(o, bool) or isinstance(o, (int, Lin)):
        t = [int]
    elif isinstance(o, float):
        t = [float]
    elif o is None:
        t = [type(None)]
    elif isinstance(o, VClass):
        t = [type]
        if o.builtin is not None:
            return True
    elif isinstance(o, VObj):
        t = [object]
        if any(getattr(b, 'is_exc', False) for b in o.cls.mro):
            t = [Exception]
        if o.cls.fields is not None:
            t = [tuple]
    elif isinstance(o, VModule):
        return n.startswith('__')
    elif isinstance(o, (VFunc, VBound)):
        t = [type(real_attr)]
    elif isinstance(o, VGen):
        t = [type(x for x in ())]
    else:
        return True
    return any(hasattr(x, n) for x in t)


def special_class(I, base, node, bases, ns, fr):
    """typing.NamedTuple and enum classes."""
    kind = base.special
    fields = [s.target.id for s in node.body
              if isinstance(s, _astm.AnnAssign) and isinstance(s.target, _astm.Name)]
    if kind == 'NamedTuple':
        dfl = [ns.pop(f) for f in fields if f in ns]
        b = nt_make(I, [node.name, VList(fields)], {'defaults': VList(dfl) if dfl else None})
        c = VClass(node.name, [b], ns, fr.module, node)
        c.slots = []
    else:
        bases = [b for b in bases if not getattr(b, 'special', None)] or [I.builtins['object']]
        plain = kind in ('IntEnum', 'StrEnum') or any(b.builtin is not None and b.name in ('int', 'str')
                                                      for b in bases)
        if plain:
            bases = [I.builtins['object']]
        c = VClass(node.name, bases, ns, fr.module, node)
        c.slots = None
        members, last = [], 0
        for s in node.body:
            if not isinstance(s, _astm.Assign):
                continue
            for t in s.targets:
                if not isinstance(t, _astm.Name) or t.id.startswith('_') or t.id not in ns:
                    continue
                v = ns[t.id]
                if isinstance(v, (VFunc, VProp, VStatic)):
                    continue
                if isinstance(v, Opq):
                    if v.name != 'enum.auto()':
                        raise Unsupported('enum member')
                    v = last + 1 if kind != 'StrEnum' else t.id.lower()
                if isinstance(v, int):
                    last = v
                if plain:
                    ns[t.id] = v
                    members.append(v)
                    continue
                for m in members:
                    if I.py_eq(m.attrs['value'], v):
                        break
                else:
                    m = VObj(c)
                    m.attrs.update(name=t.id, value=v, _name_=t.id, _value_=v)
                    members.append(m)
                ns[t.id] = m
        c.members = members

        def make(I, a, k):
            for m in members:
                if I.py_eq(m if plain else m.attrs['value'], a[0]) or m is a[0]:
                    return m
            I.throw('ValueError', 'not a valid %s' % node.name)
        ns['__new__'] = VStatic(BI('__new__', lambda I, a, k: make(I, a[1:], k)), 'static')
    ns.setdefault('__module__', fr.module.name)
    for v in list(ns.values()):
        I._own(v, c)
    for d in reversed(node.decorator_list):
        c = I.call(I.ev(d, fr), [c])
    return c


def ext_enum(I, ns):
    for n in ('Enum', 'IntEnum', 'StrEnum', 'Flag', 'IntFlag'):
        c = VClass(n, [I.builtins['object']], {})
        c.special = n
        ns[n] = c
    ns['auto'] = BI('auto', lambda I, a, k: Opq('enum.auto()'))
    ns['unique'] = BI('unique', lambda I, a, k: a[0])


def ext_typing(I, ns):
    c = VClass('NamedTuple', [I.builtins['object']], {})
    c.special = 'NamedTuple'
    ns['NamedTuple'] = c
    ns['TYPE_CHECKING'] = False


def ext_dataclasses(I, ns):
    def field(I, a, k):
        o = Opq('dataclasses.field')
        o.data = ('field', k)
        return o

    def deco(I, c, opts):
        if c.node is None:
            raise Unsupported('dataclass')
        fields = []
        for b in reversed(c.mro):
            for f in getattr(b, 'dc_fields', ()):
                fields = [x for x in fields if x[0] != f[0]] + [f]
        own = []
        for s in c.node.body:
            if isinstance(s, _astm.AnnAssign) and isinstance(s.target, _astm.Name):
                n = s.target.id
                if 'ClassVar' in _astm.unparse(s.annotation):
                    continue
                d = c.ns.get(n, Ellipsis)
                kw = {}
                if isinstance(d, Opq) and isinstance(d.data, tuple) and d.data[:1] == ('field',):
                    kw = d.data[1]
                    d = kw.get('default', Ellipsis)
                    if d is Ellipsis:
                        c.ns.pop(n)
                    else:
                        c.ns[n] = d
                if set(kw) - {'default', 'default_factory', 'repr', 'compare', 'hash', 'init'} \
                        or kw.get('init') is False:
                    raise Unsupported('dataclass field')
                own.append((n, d, kw))
        c.dc_fields = own
        for f in own:
            fields = [x for x in fields if x[0] != f[0]] + [f]
        names = [f[0] for f in fields]
        c.ns.setdefault('__match_args__', tuple(names))

        def init(I, a, k):
            o, a = a[0], a[1:]
            if len(a) > len(names) or set(k) - set(names) or set(names[:len(a)]) & set(k):
                I.throw('TypeError', '__init__() arguments of %s' % c.name)
            vals = dict(zip(names, a))
            vals.update(k)
            for n, d, kw in fields:
                if n not in vals:
                    if 'default_factory' in kw:
                        vals[n] = I.call(kw['default_factory'], [])
                    elif d is Ellipsis:
                        I.throw('TypeError', 'missing argument %s' % n)
                    else:
                        vals[n] = d
            I.w(o)
            for n in names:
                o.attrs[n] = vals[n]
            p = o.cls.lookup('__post_init__')[0]
            if p is not None:
                I.call(VBound(p, o), [])
        cmpn = [n for n, d, kw in fields if kw.get('compare', True)]

        def tup(o):
            return tuple(I.getattr(o, n) for n in cmpn)

        def eq(I, a, k):
            if not (isinstance(a[1], VObj) and a[1].cls is a[0].cls):
                return False
            return I.py_eq(tup(a[0]), tup(a[1]))

        def hsh(I, a, k):
            return b_hash(I, [tup(a[0])], {})
        if opts.get('init', True) and '__init__' not in c.ns:
            c.ns['__init__'] = BI('__init__', init)
        if opts.get('eq', True) and '__eq__' not in c.ns:
            c.ns['__eq__'] = BI('__eq__', eq)
            if '__hash__' not in c.ns:
                if opts.get('frozen') or opts.get('unsafe_hash'):
                    c.ns['__hash__'] = BI('__hash__', hsh)
                else:
                    c.ns['__hash__'] = None
        if opts.get('order'):
            for n in ('lt', 'le', 'gt', 'ge'):
                c.ns['__%s__' % n] = BI(n, lambda I, a, k, n=n: I.order(n, tup(a[0]), tup(a[1])))
        if opts.get('frozen'):
            def fset(I, a, k):
                I.throw('AttributeError', 'cannot assign to field %s' % (a[1],))
            c.ns['__setattr__'] = BI('__setattr__', fset)
        if opts.get('slots'):
            c.slots = names
        return c

    def dataclass(I, a, k):
        if a and isinstance(a[0], VClass):
            return deco(I, a[0], k)
        return BI('dataclass', lambda I, b, k2: deco(I, b[0], k))
    ns['dataclass'] = BI('dataclass', dataclass)
    ns['field'] = BI('field', field)

    def replace(I, a, k):
        o = a[0]
        x = VObj(o.cls)
        x.attrs.update(o.attrs)
        x.attrs.update(k)
        return x
    ns['replace'] = BI('replace', replace)
    ns['astuple'] = BI('astuple', _uns('astuple'))
    ns['asdict'] = BI('asdict', _uns('asdict'))


def ext_string(I, ns):
    for n in ('ascii_lowercase', 'ascii_uppercase', 'ascii_letters', 'digits',
              'punctuation', 'printable', 'whitespace', 'hexdigits', 'octdigits'):
        ns[n] = getattr(_string, n)


def ext_hashlib(I, ns):
    def mk(name):
        def f(I, a, k):
            if not a:
                h = Opq(name)
                h.data = []
            else:
                h = Opq(name)
                h.data = [a[0]]

            def data():
                return I.s_join(b'', h.data) if h.data else b''

            def upd(I, a, k):
                h.data.append(a[0])

            def hexd(I, a, k):
                d = data()
                if isinstance(d, Top):
                    return d
                if I.kind(d) != 'bytes':
                    I.throw('TypeError', 'Strings must be encoded before hashing')
                return I.mk([Fn(name, (d,), Lin.of(32), CS('0123456789abcdef'))])
            h.attrs['update'] = BI('update', upd)
            h.attrs['hexdigest'] = BI('hexdigest', hexd)
            h.attrs['digest'] = BI('digest', hexd)
            if a and not isinstance(a[0], Top) and not (I.is_str(a[0]) and I.kind(a[0]) == 'bytes'):
                I.throw('TypeError', 'Strings must be encoded before hashing')
            return h
        return BI(name, f)
    for n in ('md5', 'sha1', 'sha256', 'sha512', 'sha224', 'sha384', 'blake2b'):
        ns[n] = mk(n)


def nt_make(I, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    else:
        fields = I.listify(fields)
    c = VClass(name, [I.builtins['tuple']] if False else [I.builtins['object']], {'$nt': True})
    c.fields = list(fields)
    if 'defaults' in k and k['defaults'] is not None:
        c.nt_defaults = I.listify(k['defaults'])
    c.slots = []
    c.ns['__slots__'] = ()
    return c


def ext_collections(I, ns):
    ns['namedtuple'] = BI('namedtuple', nt_make)

    def kind(name, make):
        c = VClass(name, [I.builtins['dict']], {})
        c.builtin = make
        ns[name] = c
        if not hasattr(I, 'dict_kinds'):
            I.dict_kinds = {}
        I.dict_kinds[name] = c

    def counter(I, a, k):
        d = VDict(kind='Counter')
        c_update(I, d, a, k)
        return d

    def odict(I, a, k):
        d = b_dict(I, a, k)
        d.kind = 'OrderedDict'
        return d

    def ddict(I, a, k):
        d = b_dict(I, a[1:], k)
        d.kind = 'defaultdict'
        d.default = a[0] if a else None
        return d
    kind('Counter', counter)
    kind('OrderedDict', odict)
    kind('defaultdict', ddict)

    def deque(I, a, k):
        if len(a) > 1 or k.get('maxlen') is not None:
            raise Unsupported('deque(maxlen)')
        v = VList(I.listify(a[0]) if a else [])
        v.deque = True
        return v
    ns['deque'] = BI('deque', deque)


LIST['popleft'] = lambda I, o, a, k: l_pop(I, o, [0], k)
LIST['appendleft'] = lambda I, o, a, k: l_insert(I, o, [0, a[0]], k)


def ext_functools(I, ns):
    def total(I, a, k):
        a[0].total = True
        return a[0]
    ns['total_ordering'] = BI('total_ordering', total)

    def partial(I, a, k):
        fn, pre, pk = a[0], a[1:], dict(k)

        def f(I, a2, k2):
            kk = dict(pk)
            kk.update(k2)
            return I.call(fn, pre + a2, kk)
        b = BI('partial', f)
        return VBound(b, None)
    ns['partial'] = BI('partial', partial)

    def reduce(I, a, k):
        items = I.listify(a[1])
        if len(a) > 2:
            acc = a[2]
        elif items:
            acc = items.pop(0)
        else:
            I.throw('TypeError', 'reduce() of empty sequence')
        for x in items:
            acc = I.call(a[0], [acc, x])
        return acc
    ns['reduce'] = BI('reduce', reduce)
    ns['wraps'] = BI('wraps', lambda I, a, k: BI('deco', lambda I, b, k2: b[0]))

    def lru(I, a, k):
        def deco(I, b, k2):
            fn = b[0]
            cache = VDict()
            cache.glob = I.loading

            def f(I, args, kw):
                key = tuple(args) + tuple(sorted(kw.items()))
                i = I.dict_find(cache, key)
                if i is not None:
                    return cache.entries[i][1]
                v = I.call(fn, args, kw)
                I.dict_set(cache, key, v)
                return v
            return BI('lru', f)
        if len(a) == 1 and isinstance(a[0], VFunc):
            return deco(I, a, k)
        return BI('deco', deco)
    ns['lru_cache'] = BI('lru_cache', lru)
    ns['cache'] = BI('cache', lru)

    def cmp_to_key(I, a, k):
        fn = a[0]
        c = VClass('K', [I.builtins['object']], {})

        def lt(I, b, k2):
            return I.order('lt', I.call(fn, [b[0].attrs['o'], b[1].attrs['o']]), 0)
        c.ns['__lt__'] = BI('__lt__', lt)

        def mk(I, b, k2):
            o = VObj(c)
            o.attrs['o'] = b[0]
            return o
        return BI('K', mk)
    ns['cmp_to_key'] = BI('cmp_to_key', cmp_to_key)


def ext_operator(I, ns):
    def mc(I, a, k):
        name, pre, pk = a[0], a[1:], k
        return BI('methodcaller', lambda I, b, k2: I.call(I.getattr(b[0], name), pre, pk))
    ns['methodcaller'] = BI('methodcaller', mc)

    def ag(I, a, k):
        def one(o, n):
            for x in n.split('.'):
                o = I.getattr(o, x)
            return o
        if len(a) == 1:
            return BI('attrgetter', lambda I, b, k2: one(b[0], a[0]))
        return BI('attrgetter', lambda I, b, k2: tuple(one(b[0], n) for n in a))
    ns['attrgetter'] = BI('attrgetter', ag)

    def ig(I, a, k):
        if len(a) == 1:
            return BI('itemgetter', lambda I, b, k2: I.getitem(b[0], a[0]))
        return BI('itemgetter', lambda I, b, k2: tuple(I.getitem(b[0], n) for n in a))
    ns['itemgetter'] = BI('itemgetter', ig)
    for n, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('mod', '%'), ('floordiv', '//')):
        ns[n] = BI(n, lambda I, a, k, op=op: I.binop(_ast(op), a[0], a[1]))
    for n in ('lt', 'le', 'gt', 'ge'):
        ns[n] = BI(n, lambda I, a, k, n=n: I.order(n, a[0], a[1]))
    ns['eq'] = BI('eq', lambda I, a, k: I.py_eq(a[0], a[1]))
    ns['ne'] = BI('ne', lambda I, a, k: I.py_ne(a[0], a[1]))
    ns['not_'] = BI('not_', lambda I, a, k: not I.truth(a[0]))
    ns['getitem'] = BI('getitem', lambda I, a, k: I.getitem(a[0], a[1]))


def ext_itertools(I, ns):
    from .interp import MultiIt, SeqIt
    ns['chain'] = BI('chain', lambda I, a, k: MultiIt('chain', [I.iter(x) for x in a]))
    ns['takewhile'] = BI('takewhile', lambda I, a, k: MultiIt('takewhile', [I.iter(a[1])], fn=a[0]))
    ns['dropwhile'] = BI('dropwhile', lambda I, a, k: MultiIt('dropwhile', [I.iter(a[1])], fn=a[0]))
    ns['starmap'] = BI('starmap', lambda I, a, k: VList([I.call(a[0], I.listify(x)) for x in I.listify(a[1])]))

    def islice(I, a, k):
        from .interp import StopIter
        st, sp, step = 0, None, 1
        if len(a) == 2:
            sp = a[1]
        else:
            st, sp = a[1] or 0, a[2]
            step = (a[3] if len(a) > 3 else 1) or 1
        it = I.iter(a[0])
        out = []
        i = 0
        while sp is None or i < I.cint(sp):
            try:
                v = it.next(I)
            except StopIter:
                break
            if i >= I.cint(st) and (i - I.cint(st)) % step == 0:
                out.append(v)
            i += 1
        return SeqIt(tuple(out))
    ns['islice'] = BI('islice', islice)

    def groupby(I, a, k):
        key = a[1] if len(a) > 1 else k.get('key')
        out = []
        last = None
        it = I.iter(a[0])
        if it.symbolic(I) and I.P.sym:
            raise Unsupported('groupby over symbolic text')
        for v in I.listify(it):
            kk = v if key is None else I.call(key, [v])
            if out and I.py_eq(out[-1][0], kk):
                out[-1][1].items.append(v)
            else:
                out.append((kk, VList([v])))
        return SeqIt(tuple((a, SeqIt(b)) for a, b in out))
    ns['groupby'] = BI('groupby', groupby)
    ns['count'] = BI('count', _uns('itertools.count'))

    def zl(I, a, k):
        ls = [I.listify(x) for x in a]
        n = max([len(x) for x in ls] or [0])
        fv = k.get('fillvalue')
        return SeqIt(tuple(tuple(x[i] if i < len(x) else fv for x in ls) for i in range(n)))
    ns['zip_longest'] = BI('zip_longest', zl)


def ext_io(I, ns):
    def sio(I, a, k):
        o = VStringIO(a[0] if a else '')
        return o
    c = VClass('StringIO', [I.builtins['object']], {})
    c.builtin = sio
    ns['StringIO'] = c


def ext_sys(I, ns):
    ns['version_info'] = tuple(_sys.version_info)
    ns['maxsize'] = _sys.maxsize
    ns['modules'] = VDict()
    ns['modules'].open = lambda I, k: I.modules.get(k)
    ns['argv'] = VList([])
    ns['exit'] = BI('exit', lambda I, a, k: I.throw('SystemExit'))
    ns['platform'] = 'linux'

    def stream(n):
        buf = Opq('sys.%s.buffer' % n)
        buf.strict = True

        def write(I, a, k):
            I.P.events.append(('out' if n == 'stdout' else 'err', a[0], I.where()))
            return None
        buf.attrs['write'] = BI('write', write)
        buf.attrs['flush'] = BI('flush', lambda I, a, k: None)

        def writelines(I, a, k):
            for x in I.listify(a[0]):
                write(I, [x], {})
        buf.attrs['writelines'] = BI('writelines', writelines)
        s = Opq('sys.%s' % n)
        s.attrs['buffer'] = buf
        s.strict = True

        def twrite(I, a, k):
            I.P.events.append(('textout' if n == 'stdout' else 'err', a[0], I.where()))
            return None
        s.attrs['write'] = BI('write', twrite)
        s.attrs['flush'] = BI('flush', lambda I, a, k: None)
        s.attrs['encoding'] = 'utf-8'
        return s
    for n in ('stdin', 'stdout', 'stderr'):
        ns[n] = stream(n)
    ns['getrecursionlimit'] = BI('getrecursionlimit', lambda I, a, k: 1000)


def ext_os(I, ns):
    ns['getpid'] = BI('getpid', lambda I, a, k: Opq('pid'))
    ns['sep'] = '/'
    ns['linesep'] = '\n'
    d = VDict()
    d.open = lambda I, k: Opq('os.environ[%s]' % (k,))
    ns['environ'] = d


def ext_ospath(I, ns):
    for n in ('dirname', 'basename', 'join', 'abspath'):
        f = getattr(_os.path, n)
        ns[n] = BI(n, lambda I, a, k, f=f: f(*a) if all(isinstance(x, str) for x in a) else Top('path'))


def ext_math(I, ns):
    for n in ('log', 'ceil', 'floor', 'sqrt', 'log2', 'log10'):
        f = getattr(_math, n)
        ns[n] = BI(n, lambda I, a, k, f=f: f(*a) if all(isinstance(x, (int, float)) for x in a) else Top('math'))


def ext_inspect(I, ns):
    ns['isclass'] = BI('isclass', lambda I, a, k: isinstance(a[0], VClass))
    ns['isfunction'] = BI('isfunction', lambda I, a, k: isinstance(a[0], VFunc))

    def getmembers(I, a, k):
        o = a[0]
        pred = a[1] if len(a) > 1 else k.get('predicate')
        out = []
        names = o.ns if isinstance(o, (VModule,)) else {}
        for n in sorted(names):
            v = o.ns[n]
            if pred is None or I.truth(I.call(pred, [v])):
                out.append((n, v))
        return VList(out)
    ns['getmembers'] = BI('getmembers', getmembers)


def ext_re(I, ns):
    import re as _re
    from . import rx as RX

    def rx(p, flags=0):
        o = Opq('regex')
        o.data = ('regex', p, flags)
        o.strict = True
        o.truth = True
        for n in ('match', 'fullmatch', 'search', 'findall', 'split', 'sub', 'finditer'):
            o.attrs[n] = BI(n, lambda I, a, k, n=n: run(I, n, p, a, k, flags))
        o.attrs['pattern'] = p
        return o

    def run(I, n, p, a, k, flags):
        if k or not isinstance(flags, int):
            raise Unsupported('arguments of a regular expression')
        pc = I.const(p) if I.is_str(p) else None
        ac = [I.const(x) if I.is_str(x) else x for x in a]
        if n in ('match', 'fullmatch', 'search'):
            if not a or not I.is_str(a[0]) or not I.is_str(p):
                raise Unsupported('regular expression on another type')
            if pc is not None and all(x is not None for x in ac) and all(isinstance(x, (str, int)) for x in ac):
                try:
                    m = getattr(_re.compile(pc, flags), n)(*ac)
                except _re.error as e:
                    raise Unsupported('regular expression error')
                return None if m is None else Opq('match', truth=True)
            if len(a) == 1:
                return Opq('match', truth=True) if RX.search(I, n, p, a[0], flags) else None
        if n == 'split' and not flags and pc is not None and len(pc) == 1 and pc.isalnum() is False and not pc in '.^$*+?{}[]\\|()':
            return VList(I.s_split(a[0], pc))
        raise Unsupported('regular expression on symbolic text')

    def mk(n):
        def f(I, a, k):
            p = a[0]
            flags = k.pop('flags', a[2] if len(a) > 2 else 0) if n in ('match', 'fullmatch', 'search') else 0
            if isinstance(p, Opq) and isinstance(p.data, tuple) and p.data[0] == 'regex':
                p, flags = p.data[1], p.data[2]
            return run(I, n, p, a[1:2] if n in ('match', 'fullmatch', 'search') else a[1:], k, flags)
        return BI(n, f)
    for n in ('match', 'fullmatch', 'search', 'findall', 'split', 'sub'):
        ns[n] = mk(n)
    ns['compile'] = BI('compile', lambda I, a, k: rx(a[0], k.get('flags', a[1] if len(a) > 1 else 0)))
    for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'A', 'ASCII', 'U', 'UNICODE', 'X', 'VERBOSE'):
        ns[n] = int(getattr(_re, n))
    ns['escape'] = BI('escape', lambda I, a, k: _re.escape(a[0]) if isinstance(a[0], str) else Top('escape'))


def ext_time(I, ns):
    for n in ('time', 'perf_counter', 'monotonic', 'clock', 'process_time'):
        ns[n] = BI(n, clock)


def clock(I, a, k):
    """A clock that advances by some positive amount between two readings."""
    P = I.P
    P.clock = getattr(P, 'clock', 1000.0) + getattr(P, 'clockstep', 0.001)
    return P.clock


def ext_logging(I, ns):
    logger = Opq('logger')
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'warn', 'log'):
        def f(I, a, k, n=n):
            if n == 'log' and a and not isinstance(a[0], (int, Top)):
                I.throw('TypeError', 'level must be an integer')
            I.P.events.append(('log', n, tuple(a), I.where()))
            return None
        logger.attrs[n] = BI(n, f)
        ns[n] = BI(n, f)
    for n in ('addHandler', 'setLevel', 'removeHandler'):
        logger.attrs[n] = BI(n, lambda I, a, k: None)
    logger.attrs['isEnabledFor'] = BI('isEnabledFor', lambda I, a, k: bool(I.choose(2, 'log level enabled')))
    ns['getLogger'] = BI('getLogger', lambda I, a, k: logger)
    ns['root'] = logger
    ns['getLevelName'] = BI('getLevelName', lambda I, a, k: 'DEBUG')
    for i, n in enumerate(('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')):
        ns[n] = i * 10

    ad = VClass('LoggerAdapter', [I.builtins['object']], {})
    ad.opaque = True

    def init(I, a, k):
        a[0].attrs['logger'] = a[1]
        a[0].attrs['extra'] = a[2] if len(a) > 2 else None
    ad.ns['__init__'] = BI('__init__', init)
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'warn', 'log'):
        ad.ns[n] = BI(n, lambda I, a, k, n=n: I.call(I.getattr(a[0].attrs['logger'], n), a[1:], k))
    ns['LoggerAdapter'] = ad
    for n in ('Formatter', 'StreamHandler', 'NullHandler', 'Handler', 'Filter', 'Logger'):
        c = VClass(n, [I.builtins['object']], {})
        c.opaque = True
        c.ns['__init__'] = BI('__init__', lambda I, a, k: None)
        for m in ('setFormatter', 'setLevel', 'format', 'formatTime', 'emit', 'flush'):
            c.ns[m] = BI(m, lambda I, a, k: None)
        if n == 'StreamHandler':
            c.ns['__init__'] = BI('__init__', lambda I, a, k: I.P.events.append(
                ('log stream', a[1] if len(a) > 1 else k.get('stream'))))
        ns[n] = c


def ext_logcfg(I, ns):
    ns['dictConfig'] = BI('dictConfig', lambda I, a, k: None)


# -- urllib ---------------------------------------------------------------
def ext_urlparse(I, ns):
    res = nt_make(I, ['ParseResult', 'scheme netloc path params query fragment'], {})
    spl = nt_make(I, ['SplitResult', 'scheme netloc path query fragment'], {})
    ns['ParseResult'] = res
    ns['SplitResult'] = spl

    def urlsplit(I, url):
        if isinstance(url, Top):
            raise Unsupported('urlsplit')
        if isinstance(url, str):
            from urllib.parse import urlsplit as real
            try:
                return list(real(url))
            except ValueError:
                I.throw('ValueError', 'Invalid URL')
        bad = CS('\t\r\n')
        for p in I.parts(url):
            if not isinstance(p, str) and not (I.pcs(p) & bad).empty():
                raise Unsupported('control characters in URL')
        ps = I.parts(url)
        if ps and not isinstance(ps[0], str):
            raise Unsupported('URL with symbolic scheme')
        scheme = netloc = ''
        rest = url
        c = ps[0] if ps else ''
        i = c.find(':')
        if i > 0 and c[0].isascii() and c[0].isalpha() and \
                all(x.isalnum() or x in '+-.' for x in c[:i]):
            scheme = c[:i].lower()
            rest = I.s_slice(url, i + 1, None)
        if I.s_startswith(rest, '//'):
            rest = I.s_slice(rest, 2, None)
            ends = []
            cut = None
            # netloc ends at the first of / ? #
            pos = first_of(I, rest, '/?#')
            if pos is None:
                netloc, rest = rest, ''
            else:
                netloc, rest = I.s_slice(rest, 0, pos), I.s_slice(rest, pos, None)
            for p in I.parts(netloc):
                if not (I.pcs(p) & CS('[]')).empty():
                    raise Unsupported('brackets in netloc')
        query = fragment = ''
        i = I.s_find(rest, '#')
        if not (isinstance(i, int) and i < 0):
            fragment = I.s_slice(rest, simp(Lin.of(i).add(1)), None)
            rest = I.s_slice(rest, 0, i)
        i = I.s_find(rest, '?')
        if not (isinstance(i, int) and i < 0):
            query = I.s_slice(rest, simp(Lin.of(i).add(1)), None)
            rest = I.s_slice(rest, 0, i)
        return [scheme, netloc, rest, query, fragment]

    def first_of(I, s, chars):
        off = Lin()
        for p in I.parts(s):
            if isinstance(p, str):
                k = [p.find(c) for c in chars if c in p]
                if k:
                    return simp(I.P.num.norm(off.add(min(k))))
            elif not (I.pcs(p) & CS(chars)).empty():
                break
            off = off.add(I.plen(p))
        else:
            return None
        best = None
        for c in chars:
            i = I.s_find(s, c)
            if isinstance(i, int) and i < 0:
                continue
            if best is None or I.order('lt', i, best):
                best = i
        return best

    def urlparse(I, a, k):
        if isinstance(a[0], str):
            from urllib.parse import urlparse as real
            try:
                return I.call(res, list(real(a[0])))
            except ValueError:
                I.throw('ValueError', 'Invalid URL')
        sc, net, path, q, f = urlsplit(I, a[0])
        params = ''
        if sc in ('', 'ftp', 'hdl', 'prospero', 'http', 'imap', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', 'sftp', 'tel'):
            has = I.s_find(path, ';')
            if not (isinstance(has, int) and has < 0):
                j = I.s_find(path, '/', rev=True)
                if isinstance(j, int) and j < 0:
                    i = has
                else:
                    i = I.s_find(path, ';', j)
                if not (isinstance(i, int) and i < 0):
                    params = I.s_slice(path, simp(Lin.of(i).add(1)), None)
                    path = I.s_slice(path, 0, i)
        return I.call(res, [sc, net, path, params, q, f])
    ns['urlparse'] = BI('urlparse', urlparse)
    ns['urlsplit'] = BI('urlsplit', lambda I, a, k: I.call(spl, urlsplit(I, a[0])))


def ext_configparser(I, ns):
    """Sections of data files below the source root are read; other files are
    opaque.  An option nobody set is an unknown integer >= 1."""
    import configparser
    c = VClass('ConfigParser', [I.builtins['object']], {})

    def data(I, o):
        d = o.attrs.get('#data')
        if d is None:
            I.w(o)
            d = o.attrs['#data'] = VDict()
        return d

    def put(I, o, parser):
        for s in parser.sections():
            for n, v in parser.items(s):
                I.dict_set(data(I, o), (s, n.lower()), v)

    def read(I, a, k):
        o, what = a[0], a[1] if len(a) > 1 else k.get('filenames')
        files = [what] if isinstance(what, str) else I.listify(what)
        ok = []
        for f in files:
            if not isinstance(f, str):
                raise Unsupported('configuration file')
            if not _os.path.abspath(f).startswith(_os.path.abspath(I.root) + _os.sep):
                raise Unsupported('configuration file outside of the sources')
            if _os.path.isfile(f):
                p = configparser.ConfigParser()
                p.read(f)
                put(I, o, p)
                ok.append(f)
        return VList(ok)

    def read_file(I, a, k):
        f = a[1]
        d = getattr(f, 'cfg', None)
        if d is None:
            raise Unsupported('configuration file')
        for key, v in d.items():
            I.dict_set(data(I, a[0]), key, v)

    def read_string(I, a, k):
        p = configparser.ConfigParser()
        if not isinstance(a[1], str):
            raise Unsupported('configuration text')
        p.read_string(a[1])
        put(I, a[0], p)

    def setopt(I, a, k):
        I.dict_set(data(I, a[0]), (a[1], a[2].lower()), a[3])

    def raw(I, a, k):
        o, key = a[0], (a[1], a[2].lower())
        d = data(I, o)
        i = I.dict_find(d, key)
        if i is not None:
            return d.entries[i][1]
        if 'fallback' in k:
            return k['fallback']
        sections = [x[0][0] for x in d.entries]
        if key[0] not in sections:
            I.throw('Exception', 'NoSectionError')
        I.throw('Exception', 'NoOptionError')

    def get(I, a, k):
        v = raw(I, a, k)
        return I.dec(Lin.of(v)) if isinstance(v, (int, Lin)) else v

    def getint(I, a, k):
        v = raw(I, a, k)
        return b_int(I, [v], {}) if I.is_str(v) else v

    def has(I, a, k):
        return I.dict_find(data(I, a[0]), (a[1], a[2].lower())) is not None
    c.ns['__init__'] = BI('__init__', lambda I, a, k: None)
    for n, f in (('read', read), ('read_file', read_file), ('read_string', read_string), ('set', setopt),
                 ('get', get), ('getint', getint), ('has_option', has),
                 ('add_section', lambda I, a, k: None)):
        c.ns[n] = BI(n, f)
    def names(I, o):
        out = []
        for (s, n), _ in data(I, o).entries:
            if s not in out:
                out.append(s)
        return out

    def items(I, a, k):
        if len(a) < 2:
            raise Unsupported('config.items')
        return VList([(n, get(I, [a[0], s, n], {})) for (s, n), _ in data(I, a[0]).entries if s == a[1]])

    def section(I, a, k):
        if a[1] not in names(I, a[0]):
            I.throw('KeyError', a[1])
        d = VDict()
        for n, v in items(I, a, k).items:
            I.dict_set(d, n, v)
        return d

    def setdef(I, a, k):
        if len(a) < 2:
            raise Unsupported('config.read_dict')
        for s, kv in [(x, y) for x, y in a[1].entries]:
            for n, v in kv.entries:
                I.dict_set(data(I, a[0]), (s, n.lower()), I.to_str(v))
    for n, f in (('sections', lambda I, a, k: VList(names(I, a[0]))), ('items', items), ('__getitem__', section),
                 ('options', lambda I, a, k: VList([n for (s, n), _ in data(I, a[0]).entries if s == a[1]])),
                 ('has_section', lambda I, a, k: a[1] in names(I, a[0])),
                 ('__contains__', lambda I, a, k: a[1] in names(I, a[0])), ('read_dict', setdef)):
        c.ns[n] = BI(n, f)
    for n in ('getfloat', 'getboolean'):
        c.ns[n] = BI(n, _uns('config.' + n))
    ns['ConfigParser'] = c
    ns['RawConfigParser'] = c


def ext_json(I, ns):
    def dumps(I, a, k):
        v = a[0]
        I.P.events.append(('json', v, I.where()))
        if len(a) == 1 and not k or set(k) <= {'sort_keys'}:
            t = text(I, v, bool(k.get('sort_keys')))
            if t is not None:
                return I.mk(t)
        return Str([Fn('json', (v,), I.atom_ge(1, 'len'))])

    def text(I, v, srt):
        import json as _json
        if v is None or isinstance(v, (bool, str)):
            return [_json.dumps(v)]
        if isinstance(v, (int, Lin)):
            return I.parts(I.dec(Lin.of(v)))
        if isinstance(v, Str) and v.kind == 'str':
            out = ['"']
            for p in I.parts(v):
                if isinstance(p, str):
                    out.append(_json.dumps(p)[1:-1])
                elif isinstance(p, Dec) or (I.pcs(p) - PLAIN_JSON).empty():
                    out.append(p)
                else:
                    return None
            return out + ['"']
        if isinstance(v, VDict):
            es = list(v.entries)
            if not all(isinstance(x[0], str) for x in es):
                return None
            if srt:
                es.sort(key=lambda x: x[0])
            out = ['{']
            for i, (n, x) in enumerate(es):
                t = text(I, x, srt)
                if t is None:
                    return None
                out += ([', '] if i else []) + [_json.dumps(n), ': '] + t
            return out + ['}']
        if isinstance(v, (VList, tuple)):
            out = ['[']
            for i, x in enumerate(v.items if isinstance(v, VList) else v):
                t = text(I, x, srt)
                if t is None:
                    return None
                out += ([', '] if i else []) + t
            return out + [']']
        return None
    PLAIN_JSON = CS([chr(i) for i in range(32, 127) if chr(i) not in '"\\'])
    ns['dumps'] = BI('dumps', dumps)


def ext_pkgutil(I, ns):
    def get_data(I, a, k):
        p = _os.path.join(I.root, *(a[0].split('.') + [a[1]]))
        try:
            with open(p, 'rb') as f:
                return f.read()
        except IOError:
            return b'0'
    ns['get_data'] = BI('get_data', get_data)


def ext_argparse(I, ns):
    """Options of a program.  Files named on the command line come from P.files (name -> file object)."""
    from .interp import PyExc

    def usage(I, msg):
        I.P.events.append(('usage', msg))
        I.throw('SystemExit', 2)

    def cst(I, v, what):
        v = I.const(v) if I.is_str(v) else v
        if not isinstance(v, str):
            raise Unsupported('argparse: ' + what)
        return v

    def filetype(I, a, k):
        mode = a[0] if a else k.get('mode', 'r')

        def op(I, a2, k2):
            n = cst(I, a2[0], 'file name')
            fs = getattr(I.P, 'files', {})
            if n not in fs:
                usage(I, "can't open " + n)
            f = fs[n]
            want = getattr(f, 'mode', None)
            if want is not None and mode != want:
                raise Unsupported('argparse: file opened with mode %r' % (mode,))
            return f
        return BI('FileType', op)
    ns['FileType'] = BI('FileType', filetype)
    ns['SUPPRESS'] = '==SUPPRESS=='

    def parser(I, a, k):
        if set(k) - {'description', 'prog', 'usage', 'epilog'}:
            raise Unsupported('argparse: arguments of the parser')
        o = Opq('parser')
        o.strict = True
        opts = []

        def add(I, a, k):
            k = dict(k)
            bad = set(k) - {'help', 'nargs', 'type', 'default', 'dest', 'action', 'choices', 'required', 'version', 'metavar', 'const'}
            if bad:
                raise Unsupported('argparse: add_argument(%s)' % ', '.join(sorted(bad)))
            flags = [cst(I, x, 'flag') for x in a]
            if not flags or any(not x.startswith('-') for x in flags):
                raise Unsupported('argparse: positional argument')
            dest = k.get('dest')
            if dest is None:
                lo = [x for x in flags if x.startswith('--')] or flags
                dest = lo[0].lstrip('-').replace('-', '_')
            opts.append((flags, cst(I, dest, 'dest'), k))
            return Opq('action')
        o.attrs['add_argument'] = BI('add_argument', add)
        for n in ('add_argument_group', 'add_mutually_exclusive_group'):
            o.attrs[n] = BI(n, lambda I, a, k: o)
        o.attrs['error'] = BI('error', lambda I, a, k: usage(I, 'error'))
        for n in ('print_help', 'print_usage'):
            o.attrs[n] = BI(n, lambda I, a, k: None)

        def parse(I, a, k):
            argv = a[0] if a else k.get('args')
            if argv is None:
                raise Unsupported('argparse: sys.argv')
            argv = [cst(I, x, 'argument') for x in I.listify(argv)]
            vals, seen = {}, set()
            for fl, d, kw in opts:
                act = kw.get('action', 'store')
                if act in ('version', 'help'):
                    continue
                if d not in vals or 'default' in kw:
                    vals[d] = kw.get('default', {'store_true': False, 'store_false': True}.get(act))
            i = 0
            while i < len(argv):
                w = argv[i]
                i += 1
                inline = None
                if w.startswith('--') and '=' in w:
                    w, inline = w.split('=', 1)
                hit = [x for x in opts if w in x[0]]
                if not hit and w.startswith('--'):
                    hit = [x for x in opts if any(f.startswith(w) for f in x[0])]
                if not hit:
                    usage(I, 'unrecognized ' + w)
                fl, d, kw = hit[0]
                act = kw.get('action', 'store')
                if act in ('store_true', 'store_false'):
                    vals[d] = act == 'store_true'
                    seen.add(fl[0])
                    continue
                if act == 'version':
                    I.throw('SystemExit', 0)
                if act not in ('store', 'append'):
                    raise Unsupported('argparse: action')
                nargs = kw.get('nargs')
                ws = [inline] if inline is not None else []
                while inline is None and i < len(argv) and not (argv[i].startswith('-') and len(argv[i]) > 1):
                    if (nargs is None or nargs == '?') and ws or isinstance(nargs, int) and len(ws) == nargs:
                        break
                    ws.append(argv[i])
                    i += 1
                if nargs is None and len(ws) != 1 or nargs == '+' and not ws or isinstance(nargs, int) and len(ws) != nargs:
                    usage(I, 'expected argument')
                if nargs not in (None, '+', '*', '?') and not isinstance(nargs, int):
                    raise Unsupported('argparse: nargs')
                out = []
                for x in ws:
                    if kw.get('type') is not None:
                        try:
                            x = I.call(kw['type'], [x])
                        except PyExc as e:
                            if e.val.cls.name in ('ValueError', 'TypeError', 'ArgumentTypeError'):
                                usage(I, 'invalid value')
                            raise
                    if kw.get('choices') is not None and not I.contains(kw['choices'], x):
                        usage(I, 'invalid choice')
                    out.append(x)
                if nargs == '?' and not out:
                    out = [kw.get('const')]
                v = out[0] if nargs in (None, '?') else VList(out)
                if act == 'append':
                    v = VList((I.listify(vals[d]) if vals.get(d) is not None else []) + [v])
                vals[d] = v
                seen.add(fl[0])
            for fl, d, kw in opts:
                if kw.get('required') and fl[0] not in seen:
                    usage(I, 'required ' + fl[0])
                if fl[0] not in seen and I.is_str(vals.get(d)) and kw.get('type') is not None and vals.get(d) is kw.get('default'):
                    vals[d] = I.call(kw['type'], [vals[d]])
            r = VObj(VClass('Namespace', [I.builtins['object']], {}))
            r.attrs.update(vals)
            return r
        o.attrs['parse_args'] = BI('parse_args', parse)
        return o
    ns['ArgumentParser'] = BI('ArgumentParser', parser)


def ext_copy(I, ns):
    def copy(I, a, k):
        v = a[0]
        if isinstance(v, VList):
            return VList(list(v.items))
        if isinstance(v, VDict):
            return d_copy(I, v, [], {})
        if isinstance(v, VSet):
            return _newset(I, v.items, v.frozen)
        if isinstance(v, VObj):
            o = VObj(v.cls)
            o.attrs.update(v.attrs)
            return o
        return v
    ns['copy'] = BI('copy', copy)

    def deep(I, a, k):
        if is_native(a[0]) or I.is_str(a[0]):
            return a[0]
        raise Unsupported('deepcopy')
    ns['deepcopy'] = BI('deepcopy', deep)


EXT = {'string': ext_string, 'hashlib': ext_hashlib, 'collections': ext_collections,
       'functools': ext_functools, 'operator': ext_operator, 'itertools': ext_itertools,
       'io': ext_io, 'sys': ext_sys, 'os': ext_os, 'os.path': ext_ospath, 'math': ext_math,
       'inspect': ext_inspect, 're': ext_re, 'time': ext_time, 'logging': ext_logging, 'argparse': ext_argparse,
       'logging.config': ext_logcfg, 'urllib.parse': ext_urlparse,
       'configparser': ext_configparser, 'json': ext_json, 'pkgutil': ext_pkgutil,
       'copy': ext_copy, 'bisect': None, 'typing': ext_typing, 'enum': ext_enum,
       'dataclasses': ext_dataclasses}


def ext_bisect(I, ns):
    def bis(right):
        def f(I, a, k):
            items = a[0].items if isinstance(a[0], VList) else a[0]
            key = k.get('key')
            x = a[1]
            lo, hi = 0, len(items)
            while lo < hi:
                mid = (lo + hi) // 2
                y = items[mid] if key is None else I.call(key, [items[mid]])
                if right:
                    if I.order('lt', x, y):
                        hi = mid
                    else:
                        lo = mid + 1
                else:
                    if I.order('lt', y, x):
                        lo = mid + 1
                    else:
                        hi = mid
            return lo
        return f
    ns['bisect_left'] = BI('bisect_left', bis(False))
    ns['bisect_right'] = ns['bisect'] = BI('bisect', bis(True))

    def ins(right):
        def f(I, a, k):
            i = bis(right)(I, a, k)
            I.w(a[0])
            a[0].items.insert(i, a[1])
        return f
    ns['insort_left'] = BI('insort_left', ins(False))
    ns['insort'] = ns['insort_right'] = BI('insort', ins(True))


EXT['bisect'] = ext_bisect
