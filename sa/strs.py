"""Operations on abstract strings (mixin of the interpreter)."""
from .num import Dead, Lin, simp
from .vals import (ANY, CS, DIGITS, Cell, Ch, Dec, Fn, Rep, Sl, Src, Str, Top)

WS = CS(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')


class Unsupported(Exception):
    """The analyser has no model for a construct: the path is undecided."""


class StrOps(object):

    # -- building ---------------------------------------------------------
    def mk(self, parts, kind='str'):
        num = self.P.num
        sym = self.P.sym
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
                continue
            if isinstance(p, Rep):
                n = num.norm(p.n)
                if n.const():
                    if n.c <= 0:
                        continue
                    if n.c == 1:
                        p = Ch(p.cell)
                    else:
                        s = p.cs.single()
                        if s is not None and not p.cell.find().rep:
                            p = s * int(n.c)
                        elif not sym:
                            for _ in range(int(n.c)):
                                out.append(Ch(p.cell))
                            continue
            elif isinstance(p, Sl):
                n = num.norm(p.length())
                if n.const():
                    if n.c <= 0:
                        continue
                    if n.c == 1:
                        p = Ch(self.src_char(p.src, p.b, p.cs))
            elif isinstance(p, Dec):
                v = num.norm(p.v)
                if v.const():
                    p = str(simp(v))
            if isinstance(p, Ch):
                s = p.cs.single()
                if s is not None and not p.cell.find().rep and \
                        (not sym or p.cell.src is None):
                    p = s
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
                continue
            if sym and out and not isinstance(out[-1], str):
                q = self._merge(out[-1], p)
                if q is not None:
                    out[-1] = q
                    continue
            out.append(p)
        if not out:
            return '' if kind == 'str' else b''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0] if kind == 'str' else out[0].encode('latin-1')
        return Str(out, kind)

    def _merge(self, a, b):
        num = self.P.num
        if isinstance(a, (Ch, Rep)) and isinstance(b, (Ch, Rep)):
            if a.cell.find() is b.cell.find() and a.cell.find().rep:
                na = a.n if isinstance(a, Rep) else Lin.of(1)
                nb = b.n if isinstance(b, Rep) else Lin.of(1)
                return Rep(a.cell, na.add(nb))
        x = self._span(a)
        y = self._span(b)
        if x is None or y is None or x[0] is not y[0]:
            return None
        d = num.norm(x[2].add(y[1], -1))
        if d.const() and d.c == 0:
            return Sl(x[0], x[1], y[2], x[3] | y[3])
        return None

    @staticmethod
    def _span(p):
        if isinstance(p, Sl):
            return p.src, p.b, p.e, p.cs
        if isinstance(p, Ch) and p.cell.src is not None:
            return p.cell.src, p.cell.pos, p.cell.pos.add(1), p.cs
        return None

    def src_char(self, src, pos, cs):
        pos = self.P.num.norm(pos)
        for p, c in src.cells:
            d = self.P.num.norm(p.add(pos, -1))
            if d.const() and d.c == 0:
                return c
        c = self.new_cell(cs, src, pos)
        src.cells.append((pos, c))
        return c

    def new_cell(self, cs, src=None, pos=None, rep=False):
        self.P.ncell += 1
        return Cell(self.P.ncell, cs, src, pos, rep)

    def parts(self, s):
        if isinstance(s, Str):
            return list(s.parts)
        if isinstance(s, bytes):
            s = s.decode('latin-1')
        if isinstance(s, str):
            return [s] if s else []
        raise Unsupported('not a string: %r' % (s,))

    @staticmethod
    def kind(s):
        if isinstance(s, Str):
            return s.kind
        return 'bytes' if isinstance(s, bytes) else 'str'

    @staticmethod
    def is_str(s):
        return isinstance(s, (str, bytes, Str))

    def plen(self, p):
        if isinstance(p, str):
            return Lin.of(len(p))
        if isinstance(p, Ch):
            return Lin.of(1)
        if isinstance(p, Rep):
            return p.n
        if isinstance(p, Sl):
            return p.length()
        return p.len

    def s_len(self, s):
        if isinstance(s, (str, bytes)):
            return len(s)
        n = Lin()
        for p in s.parts:
            n = n.add(self.plen(p))
        return simp(self.P.num.norm(n))

    def const(self, s):
        """Native string when every character is determined, else None."""
        if isinstance(s, (str, bytes)):
            return s
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, (Ch, Rep)):
                c = p.cs.single()
                if c is None:
                    return None
                n = self.P.num.norm(self.plen(p))
                if not n.const():
                    return None
                out.append(c * int(n.c))
            elif isinstance(p, Dec):
                v = self.P.num.norm(p.v)
                if not v.const():
                    return None
                out.append(str(simp(v)))
            elif isinstance(p, Sl):
                n = self.P.num.norm(p.length())
                if not (n.const() and n.c == 0):
                    return None
            else:
                return None
        r = ''.join(out)
        return r if s.kind == 'str' else r.encode('latin-1')

    def chars(self, s):
        """List of single characters (str or Ch), or None."""
        out = []
        for p in self.parts(s):
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, Ch):
                out.append(p)
            elif isinstance(p, Rep):
                n = self.P.num.norm(p.n)
                if not n.const():
                    return None
                out.extend([Ch(p.cell)] * int(n.c))
            elif isinstance(p, Sl):
                n = self.P.num.norm(p.length())
                if not n.const():
                    return None
                for i in range(int(n.c)):
                    out.append(Ch(self.src_char(p.src, p.b.add(i), p.cs)))
            elif isinstance(p, Dec):
                v = self.P.num.norm(p.v)
                if not v.const():
                    return None
                out.extend(str(simp(v)))
            else:
                return None
        return out

    # -- characters -------------------------------------------------------
    def refine(self, cell, cs):
        cell = cell.find()
        if cs.empty():
            raise Dead()
        cell.cs = cs
        s = cs.single()
        if s is not None:
            for d in cell.diseq:
                d = d.find()
                if d is cell:
                    raise Dead()
                if s in d.cs:
                    self.refine(d, d.cs - CS(s))

    def ch_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, str):
            x, y = y, x
        cx = x.cell.find()
        if isinstance(y, Ch):
            cy = y.cell.find()
            if cx is cy:
                return True
            if (cx.cs & cy.cs).empty():
                return False
            if any(d.find() is cy for d in cx.diseq):
                return False
            sx, sy = cx.cs.single(), cy.cs.single()
            if sy is None and sx is not None:
                cx, cy, sx, sy = cy, cx, sy, sx
            if sy is None:
                if self.choose(2, 'chars %r == %r' % (x, y)) == 0:
                    cx.diseq.append(cy)
                    cy.diseq.append(cx)
                    return False
                both = cx.cs & cy.cs
                cx.up = cy
                cy.diseq = cy.diseq + cx.diseq
                self.refine(cy, both)
                return True
            y = sy
        if y not in cx.cs:
            return False
        if cx.cs.single() is not None:
            return True
        if self.choose(2, 'char %r == %r' % (x, y)) == 0:
            self.refine(cx, cx.cs - CS(y))
            return False
        self.refine(cx, CS(y))
        return True

    def ch_in(self, x, cs):
        """Is character x in the charset cs (forks)."""
        if isinstance(x, str):
            return x in cs
        c = x.cell.find()
        a, b = c.cs & cs, c.cs - cs
        if b.empty():
            return True
        if a.empty():
            return False
        if self.choose(2, 'char in %r' % (cs,)) == 0:
            self.refine(c, a)
            return True
        self.refine(c, b)
        return False

    # -- positions --------------------------------------------------------
    def s_split_at(self, parts, i):
        """Split parts at character offset i (assumed within bounds)."""
        num = self.P.num
        i = num.norm(i)
        left = []
        parts = list(parts)
        while parts:
            if i.const() and i.c == 0:
                break
            p = parts[0]
            n = num.norm(self.plen(p))
            d = num.norm(i.add(n, -1))
            if self.ge0(d):            # whole part is left
                left.append(p)
                parts.pop(0)
                i = self.P.num.norm(i.add(n, -1))
                num = self.P.num
                continue
            if self.eq0(i):
                break
            num = self.P.num
            if isinstance(p, str):
                k = self.enum_int(i, 0, len(p))
                left.append(p[:k])
                parts[0] = p[k:]
            elif isinstance(p, Rep):
                left.append(Rep(p.cell, i))
                parts[0] = Rep(p.cell, p.n.add(i, -1))
            elif isinstance(p, Sl):
                m = p.b.add(i)
                left.append(Sl(p.src, p.b, m, p.cs))
                parts[0] = Sl(p.src, m, p.e, p.cs)
            elif isinstance(p, Fn) and i.const() and n.const() and p.name[:3] in ('md5', 'sha', 'bla'):
                left.append(Fn('%s[:%d]' % (p.name, i.c), p.args, i, p.cs))
                parts[0] = Fn('%s[%d:]' % (p.name, i.c), p.args, n.add(i, -1), p.cs)
            else:
                raise Unsupported('split inside %r' % (p,))
            break
        return left, parts

    def s_slice(self, s, a, b):
        if isinstance(s, (str, bytes)) and not isinstance(a, Lin) and not isinstance(b, Lin):
            return s[a:b]
        n = self.s_len(s)
        a = self.clamp(0 if a is None else a, n)
        b = self.clamp(n if b is None else b, n)
        if not self.ge0(Lin.of(b).add(a, -1)):
            return self.mk([], self.kind(s))
        left, _ = self.s_split_at(self.parts(s), Lin.of(b))
        _, mid = self.s_split_at(left, Lin.of(a))
        return self.mk(mid, self.kind(s))

    def clamp(self, i, n):
        if not self.ge0(i):
            i = simp(self.P.num.norm(Lin.of(i).add(n)))
            if not self.ge0(i):
                i = 0
        if not self.ge0(Lin.of(n).add(i, -1)):
            i = n
        return i

    def s_index(self, s, i):
        if isinstance(s, str) and isinstance(i, int):
            if -len(s) <= i < len(s):
                return s[i]
            self.throw('IndexError', 'string index out of range')
        if self.kind(s) == 'bytes':
            raise Unsupported('index into bytes')
        n = self.s_len(s)
        if not self.ge0(i):
            i = simp(Lin.of(i).add(n))
        if not self.ge0(i) or not self.ge0(Lin.of(n).add(i, -1).add(-1)):
            self.throw('IndexError', 'string index out of range')
        i = Lin.of(i)
        for p in self.parts(s):
            l = self.plen(p)
            if self.ge0(l.add(i, -1).add(-1)):
                if isinstance(p, str):
                    return p[self.enum_int(i, 0, len(p))]
                if isinstance(p, (Ch, Rep)):
                    return self.mk([Ch(p.cell)])
                if isinstance(p, Sl):
                    return self.mk([Ch(self.src_char(p.src, p.b.add(i), p.cs))])
                if isinstance(p, Dec):
                    return self.mk([Ch(self.new_cell(DIGITS))])
                raise Unsupported('index into %r' % (p,))
            i = self.P.num.norm(i.add(l, -1))
        raise Unsupported('index')

    def enum_int(self, e, lo, hi):
        """Value of e, known to lie in [lo, hi): forks over the values."""
        e = self.P.num.norm(e)
        if e.const():
            return int(e.c)
        for k in range(lo, hi):
            if self.eq0(e.add(-k)):
                return k
        raise Dead()

    # -- comparison -------------------------------------------------------
    def s_eq(self, a, b):
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        if self.kind(a) != self.kind(b):
            return False
        num = self.P.num
        pa, pb = self.parts(a), self.parts(b)
        for end in (0, -1):
            r = self._eq_side(pa, pb, end)
            if r is False:
                return False
        if not pa and not pb:
            return True
        if not pa or not pb:
            n = Lin()
            for p in pa or pb:
                n = n.add(self.plen(p))
            return self.eq0(n)
        la = lb = Lin()
        for p in pa:
            la = la.add(self.plen(p))
        for p in pb:
            lb = lb.add(self.plen(p))
        if self.P.num.decide_eq(la.add(lb, -1)) is False:
            return False
        # a mandatory character of one side that the other cannot contain
        for x, y in ((pa, pb), (pb, pa)):
            cs = CS()
            for p in y:
                cs = cs | self.pcs(p)
            for p in x:
                if self.P.num.prove_ge(self.plen(p).add(-1)) and (self.pcs(p) & cs).empty():
                    return False
        ca, cb = self.chars(self.mk(pa)), self.chars(self.mk(pb))
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return all([self.ch_eq(x, y) for x, y in zip(ca, cb)])
        k = (self.skey(pa), self.skey(pb))
        if k in self.P.eqmemo:
            return self.P.eqmemo[k]
        r = bool(self.choose(2, 'strings %r == %r' % (a, b)))
        if r:
            self.P.exact = False
        self.P.eqmemo[k] = r
        self.P.eqmemo[(k[1], k[0])] = r
        return r

    def pcs(self, p):
        return CS(p) if isinstance(p, str) else p.cs

    def skey(self, parts):
        n = self.P.num.norm
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Ch):
                out.append(('c', p.cell.find().uid))
            elif isinstance(p, Rep):
                out.append(('r', p.cell.find().uid, n(p.n).key()))
            elif isinstance(p, Sl):
                out.append(('s', p.src.uid, n(p.b).key(), n(p.e).key()))
            elif isinstance(p, Dec):
                out.append(('d', n(p.v).key()))
            else:
                out.append(('f', p.name, tuple(self.vkey(x) for x in p.args)))
        return tuple(out)

    def vkey(self, v):
        if isinstance(v, Str):
            return (v.kind, self.skey(v.parts))
        if isinstance(v, Lin):
            return self.P.num.norm(v).key()
        if isinstance(v, tuple):
            return tuple(self.vkey(x) for x in v)
        if isinstance(v, (str, bytes, int, float, type(None))):
            return v
        return id(v)

    def _eq_side(self, pa, pb, end):
        """Consume matching parts at one end; False when they differ."""
        num = self.P.num
        while pa and pb:
            x, y = pa[end], pb[end]
            if isinstance(x, str) and isinstance(y, str):
                k = 0
                m = min(len(x), len(y))
                if end == 0:
                    while k < m and x[k] == y[k]:
                        k += 1
                    if k < m:
                        return False
                    pa[0], pb[0] = x[k:], y[k:]
                else:
                    while k < m and x[-1 - k] == y[-1 - k]:
                        k += 1
                    if k < m:
                        return False
                    pa[-1], pb[-1] = x[:len(x) - k], y[:len(y) - k]
                for q in (pa, pb):
                    if not q[end]:
                        q.pop(end)
                continue
            if self._same(x, y):
                pa.pop(end)
                pb.pop(end)
                continue
            if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name \
                    and len(pa) == 1 and len(pb) == 1 and len(x.args) == len(y.args):
                for u, v in zip(x.args, y.args):
                    if not self.py_eq(u, v):
                        return False
                pa.pop()
                pb.pop()
                continue
            if isinstance(x, Rep) and isinstance(y, Rep) and x.cell.find() is y.cell.find():
                d = num.norm(x.n.add(y.n, -1))
                if num.prove_ge(d):
                    pb.pop(end)
                    pa[end] = Rep(x.cell, d)
                    self._drop0(pa, end)
                    continue
                if num.prove_ge(d.scale(-1)):
                    pa.pop(end)
                    pb[end] = Rep(x.cell, d.scale(-1))
                    self._drop0(pb, end)
                    continue
            if isinstance(x, Sl) and isinstance(y, Sl) and x.src is y.src and \
                    num.norm((x.b if end == 0 else x.e).add(y.b if end == 0 else y.e, -1)).key() == ((), 0):
                d = num.norm(x.length().add(y.length(), -1))
                if num.prove_ge(d):
                    pb.pop(end)
                    pa[end] = Sl(x.src, y.e, x.e, x.cs) if end == 0 else Sl(x.src, x.b, y.b, x.cs)
                    self._drop0(pa, end)
                    continue
                if num.prove_ge(d.scale(-1)):
                    pa.pop(end)
                    pb[end] = Sl(x.src, x.e, y.e, y.cs) if end == 0 else Sl(x.src, y.b, x.b, y.cs)
                    self._drop0(pb, end)
                    continue
            cx, cy = self._front(pa, end), self._front(pb, end)
            if cx is None or cy is None:
                # both fronts certainly non-empty but over disjoint characters?
                if num.prove_ge(self.plen(x).add(-1)) and num.prove_ge(self.plen(y).add(-1)) \
                        and (self._fcs(x, end) & self._fcs(y, end)).empty():
                    return False
                # a possibly empty part against a fixed character it cannot hold
                for p, q, f in ((pa, pb, cy), (pb, pa, cx)):
                    if f is not None and not isinstance(p[end], (str, Ch)):
                        fc = CS(f) if isinstance(f, str) else f.cs
                        if (self.pcs(p[end]) & fc).empty():
                            if self.eq0(self.plen(p[end])):
                                p.pop(end)
                                break
                            return False
                else:
                    # finite text against a run: peel one character
                    if isinstance(x, (str, Ch)) and isinstance(y, (Rep, Sl)) and self._finite(pa):
                        if not self._peel(pb, end):
                            continue
                        continue
                    if isinstance(y, (str, Ch)) and isinstance(x, (Rep, Sl)) and self._finite(pb):
                        self._peel(pa, end)
                        continue
                    return None
                continue
            if not self.ch_eq(cx, cy):
                return False
            self._pop_front(pa, end)
            self._pop_front(pb, end)
        return None

    _BELOW = {}

    def below(self, x):
        """The characters before x."""
        if x not in self._BELOW:
            self._BELOW[x] = CS([chr(i) for i in range(ord(x))])
        return self._BELOW[x]

    def s_cmp(self, a, b):
        """Sign of the lexicographic comparison of two unequal texts, or None if the domain cannot tell."""
        pa, pb = list(self.parts(a)), list(self.parts(b))
        peels = 0
        while pa and pb:
            for ps in (pa, pb):
                if ps and self._front(ps, 0) is None:
                    peels += 1
                    if not isinstance(ps[0], (Rep, Sl)) or peels > 4:
                        return None
                    self._peel(ps, 0)
                    break
            else:
                x, y = self._front(pa, 0), self._front(pb, 0)
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        return -1 if x < y else 1
                elif isinstance(x, str) or isinstance(y, str):
                    k, c, sg = (x, y, 1) if isinstance(x, str) else (y, x, -1)
                    if ord(k) > 0x3000:
                        return None
                    if not self.ch_eq(c, k):
                        return sg if self.ch_in(c, self.below(k)) else -sg
                else:
                    p, q = x.cell.find().cs, y.cell.find().cs
                    if not p.neg and not q.neg and p.s and q.s and (max(p.s) < min(q.s) or max(q.s) < min(p.s)):
                        return -1 if max(p.s) < min(q.s) else 1
                    if not self.ch_eq(x, y):
                        return None
                self._pop_front(pa, 0)
                self._pop_front(pb, 0)
        for ps, r in ((pa, 1), (pb, -1)):
            for q in ps:
                if isinstance(q, (str, Ch)) and len(ps):
                    return r
                if self.ge0(self.plen(q).add(-1)):
                    return r
        return None

    def _finite(self, ps):
        return all(isinstance(p, (str, Ch)) for p in ps)

    def _drop0(self, ps, end):
        if self.P.num.norm(self.plen(ps[end])).key() == ((), 0):
            ps.pop(end)

    def _fcs(self, p, end):
        return CS(p[end]) if isinstance(p, str) else p.cs

    def _front(self, ps, end):
        p = ps[end]
        if isinstance(p, str):
            return p[end]
        if isinstance(p, Ch):
            return p
        return None

    def _pop_front(self, ps, end):
        p = ps[end]
        if isinstance(p, str) and len(p) > 1:
            ps[end] = p[1:] if end == 0 else p[:-1]
        else:
            ps.pop(end)

    def _peel(self, ps, end):
        """Split one character off a Rep/Sl part (forks on emptiness)."""
        p = ps[end]
        n = self.plen(p)
        if not self.ge0(n.add(-1)):
            ps.pop(end)
            return False
        if isinstance(p, Rep):
            two = [Ch(p.cell), Rep(p.cell, n.add(-1))]
        elif end == 0:
            two = [Ch(self.src_char(p.src, p.b, p.cs)), Sl(p.src, p.b.add(1), p.e, p.cs)]
        else:
            two = [Ch(self.src_char(p.src, p.e.add(-1), p.cs)), Sl(p.src, p.b, p.e.add(-1), p.cs)]
        if end == 0:
            ps[0:1] = two
        else:
            ps[-1:] = two[::-1]
        if self.P.num.norm(n.add(-1)).key() == ((), 0):
            ps.pop(1 if end == 0 else -2)
        return True

    def _same(self, x, y):
        num = self.P.num

        def z(a, b):
            return num.norm(a.add(b, -1)).key() == ((), 0)
        if type(x) is not type(y) or isinstance(x, str):
            return False
        if isinstance(x, Ch):
            return x.cell.find() is y.cell.find()
        if isinstance(x, Rep):
            return x.cell.find() is y.cell.find() and z(x.n, y.n)
        if isinstance(x, Sl):
            return x.src is y.src and z(x.b, y.b) and z(x.e, y.e)
        if isinstance(x, Dec):
            return z(x.v, y.v)
        if isinstance(x, Fn):
            return x.name == y.name and self.vkey(tuple(x.args)) == self.vkey(tuple(y.args))
        return False

    # -- search -----------------------------------------------------------
    def s_find(self, s, sub, start=0, end=None, rev=False):
        """Offset of sub in s or -1."""
        if isinstance(s, (str, bytes)) and isinstance(sub, (str, bytes)) \
                and not isinstance(start, Lin) and not isinstance(end, Lin):
            return (s.rfind if rev else s.find)(sub, start, len(s) if end is None else end)
        sub = self.const(sub)
        if sub is None:
            raise Unsupported('find of a symbolic string')
        if isinstance(sub, bytes):
            sub = sub.decode('latin-1')
        if not sub:
            raise Unsupported('find of empty string')
        n = self.s_len(s)
        base = Lin()
        body = s
        if end is not None:
            end = self.clamp(end, n)
            body = self.s_slice(s, 0, end)
            n = self.s_len(body)
        if not (isinstance(start, int) and start == 0):
            if self.ge0(start) and not self.ge0(Lin.of(n).add(start, -1)):
                return -1
            start = self.clamp(start, n)
            body = self.s_slice(body, start, None)
            base = Lin.of(start)
        ps = self.parts(body)
        offs = []
        o = base
        for p in ps:
            offs.append(o)
            o = o.add(self.plen(p))
        order = range(len(ps) - 1, -1, -1) if rev else range(len(ps))
        for k in order:
            p = ps[k]
            if isinstance(p, str):
                js = range(len(p) - 1, -1, -1) if rev else range(len(p))
                for j in js:
                    if p[j] != sub[0]:
                        continue
                    if self._match_at([p[j:]] + ps[k + 1:], sub):
                        return simp(self.P.num.norm(offs[k].add(j)))
            elif isinstance(p, Ch):
                if sub[0] not in p.cs:
                    continue
                if self._match_at(ps[k:], sub):
                    return simp(self.P.num.norm(offs[k]))
            else:
                if sub[0] not in self.pcs(p):
                    continue
                if isinstance(p, Fn):
                    raise Unsupported('find in %r' % (p,))
                n = self.P.num.norm(self.plen(p))
                if isinstance(p, Rep):
                    if len(sub) == 1:
                        if self.ch_eq(Ch(p.cell), sub):
                            if self.ge0(n.add(-1)):
                                o = offs[k] if not rev else offs[k].add(n).add(-1)
                                return simp(self.P.num.norm(o))
                        continue
                    if not self.ch_eq(Ch(p.cell), sub[0]):
                        continue
                    if self.eq0(n):
                        continue
                    if n.const() is False and len(set(sub)) > 1 and sub[1] != sub[0]:
                        # only the last copy can start a match
                        if self._match_at([sub[0]] + ps[k + 1:], sub):
                            return simp(self.P.num.norm(offs[k].add(n).add(-1)))
                        continue
                if n.const():
                    cs = self.chars(self.mk([p]))
                    js = range(len(cs) - 1, -1, -1) if rev else range(len(cs))
                    for j in js:
                        if self._match_at(cs[j:] + ps[k + 1:], sub):
                            return simp(self.P.num.norm(offs[k].add(j)))
                    continue
                if isinstance(p, Sl) and len(sub) == 1 and p.cs.single() == sub:
                    if self.ge0(n.add(-1)):
                        o = offs[k] if not rev else offs[k].add(n).add(-1)
                        return simp(self.P.num.norm(o))
                    continue
                if self.eq0(n):
                    continue
                raise Unsupported('find %r in %r' % (sub, p))
        return -1

    def _match_at(self, ps, sub):
        ps = list(ps)
        for c in sub:
            while True:
                if not ps:
                    return False
                p = ps[0]
                if isinstance(p, (str, Ch)):
                    f = self._front(ps, 0)
                    if not self.ch_eq(f, c):
                        return False
                    self._pop_front(ps, 0)
                    break
                if isinstance(p, (Rep, Sl)):
                    if c not in p.cs and self.P.num.prove_ge(self.plen(p).add(-1)):
                        return False
                    self._peel(ps, 0)
                    continue
                if c not in self.pcs(p):
                    if self.P.num.prove_ge(self.plen(p).add(-1)):
                        return False
                raise Unsupported('match in %r' % (p,))
        return True

    def s_startswith(self, s, t):
        if isinstance(t, tuple):
            return any(self.s_startswith(s, x) for x in t)
        if isinstance(s, (str, bytes)) and isinstance(t, (str, bytes)):
            return s.startswith(t)
        t = self.const(t)
        if t is None:
            raise Unsupported('startswith symbolic')
        if isinstance(t, bytes):
            t = t.decode('latin-1')
        return self._match_at(self.parts(s), t)

    def s_endswith(self, s, t):
        if isinstance(t, tuple):
            return any(self.s_endswith(s, x) for x in t)
        if isinstance(s, (str, bytes)) and isinstance(t, (str, bytes)):
            return s.endswith(t)
        t = self.const(t)
        if t is None:
            raise Unsupported('endswith symbolic')
        if isinstance(t, bytes):
            t = t.decode('latin-1')
        ps = self.parts(s)
        for c in reversed(t):
            while True:
                if not ps:
                    return False
                p = ps[-1]
                if isinstance(p, (str, Ch)):
                    if not self.ch_eq(self._front(ps, -1), c):
                        return False
                    self._pop_front(ps, -1)
                    break
                if isinstance(p, (Rep, Sl)):
                    if c not in p.cs and self.P.num.prove_ge(self.plen(p).add(-1)):
                        return False
                    self._peel(ps, -1)
                    continue
                if c not in self.pcs(p) and self.P.num.prove_ge(self.plen(p).add(-1)):
                    return False
                raise Unsupported('endswith in %r' % (p,))
        return True

    def s_strip(self, s, chars=None, left=True, right=True):
        if isinstance(s, (str, bytes)) and (chars is None or isinstance(chars, (str, bytes))):
            if left and right:
                return s.strip(chars)
            return s.lstrip(chars) if left else s.rstrip(chars)
        cs = WS
        if chars is not None:
            c = self.const(chars)
            if c is None:
                raise Unsupported('strip symbolic')
            cs = CS(c if isinstance(c, str) else c.decode('latin-1'))
        ps = self.parts(s)
        for end in ([0] if left else []) + ([-1] if right else []):
            while ps:
                p = ps[end]
                if isinstance(p, (str, Ch)):
                    if not self.ch_in(self._front(ps, end), cs):
                        break
                    self._pop_front(ps, end)
                    continue
                if isinstance(p, Sl) and 'stripped' in p.src.tags and chars is None:
                    if self.ge0(p.length().add(-1)):
                        break
                    ps.pop(end)
                    continue
                if (self.pcs(p) & cs).empty():
                    if self.ge0(self.plen(p).add(-1)):
                        break
                    ps.pop(end)
                    continue
                if isinstance(p, Rep):
                    if self.ch_in(Ch(p.cell), cs):
                        ps.pop(end)
                        continue
                    if self.ge0(p.n.add(-1)):
                        break
                    ps.pop(end)
                    continue
                n = self.P.num.norm(self.plen(p))
                if n.const() and isinstance(p, Sl):
                    exp = self.chars(self.mk([p]))
                    if end == 0:
                        ps[0:1] = exp
                    else:
                        ps[-1:] = exp
                    continue
                raise Unsupported('strip %r' % (p,))
        return self.mk(ps, self.kind(s))

    def s_split(self, s, sep=None, maxsplit=-1, rev=False):
        if isinstance(s, (str, bytes)) and (sep is None or isinstance(sep, (str, bytes))):
            return list((s.rsplit if rev else s.split)(sep, maxsplit))
        if sep is None:
            raise Unsupported('whitespace split')
        out = []
        sp = self.const(sep)
        if sp is None:
            raise Unsupported('split by symbolic')
        rest = s
        while maxsplit != 0:
            i = self.s_find(rest, sp, rev=rev)
            if isinstance(i, int) and i == -1:
                break
            if rev:
                out.insert(0, self.s_slice(rest, Lin.of(i).add(len(sp)) if isinstance(i, Lin) else i + len(sp), None))
                rest = self.s_slice(rest, 0, i)
            else:
                out.append(self.s_slice(rest, 0, i))
                rest = self.s_slice(rest, simp(Lin.of(i).add(len(sp))), None)
            maxsplit -= 1
        if rev:
            out.insert(0, rest)
        else:
            out.append(rest)
        return out

    def s_replace(self, s, a, b, count=-1):
        if all(isinstance(x, (str, bytes)) for x in (s, a, b)):
            return s.replace(a, b, count)
        ps = self.s_split(s, a, count)
        return self.s_join(b, ps)

    def s_join(self, sep, items):
        out = []
        k = self.kind(sep)
        sp = self.parts(sep)
        for i, x in enumerate(items):
            if isinstance(x, Top):
                return x
            if not self.is_str(x):
                self.throw('TypeError', 'sequence item %d: expected str instance' % i)
            if self.kind(x) != k:
                self.throw('TypeError', 'sequence item %d: wrong type' % i)
            if i:
                out.extend(sp)
            out.extend(self.parts(x))
        return self.mk(out, k)

    def s_all(self, s, cs, native):
        """isdigit() and friends."""
        c = self.const(s)
        if c is not None:
            return native(c)
        n = Lin.of(self.s_len(s))
        if not self.ge0(n.add(-1)):
            return False
        for p in self.parts(s):
            if isinstance(p, str):
                if not native(p):
                    return False
            elif self.pcs(p) <= cs:
                continue
            elif isinstance(p, Ch):
                if not self.ch_in(p, cs):
                    return False
            elif isinstance(p, Rep):
                if self.ge0(p.n.add(-1)) and not self.ch_in(Ch(p.cell), cs):
                    return False
            elif (self.pcs(p) & cs).empty():
                if self.ge0(self.plen(p).add(-1)):
                    return False
            else:
                raise Unsupported('character test on %r' % (p,))
        return True

    def s_mul(self, s, n):
        if not isinstance(n, Lin):
            if isinstance(s, (str, bytes)):
                return s * n
            return self.mk(self.parts(s) * max(0, n), self.kind(s))
        ps = self.parts(s)
        if len(ps) == 1:
            p = ps[0]
            if isinstance(p, str) and len(p) == 1:
                return self.mk([Rep(self.new_cell(CS(p), rep=True), n)], self.kind(s))
            if isinstance(p, Ch):
                p.cell.find().rep = True
                return self.mk([Rep(p.cell, n)], self.kind(s))
        raise Unsupported('string repetition')
