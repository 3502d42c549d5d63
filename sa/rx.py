"""Transfer function of regular expressions on abstract text (sizes known).

Grammar: literals, escapes, classes, ^ $ \\A \\Z, groups, alternation and quantifiers.  Anything else is Unsupported.
Undecided comparisons of characters partition the trace."""
from .num import simp
from .strs import Unsupported
from .vals import CS, Ch, Dec, Rep, Sl

META = '.^$*+?{}[]\\|()'
NONASCII = CS([chr(i) for i in range(128)], True)
ESCS = {'d': '0123456789', 's': ' \t\n\r\f\v', 'w': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'}
I_FLAG, M_FLAG, S_FLAG, A_FLAG, U_FLAG = 2, 8, 16, 256, 32


def syms(I, t):
    """List of characters: str of length 1 or Ch."""
    out = []
    num = I.P.num
    for p in I.parts(t):
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Ch):
            out.append(p.cs.single() or p)
        elif isinstance(p, Rep):
            n = simp(num.norm(p.n))
            if not isinstance(n, int):
                raise Unsupported('regular expression on text of symbolic length')
            out += [Ch(p.cell)] * n
        elif isinstance(p, Sl):
            b, e = simp(num.norm(p.b)), simp(num.norm(p.e))
            if not isinstance(b, int) or not isinstance(e, int):
                raise Unsupported('regular expression on text of symbolic length')
            for i in range(b, e):
                out += syms(I, I.s_index(I.mk([Sl(p.src, 0, p.src.len)]), i))
        elif isinstance(p, Dec):
            n = simp(num.norm(p.v))
            if not isinstance(n, int):
                raise Unsupported('regular expression on a symbolic number')
            out += list(str(n))
        else:
            raise Unsupported('regular expression on uninterpreted text')
    return out


class P(object):
    def __init__(self, s, flags):
        self.s, self.i, self.flags = s, 0, flags

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else None

    def err(self):
        raise Unsupported('form of regular expression')

    def alt(self):
        out = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            out.append(self.seq())
        return out[0] if len(out) == 1 else ('alt', out)

    def seq(self):
        out = []
        while self.i < len(self.s) and self.peek() not in ('|', ')'):
            out.append(self.quant(self.atom()))
        return ('seq', out)

    def quant(self, a):
        while True:
            c = self.peek()
            if c == '*':
                r = (0, None)
            elif c == '+':
                r = (1, None)
            elif c == '?':
                r = (0, 1)
            elif c == '{':
                j, t = self.i + 1, ''
                while j < len(self.s) and self.s[j] != '}':
                    if not isinstance(self.s[j], str):
                        self.err()
                    t += self.s[j]
                    j += 1
                lo, _, hi = t.partition(',')
                if j >= len(self.s) or not (lo + hi).isdigit() or not (lo + hi).isascii():
                    self.err()
                r = (int(lo or 0), int(lo) if ',' not in t else (int(hi) if hi else None))
                self.i = j
            else:
                return a
            self.i += 1
            if self.peek() in ('?', '+', '*', '{'):
                if self.peek() != '?':
                    self.err()
                self.i += 1          # lazy: same language
            a = ('rep', a, r[0], r[1])

    def fold(self, cs):
        if not self.flags & I_FLAG:
            return cs
        if cs.neg or any(ord(x) > 127 for x in cs.s):
            self.err()
        return CS({y for x in cs.s for y in (x.lower(), x.upper())})

    def esc(self, c):
        """Set of the escape \\c."""
        if not isinstance(c, str):
            self.err()
        if c in ESCS:
            return (CS(ESCS[c]), not self.flags & A_FLAG)
        if c.lower() in ESCS:
            return (CS(ESCS[c.lower()], True), not self.flags & A_FLAG)
        if c in 'ntrfv':
            return CS({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v'}[c]), False
        if c.isalnum():
            self.err()
        return CS(c), False

    def atom(self):
        c = self.peek()
        self.i += 1
        if not isinstance(c, str):
            if not (c.cs & CS(META)).empty():
                raise Unsupported('regular expression with an unknown character')
            if self.flags & I_FLAG:
                self.err()
            return ('ch', c)
        if c == '^':
            if self.flags & M_FLAG:
                self.err()
            return ('bos',)
        if c == '$':
            if self.flags & M_FLAG:
                self.err()
            return ('eol',)
        if c == '.':
            return ('set', CS((), True) if self.flags & S_FLAG else CS('\n', True), False)
        if c == '(':
            if self.peek() == '?':
                if self.peek(1) == ':':
                    self.i += 2
                elif self.peek(1) == 'P' and self.peek(2) == '<':
                    while self.peek() != '>':
                        if self.peek() is None:
                            self.err()
                        self.i += 1
                    self.i += 1
                else:
                    self.err()
            a = self.alt()
            if self.peek() != ')':
                self.err()
            self.i += 1
            return a
        if c == '[':
            return self.cls()
        if c == '\\':
            e = self.peek()
            self.i += 1
            if e == 'A':
                return ('bos',)
            if e == 'Z':
                return ('eos',)
            s, u = self.esc(e)
            return ('set', self.fold(s), u)
        if c in '*+?{':
            self.err()
        return ('set', self.fold(CS(c)), False)

    def cls(self):
        neg = self.peek() == '^'
        if neg:
            self.i += 1
        out, u, first = CS(), False, True
        while True:
            c = self.peek()
            if c is None:
                self.err()
            self.i += 1
            if c == ']' and not first:
                break
            first = False
            if not isinstance(c, str):
                if not (c.cs & CS('\\]^-[&|~')).empty() or self.peek() == '-':
                    raise Unsupported('regular expression with an unknown character')
                raise Unsupported('regular expression with an unknown character')
            lo = None
            if c == '\\':
                e = self.peek()
                self.i += 1
                s, uu = self.esc(e)
                u = u or uu
                lo = s.single()
            else:
                s = CS(c)
                lo = c
            if self.peek() == '-' and self.peek(1) not in (']', None):
                hi = self.peek(1)
                self.i += 2
                if hi == '\\':
                    hi = self.esc(self.peek())[0].single()
                    self.i += 1
                if lo is None or not isinstance(hi, str) or ord(hi) < ord(lo) or ord(hi) > 255:
                    self.err()
                s = CS([chr(x) for x in range(ord(lo), ord(hi) + 1)])
            out = out | s
        if self.flags & I_FLAG:
            out = self.fold(out)
        return ('set', ~out if neg else out, u)


def compile_(I, pat, flags):
    if not isinstance(flags, int) or flags & ~(I_FLAG | M_FLAG | S_FLAG | A_FLAG | U_FLAG):
        raise Unsupported('regular expression flags')
    p = P(syms(I, pat), flags)
    a = p.alt()
    if p.i != len(p.s):
        p.err()
    return a


def search(I, how, pat, text, flags=0):
    """Does the expression match (how: match, fullmatch, search)?"""
    a = compile_(I, pat, flags)
    t = syms(I, text)
    n = len(t)

    def one(x, c, u):
        if isinstance(x, Ch) and isinstance(c, str):
            x, c = c, x
        if isinstance(x, CS):
            if isinstance(c, str):
                if u and ord(c) > 127:
                    raise Unsupported('Unicode class of a regular expression')
                return c in x
            if u and not (c.cs & NONASCII).empty():
                raise Unsupported('Unicode class of a regular expression')
            return I.ch_in(c, x)
        f = lambda v: v if isinstance(v, str) else I.mk([v])
        return I.py_eq(f(x), f(c))

    def go(a, i, k):
        op = a[0]
        if op == 'seq':
            return chain(a[1], 0, i, k)
        if op == 'alt':
            return any(go(x, i, k) for x in a[1])
        if op == 'bos':
            return i == 0 and k(i)
        if op == 'eos':
            return i == n and k(i)
        if op == 'eol':
            if i == n:
                return k(i)
            return i == n - 1 and one(CS('\n'), t[i], False) and k(i)
        if op == 'set':
            return i < n and one(a[1], t[i], a[2]) and k(i + 1)
        if op == 'ch':
            return i < n and one(a[1], t[i], False) and k(i + 1)
        if op == 'rep':
            def more(j, m):
                if (a[3] is None or m < a[3]) and go(a[1], j, lambda e: (e > j or m < a[2]) and more(e, m + 1)):
                    return True
                return m >= a[2] and k(j)
            return more(i, 0)
        raise Unsupported('form of regular expression')

    def chain(xs, q, i, k):
        if q == len(xs):
            return k(i)
        return go(xs[q], i, lambda e: chain(xs, q + 1, e, k))

    end = (lambda e: e == n) if how == 'fullmatch' else (lambda e: True)
    starts = range(n + 1) if how == 'search' else (0,)
    return any(go(a, s, end) for s in starts)
