"""Abstract URLs, corpora and the specification of matching."""
import re

from ..interp import PyExc
from ..num import Lin, simp
from ..spec import (ALPHABET, BAD, CLASS, DIG, LOW, SIGNS, UP, Tok, dec, fuzzy, piece,
                    raw, rep, rule_of, rule_of_sign, total, unit)
from ..strs import Unsupported
from ..vals import ANY, CS, Ch, Dec, Opq, Rep, Sl, Str, VList, VSet

LETTER = {'a': 'a-z', 'A': 'A-Z', '9': '0-9'}
PINS = (1, 2, 3)


class Const(object):
    """A run with known text."""

    def __init__(self, c, text):
        self.c = c
        self.raw = text
        self.rule = rule_of(text[0])
        self.kind = self.rule
        self.sign = self.rule not in CLASS
        self.n = len(text)

    @property
    def piece(self):
        return unit(self.c, self.rule, self.n) if self.sign else self.raw


def level(c, spec, name, pins=PINS):
    """Tokens of one piece.  ``spec``: blank separated items
    a A 9        run of a class, length from pins
    a3           run of that length
    a3!          ... whose first character differs from those of all other ! runs
    -  -2        run of a sign
    'text        constant run (one class)
    """
    out = []
    for i, it in enumerate(spec.split()):
        nm = '%s.%d' % (name, i)
        if it[0] == "'" and len(it) > 1:
            out.append(Const(c, c.word(it[1:])))
            continue
        bang = it.endswith('!') and len(it) > 1
        if bang:
            it = it[:-1]
        k, n = it[0], it[1:]
        if k in LETTER:
            t = Tok(c, LETTER[k], nm, n=int(n) if n else None, pins=pins)
            if bang:
                distinct(c, t)
            out.append(t)
        else:
            out.append(Tok(c, k, nm, n=int(n) if n else 1))
    return out


def distinct(c, t):
    p = c.I.parts(t.raw)[0]
    if isinstance(p, str):
        return
    if not isinstance(p, Ch):
        ch = c.I.s_index(t.raw, 0)
        p = c.I.parts(ch)[0]
    cell = p.cell.find()
    for d in c.__dict__.setdefault('bang', []):
        if not (d.find().cs & cell.cs).empty():
            cell.diseq.append(d.find())
            d.find().diseq.append(cell)
    c.bang.append(cell)


class U(object):
    """An abstract URL: path levels, query items (key, value), fragment."""

    def __init__(self, c, name, path, query=None, frag=None, pins=PINS, host='http://h'):
        self.c = c
        self.name = name
        self.paths = [level(c, p, '%s/%d' % (name, i), pins) for i, p in enumerate(path)]
        self.query = None
        if query is not None:
            self.query = [(k, level(c, v, '%s?%d' % (name, i), pins)) for i, (k, v) in enumerate(query)]
        self.frag = None if frag is None else level(c, frag, name + '#', pins)
        parts = [host]
        for p in self.paths:
            parts += ['/', raw(c, p)]
        if self.query is not None:
            for i, (k, v) in enumerate(self.query):
                parts += ['?' if not i else '&', k, raw(c, v)]
        if self.frag is not None:
            parts += ['#', raw(c, self.frag)]
        self.text = c.note(name, c.cat(*parts))
        self.levels = self.paths + [v for _, v in self.query or []] + \
            ([self.frag] if self.frag is not None else [])
        self.pi = []
        for x in self.levels:
            self.pi.append(c.keep(c.cat(*[t.raw for t in x])))

    def key(self):
        return (len(self.paths), tuple(k for k, _ in self.query or ()) if self.query is not None else None,
                self.frag is not None)

    def literal(self):
        """Text of the literal URL pattern."""
        return assemble(self, [piece(self.c, x) for x in self.levels])


def assemble(u, pieces):
    """URL pattern text of the given level patterns."""
    parts = []
    n = len(u.paths)
    for p in pieces[:n]:
        parts += ['/', p]
    if u.query is not None:
        for i, (k, _) in enumerate(u.query):
            parts += ['[\\?]' if not i else '&', k, pieces[n + i]]
    if u.frag is not None:
        parts += ['#', pieces[-1]]
    return u.c.cat(*parts)


# -- specification of patterns on abstract text (sizes are constants) ---------
def syms(c, t):
    """List of characters: str of length 1 or Ch."""
    out = []
    for p in c.I.parts(t):
        if isinstance(p, str):
            out += list(p)
        elif isinstance(p, Ch):
            k = p.cs.single() if hasattr(p.cs, 'single') else None
            out.append(k if k else p)
        elif isinstance(p, Rep):
            n = simp(c.P.num.norm(p.n))
            if not isinstance(n, int):
                raise Unsupported('symbolic length')
            out += [Ch(p.cell)] * n
        elif isinstance(p, Sl):
            b, e = simp(c.P.num.norm(p.b)), simp(c.P.num.norm(p.e))
            if not isinstance(b, int) or not isinstance(e, int):
                raise Unsupported('symbolic length')
            for i in range(b, e):
                out += syms(c, c.I.s_index(c.I.mk([Sl(p.src, 0, p.src.len)]), i))
        elif isinstance(p, Dec):
            n = simp(c.P.num.norm(p.v))
            if not isinstance(n, int):
                raise Unsupported('symbolic number')
            out += list(str(n))
        else:
            raise Unsupported('text %r' % (p,))
    return out


def split_levels(c, u, pat):
    """Level patterns (lists of symbols) of a URL pattern with u's structure,
    or None when it is not of that structure."""
    s = syms(c, pat)
    toks = []          # outside-bracket separators and unit text
    i = 0
    while i < len(s):
        if s[i] == '[':
            j = i + 1
            while j < len(s) and s[j] != ']':
                j += 2 if s[j] == '\\' else 1
            toks.append(s[i:j + 1])
            i = j + 1
        else:
            toks.append([s[i]])
            i += 1
    path, rest = [], None
    if not toks or toks[0] != ['/']:
        return None
    k = 0
    Q, H = list('[\\?]'), ['#']
    while k < len(toks) and toks[k] != Q and toks[k] != H:
        if toks[k] == ['/']:
            path.append([])
        else:
            path[-1] += toks[k]
        k += 1
    vals = []
    if k < len(toks) and toks[k] == Q:
        vals.append([])
        k += 1
        while k < len(toks) and toks[k] != H:
            if toks[k] == ['&']:
                vals.append([])
            else:
                vals[-1] += toks[k]
            k += 1
    frag = None
    if k < len(toks):
        frag = [x for t in toks[k + 1:] for x in t]
    if len(path) != len(u.paths) or (frag is None) != (u.frag is None):
        return None
    q = u.query or []
    if len(vals) != len(q):
        return None
    out = path
    for (key, _), v in zip(q, vals):
        if v[:len(key)] != list(key):
            return None
        out.append(v[len(key):])
    if frag is not None:
        out.append(frag)
    return out


def units(s):
    """Units of one level pattern: ('ch', sym) | ('cls', CS, lo, hi)."""
    out = []
    i = 0
    while i < len(s):
        if s[i] != '[':
            out.append(('ch', s[i]))
            i += 1
            continue
        j = i + 1
        rules = []
        while j < len(s) and s[j] != ']':
            if s[j] == '\\':
                rules.append('\\' + s[j + 1])
                j += 2
            elif j + 2 < len(s) and s[j + 1] == '-':
                rules.append(s[j] + '-' + s[j + 2])
                j += 3
            else:
                rules.append(s[j])
                j += 1
        chars = set()
        for r in rules:
            if r in CLASS:
                chars |= set(CLASS[r])
            else:
                chars.add(r[-1])
        i = j + 1
        lo = hi = 1
        if i < len(s) and s[i] == '+':
            hi = None
            i += 1
        elif i < len(s) and s[i] == '{':
            j = i
            while s[j] != '}':
                j += 1
            lo = hi = int(''.join(s[i + 1:j]))
            i = j + 1
        out.append(('cls', CS(chars), lo, hi, frozenset(rules)))
    return out


def covers(c, pat, text):
    """Does the level pattern (symbols) match the whole text?  Forks."""
    us = units(pat)
    ts = syms(c, text)

    def eq(u, t):
        if u[0] == 'ch':
            if isinstance(u[1], str) and isinstance(t, str):
                return u[1] == t
            a = u[1] if isinstance(u[1], str) else c.I.mk([u[1]])
            b = t if isinstance(t, str) else c.I.mk([t])
            return c.eq(a, b)
        if isinstance(t, str):
            return t in u[1]
        return c.I.ch_in(t, u[1])

    def go(i, j):
        if i == len(us):
            return j == len(ts)
        u = us[i]
        if u[0] == 'ch':
            return j < len(ts) and eq(u, ts[j]) and go(i + 1, j + 1)
        lo, hi = u[2], u[3]
        k = j
        while k < len(ts) and (hi is None or k - j < hi) and eq(u, ts[k]):
            k += 1
        while k - j >= lo:
            if go(i + 1, k):
                return True
            k -= 1
        return False
    return go(0, 0)


def url_covered(c, u, pat):
    """The URL pattern covers every component of the URL, and nothing else."""
    ls = split_levels(c, u, pat)
    if ls is None:
        return False
    return all(covers(c, p, c.kept(i)) for p, i in zip(ls, u.pi))


# -- program ------------------------------------------------------------------
def config(c, n):
    o = c.need('config:get_default_config')
    if n is not None:
        r = c.meth(o, 'set', 'make', 'min_cluster_num', n if not isinstance(n, int) else str(n))
        if r[0] != 'ok':
            raise Unsupported('configuration')
    return o


def maker(c, n=None):
    if n is None:
        return c.keep(c.need('pattern_maker:PatternMaker'))
    return c.keep(c.need('pattern_maker:PatternMaker', config(c, n)))


class Cluster(object):
    def __init__(self, um, root, pattern, members, count, records):
        self.um, self.root, self.pattern = um, root, pattern
        self.members, self.count, self.records = members, count, records


def load_all(c, m, urls, metas=None):
    """Loads; -> [(node, is_new)]"""
    out = []
    for i, u in enumerate(urls):
        meta = 'm%d' % i if metas is None else metas[i]
        r = c.call(c.attr(c.kept(m), 'load'), u.text if isinstance(u, U) else u, meta=meta)
        if r[0] != 'ok':
            c.fail('loading a URL works', '%s at %s' % (r[1].cls.name, r[2]))
        out.append(r[1])
    return out


def clusters(c, m, metas):
    """Everything PatternMaker.make yields, read through the formatters."""
    out = []
    r = c.call(c.attr(c.kept(m), 'make'))
    if r[0] != 'ok':
        c.fail('clustering works', '%s at %s' % (r[1].cls.name, r[2]))
    try:
        for um, root in c.items(r[1]):
            pf = c.get('formatter:pformat')
            pats = list(c.items(c.need(pf, 'PATTERN', um, root)))
            if len(pats) != 1:
                c.fail('one pattern per cluster', '%d patterns' % len(pats))
            recs = list(c.items(c.need(pf, 'INLINE', um, root)))
            mem = []
            for rec in recs:
                for i, x in enumerate(metas):
                    if c.eq(rec, c.cat(pats[0], '\t', x)):
                        mem.append(i)
                        break
                else:
                    c.fail('records of a cluster are its pattern and a loaded record', lambda f: f(rec))
            out.append(Cluster(um, root, c.note('pattern', pats[0]), mem, c.attr(root, 'count'), recs))
    except PyExc as e:
        c.fail('clustering works', '%s at %s' % (e.val.cls.name, e.where))
    return out


def matcher(c, pats):
    """PatternMatcher with [(pattern, meta)] loaded."""
    m = c.keep(c.need('pattern_matcher:PatternMatcher'))
    for p, meta in pats:
        r = c.call(c.attr(c.kept(m), 'load'), p, meta=meta)
        if r[0] != 'ok':
            c.fail('loading a pattern works', '%s at %s' % (r[1].cls.name, r[2]))
    return m


def match(c, m, text):
    r = c.call(c.attr(c.kept(m), 'match'), text)
    if r[0] != 'ok':
        c.fail('matching a URL works', '%s at %s' % (r[1].cls.name, r[2]))
    return list(c.items(r[1]))


def metas(c, nodes):
    return [c.attr(n, 'meta') for n in nodes]


def best(c, nodes):
    """What pattern-match reports: the first of sorted(..., reverse=True)."""
    from ..models import sort_items
    return sort_items(c.I, list(nodes), None, True)
