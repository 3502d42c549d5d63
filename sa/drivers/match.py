"""Digests, matching and ranking."""
from .common import *  # noqa: F401,F403
from .common import (Const, U, assemble, best, covers, level, match, matcher, metas,
                     split_levels, url_covered)
from .make import kind, mk

MIX = ('a-z', 'A-Z', '0-9', '%')


# -- C08: same digest <=> same structure and classes ---------------------------
def digest(c, x, *more):
    r = c.call('parser:fuzzy_digest', x, *more)
    if r[0] != 'ok':
        c.fail('digest of a URL', '%s at %s' % (r[1].cls.name, r[2]))
    if c.I.is_str(r[1]):
        c.require('a digest is long enough to tell structures apart', c.I.ge0(Lin.of(c.I.s_len(r[1])).add(-16)),
                  lambda f: f(r[1]))
    return r[1]


def digest_pair(pairs, pins=(1, 2)):
    def d(c):
        a, b = c.pick(pairs, 'URLs')
        u, v = mk(c, 0, a, pins), mk(c, 1, b, pins)
        x = c.keep(digest(c, u.text))
        y = digest(c, v.text)
        want = kind(u) == kind(v)
        c.require('same digest exactly for the same structure and character spaces',
                  c.eq(c.kept(x), y) is want,
                  lambda f: '%s and %s: expected %s' % (f(u.text), f(v.text), 'equal' if want else 'different'))
    return d


def digest_keys(c):
    """Keys of a query are part of the structure, character by character."""
    n, m = c.size('n', 1, (1, 2)), c.size('m', 1, (1, 2))
    al = c.pick((LOW + DIG + '_', LOW + UP, LOW + '-.'), 'characters')
    k1, k2 = c.run('k1', al, n), c.run('k2', al, m)
    e1, e2 = c.pick(('', '='), 'first'), c.pick(('', '='), 'second')
    t1 = c.note('url1', c.cat('http://h/p?', k1, e1, '&z=1'))
    t2 = c.note('url2', c.cat('http://g/q?', k2, e2, '&z=2'))
    x = c.keep(digest(c, t1))
    y = digest(c, t2)
    want = c.eq(k1, k2) and e1 == e2
    got = c.eq(c.kept(x), y)
    c.require('same digest exactly for the same structure and character spaces', got is want,
              lambda f: '%s and %s' % (f(t1), f(t2)))


def gen_level(c, toks, g):
    """Pattern text of one level: generalisation g of the tokens."""
    if g == 'lit':
        return piece(c, toks)
    if g == 'len':
        return spec_rule(c, fuzzy(toks), total(toks))
    if g == 'fuz':
        return '[%s]+' % fuzzy(toks)
    if g == 'LEN':
        return spec_rule(c, yzzuf(toks), total(toks))
    if g == 'FUZ':
        return '[%s]+' % yzzuf(toks)
    k, how = g.split(':')
    if k == 'multi':
        gs = [[t] for t in toks]
    elif k == 'mixed':
        gs = groups(toks)
    else:
        gs = dot_groups(toks)
    out = []
    for t, h in zip(gs, how):
        out.append({'l': lambda: piece(c, t), 'n': lambda: spec_rule(c, fuzzy(t), total(t)),
                    'p': lambda: '[%s]+' % fuzzy(t), 'P': lambda: '[%s]+' % yzzuf(t),
                    'N': lambda: spec_rule(c, yzzuf(t), total(t))}[h]())
    return c.cat(*out)


def yzzuf(toks):
    """The character spaces in another order."""
    return ''.join(sorted(set(t.rule for t in toks), reverse=True))


def spec_rule(c, rule, n):
    if c.I.py_eq(n, 1):
        return '[%s]' % rule
    return c.cat('[%s]{' % rule, dec(c, n), '}')


def groups(toks):
    out = []
    for t in toks:
        if out and t.rule in MIX and out[-1][-1].rule in MIX:
            out[-1].append(t)
        else:
            out.append([t])
    return out


def dot_groups(toks):
    """name, dot, extension groups; None without a short extension."""
    for i in range(len(toks) - 1, max(len(toks) - 4, -1), -1):
        if toks[i].rule == '\\.':
            ext = toks[i + 1:]
            if i == 0 or not ext or any(t.rule not in CLASS for t in ext):
                return None
            return [toks[:i], [toks[i]]] + groups(ext)
    return None


def spec_level(c, toks, g, ut, uraw):
    """Does the level pattern match the tokens of the URL?"""
    if fuzzy(toks) != fuzzy(ut):
        return False
    if g in ('LEN', 'FUZ'):
        g = g.lower()
    if g == 'lit':
        return len(toks) == len(ut) and [t.rule for t in toks] == [t.rule for t in ut] and \
            c.eq(raw(c, toks), uraw)
    if g == 'len':
        return c.eq(total(toks), total(ut))
    if g == 'fuz':
        return True
    k, how = g.split(':')
    f = {'multi': lambda x: [[t] for t in x], 'mixed': groups, 'ldot': dot_groups}[k]
    a, b = f(toks), f(ut)
    if a is None or b is None or [fuzzy(x) for x in a] != [fuzzy(x) for x in b]:
        return False
    for x, y, h in zip(a, b, how.lower()):
        if h == 'l':
            if [t.rule for t in x] != [t.rule for t in y] or \
                    not all(c.eq(s.n, t.n) for s, t in zip(x, y)) or not c.eq(raw(c, x), raw(c, y)):
                return False
        elif h == 'n' and not c.eq(total(x), total(y)):
            return False
    return True


# a template is (path levels, query, frag) with a generalisation per level
class Pat(object):
    def __init__(self, c, name, spec, gens, pins):
        if isinstance(spec, str):
            spec = (spec, None, None)
        path, q, f = spec
        self.u = U(c, name, path.split('/'), q, f, pins, host='')
        self.gens = gens
        c.named.pop()

    def text(self, c):
        return c.note(self.u.name, assemble(self.u, [gen_level(c, t, g) for t, g in zip(self.u.levels, self.gens)]))

    def spec(self, c, u):
        if self.u.key() != u.key():
            return False
        return all(spec_level(c, t, g, ut, c.kept(i))
                   for t, g, ut, i in zip(self.u.levels, self.gens, u.levels, u.pi))


def digest_pattern(cases, pins=(1, 2)):
    """A URL pattern has the digest of the URLs it was generalised from."""
    def d(c):
        spec, gens = c.pick(cases, 'pattern')
        p = Pat(c, 'pattern', spec, gens, pins)
        t = p.text(c)
        u = c.note('url', c.cat('http://h', *url_parts(c, p.u)))
        x = c.keep(digest(c, u))
        y = digest(c, t)
        c.require('a pattern has the digest of the URLs it was generalised from', c.eq(c.kept(x), y),
                  lambda f: '%s and %s' % (f(t), f(u)))
    return d


def url_parts(c, u):
    parts = []
    for p in u.paths:
        parts += ['/', raw(c, p)]
    for i, (k, v) in enumerate(u.query or []):
        parts += ['?' if not i else '&', k, raw(c, v)]
    if u.frag is not None:
        parts += ['#', raw(c, u.frag)]
    return parts


# -- C12 ------------------------------------------------------------------------
def one_match(cases, pins=(1, 2), exact=True):
    """cases: (pattern spec, gens, url spec)"""
    def d(c):
        spec, gens, us = c.pick(cases, 'pattern, URL')
        p = Pat(c, 'pattern', spec, gens, pins)
        u = mk(c, 0, us, pins)
        t = p.text(c)
        m = matcher(c, [(t, 'P')])
        got = metas(c, match(c, m, u.text))
        c.require('a pattern is reported at most once, with its own record', got in ([], ['P']),
                  lambda f: str(got))
        if exact:
            want = p.spec(c, u)
            c.require('a URL matches exactly when every component fits', (got == ['P']) is want,
                      lambda f: 'pattern %s, URL %s: expected %s' % (f(t), f(u.text), 'match' if want else 'no match'))
        if got:
            c.require('a reported pattern covers the URL', url_covered(c, u, t),
                      lambda f: 'pattern %s, URL %s' % (f(t), f(u.text)))
    return d


def long_match(c):
    """Patterns and URLs with many runs, levels or query items."""
    k = c.grow('number of runs, levels or items', (4, 6, 9, 12))
    w = c.pick(('runs', 'runs with signs', 'mixed runs', 'levels', 'items'), 'where')
    g = c.pick(('n', 'p', 'l'), 'last')
    if w == 'runs':
        spec = ' '.join(('a1', '91')[i % 2] for i in range(k))
        gens = ('multi:' + 'l' * (k - 1) + g,)
    elif w == 'runs with signs':
        spec = ' '.join(('a1', '-1')[i % 2] for i in range(2 * (k // 2) + 1))
        gens = ('multi:' + 'l' * (2 * (k // 2)) + g,)
    elif w == 'mixed runs':
        spec = ' - '.join(['a1 91'] * k)
        gens = ('mixed:' + 'nl' * (k - 1) + g.replace('l', 'n'),)
    elif w == 'levels':
        spec = '/'.join(['a1'] * (k - 1) + ['91'])
        gens = ('lit',) * (k - 1) + ({'n': 'len', 'p': 'fuz', 'l': 'lit'}[g],)
    else:
        spec = ("'p", [('k%d=' % i, 'a1') for i in range(k - 1)] + [('z=', '91')], None)
        gens = ('lit',) * k + ({'n': 'len', 'p': 'fuz', 'l': 'lit'}[g],)
    p = Pat(c, 'pattern', spec, gens, (1,))
    u = mk(c, 0, spec, (1,))
    same_but_last(c, p.u, u)
    t = p.text(c)
    m = matcher(c, [(t, 'P')])
    got = metas(c, match(c, m, u.text))
    want = p.spec(c, u)
    c.require('a URL matches exactly when every component fits', got == (['P'] if want else []),
              lambda f: 'pattern %s, URL %s: expected %s' % (f(t), f(u.text), 'match' if want else 'no match'))


def same_but_last(c, a, b):
    """Keep to URLs that agree in all but the last run."""
    xs = [t for l in a.levels for t in l][:-1]
    ys = [t for l in b.levels for t in l][:-1]
    for x, y in zip(xs[:-1], ys[:-1]):
        if not c.eq(x.raw, y.raw):
            c.stop()


# -- C13 ------------------------------------------------------------------------
def rank(spec, gens_list, pins=(2,)):
    """Several patterns of the same URL, best first in gens_list."""
    def d(c):
        u = mk(c, 0, spec, pins)
        pats = []
        for i, g in enumerate(gens_list):
            pats.append(c.note('rank%d' % i, assemble(u, [gen_level(c, t, x) for t, x in zip(u.levels, g)])))
        n = len(pats)
        order = c.pick(perms(n), 'load order')
        m = matcher(c, [(pats[i], i) for i in order])
        nodes = match(c, m, u.text)
        got = metas(c, nodes)
        c.require('every pattern that fits is reported once', sorted(got) == list(range(n)),
                  lambda f: 'matched %s of %s' % ([f(pats[i]) for i in got], f(u.text)))
        if sorted(got) != list(range(n)):
            c.stop()
        srt = [c.attr(x, 'meta') for x in best(c, nodes)]
        c.require('more specific patterns rank first, whatever the load order', srt == list(range(n)),
                  lambda f: 'order %s' % [f(pats[i]) for i in srt])
    return d


def perms(n):
    import itertools
    if n <= 3:
        return list(itertools.permutations(range(n)))
    r = list(range(n))
    return [tuple(r), tuple(r[::-1]), tuple(r[1:] + r[:1]), tuple(r[n // 2:] + r[:n // 2]),
            tuple(r[::2] + r[1::2]), tuple(r[1::2][::-1] + r[::2])]
