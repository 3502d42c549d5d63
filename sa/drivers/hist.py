"""Histories: loading, repeated clustering, several instances, rejected input."""
from ..vals import VDict
from .common import *  # noqa: F401,F403
from .common import (U, assemble, clusters, config, load_all, maker, match, matcher, metas)
from .make import kind, mk, same
from .match import Pat


# -- C09 ------------------------------------------------------------------------
def loads(specs_list, pins=(1, 2)):
    """What load() answers, and what the clusters remember."""
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        n = c.pick((2, 5), 'min_cluster_num')
        m = maker(c, n)
        names = [None if i == 1 and c.pick((False, True), 'no record for the second') else 'm%d' % i
                 for i in range(len(urls))]
        got = []
        for u, x in zip(urls, names):
            r = c.call(c.attr(c.kept(m), 'load'), u.text, **({'meta': x} if x is not None else {}))
            if r[0] != 'ok':
                c.fail('loading a URL works', '%s at %s' % (r[1].cls.name, r[2]))
            got.append(r[1])
        reps = []
        for i, u in enumerate(urls):
            old = [r for r in reps if same(c, urls[r], u)]
            c.require('load tells whether the URL is new', c.I.truth(got[i][1]) is (not old),
                      lambda f: '%s reported as %s' % (f(u.text), f(got[i][1])))
            if old:
                c.require('equal URLs share one node', got[i][0] is got[old[0]][0], '')
            else:
                c.require('different URLs have different nodes', all(got[i][0] is not got[r][0] for r in reps), '')
                reps.append(i)
        mem, total_count = [], 0
        for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
            total_count = c.I.binop_add(total_count, c.attr(root, 'count')) if False else \
                total_count + c.attr(root, 'count')
            pat = list(c.items(c.need('formatter:pformat', 'PATTERN', um, root)))[0]
            for rec in c.items(c.need('formatter:pformat', 'INLINE', um, root)):
                for x in names:
                    if x is not None and c.eq(rec, c.cat(pat, '\t', x)):
                        mem.append(x)
                        break
                else:
                    c.fail('only loaded records are kept', lambda f: f(rec))
        c.require('every record is kept exactly once', sorted(mem) == sorted(x for x in names if x is not None),
                  'kept %s of %s' % (sorted(mem), names))
        c.req_eq('duplicates are counted once', total_count, len(reps))
    return d


def same_meta(c):
    """The same record for several URLs, several records for one URL."""
    urls = [mk(c, i, '9!', (1,)) for i in range(2)] + [None]
    urls[2] = urls[0]
    ms = c.pick((('x', 'x', 'x'), ('x', 'y', 'x'), ('x', 'x', 'y'), ('x', 'y', 'z')), 'records')
    n = c.pick((2, 3), 'min_cluster_num')
    m = maker(c, n)
    load_all(c, m, urls, ms)
    got = []
    for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
        pat = list(c.items(c.need('formatter:pformat', 'PATTERN', um, root)))[0]
        for rec in c.items(c.need('formatter:pformat', 'INLINE', um, root)):
            got += [x for x in 'xyz' if c.eq(rec, c.cat(pat, '\t', x))]
    want = sorted(set([ms[0], ms[2]])) + [ms[1]]
    c.require('every record is kept exactly once', sorted(got) == sorted(want), 'kept %s' % got)


def odd_meta(values, spec="9!"):
    """Records of any hashable type; only None means no record."""
    def d(c):
        urls = [mk(c, i, spec, (1,)) for i in range(3)]
        a = c.pick(values, 'first record')
        b = c.pick(values[:3], 'second record')
        ms = [a, b, None]
        n = c.pick((2, 4), 'min_cluster_num')
        m = maker(c, n)
        load_all(c, m, urls, ms)
        got = []
        for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
            pat = list(c.items(c.need('formatter:pformat', 'PATTERN', um, root)))[0]
            for rec in c.items(c.need('formatter:pformat', 'INLINE', um, root)):
                for x in sorted(set((str(a), str(b)))):
                    if c.eq(rec, c.cat(pat, '\t', x)):
                        got.append(x)
                        break
                else:
                    c.fail('only loaded records are kept', lambda f: f(rec))
        c.require('every record is kept exactly once', sorted(got) == sorted((str(a), str(b))),
                  'kept %s of %r' % (got, ms))
    return d


def object_records(c):
    """Records that are containers or objects of the caller."""
    from ..vals import BI, VClass, VObj
    cls = VClass('Record', [c.I.builtins['object']], {'__str__': BI('__str__', lambda I, a, k: 'record %d' % a[0].attrs['n'])})

    def obj(n):
        o = VObj(cls)
        o.attrs['n'] = n
        return o
    fs = c.I.call(c.I.builtins['frozenset'], [VList(['x', 'y'])])
    kinds = {'objects': [obj(0), obj(1)], 'a frozen set': [fs], 'a frozen set and a text': [fs, 'x'], 'tuples': [('x', 'y'), ('x',)],
             'nested': [(('x',), 'y'), 'y'], 'bytes': [b'x', 'x'], 'an object and a text': [obj(2), 'record 2']}
    ms = kinds[c.pick(tuple(sorted(kinds)), 'records')]
    one = c.pick((True, False), 'one URL')
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(1 if one else 2)]
    m = maker(c, c.pick((2, 4), 'min_cluster_num'))
    for i, x in enumerate(ms):
        load_all(c, m, [urls[i % len(urls)]], [x])
    n = 0
    for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
        n += len(list(c.items(c.need('formatter:pformat', 'INLINE', um, root))))
    c.require('every distinct record is kept exactly once', n == len(ms), '%d records instead of %d' % (n, len(ms)))


def typed_records(values):
    """Records that print alike but are different objects."""
    def d(c):
        u = mk(c, 0, "'a/9", (1,))
        a, b = c.pick(values, 'records')
        n = c.pick((2, 4), 'min_cluster_num')
        m = maker(c, n)
        load_all(c, m, [u, u, u], [a, b, a])
        got = []
        for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
            pat = list(c.items(c.need('formatter:pformat', 'PATTERN', um, root)))[0]
            for rec in c.items(c.need('formatter:pformat', 'INLINE', um, root)):
                got.append([x for x in sorted(set((str(a), str(b)))) if c.eq(rec, c.cat(pat, '\t', x))])
        want = sorted([str(a)] if a == b else [str(a), str(b)])
        c.require('every distinct record is kept exactly once', all(got) and sorted(x[0] for x in got) == want,
                  'kept %s of %r and %r' % (got, a, b))
    return d


def many_records(c):
    """Many records for one URL, many URLs for one record."""
    k = c.grow('number of loads', (1, 6))
    one = c.pick((True, False), 'one URL')
    urls = [mk(c, i, "'a/9", (1,)) for i in range(1 if one else 2)]
    n = c.pick((2, 4), 'min_cluster_num')
    m = maker(c, n)
    seq = [urls[i % len(urls)] for i in range(k)]
    load_all(c, m, seq, ['r%d' % i for i in range(k)])
    got = []
    cnt = 0
    for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
        cnt += c.attr(root, 'count')
        pat = list(c.items(c.need('formatter:pformat', 'PATTERN', um, root)))[0]
        for rec in c.items(c.need('formatter:pformat', 'INLINE', um, root)):
            got += [i for i in range(k) if c.eq(rec, c.cat(pat, '\t', 'r%d' % i))]
    c.require('every record is kept exactly once', sorted(got) == list(range(k)), 'kept %s of %d' % (got, k))
    distinct_ = 1 if one or k < 2 or same(c, urls[0], urls[1]) else 2
    c.req_eq('duplicates are counted once', cnt, distinct_)


# -- results of a maker -----------------------------------------------------------
def result(c, m, names):
    return [(k.pattern, sorted(k.members), k.count) for k in clusters(c, m, names)]


def same_result(c, a, b):
    if len(a) != len(b):
        return False
    b = list(b)
    for p, mem, n in a:
        for i, (q, mem2, n2) in enumerate(b):
            if mem == mem2 and c.eq(n, n2) and c.eq(p, q):
                del b[i]
                break
        else:
            return False
    return True


def show(f, r):
    return [(f(p), mem) for p, mem, n in r]


def fresh(c, n, urls, names):
    def run():
        m = maker(c, n)
        load_all(c, m, urls, names)
        return result(c, m, names)
    return c.pristine(run)


def again(specs_list, pins=(1,)):
    """Clustering twice, and loading between two clusterings."""
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        cut = c.pick(tuple(range(1, len(specs) + 1)), 'loaded before the first clustering')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        n = c.count('min_cluster_num', 2)
        want = fresh(c, n, urls, names)
        m = maker(c, n)
        load_all(c, m, urls[:cut], names[:cut])
        how = c.pick(('make', 'make combine', 'first cluster only'), 'first clustering')
        r = c.call(c.attr(c.kept(m), 'make'), *([True] if how == 'make combine' else []))
        if r[0] != 'ok':
            c.fail('clustering works', '%s at %s' % (r[1].cls.name, r[2]))
        if how == 'first cluster only':
            c.call(c.I.builtins['next'], c.I.iter(r[1]), None)
        else:
            list(c.items(r[1]))
        load_all(c, m, urls[cut:], names[cut:])
        got = result(c, m, names)
        c.require('result depends on the loaded URLs only, not on earlier clusterings', same_result(c, got, want),
                  lambda f: 'expected %s, got %s' % (show(f, want), show(f, got)))
    return d


def two_makers(specs_list, pins=(1,)):
    def d(c):
        sa, sb = c.pick(specs_list, 'corpora')
        ua = [mk(c, i, s, pins) for i, s in enumerate(sa)]
        ub = [mk(c, 10 + i, s, pins) for i, s in enumerate(sb)]
        na, nb = ['m%d' % i for i in range(len(ua))], ['o%d' % i for i in range(len(ub))]
        k1 = c.pick((2, 3), 'min_cluster_num of the first')
        k2 = c.pick((None, 2, 4), 'min_cluster_num of the second')
        w1 = fresh(c, k1, ua, na)
        w2 = fresh(c, k2, ub, nb)
        m1 = maker(c, k1)
        m2 = maker(c, k2)
        for i in range(max(len(ua), len(ub))):
            if i < len(ub):
                load_all(c, m2, ub[i:i + 1], nb[i:i + 1])
            if i < len(ua):
                load_all(c, m1, ua[i:i + 1], na[i:i + 1])
        r2 = result(c, m2, nb)
        r1 = result(c, m1, na)
        c.require('makers do not influence each other', same_result(c, r1, w1),
                  lambda f: 'expected %s, got %s' % (show(f, w1), show(f, r1)))
        c.require('makers do not influence each other', same_result(c, r2, w2),
                  lambda f: 'expected %s, got %s' % (show(f, w2), show(f, r2)))
    return d


def two_matchers(cases, pins=(1,)):
    """cases: (patterns of A, patterns of B, url)"""
    def d(c):
        a, b, us = c.pick(cases, 'patterns')
        pa = [Pat(c, 'A%d' % i, s, g, pins) for i, (s, g) in enumerate(a)]
        pb = [Pat(c, 'B%d' % i, s, g, pins) for i, (s, g) in enumerate(b)]
        u = mk(c, 0, us, pins)
        ta, tb = [p.text(c) for p in pa], [p.text(c) for p in pb]
        m1 = matcher(c, [(t, 'A%d' % i) for i, t in enumerate(ta)])
        first = metas(c, match(c, m1, u.text))
        m2 = matcher(c, [(t, 'B%d' % i) for i, t in enumerate(tb)])
        r2 = metas(c, match(c, m2, u.text))
        second = metas(c, match(c, m1, u.text))
        c.require('matching again gives the same answer', first == second, '%s then %s' % (first, second))
        for got, pats, ts, tag in ((second, pa, ta, 'A'), (r2, pb, tb, 'B')):
            want = [tag + str(i) for i, p in enumerate(pats) if p.spec(c, u)]
            c.require('matchers do not influence each other', uniq(c, got, ts) == uniq(c, want, ts),
                      lambda f: '%s: expected %s, got %s' % (f(u.text), want, got))
    return d


def answers_stay(c):
    """An answer is not changed by later calls."""
    n, k = c.size('n', 1, (1, 2)), c.size('k', 1, (1, 2))
    x, y = c.run('x', DIG, n), c.run('y', DIG, k)
    pre = c.pick(('/', '/a/'), 'first level')
    pats = [pre + p for p in ('[0-9]{2}', '[0-9]+', '[0-9]')]
    m = matcher(c, [(t, i) for i, t in enumerate(pats[:2])])
    r = c.need(c.attr(c.kept(m), 'match'), c.note('url', c.cat('http://h', pre, x)))
    r = c.keep(r)
    first = list(c.items(c.kept(r)))
    before = metas(c, first)
    how = c.pick(('match', 'match other', 'load', 'all', 'same'), 'later')
    if how == 'match':
        c.need(c.attr(c.kept(m), 'match'), c.note('url2', c.cat('http://h', pre, y)))
    elif how == 'match other':
        c.need(c.attr(c.kept(m), 'match'), c.note('url2', c.cat('http://h/b/', y, '/c')))
    elif how == 'load':
        c.need(c.attr(c.kept(m), 'load'), pats[2], meta=2)
    elif how == 'all':
        list(c.items(c.need(c.attr(c.kept(m), 'match'), c.cat('http://h', pre, y))))
    else:
        again_ = list(c.items(c.need(c.attr(c.kept(m), 'match'), c.cat('http://h', pre, x))))
        c.require('matching again gives the same answer', metas(c, again_) == before, '')
    if isinstance(c.kept(r), VList):
        after = metas(c, list(c.items(c.kept(r))))
        c.require('an answer is not changed by later calls', after == before, '%s became %s' % (before, after))
    c.require('an answer is not changed by later calls', metas(c, first) == before, '')


def uniq(c, names, ts):
    """Indices of the (first equal) pattern texts."""
    out = []
    for n in names:
        i = int(n[1:])
        for j in range(i + 1):
            if c.eq(ts[j], ts[i]):
                out.append(j)
                break
    return sorted(set(out))


def load_between(cases, pins=(1,)):
    """Matching, then loading more patterns, then matching."""
    def d(c):
        ps, us = c.pick(cases, 'patterns')
        cut = c.pick(tuple(range(0, len(ps))), 'loaded before the first match')
        pats = [Pat(c, 'P%d' % i, s, g, pins) for i, (s, g) in enumerate(ps)]
        u = mk(c, 0, us, pins)
        ts = [p.text(c) for p in pats]
        m = matcher(c, [(t, 'P%d' % i) for i, t in enumerate(ts[:cut])])
        match(c, m, u.text)
        for i, t in enumerate(ts[cut:], cut):
            r = c.call(c.attr(c.kept(m), 'load'), t, meta='P%d' % i)
            if r[0] != 'ok':
                c.fail('loading a pattern works', r[1].cls.name)
        got = metas(c, match(c, m, u.text))
        want = ['P%d' % i for i, p in enumerate(pats) if p.spec(c, u)]
        c.require('patterns loaded after a match take part in the next', uniq(c, got, ts) == uniq(c, want, ts),
                  lambda f: '%s: expected %s, got %s' % (f(u.text), want, got))
        c.require('every pattern that fits is reported once', len(got) == len(uniq(c, got, ts)), str(got))
    return d


def reload(c):
    """The same pattern loaded again."""
    u = mk(c, 0, '9', (1, 2))
    p = c.pick(('/[0-9]+', '/[0-9]{2}', '/[a-z]+'), 'pattern')
    second = c.pick(('second', None), 'second record')
    m = c.keep(c.need('pattern_matcher:PatternMatcher'))
    r1 = c.need(c.attr(c.kept(m), 'load'), p, meta='first')
    r2 = c.need(c.attr(c.kept(m), 'load'), p, **({'meta': second} if second else {}))
    c.require('load tells whether the pattern is new', r1[1] is True and r2[1] is False, '%s %s' % (r1[1], r2[1]))
    got = metas(c, match(c, m, u.text))
    fits = {'/[0-9]+': True, '/[0-9]{2}': c.eq(u.levels[0][0].n, 2), '/[a-z]+': False}[p]
    want = [second or 'first'] if fits else []
    c.require('a pattern loaded twice is reported once, with its latest record', got == want, str(got))


# -- C18 ------------------------------------------------------------------------
DOCUMENTED = ('InvalidCharException', 'IrregularURLException', 'InvalidPatternException', 'ValueError')


def documented(c, r):
    return any(c.is_exc(r, n) for n in DOCUMENTED)


def bad_url(c, k):
    b = c.ch(BAD)
    x = c.run('x', LOW, c.size('x', 1, (1, 2)))
    return c.note('rejected', c.cat(*{
        'char in path': ('http://h/', x, b), 'char in value': ('http://h/a?k=', b, x), 'char in fragment': ('http://h/a#', b),
        'char in later level': ('http://h/', x, '/1/', b, x),
        'char in key': ('http://h/a?', b, '=', x), 'empty item': ('http://h/a?k=', x, '&'), 'empty item 2': ('http://h/?&', x),
        'pattern': ('/', x, '/[0-9]+'), 'bad pattern': ('/', x, '/[0-9'), 'pattern of the same structure': ('/a/[0-9]+',),
        'literal pattern': ('/', x)}[k]))


BADS = ('char in path', 'char in value', 'char in fragment', 'char in later level', 'char in key', 'empty item', 'empty item 2',
        'pattern', 'bad pattern', 'pattern of the same structure', 'literal pattern')


def reject_load(specs_list, pins=(1,)):
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        k = c.pick(BADS, 'rejected')
        pos = c.pick(tuple(range(len(specs) + 1)), 'position')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        bad = bad_url(c, k)
        want = fresh(c, 2, urls, names)
        m = maker(c, 2)
        load_all(c, m, urls[:pos], names[:pos])
        r = c.call(c.attr(c.kept(m), 'load'), bad, meta='bad')
        c.require('malformed input is rejected with a documented error', documented(c, r),
                  'accepted' if r[0] == 'ok' else '%s at %s' % (r[1].cls.name, r[2]))
        load_all(c, m, urls[pos:], names[pos:])
        got = result(c, m, names)
        c.require('rejected input leaves no trace', same_result(c, got, want),
                  lambda f: 'expected %s, got %s' % (show(f, want), show(f, got)))
        kinds = len(set(kind(u) for u in urls))
        for how in ([], [True]):
            r = list(c.items(c.need(c.attr(c.kept(m), 'make'), *how)))
            c.require('rejected input leaves no trace', len(r) == (kinds if how else len(want)),
                      '%d results instead of %d, make(%s)' % (len(r), kinds if how else len(want), how))
        r = list(c.items(c.attr(c.kept(m), 'makers')))
        c.require('rejected input leaves no trace', len(r) == kinds, '%d sub makers' % len(r))
    return d


def reject_only(c):
    """Nothing but rejected input."""
    bad = bad_url(c, c.pick(BADS, 'rejected'))
    m = maker(c, c.pick((None, 2), 'min_cluster_num'))
    for i in range(c.pick((1, 2), 'times')):
        r = c.call(c.attr(c.kept(m), 'load'), bad, meta='bad')
        c.require('malformed input is rejected with a documented error', documented(c, r),
                  'accepted' if r[0] == 'ok' else '%s at %s' % (r[1].cls.name, r[2]))
    for how in ([], [True]):
        r = list(c.items(c.need(c.attr(c.kept(m), 'make'), *how)))
        c.require('rejected input leaves no trace', not r, '%d clusters, make(%s)' % (len(r), how))


def bad_pattern_text(c, k):
    x = c.run('x', LOW, c.size('x', 1, (1, 2)))
    return c.note('rejected', c.cat(*{
        'unclosed': ('/', x, '[0-9'), 'no number': ('/', x, '[0-9]{}'), 'bad number': ('/[0-9]{', x, '}'),
        'unknown class': ('/[a-y]+',), 'bare sign': ('/', x, '-', x), 'url': ('http://h/', x),
        'url of the same structure': ('http://h/', x, '/', c.run('y', DIG, 2)),
        'later level': ('/', x, '/[0-9]{2}/[0-'), 'query': ('/', x, '[\\?]k=[0-9'), 'fragment': ('/', x, '#[0-9'),
        'char': ('/', x, '/', c.ch(BAD)), 'char in class': ('/[', c.ch(BAD), ']+'),
        'zero': ('/[0-9]{0}',), 'too small': ('/[0-9a-z]{1}',), 'empty item': ('/', x, '[\\?]k=[0-9]+&')}[k]))


BADP = ('unclosed', 'no number', 'bad number', 'unknown class', 'bare sign', 'url', 'url of the same structure',
        'later level', 'query',
        'fragment', 'zero', 'too small', 'empty item', 'char', 'char in class')


def reject_pattern(c):
    k = c.pick(BADP, 'rejected')
    pos = c.pick((0, 1, 2), 'position')
    u = mk(c, 0, "a/9", (1, 2))
    bad = bad_pattern_text(c, k)
    m = c.keep(c.need('pattern_matcher:PatternMatcher'))
    good = ['/[a-z]+/[0-9]{2}', '/[a-z]+/[0-9]+']
    for i in range(3):
        if i == pos:
            r = c.call(c.attr(c.kept(m), 'load'), bad, meta='bad')
            c.require('malformed pattern is rejected with a documented error', documented(c, r),
                      'accepted' if r[0] == 'ok' else '%s at %s' % (r[1].cls.name, r[2]))
        if i < 2:
            c.need(c.attr(c.kept(m), 'load'), good[i], meta=i)
    got = metas(c, match(c, m, u.text))
    want = [0, 1] if c.eq(u.levels[1][0].n, 2) else [1]
    c.require('a rejected pattern leaves no trace', sorted(got) == want, str(got))


def reject_match(c):
    k = c.pick(tuple(x for x in BADS if 'pattern' not in x), 'rejected')
    u = mk(c, 0, "'a/9", (1, 2))
    a = u.levels[0][0].raw
    bad = bad_url(c, k)
    m = matcher(c, [('/%s/[0-9]+' % a, 0), ('/%s/[0-9]{2}' % a, 1), ('/[a-z]+', 2), ('/a[\\?]k=[a-z]+', 3)])
    r = c.call(c.attr(c.kept(m), 'match'), bad)
    c.require('malformed input is rejected with a documented error', documented(c, r),
              'accepted' if r[0] == 'ok' else '%s at %s' % (r[1].cls.name, r[2]))
    got = metas(c, match(c, m, u.text))
    want = [0, 1] if c.eq(u.levels[1][0].n, 2) else [0]
    c.require('rejected input leaves no trace', sorted(got) == want, str(got))


# -- C14 ------------------------------------------------------------------------
def eq_pattern(cls):
    """Equality and hash of patterns, compared through == , != and set membership."""
    def d(c):
        shapes = ('x', 'x-', '[0-9]{', '[0-9]+', '[\\-]')
        k1, k2 = c.pick(shapes, 'first'), c.pick(shapes, 'second')
        ts = []
        for i, k in enumerate((k1, k2)):
            x = c.run('x%d' % i, LOW, c.size('n%d' % i, 1, (1, 2)))
            n = c.size('k%d' % i, 2, (2, 3))
            ts.append(c.note('text%d' % i, c.cat(*{'x': (x,), 'x-': (x, '[\\-]'), '[0-9]{': ('[0-9]{', dec(c, n), '}'),
                                                  '[0-9]+': ('[0-9]+',), '[\\-]': ('[\\-]',)}[k])))
        a = c.keep(c.need(cls, ts[0]))
        b = c.keep(c.need(cls, ts[1]))
        want = c.eq(ts[0], ts[1])
        A, B = c.kept(a), c.kept(b)
        check_eq(c, A, B, want)
        if cls.endswith('MatchPattern'):
            c.require('an order is strict', c.I.truth(c.I.compare_lt(A, A)) is False if hasattr(c.I, 'compare_lt')
                      else c.I.order('lt', A, A) is False, '')
            lt, gt = c.I.order('lt', A, B), c.I.order('lt', B, A)
            c.require('an order is asymmetric', not (lt and gt), '')
            c.require('equal patterns are not ordered', not (want and (lt or gt)), '')
    return d


def check_eq(c, A, B, want):
    c.require('equal exactly when the text is equal', c.eq(A, B) is want, 'expected %s' % want)
    c.require('equality is symmetric', c.eq(B, A) is want, 'expected %s' % want)
    c.require('!= is the negation of ==', c.I.py_ne(A, B) is (not want), 'expected %s' % (not want))
    d = VDict()
    c.I.dict_set(d, A, 1)
    c.require('equal objects are one key', c.I.dict_has(d, B) is want, 'expected %s' % want)


def eq_piece(c):
    kinds = ('a', 'a 9', '9', 'a -', 'a - 9')
    s1, s2 = c.pick(kinds, 'first'), c.pick(kinds, 'second')
    t1, t2 = level(c, s1, 'x', (1, 2)), level(c, s2, 'y', (1, 2))
    r1, r2 = c.note('first', raw(c, t1)), c.note('second', raw(c, t2))
    p = c.need('parse_utils:PieceParser')
    a = c.keep(c.need(c.attr(p, 'parse'), r1))
    b = c.keep(c.need(c.attr(c.need('parse_utils:PieceParser'), 'parse'), r2))
    want = s1 == s2 and c.eq(r1, r2)
    check_eq(c, c.kept(a), c.kept(b), want)


def eq_view(c):
    """Parsed pieces with one text, made by different views of a level."""
    views = ('PieceView', 'LengthView', 'MultiView', 'MixedView', 'LastDotSplitFuzzyView', 'FuzzyView')
    s1 = c.pick(('a', '9', 'a 9', '9 a', 'a - 9', 'a 9 - a', "a - 9 . 'html"), 'level')
    t = level(c, s1, 'x', (1, 2))
    r = c.note('text', raw(c, t))
    p = c.keep(c.need(c.attr(c.need('parse_utils:PieceParser'), 'parse'), r))
    v1, v2 = c.pick(views, 'view'), c.pick(views, 'other view')
    ps = []
    for v in (v1, v2):
        o = c.need('parsed_piece_view:' + v, c.kept(p))
        ps.append(list(c.items(c.attr(o, 'parsed_pieces'))))
    for a in ps[0] + [c.kept(p)]:
        for b in ps[1] + [c.kept(p)]:
            check_eq(c, a, b, c.eq(c.attr(a, 'piece'), c.attr(b, 'piece')))


def eq_other(c):
    """Comparison with objects of other kinds, and of subclasses."""
    x = c.run('x', LOW, c.size('n', 1, (1, 2)))
    t = c.note('text', c.cat(x, c.pick(('', '[\\-]', '[0-9]+'), 'tail')))
    kinds = ('pattern:Pattern', 'pattern_matcher:MatchPattern', 'piece')
    k = c.pick(kinds, 'object')

    def mk_(k):
        if k == 'piece':
            return c.need(c.attr(c.need('parse_utils:PieceParser'), 'parse'), x)
        return c.need(k, t)
    a = c.keep(mk_(k))
    o = c.pick(('text', None, 0, 'tuple', 'list') + tuple(q for q in kinds if q != k), 'other')
    b = c.keep({'text': t, 'tuple': (t,), 'list': VList([t])}.get(o, o) if o not in kinds else mk_(o))
    want = o in kinds and k != 'piece' and o != 'piece'
    from ..interp import PyExc
    try:
        c.require('equal exactly when the text is equal', c.eq(c.kept(a), c.kept(b)) is want, 'expected %s' % want)
        c.require('equality is symmetric', c.eq(c.kept(b), c.kept(a)) is want, 'expected %s' % want)
        c.require('!= is the negation of ==', c.I.py_ne(c.kept(a), c.kept(b)) is (not want), 'expected %s' % (not want))
        c.require('!= is the negation of ==', c.I.py_ne(c.kept(b), c.kept(a)) is (not want), 'expected %s' % (not want))
    except PyExc as e:
        c.fail('comparison with other objects does not fail', '%s at %s' % (e.val.cls.name, e.where))
    r = c.call(c.I.builtins['hash'], c.kept(a))
    c.require('objects have a hash', r[0] == 'ok', '')


from .common import level  # noqa: E402


# -- C21 ------------------------------------------------------------------------
def order(specs_list, pins=(1,), mcns=None):
    """The order of loading, and duplicates, do not matter."""
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        k = len(urls)
        perm = c.pick(('reversed', 'rotated', 'interleaved', 'duplicates'), 'order')
        idx = {'reversed': list(range(k))[::-1], 'rotated': list(range(1, k)) + [0],
               'interleaved': list(range(0, k, 2)) + list(range(1, k, 2)),
               'duplicates': list(range(k)) + [0] * 3}[perm]
        n = c.pick(mcns, 'min_cluster_num') if mcns else c.count('min_cluster_num', 2)
        want = fresh(c, n, urls, names)
        m = maker(c, n)
        load_all(c, m, [urls[i] for i in idx], [names[i] for i in idx])
        got = result(c, m, names)
        c.require('clusters do not depend on the order of loading', same_result(c, got, want),
                  lambda f: 'expected %s, got %s' % (show(f, want), show(f, got)))
    return d
