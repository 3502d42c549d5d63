"""Clustering end to end: abstract corpora through PatternMaker and back."""
from .common import *  # noqa: F401,F403
from .common import (U, assemble, best, clusters, config, covers, level, load_all, maker,
                     match, matcher, metas, split_levels, url_covered)

# corpus: list of URLs; a URL is a path string ("a3/9!") or (path, query, frag)


def mk(c, i, spec, pins, host='http://h'):
    if isinstance(spec, str):
        spec = (spec, None, None)
    path, q, f = spec
    return U(c, 'url%d' % i, path.split('/'), q, f, pins, host)


def same(c, u, v):
    """Do two abstract URLs have the same structure and components?  Forks."""
    if u.key() != v.key():
        return False
    for a, b in zip(u.levels, v.levels):
        if [t.rule for t in a] != [t.rule for t in b]:
            return False
    for i, j in zip(u.pi, v.pi):
        if not c.eq(c.kept(i), c.kept(j)):
            return False
    return True


def kind(u):
    return (u.key(), tuple(fuzzy(x) for x in u.levels))


def corpus(specs_list, mcns=(3,), what=('partition', 'cover', 'match'), pins=(1, 2), extra=None):
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        n = c.pick(mcns, 'min_cluster_num') if mcns else c.count('min_cluster_num', 2)
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        m = maker(c, n)
        names = ['m%d' % i for i in range(len(urls))]
        load_all(c, m, urls, names)
        cl = clusters(c, m, names)
        if 'partition' in what:
            partition(c, urls, cl)
        if 'cover' in what:
            for k in cl:
                for i in k.members:
                    c.require('a pattern covers every URL of its cluster', url_covered(c, urls[i], k.pattern),
                              lambda f: 'pattern %s, URL %s' % (f(k.pattern), f(urls[i].text)))
        if 'match' in what:
            pats = [(k.pattern, 'c%d' % i) for i, k in enumerate(cl)]
            mm = matcher(c, pats)
            for i, k in enumerate(cl):
                for j in k.members:
                    got = metas(c, match(c, mm, urls[j].text))
                    c.require('every URL of a cluster matches the pattern of its cluster',
                              'c%d' % i in got or any(x != 'c%d' % i and c.eq(cl[int(x[1:])].pattern, k.pattern)
                                                      for x in got),
                              lambda f: 'pattern %s, URL %s, matched %s' % (
                                  f(k.pattern), f(urls[j].text), [f(cl[int(x[1:])].pattern) for x in got]))
        if extra:
            extra(c, urls, cl)
    return d


def partition(c, urls, cl):
    seen = {}
    for k, x in enumerate(cl):
        for i in x.members:
            seen.setdefault(i, []).append(k)
    for i in range(len(urls)):
        c.require('every loaded record is in exactly one cluster', len(seen.get(i, ())) == 1,
                  lambda f: 'record %d (%s) is in %d clusters' % (i, f(urls[i].text), len(seen.get(i, ()))))
    # groups of equal URLs
    reps = []
    group = {}
    for i, u in enumerate(urls):
        for r in reps:
            if same(c, urls[r], u):
                group[i] = r
                break
        else:
            reps.append(i)
            group[i] = i
    for i, r in group.items():
        c.require('equal URLs are in the same cluster', seen.get(i) == seen.get(r),
                  lambda f: 'records %d and %d of %s' % (r, i, f(urls[i].text)))
    for x in cl:
        n = len(set(group[i] for i in x.members))
        c.req_eq('size of a cluster is its number of distinct URLs', x.count, n)
        ks = set(kind(urls[i]) for i in x.members)
        c.require('URLs of different structure are never clustered together', len(ks) <= 1,
                  lambda f: str([f(urls[i].text) for i in x.members]))
        c.require('no cluster is empty', bool(x.members), '')
    for i, x in enumerate(cl):
        for y in cl[:i]:
            c.require('different clusters have different patterns', not c.eq(x.pattern, y.pattern),
                      lambda f: 'two clusters have %s' % f(x.pattern))


# -- corpora ------------------------------------------------------------------
N = lambda s, k: [s] * k
BASIC = [
    ['9!'] * 3, ["'a/9!"] * 4, ["'a/9"] * 3, ['9!/9!'] * 3, ["'a/a1", "'a/a2", "'a/a3"],
    ["a2!/'x"] * 3 + ["a2!/'y"] * 3, ['9', '9', 'a'], ["'a/9", "'b/9", "'c/9"],
]


# -- C20: the threshold ---------------------------------------------------------
VARY = [("V", None, None), ("'x/V", None, None), ("V/'x", None, None), ("'x/V/'y", None, None),
        ("'x", [('k=', 'V')], None), ("'x", [('k=', 'V'), ('l=', "'b")], None), ("'x", None, 'V'),
        ("'x/V", [('k=', "'c")], "'d"), ("V/", None, None)]
TOKS = ["'a 'p - V", "'x - V/'y", "'news - V", "V . 'html", "'p V", "'a - V - 'b", "'a . V . 'js", "V _ 'x"]


def expand(spec, v, name='V'):
    """Replace V in a URL shape."""
    f = lambda s: ' '.join(v if x == name else x for x in s.split())
    path, q, fr = spec
    return ('/'.join(f(p) for p in path.split('/')), None if q is None else [(k, f(x)) for k, x in q],
            None if fr is None else f(fr))


def threshold(shapes, ks, classes=('9',), lengths='same', mcn='symbolic', sizes=(1, 3), groups=None):
    """k URLs that differ in one run only: k distinct values of one length
    (or of k lengths).  Fewer than the threshold: literal; else generalised."""
    def d(c):
        shape = c.pick(shapes, 'shape')
        if isinstance(shape, str):
            shape = (shape, None, None)
        k = c.pick(ks, 'URLs') if groups is None else None
        cl = c.pick(classes, 'class')
        if groups is not None:
            gr = c.pick(groups, 'values per length')
            k = sum(gr)
            ls = [i + 1 for i, x in enumerate(gr) for _ in range(x)]
            urls = [mk(c, i, expand(shape, '%s%d!' % (cl, l)), (1,)) for i, l in enumerate(ls)]
        elif lengths == 'same':
            L = c.pick(sizes, 'length')
            urls = [mk(c, i, expand(shape, '%s%d!' % (cl, L)), (1,)) for i in range(k)]
        else:
            urls = [mk(c, i, expand(shape, '%s%d!' % (cl, i + 1)), (1,)) for i in range(k)]
        if mcn == 'default':
            n = 3
            m = maker(c)
        else:
            n = c.count('min_cluster_num', 2)
            m = maker(c, n)
        names = ['m%d' % i for i in range(k)]
        if groups is not None and c.pick((False, True), 'longest first'):
            load_all(c, m, urls[::-1], names[::-1])
        else:
            load_all(c, m, urls, names)
        got = clusters(c, m, names)
        if groups is not None and not c.I.ge0(Lin.of(len(gr)).add(n, -1)) and c.I.ge0(Lin.of(k).add(n, -1)):
            return few_lengths(c, shape, cl, gr, ls, urls, n, got)
        if not c.I.ge0(Lin.of(k).add(n, -1)):
            c.require('fewer URLs than the threshold stay literal', len(got) == k,
                      lambda f: 'patterns %s' % [f(x.pattern) for x in got])
            for x in got:
                if len(x.members) == 1:
                    c.req_eq('fewer URLs than the threshold stay literal', x.pattern, urls[x.members[0]].literal())
            return
        rule = LETTER[cl]
        v = '[%s]+' % rule if lengths != 'same' or groups is not None else ('[%s]' % rule if L == 1 else '[%s]{%d}' % (rule, L))
        u = urls[0]
        pieces = []
        sp = expand(shape, 'V')
        texts = sp[0].split('/') + [x for _, x in sp[1] or []] + ([sp[2]] if sp[2] is not None else [])
        for t, toks in zip(texts, u.levels):
            pieces.append(c.cat(*[v if s == 'V' else x.piece for s, x in zip(t.split(), toks)]))
        want = assemble(u, pieces)
        c.require('as many values as the threshold become one pattern', len(got) == 1,
                  lambda f: 'patterns %s' % [f(x.pattern) for x in got])
        if len(got) == 1:
            c.req_eq('values of one length become a fixed length, of many lengths a wildcard; the rest stays literal',
                     got[0].pattern, want)
    return d


BOTH = ["V/W", "'x/V/W", "V - W", "'x - V - W", ("V/'y", [('k=', 'W')], None), "'a V/'b W", "V/'x/W",
        ("'x", [('k=', 'V'), ('l=', 'W')], None), ("'x", [('k=', 'V')], 'W'), "V/'y - W", "V/W . 'html", "V _ W . 'html"]


def together(shapes, ks, cls=('9', '9')):
    """Two parts that vary together, k different values each: the second
    one of one length or of k lengths."""
    def d(c):
        shape = c.pick(shapes, 'shape')
        if isinstance(shape, str):
            shape = (shape, None, None)
        k = c.pick(ks, 'URLs')
        many = c.pick((False, True), 'second part of different lengths')
        put = lambda v, w: expand(expand(shape, v), w, 'W')
        urls = [mk(c, i, put('%s2!' % cls[0], '%s%d!' % (cls[1], i + 1 if many else 2)), (1,)) for i in range(k)]
        n = c.count('min_cluster_num', 2)
        m = maker(c, n)
        names = ['m%d' % i for i in range(k)]
        load_all(c, m, urls, names)
        got = clusters(c, m, names)
        if not c.I.ge0(Lin.of(k).add(n, -1)):
            c.require('fewer URLs than the threshold stay literal', len(got) == k,
                      lambda f: 'patterns %s' % [f(x.pattern) for x in got])
            for x in got:
                if len(x.members) == 1:
                    c.req_eq('fewer URLs than the threshold stay literal', x.pattern, urls[x.members[0]].literal())
            return
        sp = put('V', 'W')
        texts = sp[0].split('/') + [x for _, x in sp[1] or []] + ([sp[2]] if sp[2] is not None else [])
        v = {'V': '[%s]{2}' % LETTER[cls[0]], 'W': '[%s]%s' % (LETTER[cls[1]], '+' if many else '{2}')}
        want = assemble(urls[0], [c.cat(*[v.get(s) or x.piece for s, x in zip(t.split(), toks)])
                                  for t, toks in zip(texts, urls[0].levels)])
        c.require('as many values as the threshold become one pattern', len(got) == 1,
                  lambda f: 'patterns %s' % [f(x.pattern) for x in got])
        if len(got) == 1:
            c.req_eq('every varying part is generalised on its own; the rest stays literal', got[0].pattern, want)
    return d


HASHES = ["V - 'y", "'y - V", "'x/V - 'y", "V", "'x/V", "V/'z", "V . 'html", ("'x", [('k=', "V _ 'y")], None), ("'x", None, 'V'),
          "V - 'y/'z", "V . 'html/"]


def hashlike(shapes, runs, over=(0,), order='a9'):
    """As many values as the threshold (and one less), each of r alternating
    letter and digit runs that all differ: generalised run by run, or as one
    part (a whole level of more than three runs; besides signs, when that
    saves as many runs as the threshold)."""
    def d(c):
        shape = c.pick(shapes, 'shape')
        if isinstance(shape, str):
            shape = (shape, None, None)
        t = c.pick((2, 3, 4), 'min_cluster_num')
        r = c.pick(runs, 'runs')
        k = t + c.pick(over, 'values beyond the threshold')
        many = c.pick((False, True), 'last run of different lengths')
        seq = [order[j % 2] for j in range(r)]
        val = lambda i: ' '.join('%s%d!' % (x, i + 1 if many and j == r - 1 else 1) for j, x in enumerate(seq))
        urls = [mk(c, i, expand(shape, val(i)), (1,)) for i in range(k)]
        m = maker(c, t)
        names = ['m%d' % i for i in range(k)]
        load_all(c, m, urls, names)
        got = clusters(c, m, names)
        if k < t:
            c.require('fewer URLs than the threshold stay literal', len(got) == k,
                      lambda f: 'patterns %s' % [f(x.pattern) for x in got])
            return
        sp = expand(shape, 'V')
        texts = sp[0].split('/') + [x for _, x in sp[1] or []] + ([sp[2]] if sp[2] is not None else [])
        pieces = []
        for x, toks in zip(texts, urls[0].levels):
            x = x.split()
            whole = r > 3 if x == ['V'] else r - 1 >= t
            out, toks = [], list(toks)
            for y in x:
                if y != 'V':
                    out.append(toks.pop(0).piece)
                    continue
                del toks[:r]
                if whole:
                    out.append('[%s]%s' % (''.join(sorted({LETTER[z] for z in seq})), '+' if many else '{%d}' % r))
                else:
                    out.extend('[%s]%s' % (LETTER[z], '+' if many and j == r - 1 else '') for j, z in enumerate(seq))
            pieces.append(c.cat(*out))
        want = assemble(urls[0], pieces)
        c.require('as many values as the threshold become one pattern', len(got) == 1,
                  lambda f: 'patterns %s' % [f(x.pattern) for x in got])
        if len(got) == 1:
            c.req_eq('values of few runs are generalised run by run, of many runs as one part', got[0].pattern, want)
    return d


def extensions(names, dirs=('', "'d/"), exts=("'jpg", "'png", "'gif"), query=(None,)):
    """Files with one-part names: as many names as the threshold for every
    extension give one pattern per extension."""
    def d(c):
        t = c.pick((2, 3), 'min_cluster_num')
        e = c.pick(tuple(range(1, len(exts) + 1)), 'extensions')
        over = c.pick((0, 1), 'names beyond the threshold')
        base = c.pick(dirs, 'directory')
        nm = c.pick(names, 'name')
        q = c.pick(query, 'query')
        runs = [nm[j % len(nm)] for j in range(1 if len(nm) == 1 else t + 1)]
        val = ' '.join('%s%d!' % (x, 2 if len(runs) == 1 else 1) for x in runs)
        urls, own = [], []
        for i in range(e):
            own.append([])
            for _ in range(t + (over if i == 0 else 0)):
                own[-1].append(len(urls))
                urls.append(mk(c, len(urls), (base + '%s . %s' % (val, exts[i]), q, None), (1,)))
        m = maker(c, t)
        ms = ['m%d' % i for i in range(len(urls))]
        load_all(c, m, urls, ms)
        got = clusters(c, m, ms)
        c.require('files of one extension are one cluster', sorted(map(tuple, own)) == sorted(tuple(sorted(x.members)) for x in got),
                  lambda f: 'patterns %s' % [f(x.pattern) for x in got])
        v = '[%s]{%d}' % (''.join(sorted({LETTER[z] for z in runs})), max(2, len(runs)))
        lv = len(base.split('/')) - 1
        for x in got:
            u = urls[min(x.members)]
            pieces = [c.cat(*[t_.piece for t_ in toks]) for toks in u.levels]
            pieces[lv] = c.cat(v, *[t_.piece for t_ in u.levels[lv][len(runs):]])
            c.req_eq('the name is generalised, the extension is not', x.pattern, assemble(u, pieces))
    return d


SECTIONS = ["S/V", "'x/S/V", "S/'y/V", ("S", [('k=', 'V')], None), ("S", None, 'V'), ("'x", [('k=', 'S'), ('l=', 'V')], None), "S/V/'z",
            "V/S", "V/'y/S", "'x/'y/V/S", "'x/'y/S/'z/V", ("V", [('k=', 'S')], None), ("'x", [('k=', 'V')], 'S')]
INLEVEL = ["'x/S - V", "V - S/'y", "S _ V", ("'x", [('k=', 'S - V')], None)]
WORDS = ("'ab", "'cd", "'ef", "'gh", "'ij")


def sections(shapes, groups):
    """Values that several URLs share: some sections with some items each.  The section is generalised if there are
    as many sections as the threshold or no section dominates, else every section counts on its own."""
    def d(c):
        shape = c.pick(shapes, 'shape')
        if isinstance(shape, str):
            shape = (shape, None, None)
        gr = c.pick(groups, 'items per section')
        own = [i for i, x in enumerate(gr) for _ in range(x)]
        urls = [mk(c, i, expand(expand(shape, WORDS[o], 'S'), '92!'), (1,)) for i, o in enumerate(own)]
        n = c.count('min_cluster_num', 2)
        m = maker(c, n)
        names = ['m%d' % i for i in range(len(urls))]
        load_all(c, m, urls, names)
        got = clusters(c, m, names)
        least = lambda x: c.I.ge0(Lin.of(x).add(n, -1))
        top = max(gr)
        rest = sum(gr) - top
        sp = expand(expand(shape, 'S', 'S'), 'V')
        texts = sp[0].split('/') + [x for _, x in sp[1] or []] + ([sp[2]] if sp[2] is not None else [])

        def gen(u, v):
            return assemble(u, [c.cat(*[v.get(s) or x.piece for s, x in zip(t.split(), toks)])
                                for t, toks in zip(texts, u.levels)])
        both = least(len(gr)) or (least(sum(gr)) and (
            (least(top) and least(rest)) or c.I.ge0(Lin.of(n).add(Lin.of(2 + abs(top - rest)), -1))))
        want = {}
        if both:
            want[tuple(range(len(urls)))] = gen(urls[0], {'S': '[a-z]{2}', 'V': '[0-9]{2}'})
        else:
            for g, x in enumerate(gr):
                mine = [i for i in range(len(urls)) if own[i] == g]
                if least(x):
                    want[tuple(mine)] = gen(urls[mine[0]], {'V': '[0-9]{2}'})
                else:
                    for i in mine:
                        want[(i,)] = urls[i].literal()
        rule = 'shared values are generalised if as many as the threshold or none dominates, else each counts on its own'
        c.require(rule, sorted(want) == sorted(tuple(sorted(x.members)) for x in got),
                  lambda f: 'expected %s, got patterns %s' % ([f(x) for x in want.values()], [f(x.pattern) for x in got]))
        for x in got:
            if tuple(sorted(x.members)) in want:
                c.req_eq(rule, x.pattern, want[tuple(sorted(x.members))])
    return d


def few_lengths(c, shape, cl, gr, ls, urls, n, got):
    """At least as many values as the threshold, but of fewer lengths: one
    wildcard unless one length dominates (see the documentation of confused),
    else length by length."""
    least = lambda x: c.I.ge0(Lin.of(x).add(n, -1))
    top = max(gr)
    rest = sum(gr) - top
    mixed = (least(top) and least(rest)) or c.I.ge0(Lin.of(n).add(Lin.of(2 + abs(top - rest)), -1))
    sp = expand(shape, 'V')
    texts = sp[0].split('/') + [x for _, x in sp[1] or []] + ([sp[2]] if sp[2] is not None else [])

    def gen(u, v):
        return assemble(u, [c.cat(*[v if s == 'V' else x.piece for s, x in zip(t.split(), toks)])
                            for t, toks in zip(texts, u.levels)])
    if mixed:
        want = {tuple(range(len(urls))): gen(urls[0], '[%s]+' % LETTER[cl])}
    else:
        want = {}
        for l, x in enumerate(gr):
            own = [i for i in range(len(urls)) if ls[i] == l + 1]
            if least(x):
                want[tuple(own)] = gen(urls[own[0]], '[%s]' % LETTER[cl] if l == 0 else '[%s]{%d}' % (LETTER[cl], l + 1))
            else:
                for i in own:
                    want[(i,)] = urls[i].literal()
    rule = 'values of few lengths become one wildcard unless one length dominates'
    c.require(rule, sorted(want) == sorted(tuple(sorted(x.members)) for x in got),
              lambda f: 'expected %s, got patterns %s' % ([f(x) for x in want.values()], [f(x.pattern) for x in got]))
    for x in got:
        if tuple(sorted(x.members)) in want:
            c.req_eq(rule, x.pattern, want[tuple(sorted(x.members))])


def default_threshold(c):
    """The configuration shipped with the package."""
    o = c.need('config:get_default_config')
    r = c.meth(o, 'getint', 'make', 'min_cluster_num')
    if r[0] != 'ok':
        c.fail('the default configuration has a threshold', r[1].cls.name)
    c.req_eq('the default threshold is three', r[1], 3)


# -- C19: formatters --------------------------------------------------------------
def formats(specs_list, with_meta=True, pins=(1,)):
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        kind_ = c.pick(('records', 'no records', 'some records'), 'records') if with_meta else 'records'
        n = c.pick((2, 4), 'min_cluster_num')
        m = maker(c, n)
        for i, u in enumerate(urls):
            x = names[i] if kind_ == 'records' or (kind_ == 'some records' and i % 2) else None
            r = c.call(c.attr(c.kept(m), 'load'), u.text, meta=x)
            if r[0] != 'ok':
                c.fail('loading a URL works', r[1].cls.name)
        pf = c.get('formatter:pformat')
        low = c.pick((False, True), 'lower case names')
        nm = (lambda s: s.lower()) if low else (lambda s: s)
        allm = []
        for um, root in list(c.items(c.need(c.attr(c.kept(m), 'make')))):
            P = list(c.items(c.need(pf, nm('PATTERN'), um, root)))
            c.require('PATTERN is one line', len(P) == 1, '%d lines' % len(P))
            if len(P) != 1:
                c.stop()
            P = c.note('pattern', P[0])
            C = list(c.items(c.need(pf, nm('CLUSTER'), um, root)))
            c.require('CLUSTER starts with the pattern', bool(C) and c.eq(C[0], P), lambda f: str([f(x) for x in C]))
            In = list(c.items(c.need(pf, nm('INLINE'), um, root)))
            mc = [x for r in C[1:] for x in names if c.eq(r, '\t' + x)]
            mi = [x for r in In for x in names if c.eq(r, c.cat(P, '\t', x))]
            c.require('CLUSTER: one line per record', len(mc) == len(C) - 1, lambda f: str([f(x) for x in C]))
            c.require('INLINE: one line per record', len(mi) == len(In), lambda f: str([f(x) for x in In]))
            c.require('CLUSTER and INLINE show the same records', sorted(mc) == sorted(mi), '%s %s' % (mc, mi))
            allm += mi
            e = len(c.P.events)
            J = list(c.items(c.need(pf, nm('JSON'), um, root)))
            c.require('JSON is one line', len(J) == 1, '%d lines' % len(J))
            ev = [x[1] for x in c.P.events[e:] if x[0] == 'json']
            if len(ev) == 1:
                from ..vals import VDict
                w = VDict()
                c.I.dict_set(w, 'ptn', P)
                c.I.dict_set(w, 'cnt', c.attr(root, 'count'))
                c.require('JSON has the pattern and the number of URLs', c.eq(ev[0], w), lambda f: f(ev[0]))
            else:
                raise Unsupported('JSON text')
            N = list(c.items(c.need(pf, nm('NULL'), um, root)))
            c.require('NULL prints nothing', not N, '')
            again = list(c.items(c.need(pf, nm('CLUSTER'), um, root)))
            c.require('formatting twice gives the same', len(again) == len(C) and all(c.eq(x, y) for x, y in zip(again, C)), '')
        want = [x for i, x in enumerate(names) if kind_ == 'records' or (kind_ == 'some records' and i % 2)]
        c.require('every record is shown exactly once', sorted(allm) == sorted(want), '%s of %s' % (allm, want))
    return d


def records(c):
    """Records are printed as they are; several per URL."""
    recs = c.pick((('x', ' x', 'x ', ''), ('a\tb', 'a b', '\n', '"'), ('X', 'x', '/x'), ('%s', '{0}', '\\'), (0, 1, 'y'), (None, 'y'),
                   ('http://h/a?k=1&l=2#f', 'http://h/a')), 'records')
    split = c.pick((1, 2), 'URLs')
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(split)]
    m = maker(c, c.pick((2, 3), 'min_cluster_num'))
    for i, x in enumerate(recs):
        load_all(c, m, [urls[i % split]], [x])
    pf = c.get('formatter:pformat')
    got = {'CLUSTER': [], 'INLINE': []}
    want = [str(x) for x in recs if x is not None]
    for um, root in list(c.items(c.need(c.attr(c.kept(m), 'make')))):
        P = list(c.items(c.need(pf, 'PATTERN', um, root)))[0]
        for f in got:
            L = list(c.items(c.need(pf, f, um, root)))
            for r in L[1:] if f == 'CLUSTER' else L:
                got[f] += [x for x in want if c.eq(r, c.cat('' if f == 'CLUSTER' else P, '\t', x))] or [None]
    for f in got:
        c.require(f + ' shows every record exactly once, unchanged', sorted(got[f], key=str) == sorted(want),
                  '%s of %s' % (got[f], want))


def reformat(c):
    """Output for clusters of now, whatever was formatted before."""
    k = c.pick((2, 3), 'URLs before')
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(4)]
    m = maker(c, 2)
    other = maker(c, 2)
    names = ['m%d' % i for i in range(4)]
    pf = c.get('formatter:pformat')

    def dump(m, n):
        for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
            for f in ('CLUSTER', 'INLINE', 'JSON', 'PATTERN'):
                e = len(c.P.events)
                L = list(c.items(c.need(pf, f, um, root)))
                if f == 'JSON':
                    ev = [x[1] for x in c.P.events[e:] if x[0] == 'json']
                    if len(ev) != 1:
                        raise Unsupported('JSON text')
                    from ..vals import VDict
                    w = VDict()
                    c.I.dict_set(w, 'ptn', '/a/[0-9]')
                    c.I.dict_set(w, 'cnt', n)
                    c.require('JSON has the pattern and the number of URLs', c.eq(ev[0], w), lambda f: f(ev[0]))
                    continue
                pre = {'CLUSTER': '', 'INLINE': '/a/[0-9]'}.get(f)
                want = (['/a/[0-9]'] if f != 'INLINE' else []) + ([pre + '\t' + x for x in names[:n]] if pre is not None else [])
                c.require('output is that of the clusters of now', len(L) == len(want) and
                          all(any(c.eq(x, y) for x in L) for y in want), lambda g: '%s: %s' % (f, [g(x) for x in L]))
    a = urls[0].levels[0][0].raw
    if a != 'a':
        c.stop()
    load_all(c, m, urls[:k], names[:k])
    dump(m, k)
    if c.pick((True, False), 'same maker'):
        load_all(c, m, urls[k:], names[k:])
        dump(m, 4)
    else:
        load_all(c, other, urls, names)
        dump(other, 4)
        dump(m, k)


def interleave(c):
    """Formatting iterators used at the same time do not disturb each other."""
    urls = [mk(c, i, s, (1,)) for i, s in enumerate(["'a/9!", "'a/9!", "'b/9!/'c", "'b/9!/'c"])]
    names = ['m%d' % i for i in range(4)]
    m = maker(c, 2)
    load_all(c, m, urls, names)
    pf = c.get('formatter:pformat')
    cls = list(c.items(c.need(c.attr(c.kept(m), 'make'))))
    fmts = ('PATTERN', 'CLUSTER', 'INLINE')
    f, g = c.pick(fmts, 'first format'), c.pick(fmts, 'second format')
    if len(cls) < 2:
        c.stop()
    want = [list(c.items(c.need(pf, x, um, root))) for x, (um, root) in zip((f, g), cls)]
    its = [lazy(c, c.need(pf, x, um, root)) for x, (um, root) in zip((f, g), cls)]
    got = [[], []]
    how = c.pick(('by turns', 'second first'), 'order')
    live = [0, 1]
    if how == 'second first':
        x = next(its[0], None)
        if x is not None:
            got[0].append(x)
        live = [1, 0]
        for i in live:
            got[i] += list(its[i])
    else:
        while live:
            for i in list(live):
                x = next(its[i], None)
                if x is None:
                    live.remove(i)
                else:
                    got[i].append(x)
    for a, b in zip(got, want):
        left = list(b)
        ok = len(a) == len(b)
        for x in a:
            for j, y in enumerate(left):
                if c.eq(x, y):
                    del left[j]
                    break
            else:
                ok = False
        c.require('formatting two clusters at the same time gives the same output', ok,
                  lambda h: 'expected %s, got %s' % ([h(x) for x in b], [h(x) for x in a]))


def lazy(c, v):
    from ..interp import StopIter
    it = c.I.iter(v)
    while True:
        try:
            x = it.next(c.I)
        except StopIter:
            return
        except PyExc as e:
            c.fail('no exception', '%s raised at %s' % (e.val.cls.name, e.where))
        yield x


def combined(specs_list, pins=(1,)):
    """make(combine=True): one tree per structure holding all clusters."""
    def d(c):
        specs = c.pick(specs_list, 'corpus')
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        n = c.pick((2, 3), 'min_cluster_num')
        m = maker(c, n)
        load_all(c, m, urls, names)
        flat = clusters(c, m, names)
        got = []
        r = c.call(c.attr(c.kept(m), 'make'), combine=True)
        if r[0] != 'ok':
            c.fail('clustering works', r[1].cls.name)
        total_ = 0
        for um, root in c.items(r[1]):
            total_ += c.attr(root, 'count')
            for nodes in lazy(c, c.need('utils:dump_tree', root)):
                nodes = list(c.items(nodes))
                t = c.need('parse_utils:pack', um, VList([c.attr(x, 'value') for x in nodes[1:]]))
                got.append((t, c.attr(nodes[-1], 'count')))
        c.req_eq('the combined tree counts every URL', total_, sum(k.count for k in flat))
        left = list(got)
        for k in flat:
            for i, (t, cnt) in enumerate(left):
                if c.eq(t, k.pattern):
                    c.req_eq('a leaf of the combined tree has the size of its cluster', cnt, k.count)
                    del left[i]
                    break
            else:
                c.fail('the combined tree has the patterns of all clusters', lambda f: f(k.pattern))
        c.require('the combined tree has no other patterns', not left, lambda f: str([f(t) for t, _ in left]))
    return d
