"""Trees and bags, views of pieces, patterns as regular expressions."""
from ..interp import PyExc, StopIter
from ..spec import DIG, LOW, UP, fuzzy, piece, raw, total
from ..vals import ANY, CS, VList
from .common import covers, level, syms
from .match import dot_groups, groups
from .pat import PU
from .piece import parse_piece

LET = LOW + DIG


# -- C24: trees ----------------------------------------------------------------
def keys(c, lens, al=LET):
    """Sequences of abstract keys, one per path of a tree."""
    return [[c.note('path%d.%d' % (i, j), c.ch(al)) for j in range(n)] for i, n in enumerate(lens)]


def same(c, a, b):
    return len(a) == len(b) and all(c.eq(x, y) for x, y in zip(a, b))


def prefix(c, a, b):
    return len(a) <= len(b) and all(c.eq(x, y) for x, y in zip(a, b))


def tree(shapes, counts=(1,)):
    """Any paths, added one after the other."""
    def d(c):
        ks = keys(c, c.pick(shapes, 'lengths of the paths'))
        step = c.pick(counts, 'count')
        odd = c.pick((None, '', 0, (), 'v'), 'values')
        val = lambda i, j: 'v%d.%d' % (i, j) if odd is None else odd
        odd_meta = c.pick(('m', 0, ''), 'records') if odd is None else 'm'
        met = lambda i: None if i == 1 else 'm%d' % i if odd_meta == 'm' else odd_meta
        root = c.keep(c.need('utils:TreeNode', 'root' if odd is None else odd))
        leaves = []
        for i, p in enumerate(ks):
            kv = VList([(k, val(i, j)) for j, k in enumerate(p)])
            meta = met(i)
            args = {'meta': meta} if i else {'count': step, 'meta': meta}
            r = c.need('utils:build_tree', c.kept(root), kv, **args)
            new = not any(prefix(c, p, q) for q in ks[:i])
            c.require('a path is new exactly when its end was not there', r[1] is new,
                      'path %d is reported as %s' % (i, 'new' if r[1] is True else 'known'))
            leaves.append(c.keep(r[0]))
        n = [step if not i else 1 for i in range(len(ks))]
        c.req_eq('a node counts what passes it', c.attr(c.kept(root), 'count'), sum(n))
        for i, p in enumerate(ks):
            leaf = c.kept(leaves[i])
            c.req_eq('level of a node', c.attr(leaf, 'level'), len(p))
            c.req_eq('a node counts what passes it', c.attr(leaf, 'count'),
                     sum(m for m, q in zip(n, ks) if prefix(c, p, q)))
            first = [j for j, q in enumerate(ks) if prefix(c, p, q)][0]
            c.req_eq('value of a node', c.attr(leaf, 'value'), val(first, len(p) - 1))
            want = None
            for j, q in enumerate(ks):
                if j != 1 and same(c, p, q):
                    want = met(j)
            c.req_eq('record of a node', c.attr(leaf, 'meta'), want)
            c.require('a node is a leaf exactly when nothing was added below it',
                      c.need(c.attr(leaf, 'leaf')) is (not any(len(q) > len(p) and prefix(c, p, q) for q in ks)), 'path %d' % i)
            k, node = len(p), leaf
            while k:
                node = c.attr(node, 'parrent')
                k -= 1
            c.require('the parents of a node lead to the root', node is c.kept(root), 'path %d' % i)
        # dump: every path to a leaf once, nodes from the root to the leaf
        want = []
        for i, p in enumerate(ks):
            if any(same(c, p, q) for q in ks[:i]) or any(len(q) > len(p) and prefix(c, p, q) for q in ks):
                continue
            want.append(i)
        got = []
        for nodes in each(c, c.need('utils:dump_tree', c.kept(root))):
            nodes = list(c.items(nodes))
            c.require('a dumped path starts at the root', bool(nodes) and nodes[0] is c.kept(root), '%d nodes' % len(nodes))
            hit = [i for i in want if nodes and nodes[-1] is c.kept(leaves[i])]
            if not hit:
                c.fail('a dumped path ends at a leaf', '%d nodes' % len(nodes))
            c.require('a dumped path has the nodes from the root to the leaf',
                      len(nodes) == len(ks[hit[0]]) + 1 and all(c.attr(y, 'parrent') is x for x, y in zip(nodes, nodes[1:])),
                      '%d nodes' % len(nodes))
            got.append(hit[0])
        c.require('every path to a leaf is dumped once', sorted(got) == want,
                  'paths %r dumped, paths %r expected' % (sorted(got), want))
    return d


def each(c, gen):
    """Items of a generator, looked at one at a time."""
    it = c.I.iter(gen)
    while True:
        try:
            x = it.next(c.I)
        except StopIter:
            return
        except PyExc as e:
            c.fail('no exception', '%s raised at %s' % (e.val.cls.name, e.where))
        yield x


def bags(c):
    """Bags in bags."""
    shape = c.pick(('flat', 'nested', 'deep', 'empty inside'), 'shape')
    xs = [c.note('object %d' % i, c.ch(LET)) for i in range(3)]
    B = lambda: c.keep(c.need('utils:Bag'))
    top = B()
    groups_ = {'flat': [xs], 'nested': [xs[:2], xs[2:]], 'deep': [xs[:1], xs[1:]], 'empty inside': [xs, []]}[shape]
    inner = []
    if shape == 'flat':
        for x in xs:
            c.need(c.attr(c.kept(top), 'add'), x)
        size = len([i for i in range(3) if not any(c.eq(xs[i], xs[j]) for j in range(i))])
        want = [xs[i] for i in range(3) if not any(c.eq(xs[i], xs[j]) for j in range(i))]
    else:
        want = []
        for g in groups_:
            b = B()
            for i, x in enumerate(g):
                c.need(c.attr(c.kept(b), 'add'), x)
                if not any(c.eq(x, y) for y in g[:i]):
                    want.append(x)
            if shape == 'deep':
                o = B()
                c.need(c.attr(c.kept(o), 'add'), c.kept(b))
                b = o
            c.need(c.attr(c.kept(top), 'add'), c.kept(b))
            inner.append(b)
        c.need(c.attr(c.kept(top), 'add'), c.kept(inner[0]))
        size = len(inner)
    c.req_eq('size of a bag', c.need(c.I.builtins['len'], c.kept(top)), size)
    got = list(c.items(c.need(c.attr(c.kept(top), 'iter_all'))))
    rest = list(want)
    for x in got:
        for i, y in enumerate(rest):
            if c.eq(x, y):
                del rest[i]
                break
        else:
            c.fail('a bag yields what was put into it, each object once', lambda f: 'too often: %s' % f(x))
    c.require('a bag yields what was put into it, each object once', not rest, lambda f: 'missing: %s' % ', '.join(f(x) for x in rest))
    if shape != 'empty inside':
        x = c.need(c.attr(c.kept(top), 'pick'))
        c.require('picking gives an innermost object', c.I.is_str(x) and any(c.eq(x, y) for y in want), lambda f: f(x))


# -- C25: views ------------------------------------------------------------------
VIEWS = ('PieceView', 'LengthView', 'MultiView', 'MixedView', 'LastDotSplitFuzzyView', 'FuzzyView')
LEVELS = ('a', 'a A', 'a A 9', 'a - 9', '- a', 'a 9 -', 'a -2 9 A', 'a % 9', 'a % 9 - a', '%', 'a - % 9', 'a 9 _ 9 a',
          "a 9 . 'html", "a - 9 . 'mp '3", "a 9 - a . 9 a", "9 . a . a", "a . a 9 a", "a . a - a", "a 9 . a -", "A a 9 . A",
          "a % 9 . 9", "a ~ . a")
LPAIRS = [('a', 'a'), ('a', 'A'), ('a 9', 'a 9'), ('a 9', '9 a'), ('a 9', 'a'), ('a - 9', 'a - 9'), ('a - 9', 'a 9 -'), ('a - 9', '9 - a'),
          ('a -2 9', 'a - 9'), ('a 9 - A', '9 a - A'), ('a 9 a - A', 'a 9 - A'), ('a % 9 - a', '9 a % - a'), ('a - 9 - a', 'a - 9'),
          ("a - 9 . 'html", "9 - a . 'html"), ("a 9 . 'html", "a 9 - . 'html"), ("a - 9 . a", "a - 9 . a 9"), ("a 9 . a", "9 a . a"),
          ('a . a 9 a', 'a 9 . a'), ('a A', 'A a'), ('a', ''), ('a - a', 'a - a -')]


def view_groups(cls, toks):
    if cls in ('PieceView', 'LengthView', 'MultiView'):
        return [[t] for t in toks]
    if cls == 'MixedView':
        return groups(toks)
    if cls == 'LastDotSplitFuzzyView':
        return dot_groups(toks) or [toks]
    return [toks]


def parsed(c, toks, what='piece'):
    r = parse_piece(c, c.note(what, raw(c, toks)))
    if r[0] != 'ok':
        c.fail('piece is accepted', '%s at %s' % (r[1].cls.name, r[2]))
    return c.keep(r[1])


def view_parts(c):
    """The parts of each view."""
    cls = c.pick(VIEWS, 'view')
    toks = level(c, c.pick(LEVELS, 'level'), 'x', (1, 2))
    p = parsed(c, toks)
    v = c.keep(c.need('parsed_piece_view:' + cls, c.kept(p)))
    gs = view_groups(cls, toks)
    if c.pick(('parts first', 'view first'), 'order') == 'view first':
        c.attr(c.kept(v), 'view')
    for again in ('', ' (read again)'):
        got = list(c.items(c.attr(c.kept(v), 'parsed_pieces')))
        c.require('number of parts of a view' + again, len(got) == len(gs), '%d parts, expected %d' % (len(got), len(gs)))
        if len(got) != len(gs):
            c.stop()
        for x, g in zip(got, gs):
            c.req_eq('text of a part of a view' + again, c.attr(x, 'piece'), piece(c, g))
            c.req_eq('length of a part of a view' + again, c.attr(x, 'piece_length'), total(g))
            c.req_eq('character spaces of a part of a view' + again, c.attr(x, 'fuzzy_rule'), fuzzy(g))
    c.require('the piece of a view', c.attr(c.kept(v), 'parsed_piece') is c.kept(p), 'another object')
    c.req_eq('the piece is left alone', c.attr(c.kept(p), 'pieces'), tuple(t.piece for t in toks))
    c.req_eq('the piece is left alone', c.attr(c.kept(p), 'rules'), tuple(t.rule for t in toks))


def view_equal(c):
    """Which levels have the same view."""
    cls = c.pick(VIEWS, 'view')
    a, b = c.pick(LPAIRS, 'levels')
    pins = (1, 2) if cls in ('PieceView', 'LengthView') else (1,)
    x, y = level(c, a, 'x', pins), level(c, b, 'y', pins)
    p, q = parsed(c, x, 'first'), parsed(c, y, 'second')
    v = c.keep(c.need('parsed_piece_view:' + cls, c.kept(p)))
    w = c.keep(c.need('parsed_piece_view:' + cls, c.kept(q)))
    if cls == 'PieceView':
        want = c.eq(raw(c, x), raw(c, y))
    elif cls == 'LengthView':
        want = c.eq(total(x), total(y))
    else:
        want = [fuzzy(g) for g in view_groups(cls, x)] == [fuzzy(g) for g in view_groups(cls, y)]
    t1, t2 = c.attr(c.kept(v), 'view'), c.attr(c.kept(w), 'view')
    c.require('two levels have the same view exactly when they are alike', c.eq(t1, t2) is want, lambda f: '%s and %s' % (f(t1), f(t2)))
    c.require('views compare as what they show', c.eq(c.kept(v), c.kept(w)) is want, lambda f: '%s and %s' % (f(t1), f(t2)))
    if want:
        c.req_eq('equal views hash alike', c.need(c.I.builtins['hash'], c.kept(v)), c.need(c.I.builtins['hash'], c.kept(w)))


# -- C26: patterns as regular expressions ----------------------------------------
TEXT = CS('\n', True)
RX1 = [('lit', ('a-z',)), ('lit', ('A-Z',)), ('lit', ('0-9',)), ('one', ('0-9',)), ('one', ('\\.',)), ('one', ('\\\\',)), ('one', ('%',)),
       ('one', ('\\]',)), ('one', ('\\^',)), ('one', ('\\-',)), ('one', ('\\$',)), ('one', ('\\|',)), ('num', ('a-z',)), ('num', ('\\-',)),
       ('num', ('0-9', 'A-Z')), ('num', ('\\[', '\\]')), ('plus', ('a-z',)), ('plus', ('\\.',)), ('plus', ('%', '0-9', 'A-Z')),
       ('plus', ('0-9', 'A-Z', '\\-', '_', 'a-z')), ('plus', ('\\\\', 'a-z'))]
RX2 = [('lit', ('a-z',)), ('one', ('\\.',)), ('plus', ('0-9',)), ('plus', ('0-9', 'a-z')), ('num2', ('0-9',)), ('one', ('A-Z',))]


def unit_of(c, s, name):
    if s[0] == 'num2' or s[0] == 'num':
        u = PU(c, ('plus', s[1]), name)
        u.kind = 'num'
        u.n = max(2, len(s[1]))
        return u
    return PU(c, s, name)


def regex(shapes, sizes):
    """Pattern.match on any text without line ends."""
    def d(c):
        us = [unit_of(c, s, 'n%d' % i) for i, s in enumerate(c.pick(shapes, 'units'))]
        s = c.note('pattern', c.cat(*[u.text for u in us]))
        p = c.keep(c.need(c.get('pattern:Pattern'), s))
        for i in range(2):
            t = c.note('text %d' % i, c.run('t%d' % i, TEXT if not i else CS(LOW + '.5Z'), c.pick(sizes if not i else sizes[1:3], 'size of text %d' % i)))
            r = c.call(c.attr(c.kept(p), 'match'), t)
            if r[0] != 'ok':
                c.fail('no exception', '%s raised at %s' % (r[1].cls.name, r[2]))
            want = covers(c, syms(c, s), t)
            got = c.I.truth(r[1])
            c.require('a pattern matches exactly the texts it stands for', got is want,
                      lambda f: 'pattern %s, text %s: %s' % (f(s), f(t), got))
            if len(us) > 1:
                break
    return d


def many_patterns(c):
    """Two patterns used in turn."""
    a, b = [PU(c, s, 'n%d' % i) for i, s in enumerate((c.pick(RX1[:4] + RX1[16:17], 'first'), c.pick(RX1[:4] + RX1[16:17], 'second')))]
    ps = [c.keep(c.need(c.get('pattern:Pattern'), u.text)) for u in (a, b)]
    t = c.note('text', c.run('t', LOW + UP + DIG, c.pick((1, 2), 'size')))
    for i in (0, 1, 0):
        u = (a, b)[i]
        r = c.call(c.attr(c.kept(ps[i]), 'match'), t)
        if r[0] != 'ok':
            c.fail('no exception', '%s raised at %s' % (r[1].cls.name, r[2]))
        want = covers(c, syms(c, u.text), t)
        c.require('a pattern matches exactly the texts it stands for', c.I.truth(r[1]) is want, lambda f: 'pattern %s, text %s' % (f(u.text), f(t)))


# -- C28: low-level interface ------------------------------------------------------
def low_level(corpora, pins=(1,)):
    """parse, fuzzy_digest, Maker and Matcher against PatternMaker and PatternMatcher."""
    from .common import clusters, config, load_all, maker, match, matcher, metas
    from .make import mk

    def d(c):
        specs = c.pick(corpora, 'corpus')
        n = c.count('min_cluster_num', 2) if c.pick((False, True), 'configuration given') else None
        urls = [mk(c, i, s, pins) for i, s in enumerate(specs)]
        names = ['m%d' % i for i in range(len(urls))]
        ids, makers = [], []
        for u, name in zip(urls, names):
            um, ps = c.need('parser:parse', u.text)
            k = c.keep((um, ps))
            g = c.need('parser:fuzzy_digest', um, ps)
            c.req_eq('digest of a URL and of its parts', c.need('parser:fuzzy_digest', u.text), g)
            for i, x in enumerate(ids):
                if c.eq(c.kept(x), g):
                    break
            else:
                i = len(ids)
                ids.append(c.keep(g))
                a = [config(c, n)] if n is not None else []
                makers.append(c.keep(c.need('pattern_maker:Maker', c.kept(k)[0], *a)))
                c.req_eq('structure of a maker', c.attr(c.kept(makers[i]), 'url_meta'), c.kept(k)[0])
            c.need(c.attr(c.kept(makers[i]), 'load'), c.kept(k)[1], meta=name)
        low = []
        for m in makers:
            for root in c.items(c.need(c.attr(c.kept(m), 'make'))):
                um = c.attr(c.kept(m), 'url_meta')
                pats = list(c.items(c.need('formatter:pformat', 'pattern', um, root)))
                c.require('one pattern per cluster', len(pats) == 1, '%d patterns' % len(pats))
                recs = list(c.items(c.need('formatter:pformat', 'inline', um, root)))
                mem = [i for i, x in enumerate(names) if any(c.eq(r, c.cat(pats[0], '\t', x)) for r in recs)]
                low.append((c.keep(pats[0]), mem, c.attr(root, 'count')))
        h = maker(c, n)
        load_all(c, h, urls, names)
        high = clusters(c, h, names)
        c.require('both interfaces give the same clusters', len(high) == len(low) and all(
            any(sorted(k.members) == sorted(m) and c.eq(k.pattern, c.kept(p)) and c.eq(k.count, q) for p, m, q in low) for k in high),
            lambda f: 'low-level %s, high-level %s' % ([(f(c.kept(p)), m) for p, m, _ in low], [(f(k.pattern), k.members) for k in high]))
        # matching
        ms, mids = [], []
        for j, (p, _, _) in enumerate(low):
            um, ps = c.need('parser:parse', c.kept(p))
            k = c.keep((um, ps))
            g = c.need('parser:fuzzy_digest', um, ps)
            for i, x in enumerate(mids):
                if c.eq(c.kept(x), g):
                    break
            else:
                i = len(mids)
                mids.append(c.keep(g))
                ms.append(c.keep(c.need('pattern_matcher:Matcher', c.kept(k)[0])))
                c.req_eq('structure of a matcher', c.attr(c.kept(ms[i]), 'url_meta'), c.kept(k)[0])
            c.need(c.attr(c.kept(ms[i]), 'load'), c.kept(k)[1], 'p%d' % j)
        hm = matcher(c, [(c.kept(p), 'p%d' % j) for j, (p, _, _) in enumerate(low)])
        for u in urls:
            um, ps = c.need('parser:parse', u.text)
            k = c.keep((um, ps))
            g = c.need('parser:fuzzy_digest', um, ps)
            got = []
            for i, x in enumerate(mids):
                if c.eq(c.kept(x), g):
                    got = metas(c, c.items(c.need(c.attr(c.kept(ms[i]), 'match'), c.kept(k)[1])))
            want = metas(c, match(c, hm, u.text))
            c.require('both interfaces give the same matches', sorted(got) == sorted(want), lambda f: '%s: low-level %s, high-level %s' % (f(u.text), got, want))
            c.require('a URL matches some pattern', bool(got), lambda f: f(u.text))
    return d
