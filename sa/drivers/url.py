"""Query strings, URLs and pattern strings: structure."""
from ..spec import (ALPHABET, BAD, CLASS, DIG, LOW, SIGNS, UP, Tok, dec, fuzzy, piece,
                    raw, rep, rule_of_sign, total, unit)
from ..vals import ANY, CS
import re

TEXT = ANY - CS('&=')
VALUE = ANY - CS('&')
CTRL = CS('\t\r\n') | CS([chr(i) for i in range(0x21)])
SEG = ANY - CS('/?#;') - CTRL
QVAL = ANY - CS('&#') - CTRL
QKEY = ANY - CS('&#=') - CTRL
FRAG = ANY - CTRL


def parse_q(c, q):
    return c.call('parse_utils:parse_query_string', q)


def q_item(c, shape, i, value=VALUE, key=TEXT, pins=(1, 2)):
    """-> (text, key, value) of one item."""
    K = lambda: c.run('k%d' % i, key, c.size('k%d' % i, 1, pins))
    V = lambda: c.run('v%d' % i, value, c.size('v%d' % i, 1, pins))
    if shape == 'k':
        k = K()
        return k, k, ''
    if shape == 'k=':
        k = c.cat(K(), '=')
        return k, k, ''
    if shape == 'k=v':
        k, v = c.cat(K(), '='), V()
        return c.cat(k, v), k, v
    if shape == '=':
        return '=', '=', ''
    if shape == '=v':
        v = V()
        return c.cat('=', v), '=', v
    if shape == 'k==v':
        k, v = c.cat(K(), '='), c.cat('=', V())
        return c.cat(k, v), k, v
    raise AssertionError(shape)


ITEMS = ('k', 'k=', 'k=v', '=', '=v')


def join(c, texts, sep):
    out = []
    for i, t in enumerate(texts):
        if i:
            out.append(sep)
        out.append(t)
    return c.cat(*out)


def q_expect(items):
    keys = tuple(k for _, k, _ in items)
    vals = tuple(v for _, _, v in items)
    return keys, vals


def lists(shapes, n):
    out = [[]]
    for _ in range(n):
        out = [o + [s] for o in out for s in shapes]
    return [tuple(o) for o in out]


def q_none(c):
    q = c.pick((None, ''), 'query')
    r = parse_q(c, q)
    if r[0] != 'ok':
        c.fail('query string accepted', r[1].cls.name)
    c.req_eq('no query differs from an empty query', r[1], ((), ()) if q is None else (('',), ('',)))


def q_items(shape_lists, pins=(1, 2)):
    def d(c):
        shapes = c.pick(shape_lists, 'items')
        items = [q_item(c, s, i, pins=pins) for i, s in enumerate(shapes)]
        q = c.note('query', join(c, [t for t, _, _ in items], '&'))
        r = parse_q(c, q)
        if r[0] != 'ok':
            c.fail('query string accepted', '%s at %s' % (r[1].cls.name, r[2]))
        keys, vals = q_expect(items)
        if shapes == ('k',):
            keys, vals = vals, keys
        c.req_eq('keys of the query', r[1][0], keys)
        c.req_eq('values of the query', r[1][1], vals)
    return d


def q_bad(c):
    """An empty item next to '&' is an error."""
    n = c.pick((('', 'k'), ('k', ''), ('k', '', 'k'), ('', ''), ('k=v', ''), ('', 'k=v'),
                ('k=v', '', 'k=v'), ('=', ''), ('k=', '', 'k')), 'items')
    items = [q_item(c, s, i) if s else ('', '', '') for i, s in enumerate(n)]
    q = c.note('query', join(c, [t for t, _, _ in items], '&'))
    r = parse_q(c, q)
    c.require("misplaced '&' is rejected", c.is_exc(r, 'IrregularURLException'),
              'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))


# -- normalised keys ---------------------------------------------------------
KEYTOKS = (('a-z',), ('_',), ('a-z', '_'), ('_', 'a-z'), ('a-z', '0-9'), ('0-9', '-', 'A-Z'),
           ('[', ']'), ('a-z', '[', 'a-z', ']'), ('-', '_'), ('a-z', '-', '.', 'a-z'), ('\\', 'a-z'))


def key_text(c, toks):
    return raw(c, toks), piece(c, toks)


def norm_keys(c):
    """Query keys of a URL: runs of a sign are written [sign]{n}."""
    ks = c.pick(KEYTOKS, 'key')
    tail = c.pick(('=', '=v', ''), 'tail')
    toks = [Tok(c, k, 'n%d' % i, pins=(1, 2), sign_pins=(1, 2, 3)) for i, k in enumerate(ks)]
    parts = ['http://h/p?', raw(c, toks)]
    v = ''
    if tail:
        parts.append('=')
    if tail == '=v':
        v = c.run('v', QVAL, c.size('v', 1, (1, 2)))
        parts.append(v)
    if not tail:
        parts += ['&z=1']
    u = c.note('url', c.cat(*parts))
    r = c.call('parse_utils:analyze_url', u)
    if r[0] != 'ok':
        c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
    want = c.cat(piece(c, toks), '=' if tail else '')
    keys = c.attr(r[1][0], 'query_keys')
    c.req_eq('normalised key', keys, (want,) if tail else (want, 'z='))
    c.req_eq('pieces of the URL', r[1][1], ('p', v) if tail else ('p', '', '1'))


def normalize_text(kinds):
    """normalize() of an arbitrary text of runs."""
    def d(c):
        ks = c.pick(kinds, 'classes')
        reserved = c.pick((None, '=', '-_'), 'reserved')
        toks = [Tok(c, k, 'n%d' % i, pins=(1, 2), sign_pins=(1, 2, 3)) for i, k in enumerate(ks)]
        t = c.note('text', raw(c, toks))
        from ..vals import VSet
        r = c.call('parse_utils:normalize', t, *([] if reserved is None else [VSet(list(reserved), frozen=True)]))
        if r[0] != 'ok':
            c.fail('text accepted', '%s at %s' % (r[1].cls.name, r[2]))
        want = c.cat(*[t.raw if (t.kind in CLASS or (reserved and t.kind in reserved)) else t.piece for t in toks])
        c.req_eq('normalised text', r[1], want)
    return d


# -- URL structure -----------------------------------------------------------
PATHS = [('x',), ('',), ('x', 'x'), ('x', ''), ('', 'x'), ('', ''), ('x', '', 'x'), ('x', 'x', 'x'),
         ('', '', 'x'), ('x', '', ''), ('x', 'x', '')]
QUERIES = (None, '', ('k',), ('k=v',), ('=',), ('k=', 'k'), ('k=v', 'k=v'), ('k', '=v'))


def build_url(c, path, query, frag, seg=SEG, key=LOW, val=QVAL, fr=FRAG):
    """-> url, depth, keys, pieces"""
    parts = ['http://', 'h']
    segs = []
    for i, p in enumerate(path):
        s = c.run('p%d' % i, seg, c.size('p%d' % i, 1, (1, 2))) if p else ''
        segs.append(s)
        parts += ['/', s]
    keep = [s for i, s in enumerate(segs) if path[i] or i == len(path) - 1]
    keys, vals = (), ()
    if query is not None:
        parts.append('?')
        if query == '':
            keys, vals = ('',), ('',)
        else:
            items = [q_item(c, s, i, value=val, key=CS(key) if isinstance(key, str) else key) for i, s in enumerate(query)]
            parts.append(join(c, [t for t, _, _ in items], '&'))
            keys, vals = q_expect(items)
            if query == ('k',):
                keys, vals = vals, keys
    pieces = tuple(keep) + vals
    if frag is not None:
        f = c.run('f', fr, c.size('f', 1, (1, 2))) if frag else ''
        parts += ['#', f]
        pieces += (f,)
    return c.note('url', c.cat(*parts)), len(keep), keys, pieces


def url_struct(paths, queries, frags=(None, '', 'f')):
    def d(c):
        path = c.pick(paths, 'path')
        query = c.pick(queries, 'query')
        frag = c.pick(frags, 'fragment')
        u, depth, keys, pieces = build_url(c, path, query, frag)
        r = c.call('parse_utils:analyze_url', u)
        if r[0] != 'ok':
            c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
        m = r[1][0]
        c.req_eq('number of path levels', c.attr(m, 'path_depth'), depth)
        c.req_eq('query keys', c.attr(m, 'query_keys'), keys)
        c.req_eq('presence of a fragment', c.attr(m, 'has_fragment'), frag is not None)
        c.req_eq('pieces in order', r[1][1], pieces)
        c.req_eq('one piece per level', c.attr(m, 'depth'), len(pieces))
    return d


def url_components(c):
    """parse_url: absent and empty components are told apart."""
    path = c.pick((('x',), ('x', '')), 'path')
    query = c.pick((None, '', 'q'), 'query')
    frag = c.pick((None, '', 'f'), 'fragment')
    x = c.run('x', SEG, c.size('x', 1, (1, 2)))
    parts = ['http://h/', x] + ['/'] * (len(path) - 1)
    p = c.cat(*(['/', x] + ['/'] * (len(path) - 1)))
    q = f = None
    if query is not None:
        q = c.run('q', ANY - CS('#') - CTRL, c.size('q', 1, (1, 2))) if query else ''
        parts += ['?', q]
    if frag is not None:
        f = c.run('f', FRAG, c.size('f', 1, (1, 2))) if frag else ''
        parts += ['#', f]
    u = c.note('url', c.cat(*parts))
    r = c.call('parse_utils:parse_url', u)
    if r[0] != 'ok':
        c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
    c.req_eq('path', c.attr(r[1], 'path'), p)
    c.req_eq('query (None when absent)', c.attr(r[1], 'query'), q)
    c.req_eq('fragment (None when absent)', c.attr(r[1], 'fragment'), f)


def url_no_path(c):
    u = c.pick(('http://h', 'http://h?a=1', 'http://h#f', 'h', ''), 'url')
    r = c.call('parse_utils:analyze_url', c.note('url', u))
    c.require('URL without a path is rejected', c.is_exc(r, 'IrregularURLException'),
              'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))


def filter_useless(c):
    """Only empty elements are dropped, and never the last one."""
    n = c.pick((0, 1, 2, 3, 4), 'length')
    bits = [c.pick((0, 1), 'e%d' % i) for i in range(n)]
    kind = c.pick(('list', 'tuple'), 'type')
    vals = [c.run('s%d' % i, LOW, c.size('s%d' % i, 1, (1, 2))) if b else '' for i, b in enumerate(bits)]
    from ..vals import VList
    arg = VList(list(vals)) if kind == 'list' else tuple(vals)
    r = c.call('parse_utils:filter_useless', arg)
    if r[0] != 'ok':
        c.fail('sequence accepted', r[1].cls.name)
    want = [v for i, v in enumerate(vals) if bits[i] or i == n - 1]
    c.req_eq('kept elements', r[1], VList(want) if kind == 'list' else tuple(want))


HOSTS = ('http://h', 'https://h', 'http://www.x.com', 'https://m.x.y', 'http://x.y:8080', 'http://u:p@h.z', 'HTTP://H', 'ftp://h', '//h',
         'http://1.2.3.4', 'http://x-y_z.w', 'http://', 'a+b://h', 'http://h.')


def url_hosts(c):
    """The structure does not depend on scheme and host."""
    ws = []
    for w in c.words():
        w = w.strip('/')
        if w and not re.search('[^A-Za-z0-9.:-]', w):
            ws += ['http://%sx' % w, 'http://x%s' % w, 'http://%s' % w, '%s://h' % w.rstrip(':')]
    h = c.pick(HOSTS + tuple(ws), 'host')
    shape = c.pick(('/x', '/x/', '//x', '/', '/x?k=v', '/?v#f', '/x#', '/x/x?k=v&k#f', ''), 'rest')
    run = lambda n, s: c.run(n, s, c.size(n, 1, (1, 2)))
    x, y, v, f, k = run('x', SEG), run('y', SEG), run('v', QVAL - CS('=')), run('f', FRAG), run('k', LOW)
    rest, want = {
        '/x': (['/', x], (1, (), False, (x,))), '/x/': (['/', x, '/'], (2, (), False, (x, ''))),
        '//x': (['//', x], (1, (), False, (x,))), '/': (['/'], (1, (), False, ('',))),
        '/x?k=v': (['/', x, '?', k, '=', v], (1, (c.cat(k, '='),), False, (x, v))),
        '/?v#f': (['/?', v, '#', f], (1, ('',), True, ('', v, f))),
        '/x#': (['/', x, '#'], (1, (), True, (x, ''))), '': ([], None),
        '/x/x?k=v&k#f': (['/', x, '/', y, '?', k, '=', v, '&', k, '#', f], (2, (c.cat(k, '='), k), True, (x, y, v, '', f))),
    }[shape]
    u = c.note('url', c.cat(h, *rest))
    r = c.call('parse_utils:analyze_url', u)
    if want is None:
        c.require('URL without a path is rejected', c.is_exc(r, 'IrregularURLException'),
                  'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))
        return
    if r[0] != 'ok':
        c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
    m = r[1][0]
    c.req_eq('number of path levels', c.attr(m, 'path_depth'), want[0])
    c.req_eq('query keys', c.attr(m, 'query_keys'), want[1])
    c.req_eq('presence of a fragment', c.attr(m, 'has_fragment'), want[2])
    c.req_eq('pieces in order', r[1][1], want[3])
