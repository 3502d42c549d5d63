"""Pattern strings: units, URL patterns, round trips."""
from ..num import Lin, simp
from ..spec import (ALPHABET, BAD, ESC, PLAIN, CLASS, DIG, LOW, SIGNS, UP, Tok, dec, fuzzy, piece,
                    raw, rep, rule_of_sign, total, unit)
from ..vals import ANY, CS, VList, VSet

RULESETS = (('a-z',), ('0-9',), ('\\-',), ('\\]',), ('\\\\',), ('\\[',), ('%',),
            ('0-9', 'a-z'), ('A-Z', 'a-z'), ('%', '0-9', 'A-Z'), ('\\.', '_'),
            ('\\[', '\\]'), ('\\\\', 'a-z'), ('\\{', '\\}', '0-9'), ('0-9', 'A-Z', 'a-z'))


class PU(object):
    """A unit of a pattern: text, rules, num."""

    def __init__(self, c, shape, name):
        kind, rules = shape
        self.kind = kind
        self.rules = tuple(rules)
        self.c = c
        if kind == 'lit':
            self.n = c.size(name, 1, (1, 2))
            self.text_ = c.run(name, CLASS[rules[0]], self.n)
        elif kind == 'one':
            self.n = 1
        elif kind == 'num':
            lo = max(2, len(rules))
            self.n = c.size(name, lo, (lo, lo + 1, 10, 12, 100))
        elif kind == 'plus':
            self.n = -1

    @property
    def text(self):
        r = ''.join(self.rules)
        if self.kind == 'lit':
            return self.text_
        if self.kind == 'one':
            return '[%s]' % r
        if self.kind == 'num':
            return self.c.cat('[%s]{' % r, dec(self.c, self.n), '}')
        return '[%s]+' % r

    @property
    def literal(self):
        return self.kind == 'lit' or (len(self.rules) == 1 and self.kind in ('one', 'num') and
                                      self.rules[0] not in CLASS)


def units_ok(us):
    return all(not (a[0] == b[0] == 'lit' and a[1] == b[1]) for a, b in zip(us, us[1:]))


ONE = [('lit', ('a-z',)), ('lit', ('A-Z',)), ('lit', ('0-9',))] + \
    [('one', r) for r in RULESETS if len(r) == 1] + \
    [(k, r) for k in ('num', 'plus') for r in RULESETS]
SMALL = [('lit', ('a-z',)), ('lit', ('0-9',)), ('one', ('\\]',)), ('num', ('\\\\',)),
         ('num', ('0-9', 'a-z')), ('plus', ('a-z',))]


def pattern_units(shapes):
    def d(c):
        us = [PU(c, s, 'n%d' % i) for i, s in enumerate(c.pick(shapes, 'units'))]
        s = c.note('pattern', c.cat(*[u.text for u in us]))
        p = c.keep(c.need(c.get('pattern:Pattern'), s))
        try:
            got = c.attr(c.kept(p), 'pattern_units')
        except Exception as e:
            if type(e).__name__ != 'PyExc':
                raise
            c.fail('pattern accepted', '%s at %s' % (e.val.cls.name, e.where))
        got = list(c.items(got))
        c.require('number of units', len(got) == len(us), 'expected %d units, got %d' % (len(us), len(got)))
        if len(got) != len(us):
            c.stop()
        for g, u in zip(got, us):
            c.req_eq('text of a unit', c.attr(g, 'pattern_unit_string'), u.text)
            c.req_eq('classes of a unit', c.attr(g, 'rules'), VSet(list(u.rules)))
            c.req_eq('length of a unit', c.attr(g, 'num'), u.n)
            c.req_eq('class set of a unit', c.attr(g, 'fuzzy_rule'), ''.join(sorted(u.rules)))
            r = c.meth(g, 'is_literal')
            c.require('literalness of a unit', r[0] == 'ok' and r[1] is u.literal, 'unit %s' % (u.kind,))
        c.req_eq('class set of the pattern', c.attr(c.kept(p), 'fuzzy_rule'),
                 ''.join(sorted(set(r for u in us for r in u.rules))))
    return d


def bad_pattern(c):
    x = c.run('x', LOW, c.size('x', 1, (1, 2)))
    n = c.size('n', 1, (1, 2))
    shapes = {
        'unclosed class': ('[a-z',), 'unclosed class after text': (x, '[0-9'),
        'unclosed number': ('[a-z]{', dec(c, n)), 'no number': ('[a-z]{}',),
        'number is text': ('[a-z]{', x, '}'), 'zero': ('[a-z]{0}',),
        'number too small': ('[0-9a-z]{1}',), 'number too small 2': ('[0-9A-Za-z]{2}',),
        'one for two classes': ('[0-9a-z]',),
        'unknown class': ('[', c.ch(BAD), ']+'), 'partial class': ('[a-]+',), 'partial class 2': ('[a-y]+',),
        'bare sign': (x, '-', x), 'bare sign 2': ('.', x), 'bare bad char': (x, c.ch(BAD)),
        'closing bracket': (x, ']'), 'escaped bracket only': ('[\\]',),
        'unescaped sign class': ('[.]',), 'escaped plain sign': ('[\\', c.ch(PLAIN), ']'),
        'escaped letter': ('[\\', c.ch(LOW + UP + DIG), ']'), 'unescaped sign': ('[', c.ch(''.join(x for x in ESC if x not in '\\]')), ']+'),
        'range from b': ('[', c.ch(LOW[1:]), '-z]+'), 'range to y': (x, '[a-', c.ch(LOW[:-1]), ']'),
        'digit range': ('[0-', c.ch(DIG[:-1]), ']'), 'digit range 2': ('[', c.ch(DIG[1:]), '-9]+'),
        'upper range': ('[A-', c.ch(UP[:-1]), ']{', dec(c, n), '}'), 'upper range 2': ('[', c.ch(UP[1:]), '-Z]'),
        'range across classes': ('[', c.ch(LOW + UP + DIG), '-', c.ch(LOW[:-1] + UP[:-1] + DIG[:-1]), ']+'),
        'one letter': ('[', c.ch(LOW + UP + DIG), ']'), 'empty class': ('[]', '+'), 'empty class 2': ('[]',),
        'wildcard of nothing': (x, '+'), 'number without class': (x, '{', dec(c, n), '}'), 'double wildcard': ('[a-z]++',),
        'number and wildcard': ('[a-z]{2}+',), 'wildcard and number': ('[a-z]+{2}',), 'two numbers': ('[a-z]{2}{2}',),
        'negative number': ('[a-z]{-1}',), 'plus number': ('[a-z]{+2}',), 'blank number': ('[a-z]{ 2}',), 'hex number': ('[a-z]{0x2}',),
        'underscored number': ('[a-z]{1_0}',), 'range number': ('[a-z]{1,2}',), 'number of other digits': ('[a-z]{', c.ch(~CS([chr(i) for i in range(128)])), '}'),
        'number with other digits': ('[a-z]{2', c.ch(~CS([chr(i) for i in range(128)])), '}'),
        'nested class': ('[[a-z]]',), 'escape at the end': ('[\\',), 'blank': (x, ' '), 'two classes of one letter': ('[a-z', c.ch(LOW), ']{2}')}
    k = c.pick(tuple(sorted(shapes)), 'error')
    s = c.note('pattern', c.cat(*shapes[k]))
    p = c.need(c.get('pattern:Pattern'), s)
    from ..interp import PyExc
    try:
        c.I.getattr(p, 'pattern_units')
        out = 'accepted'
    except PyExc as e:
        exc = e.val
        out = exc.cls.name
        c.require('malformed pattern is rejected', c.is_exc(('exc', exc), 'InvalidPatternException'), 'raised ' + out)
        return
    c.require('malformed pattern is rejected', False, 'accepted')


def specify(c):
    """specify_rule / wildcard_rule."""
    k = c.pick(('one', 'many', 'neg', 'zero', 'wildcard'), 'count')
    rule = c.run('rule', LOW, c.size('l', 1, (1, 2)))
    if k == 'one':
        r, want = c.call('parse_utils:specify_rule', rule, 1), c.cat('[', rule, ']')
    elif k == 'many':
        n = c.size('n', 2, (2, 3, 12))
        r = c.call('parse_utils:specify_rule', rule, n)
        want = c.cat('[', rule, ']{', dec(c, n), '}')
    elif k == 'neg':
        r, want = c.call('parse_utils:specify_rule', rule, -1), c.cat('[', rule, ']+')
    elif k == 'wildcard':
        r, want = c.call('parse_utils:wildcard_rule', rule), c.cat('[', rule, ']+')
    else:
        r = c.call('parse_utils:specify_rule', rule, 0)
        c.require('zero is rejected', c.is_exc(r, 'ValueError'), 'accepted')
        return
    if r[0] != 'ok':
        c.fail('rule accepted', r[1].cls.name)
    c.req_eq('text of the rule', r[1], want)


# -- URL pattern strings -----------------------------------------------------
def ptext(c, kind, name):
    X = lambda: c.run(name, LOW + DIG, c.size(name, 1, (1, 2)))
    return {'': lambda: '', 'x': X, 'x-': lambda: c.cat(X(), '[\\-]{2}'), '+': lambda: '[0-9a-z]+',
            '?': lambda: c.cat('[\\?]', X()), '=': lambda: c.cat(X(), '[=]'), '/': lambda: '[/]{2}',
            '#': lambda: c.cat('[#]', X()), '&': lambda: c.cat(X(), '[&]')}[kind]()


PPATHS = [('x',), ('',), ('+',), ('x', ''), ('x-', '+'), ('x', 'x', '+')]
PQUERIES = [None, (('', ''),), (('', '+'),), (('k=', 'x'),), (('k=', ''),), (('k=', '?'),), (('k=', '='),),
            (('k', ''), ('l=', 'x-')), (('k=', '/'), ('l=', '+')), (('k=', '?'), ('l', '')),
            (('k=', ''), ('l=', ''), ('m=', '')), (('k=', 'x'), ('l=', '+'), ('m=', '')), (('k', ''), ('l=', ''), ('m', ''), ('n=', ''))]
PFRAGS = [None, '', 'x', '?', '#', '&', '/', '=']


def build_pattern(c, path, query, frag):
    segs = [ptext(c, k, 'p%d' % i) for i, k in enumerate(path)]
    parts = []
    for s in segs:
        parts += ['/', s]
    keys, vals = [], []
    if query is not None:
        parts.append('[\\?]')
        for i, (k, v) in enumerate(query):
            key = ''
            if k:
                key = c.cat(c.run('k%d' % i, LOW, c.size('k%d' % i, 1, (1, 2))), '=' if k[-1] == '=' else '')
            val = ptext(c, v, 'v%d' % i)
            keys.append(key)
            vals.append(val)
            parts += (['&'] if i else []) + [key, val]
    pieces = segs + vals
    if frag is not None:
        f = ptext(c, frag, 'f')
        parts += ['#', f]
        pieces.append(f)
    return c.note('pattern', c.cat(*parts)), len(segs), tuple(keys), tuple(pieces), frag is not None


def url_pattern(paths, queries, frags):
    def d(c):
        path = c.pick(paths, 'path')
        query = c.pick(queries, 'query')
        frag = c.pick(frags, 'fragment')
        s, depth, keys, pieces, has = build_pattern(c, path, query, frag)
        r = c.call('parse_utils:analyze_url_pattern_string', s)
        if r[0] != 'ok':
            c.fail('URL pattern accepted', '%s at %s' % (r[1].cls.name, r[2]))
        m = r[1][0]
        k = c.keep(r[1])
        c.req_eq('number of path levels', c.attr(m, 'path_depth'), depth)
        c.req_eq('query keys', c.attr(m, 'query_keys'), keys)
        c.req_eq('presence of a fragment', c.attr(m, 'has_fragment'), has)
        c.req_eq('patterns of the levels', r[1][1], pieces)
        r = c.call('parse_utils:pack', c.kept(k)[0], c.kept(k)[1])
        if r[0] != 'ok':
            c.fail('packing works', '%s at %s' % (r[1].cls.name, r[2]))
        c.req_eq('packing gives the URL pattern back', r[1], s)
    return d


# sign runs allowed in each component of a URL
COMP = {'path': ('a-z', '-', '\\', '[', '%'), 'value': ('a-z', '?', '=', '/', '+'),
        'fragment': ('a-z', '#', '?', '&', '/')}


def url_round_trip(c):
    """URL -> literal URL pattern -> the same structure and pieces."""
    comp = c.pick(('path', 'value', 'only value', 'fragment', 'key', 'key and fragment', 'empty value',
                   'empty query', 'empty fragment', 'trailing slash', 'empty values', 'many levels'), 'component')
    toks = []
    if comp in ('path', 'value', 'fragment'):
        ks = c.pick([(k,) for k in COMP[comp]] + [('a-z', k, '0-9') for k in COMP[comp][1:]], 'classes')
        toks = [Tok(c, k, 'n%d' % i, pins=(1, 2), sign_pins=(1, 2)) for i, k in enumerate(ks)]
    elif comp in ('key', 'key and fragment'):
        ks = c.pick((('a-z',), ('a-z', '_', 'a-z'), ('-',)), 'classes')
        toks = [Tok(c, k, 'n%d' % i, pins=(1, 2), sign_pins=(1, 2)) for i, k in enumerate(ks)]
    elif comp == 'only value':
        ks = c.pick((('a-z',), ('a-z', '/', 'a-z'), ('0-9', '?')), 'classes')
        toks = [Tok(c, k, 'n%d' % i, pins=(1, 2), sign_pins=(1, 2)) for i, k in enumerate(ks)]
    t, p = raw(c, toks), piece(c, toks)
    U = {'path': (['http://h/a/', t, '/b'], ['/a/', p, '/b']),
         'value': (['http://h/a?k=', t, '&l=2'], ['/a[\\?]k=', p, '&l=2']),
         'only value': (['http://h/a?', t], ['/a[\\?]', p]),
         'fragment': (['http://h/a#', t], ['/a#', p]),
         'key': (['http://h/a?', t, '=1&b'], ['/a[\\?]', p, '=1&b']),
         'key and fragment': (['http://h/a/?', t, '=#', t], ['/a/[\\?]', p, '=#', p]),
         'empty value': (['http://h/a?k='], ['/a[\\?]k=']),
         'empty query': (['http://h/a?#x'], ['/a[\\?]#x']),
         'empty fragment': (['http://h/a/b#'], ['/a/b#']),
         'empty values': (['http://h/a/?k=&l=1&m=&n#'], ['/a/[\\?]k=&l=1&m=&n#']),
         'many levels': (['http://h/a/b/c//d/e/f-?k=1&k=&l=2'], ['/a/b/c/d/e/f[\\-][\\?]k=1&k=&l=2']),
         'trailing slash': (['http://h/a//b/'], ['/a/b/'])}[comp]
    u = c.note('url', c.cat(*U[0]))
    r = c.call('parser:parse', u)
    if r[0] != 'ok':
        c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
    k = c.keep(r[1])
    texts = [c.attr(x, 'piece') for x in c.items(r[1][1])]
    kt = c.keep(VList(texts))
    r2 = c.call('parse_utils:pack', c.kept(k)[0], c.kept(kt))
    if r2[0] != 'ok':
        c.fail('packing works', '%s at %s' % (r2[1].cls.name, r2[2]))
    want = c.cat(*[x() if callable(x) else x for x in U[1]])
    c.req_eq('literal URL pattern', r2[1], want)
    r3 = c.call('parser:parse', r2[1])
    if r3[0] != 'ok':
        c.fail('literal URL pattern accepted', '%s at %s' % (r3[1].cls.name, r3[2]))
    c.req_eq('same structure', r3[1][0], c.kept(k)[0])
    c.req_eq('same pieces', tuple(c.attr(x, 'pattern_string') for x in c.items(r3[1][1])),
             tuple(c.kept(kt).items))
