"""Characters, tokenisation and literal length of a piece."""
from ..spec import (ALPHABET, BAD, CLASS, DIG, LOW, SIGNS, UP, Tok, fuzzy, piece,
                    raw, rep, rule_of, rule_of_sign, total, unit)
from ..vals import ANY, CS

SIGN1 = '-_.%~'
KINDS3 = ('a-z', '0-9', '-', '.', '\\')
REPR = ('a-z', 'A-Z', '0-9', '%', '-', '\\', '[', ']', '{', '}')


def parser(c):
    return c.need(c.get('parse_utils:PieceParser'))


def parse_piece(c, text):
    return c.call(c.attr(parser(c), 'parse'), text)


# -- C01 --------------------------------------------------------------------
def one_char(c):
    """One arbitrary character."""
    ch = c.note('piece', c.ch(ANY))
    r = parse_piece(c, ch)
    if c.I.ch_in(ch.parts[0] if hasattr(ch, 'parts') else ch, CS(ALPHABET)):
        for rule, s in CLASS.items():
            if c.I.ch_in(ch.parts[0] if hasattr(ch, 'parts') else ch, CS(s)):
                want = (rule, ch)
                break
        else:
            k = c.I.const(ch)
            if k is None:
                k = [x for x in SIGNS if c.eq(ch, x)][0]
            want = (rule_of_sign(k), '[%s]' % rule_of_sign(k))
        if r[0] != 'ok':
            c.fail('supported character accepted', 'rejected with %s' % r[1].cls.name)
        c.req_eq('class of the character', c.attr(r[1], 'rules'), (want[0],))
        c.req_eq('rendering of the character', c.attr(r[1], 'pieces'), (want[1],))
    else:
        c.require('other character rejected', c.is_exc(r, 'InvalidCharException'),
                  'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))


def bad_inside(c):
    """An unsupported character anywhere in a piece."""
    k = c.pick(('a-z', '-', '', '0-9', 'A-Z'), 'before')
    parts = []
    if k:
        parts.append(Tok(c, k, 'x', pins=(1, 2)).raw)
    parts.append(c.ch(BAD))
    k = c.pick(('', '0-9', '.', 'a-z', 'A-Z'), 'after')
    if k:
        parts.append(Tok(c, k, 'y', pins=(1, 2)).raw)
    t = c.note('piece', c.cat(*parts))
    r = parse_piece(c, t)
    c.require('other character rejected', c.is_exc(r, 'InvalidCharException'),
              'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))


def bad_in_url(c):
    """An unsupported character in any component of a URL."""
    where = c.pick(('path', 'last path', 'only level', 'key', 'last key', 'only key', 'key without value', 'last key without value',
                    'value', 'last value', 'value of an empty key', 'fragment', 'only fragment'), 'component')
    b = c.ch(BAD)
    x = c.run('x', LOW if c.pick((0, 1), 'before') else UP + SIGN1, c.size('n', 0, (0, 1)))
    y = c.run('y', DIG if c.pick((0, 1), 'after') else LOW + SIGN1, c.size('m', 0, (0, 1)))
    t = c.cat(x, b, y)
    url = {'path': ('http://h/', t, '/z'), 'last path': ('http://h/z/', t),
           'only level': ('http://h/', t),
           'key': ('http://h/z?', t, '=1&k=2'), 'last key': ('http://h/z?k=1&', t, '=2'), 'only key': ('http://h/z?', t),
           'key without value': ('http://h/z?', t, '&k=2'), 'last key without value': ('http://h/z?k=1&', t),
           'value': ('http://h/z?k=', t, '&l=2'), 'last value': ('http://h/z/?k=1&l=', t),
           'value of an empty key': ('http://h/z?=', t),
           'fragment': ('http://h/z?k=1#', t), 'only fragment': ('http://h/z#', t)}[where]
    u = c.note('url', c.cat(*url))
    r = c.call('parser:parse', u)
    c.require('URL with an unsupported character is rejected', c.is_exc(r, 'InvalidCharException'),
              'outcome: %s' % (r[0] if r[0] == 'ok' else r[1].cls.name))


# -- C02 / C07 --------------------------------------------------------------
def seqs(kinds, n):
    out = [[k] for k in kinds]
    for _ in range(n - 1):
        out = [s + [k] for s in out for k in kinds if k != s[-1]]
    return out


def check_tokens(c, toks, what=('pieces', 'length')):
    t = c.note('piece', raw(c, toks))
    r = parse_piece(c, t)
    if r[0] != 'ok':
        c.fail('piece is accepted', '%s at %s' % (r[1].cls.name, r[2]))
    p = c.keep(r[1])
    g = lambda n: c.attr(c.kept(p), n)
    if 'pieces' in what:
        c.req_eq('maximal runs', g('pieces'), tuple(t.piece for t in toks))
        c.req_eq('class of each run', g('rules'), tuple(t.rule for t in toks))
        c.req_eq('piece text is the concatenation of its runs', g('piece'), piece(c, toks))
        c.req_eq('class set of the piece', g('fuzzy_rule'), fuzzy(toks))
        c.req_eq('class set of the piece (read again)', g('fuzzy_rule'), fuzzy(toks))
    if 'length' in what:
        c.req_eq('literal length', g('piece_length'), total(toks))
        c.req_eq('literal length (read again)', g('piece_length'), total(toks))


def mk_tokens(kind_lists, what=('pieces',)):
    def d(c):
        ks = c.pick(kind_lists, 'classes')
        check_tokens(c, [Tok(c, k, 'n%d' % i) for i, k in enumerate(ks)], what)
    return d


def same_class(kinds_len, what):
    """Every single class: one run of arbitrary length."""
    def d(c):
        ks = c.pick(tuple(CLASS) + tuple(SIGNS), 'class')
        check_tokens(c, [Tok(c, ks, 'n', sign_pins=(1, 2, 9, 10, 11, 99, 100, 101))], what)
    return d


def empty(c):
    r = parse_piece(c, '')
    if r[0] != 'ok':
        c.fail('piece is accepted', '%s at %s' % (r[1].cls.name, r[2]))
    c.req_eq('piece text is the concatenation of its runs', c.attr(r[1], 'piece'), '')
    c.req_eq('class set of the piece', c.attr(r[1], 'fuzzy_rule'), '')
    c.req_eq('literal length', c.attr(r[1], 'piece_length'), 0)


def reuse(c):
    """One parser object used for several pieces, also after a rejection."""
    p = c.keep(parser(c))
    first = c.pick(('ok', 'bad', 'empty'), 'first')
    if first == 'ok':
        a = raw(c, [Tok(c, 'a-z', 'p', pins=(1, 2)), Tok(c, '-', 'q')])
    elif first == 'bad':
        a = c.cat(c.run('p', LOW, c.size('p', 1, (1, 2))), c.ch(BAD))
    else:
        a = ''
    c.note('first piece', a)
    r1 = c.call(c.attr(c.kept(p), 'parse'), a)
    k1 = c.keep(r1[1] if r1[0] == 'ok' else None)
    toks = [Tok(c, c.pick(('a-z', '0-9', '-'), 'class'), 'n', pins=(1, 2))]
    t = c.note('second piece', raw(c, toks))
    r = c.call(c.attr(c.kept(p), 'parse'), t)
    if r[0] != 'ok':
        c.fail('parser stays usable', '%s at %s' % (r[1].cls.name, r[2]))
    c.req_eq('result independent of earlier pieces', c.attr(r[1], 'pieces'), tuple(t.piece for t in toks))
    c.req_eq('classes independent of earlier pieces', c.attr(r[1], 'rules'), tuple(t.rule for t in toks))
    if first == 'ok':
        c.req_eq('earlier result unchanged', c.attr(c.kept(k1), 'rules'), ('a-z', '\\-'))


MIXED = ('a', 'A', 'a 9', 'A 9', 'a A', 'A a', '9', '9 a', 'a -', '- a', 'a _', 'a -2', 'a - 9', 'a 9 -', '')


def pair(c):
    """Two texts, one after the other, through everything parse() keeps."""
    from .common import level
    s1, s2 = c.pick(MIXED, 'first'), c.pick(MIXED, 'second')
    where = c.pick(('path', 'value', 'fragment'), 'component')
    one = c.pick(('two URLs', 'one URL'), 'texts in') if where == 'path' else 'two URLs'
    toks = []
    for i, s in enumerate((s1, s2)):
        toks.append(level(c, s, 'xy'[i], (2,) if s in ('a', 'A', '9') else (1,)))
    F = {'path': ('http://h/p/', ''), 'value': ('http://h/p?k=', ''), 'fragment': ('http://h/p#', '')}[where]
    us = [c.note('url%d' % i, c.cat(F[0], raw(c, t))) for i, t in enumerate(toks)]
    if one == 'one URL':
        us = [c.note('url', c.cat('http://h/', raw(c, toks[0]), '/p/', raw(c, toks[1]) if s2 else 'q',
                                  '?k=', raw(c, toks[0]), '#', raw(c, toks[1])))]
    got = []
    for u in us:
        r = c.call('parser:parse', u)
        if r[0] != 'ok':
            c.fail('URL accepted', '%s at %s' % (r[1].cls.name, r[2]))
        got.append(c.keep(r[1]))
    if one == 'one URL':
        ps = list(c.items(c.kept(got[0])[1]))
        if not s1:
            ps = [None] + ps
        if len(ps) != 5:
            c.fail('one piece per component', '%d pieces' % len(ps))
        chk = [(toks[0], ps[0]), (toks[0], ps[3]), (toks[1], ps[4])] + ([(toks[1], ps[2])] if s2 else [])
        chk = [(t, q) for t, q in chk if q is not None]
    else:
        chk = [(t, list(c.items(c.kept(g)[1]))[-1]) for t, g in zip(toks, got)]
    for t, q in chk:
        q = c.keep(q)
        c.req_eq('maximal runs', c.attr(c.kept(q), 'pieces'), tuple(x.piece for x in t))
        c.req_eq('class of each run', c.attr(c.kept(q), 'rules'), tuple(x.rule for x in t))
        c.req_eq('literal length', c.attr(c.kept(q), 'piece_length'), total(t))
