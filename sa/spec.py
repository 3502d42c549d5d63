"""The specification side: what the documented behaviour is, independent of
the implementation.  Everything here works on abstract text."""
from .vals import ANY, CS, Ch, Dec, Rep, Str
from .num import Lin

LOW = 'abcdefghijklmnopqrstuvwxyz'
UP = LOW.upper()
DIG = '0123456789'
PLAIN = '%&_@#;:,=<>~/'
ESC = '.+\\"\'()[]{}*$^?|!-'
SIGNS = PLAIN + ESC
ALPHABET = LOW + UP + DIG + SIGNS
CLASS = {'a-z': LOW, 'A-Z': UP, '0-9': DIG}
BAD = ~CS(ALPHABET)


def rule_of_sign(c):
    return c if c in PLAIN else '\\' + c


def rule_of(c):
    for r, s in CLASS.items():
        if c in s:
            return r
    return rule_of_sign(c)


RULES = {r: r for r in CLASS}
for _c in SIGNS:
    RULES[rule_of_sign(_c)] = _c


class Tok(object):
    """A maximal run of characters of one class.

    raw: its text in a URL; piece: its text in a parsed piece / literal
    pattern; rule: name of its class; n: length.
    """

    def __init__(self, c, kind, name, n=None, pins=(1, 2, 3), sign_pins=(1, 2, 11)):
        self.kind = kind
        if kind in CLASS:
            self.rule = kind
            self.n = c.size(name, 1, pins) if n is None else n
            self.raw = c.run(name, CLASS[kind], self.n)
            self.sign = False
        else:
            self.rule = rule_of_sign(kind)
            self.n = c.size(name, 1, sign_pins) if n is None else n
            self.raw = rep(c, kind, self.n)
            self.sign = True
        self.c = c

    @property
    def piece(self):
        return unit(self.c, self.rule, self.n) if self.sign else self.raw


def rep(c, ch, n):
    if isinstance(n, int):
        return ch * n
    return c.I.mk([Rep(c.I.new_cell(CS(ch), rep=True), n)])


def dec(c, n):
    return str(n) if isinstance(n, int) else c.I.dec(Lin.of(n))


def unit(c, rule, n):
    """[rule] / [rule]{n}; forks on n == 1."""
    if c.I.py_eq(n, 1):
        return '[%s]' % rule
    return c.cat('[%s]{' % rule, dec(c, n), '}')


def total(toks):
    n = Lin()
    for t in toks:
        n = n.add(t.n)
    from .num import simp
    return simp(n)


def fuzzy(toks):
    return ''.join(sorted(set(t.rule for t in toks)))


def raw(c, toks):
    return c.cat(*[t.raw for t in toks])


def piece(c, toks):
    return c.cat(*[t.piece for t in toks])
