"""Registrations: clustering, matching, histories, command line."""
from ..registry import Task, prop
from . import cli as L
from . import hist as H
from . import make as M
from . import match as X

PIN = ('pin',)


def pin(name, fn, s=60, **k):
    return Task(name, fn, phases=PIN, pin_s=s, **k)


# -- C08
PAIRS = [('a', 'a'), ('a', 'A'), ('a', '9'), ('a 9', '9 a'), ('a - 9', '9 - a - a'), ('a/9', 'a/9'), ('a/9', '9/a'),
         ('a', 'a/a'), ('a/', 'a'), ('a 9', 'a'), ('a . a', 'a - a'), ('a \\ a', 'a \\2 a'), ('% A', 'A'),
         ('a/9/A', 'a/9/A'), ('a - 9', 'a 9')]
QPAIRS = [(('a', [('k=', '9')], None), ('a', [('k=', '9')], None)), (('a', [('k=', '9')], None), ('a', [('k=', 'a')], None)),
          (('a', [('k=', '')], None), ('a', [('k=', '9')], None)), (('a', [('k=', '9')], None), ('a', [('k=', '9')], 'a')),
          (('a', None, '9'), ('a', None, '9')), (('a', None, ''), ('a', None, None)), (('a', None, '9'), 'a/9'),
          (('a', [('k=', 'a'), ('l=', '9')], None), ('a', [('l=', '9'), ('k=', 'a')], None)),
          (('a', [('k=', '9')], None), ('a', [('l=', '9')], None)),
          (('a', [('k=', '9'), ('l=', '9')], None), ('a', [('l=', '9'), ('k=', '9')], None)),
          (('a', [('k=', '9'), ('l=', 'a')], None), ('a', [('l=', '9'), ('k=', 'a')], None)),
          (('a', [('k=', ''), ('l', '')], None), ('a', [('l', ''), ('k=', '')], None)),
          (('a', None, ''), ('a', [('', '')], None)), (('', None, ''), ('', None, None)), (('', [('', '')], None), ('', None, None)),
          (('', [('', '')], ''), ('', [('', '')], None)), (('', None, ''), ('', [('', '')], None)), (('a/', None, None), ('a', None, '')),
          (('a/', None, None), ('a', [('', '')], None)), (('a', [('k=', '')], ''), ('a', [('k=', '')], None)),
          (('a', [('k=', ''), ('l', '')], None), ('a', [('k=', ''), ('l', '')], '')), (('a', [('', '9')], None), ('a', None, '9')),
          (('a', [('k=', '')], None), ('a', [('k', ''), ('l', '')], None)),
          (('a', [('k=', '9')], None), ('a/9', None, None)), (('a', None, 'a 9'), ('a', None, '9 a')),
          (('a', [('k=', '9'), ('l=', '9')], '9'), ('a', [('k=', '9'), ('l=', '9')], '9'))]
GENS = [('a', ('lit',)), ('a', ('len',)), ('a', ('fuz',)), ('a 9', ('multi:ln',)), ('a 9', ('multi:pp',)),
        ('a 9 - A', ('mixed:nll',)), ('a 9 - A', ('mixed:plp',)), ('a 9 - A', ('fuz',)), ('a - 9', ('len',)),
        ("a 9 - A . 'html", ('ldot:nll',)), (('a/9', [('k=', '9')], 'a'), ('lit', 'len', 'fuz', 'fuz')),
        (('a/', [('k=', ''), ('l=', 'a - 9')], None), ('lit', 'lit', 'lit', 'multi:nlp')), ('\\ a [ 9 ]', ('lit',)),
        ('a \\2 9', ('fuz',)), ('[ a ]', ('len',)), ('a 9', ('FUZ',)), ('a - 9 A', ('LEN',)), ('a 9 - A a', ('mixed:NlP',))]
prop('C08',
     Task('digests of two URLs: paths', X.digest_pair(PAIRS[:8]), sym_s=30),
     Task('digests of two URLs: signs', X.digest_pair(PAIRS[8:]), sym_s=30),
     Task('digests of two URLs: queries and fragments', X.digest_pair(QPAIRS), sym_s=40),
     pin('digests of two URLs: keys', X.digest_keys),
     pin('digest of a generalised pattern', X.digest_pattern(GENS)))

# -- C09
prop('C09',
     pin('one level', H.loads([['9'] * 3])),
     pin('several runs', H.loads([['a 9', 'a 9', '9 a'], ['a -', 'a -2', 'a -']], (1,))),
     pin('two levels', H.loads([["'a/9", "'a/9", "'b/9"], ['9', '9/9', '9']], (1,))),
     pin('query and fragment', H.loads([[("'p", [('k=', '9')], 'a')] * 3], (1,))),
     pin('four loads', H.loads([['9'] * 4, ["'a/9", "'a/9", "'a/", "'a/9"]], (1,))),
     pin('shared records', H.same_meta),
     pin('records that look alike', H.typed_records(((1, '1'), (('t',), "('t',)"), (2.5, '2.5'), (1, True), ('x', 'x'), ('A', 'a')))),
     pin('records that are objects', H.object_records),
     pin('many records', H.many_records),
     pin('records of any type', H.odd_meta(('x', 0, '', False, 1, (), ('t', 1), 2.5, -1))),
     pin('records of any type, two levels', H.odd_meta(('x', 0, '', ('t', 1)), "'a/9!")))

# -- corpora
CORP = {
    'numbers': [['9!'] * 3, ["'a/9!"] * 4, ["'a/9"] * 3, ["'a/9!/'b"] * 3],
    'two varying levels': [['9!/9!'] * 3, ['9!/a!'] * 3, ["a2!/'x"] * 3 + ["a2!/'y"] * 3],
    'lengths': [["'a/a1!", "'a/a2!", "'a/a3!"], ["'a/a1!", "'a/a2!", "'a/a2!", "'a/a3!", "'a/a3!"],
                ["'a/a1!", "'a/a1!", "'a/a1!", "'a/a2!", "'a/a2!", "'a/a2!"]],
    'different classes': [['9', '9', 'a'], ["'a/9", "'b/9", "'c/9"], ["'x/9!", "'x/9!", "'x/9!", "'x/"], ["'x/", "'y/", "'z/"]],
    'runs': [["a2! 9"] * 3, ["a1! - 9"] * 3, ["'news - 9!"] * 4],
    'sign runs': [["a1! -2 9!"] * 3, ["a1! -2 'x", "a1! - 'x", "a1! -3 'x"], ["a1! \\ 'x"] * 3, ["a1! [ 'x ]"] * 3],
    'extension': [["'news - 9! . 'html"] * 3, ["'x/a1! . 'html", "'x/a2! . 'html", "'x/a3! - 9 . 'html", "'x/9! . 'html"]],
    'extension of many shapes': [["a1! - 9 . 'jpg", "a1! - 9 - 9 . 'jpg", "a1! - 9 - 9 - 9 . 'jpg"]],
    'several extensions': [["a1! - 9! . 'jpg", "a1! - 9! . 'png", "a1! - 9! . 'gif"]],
    'two-part extension': [["a1! - 91! . 'mp '3", "a1! - 91 - 91 . 'mp '3", "a1! - 91 - 91 - 91 . 'mp '3"]],
    'three-part extension': [["a1! - 91 . '7 'z '4", "a1! - 91 - 91 . '7 'z '4", "a1! - 91 - 91 - 91 . '7 'z '4"],
                             ["a1! - 91 . '7 'z", "a1! - 91 - 91 . '7 'z", "a1! - 91 - 91 - 91 . '7 'z", "a1! . '7 'z '4"]],
    'long': [["'n - 91! - 'v - 91! . 'htm"] * 3],
    'mixed classes': [["a1! A1 91 a1"] * 3, ["% A1! 91 % A1 91"] * 3],
    'mixed classes with sign': [["A1! a1 91 A1 - a1"] * 3],
    'mixed of different order': [["a1! 91 A1 91 - 'x", "91! a1 91 A1 - 'x", "A1! 91 a1 91 - 'x"],
                                 ["a1! 91 A1 91", "91! a1 91 A1 ", "A1! 91 a1 91"]],
    'query': [[("'p", [('k=', '9!')], None)] * 3, [("'p", [('k=', '9!'), ('l=', '')], '')] * 3,
              [("'p", [('k=', "'x"), ('l=', '9!')], None)] * 2 + [("'p", [('k=', "'y"), ('l=', '9!')], None)] * 2],
    'fragment': [[("'p", [('k=', '9!')], 'a!')] * 3, [("'p", None, 'a1!')] * 4],
    'two parents': [["'x/9!/'y"] * 3 + ["'x/9!/'z"] * 2],
    'unbalanced parents': [["'x/9!", "'x/9!", "'y/9!", "'y/9!", "'z/9!"], ["'x/91!"] * 4 + ["'y/91!"]],
    'different depth': [["a1!/'x"] * 2 + ["a1!/'x/9"] * 2],
    'duplicates': [["9"] * 4],
    'the root': [[('', [('k=', '9!')], None)] * 3, [('', None, 'a!')] * 3, [('', [('k=', '9!')], 'a!')] * 2],
}
ONEP = {'runs', 'sign runs', 'extension of many shapes', 'several extensions', 'long', 'mixed classes with sign',
        'mixed of different order', 'two parents', 'unbalanced parents', 'lengths', 'two varying levels', 'duplicates',
        'query', 'fragment', 'different depth'}
for name, cs in sorted(CORP.items()):
    p = (1,) if name in ONEP else (1, 2)
    prop('C10', pin(name, M.corpus(cs, None, ('partition',), p), 50, rev=(False, True) if name in (
        'two parents', 'numbers', 'extension') else (False,)))
    prop('C11', pin(name, M.corpus(cs, None, ('cover', 'match'), p), 60))
prop('C10', pin('combined trees', M.combined([c for n in ('numbers', 'runs', 'two parents', 'unbalanced parents', 'query')
                                              for c in CORP[n][:2]])))

# -- C12
URLS1 = ('a', '9', 'a 9', '9 a', 'a - 9', 'a -2 9', 'a - 9 - a', 'a 9 a - 9', '9 a - 9')


def cross(p, gs, us):
    return [(p, (g,), u) for g in gs for u in us]


prop('C12',
     pin('one run', X.one_match(cross('a', ('lit', 'len', 'fuz'), URLS1))),
     pin('two runs', X.one_match(cross('a 9', ('lit', 'len', 'fuz'), URLS1[:5]))),
     pin('two runs, run by run', X.one_match(cross('a 9', ('multi:ln', 'multi:pl', 'multi:pp', 'multi:np', 'multi:nl', 'multi:lp'),
                                                   ('a 9', '9 a', 'a 9 a', 'a')))),
     pin('three runs', X.one_match(cross('a - 9', ('lit', 'len', 'fuz', 'multi:lln', 'multi:nlp', 'multi:nln', 'multi:pll'),
                                         ('a - 9', 'a -2 9', '9 - a', 'a - 9 - a')))),
     pin('mixed classes', X.one_match(cross("a 9 a - 9", ('mixed:nll', 'mixed:pln', 'mixed:nlp', 'len', 'fuz'),
                                            ('a 9 - 9', '9 a - 9', 'a 9 a - 9', '9 a 9 - 9', 'a - 9', 'a 9 - a')), (1,))),
     pin('mixed classes, lengths', X.one_match(cross("a 9 - 9", ('mixed:nll', 'mixed:pln', 'mixed:nlp'),
                                                     ('a 9 - 9', '9 a - 9', 'a 9 a - 9')), (1, 2))),
     pin('percent', X.one_match(cross("% A 9", ('mixed:n', 'len', 'fuz', 'lit'), ('% A 9', '% 9 A', 'A % 9 % A')))),
     pin('literal part with percent', X.one_match(cross("a % 9 - a 9", ('mixed:lln', 'mixed:llN', 'mixed:llp', 'mixed:nll'),
                                                        ('a % 9 - a 9', 'a % 9 - 9 a', '% a 9 - a 9')), (1,))),
     pin('spaces in another order', X.one_match(cross("a 9 A", ('LEN', 'FUZ'), ('a 9 A', 'A 9 a')) +
                                                cross("a 9 - a 9 A", ('mixed:Nln', 'mixed:plP', 'mixed:NlN', 'LEN', 'FUZ'),
                                                      ('a 9 - a 9 A', '9 a - A 9 a')), (1,))),
     pin('many runs, levels or items', X.long_match),
     pin('several patterns, parts of one level', H.load_between([
         ([('a - 9/9', ('multi:llp', 'lit')), ('a - 9/9', ('multi:pll', 'lit')), ('a - 9/9', ('multi:plp', 'len'))], 'a - 9/9'),
         ([('a 9 - 9/9', ('mixed:nlp', 'fuz')), ('a 9 - 9/9', ('mixed:pll', 'lit')), ('a 9 - 9/9', ('mixed:llp', 'lit'))], 'a 9 - 9/9'),
         ([('a 9/9', ('fuz', 'lit')), ('a 9/9', ('FUZ', 'lit')), ('a 9/9', ('FUZ', 'fuz'))], 'a 9/9'),
         ([('a 9/9', ('len', 'lit')), ('a 9/9', ('LEN', 'lit')), ('a 9/9', ('LEN', 'len'))], '9 a/9'),
         ([('a 9', ('fuz',)), ('a 9', ('FUZ',)), ('a 9', ('len',)), ('a 9', ('LEN',))], 'a 9')])),
     pin('signs', X.one_match([(p, (g,), u) for p in ('a \\ a', 'a [ a', 'a ] a', 'a .2 a')
                               for g in ('lit', 'multi:nln', 'multi:pll', 'len', 'fuz')
                               for u in (p, 'a - a')], (1,))),
     pin('extension', X.one_match([("a - 9 . 'html", (g,), u) for g in ('ldot:nll', 'ldot:pll')
                                   for u in ("a - 9 . 'html", "a 9 - . 'html", "a - 9 . a4", "a . 9 - . a",
                                             "9 - a . 'html")], (1, 2))),
     pin('any extension', X.one_match([("a - 9 . a", (g,), u) for g in ('ldot:pln', 'ldot:nln', 'ldot:plp')
                                       for u in ("a - 9 . a", "a 9 - . a", "a . 9 - . a")], (1, 2))),
     pin('extension at the last path level only',
         X.one_match([("'x/a - 9 . 'html", ('lit', g), "'x/" + u) for g in ('ldot:nll', 'ldot:pll')
                      for u in ("a - 9 . 'html", "a - 9 - a . 'html", "a - 9 . 'htm")], (1,))),
     pin('two levels', X.one_match([('a/9', (g, h), u) for g in ('lit', 'len', 'fuz') for h in ('lit', 'len', 'fuz')
                                    for u in ('a/9', '9/a', 'a', 'a/9/9')], (1, 2))),
     pin('query and fragment', X.one_match(
         [((("'p"), [('k=', '9')], 'a'), ('lit', g, h), u) for g in ('lit', 'len', 'fuz') for h in ('lit', 'len', 'fuz')
          for u in ((("'p"), [('k=', '9')], 'a'), (("'p"), [('l=', '9')], 'a'), (("'p"), [('k=', '9')], None),
                    (("'p"), [('k=', '')], 'a'))], (1, 2))),
     pin('several patterns', H.load_between([
         ([('9', ('len',)), ('9', ('fuz',)), ('9', ('lit',))], '9'),
         ([('92', ('lit',)), ('92', ('lit',)), ('92', ('len',)), ('93', ('len',))], '92'),
         ([('a1', ('len',)), ('91', ('len',)), ('a1 91', ('len',))], '9'),
         ([('a - 9', ('multi:lln',)), ('a - 9', ('multi:pln',)), ('a - 9', ('multi:nlp',))], 'a - 9')], (1,))),
     pin('several patterns of two lengths', H.load_between([
         ([('9', ('len',)), ('9', ('fuz',)), ('9', ('lit',))], '9')], (1, 2))),
     pin('several patterns, two levels', H.load_between([
         ([('a/9', ('lit', 'len')), ('a/9', ('len', 'len')), ('a/9', ('lit', 'fuz')), ('a/9', ('fuz', 'lit'))], 'a/9'),
         ([('a/9', ('lit', 'lit')), ('a/9', ('lit', 'lit')), ('a/9', ('fuz', 'lit')), ('a/9', ('fuz', 'lit'))], 'a/9'),
         ([(('a', [('k=', '9')], None), ('lit', 'len')), (('a', [('k=', '9')], None), ('fuz', 'fuz'))], ('a', [('k=', '9')], None)),
     ])),
     pin('several mixed patterns', H.load_between([
         ([("a 9 a - 9", ('mixed:nll',)), ("a 9 a - 9", ('mixed:pln',)), ("a 9 - 9", ('mixed:nln',))], 'a 9 a - 9'),
         ([("a - 9 . 'html", ('ldot:nll',)), ("a - 9 . 'html", ('ldot:pll',)), ("a - 9 . 'htm", ('ldot:pll',)),
           ("a - 9 . 'html", ('multi:llnll',))], "a - 9 . 'html")])),
     pin('a pattern loaded twice', H.reload))

# -- C13
RANKS = [
    ('a', [('lit',), ('len',), ('fuz',)]),
    ('a 9', [('lit',), ('multi:nl',), ('multi:pl',), ('multi:ln',), ('multi:nn',), ('multi:lp',), ('len',), ('fuz',)]),
    ('a/a', [('lit', 'lit'), ('len', 'lit'), ('fuz', 'lit'), ('lit', 'len'), ('len', 'len'), ('fuz', 'len'), ('lit', 'fuz'),
             ('len', 'fuz'), ('fuz', 'fuz')]),
    ('a 9 a - 9', [('multi:nllll',), ('mixed:nll',), ('mixed:pll',), ('mixed:nln',), ('len',), ('fuz',)]),
    ("a - 9 . 'html", [('lit',), ('multi:llnll',), ('ldot:nll',), ('ldot:pll',), ('len',), ('fuz',)]),
    (('a/9', [('k=', '9')], 'a'), [('lit',) * 4, ('lit', 'lit', 'len', 'lit'), ('lit', 'lit', 'lit', 'len'),
                                   ('lit', 'lit', 'fuz', 'fuz')]),
    ('a 9 - 9 - a', [('multi:nlllll',), ('multi:plllll',), ('multi:lnllll',), ('multi:nnllll',), ('multi:lpllll',),
                     ('multi:lllnll',), ('multi:lnlnll',), ('multi:lllpll',), ('multi:lllllp',)]),
    ('a/9 a', [('lit', 'multi:nl'), ('len', 'multi:nl'), ('fuz', 'multi:nl'), ('lit', 'multi:pl'), ('len', 'multi:pl'),
               ('fuz', 'multi:pl'), ('lit', 'multi:ln'), ('fuz', 'multi:ln'), ('lit', 'len'), ('fuz', 'len'), ('lit', 'fuz')]),
    ('a 9/a 9', [('multi:nl', 'lit'), ('multi:pl', 'lit'), ('multi:ln', 'lit'), ('multi:lp', 'lit'), ('len', 'lit'), ('fuz', 'lit'),
                 ('lit', 'multi:ln'), ('multi:nl', 'multi:ln'), ('multi:ln', 'multi:ln'), ('multi:lp', 'multi:lp')]),
    (('a', [('k=', 'a 9'), ('l=', '9')], None), [('lit', 'multi:nl', 'lit'), ('lit', 'multi:ln', 'lit'), ('lit', 'len', 'lit'),
                                                 ('len', 'len', 'lit'), ('lit', 'lit', 'len'), ('lit', 'multi:nl', 'fuz')]),
    ('a 9 - a 9', [('lit',)] + [('mixed:' + x,) for x in ('nll', 'pll', 'lln', 'nln', 'pln', 'llp', 'nlp')]),
    ('a 9 - a 9/9', [('mixed:' + x, y) for y in ('lit', 'len', 'fuz') for x in ('nll', 'pll', 'lln', 'llp')]),
    ('a 9 A/a', [('LEN', 'lit'), ('FUZ', 'lit'), ('LEN', 'len'), ('fuz', 'len')]),
    ('a/9 A/a', [('fuz', 'multi:nn', 'lit'), ('lit', 'len', 'lit'), ('lit', 'fuz', 'lit'), ('lit', 'lit', 'len'),
                 ('len', 'lit', 'len')]),
    ('a/a 9 a - 9/', [('lit', 'lit', 'lit'), ('len', 'lit', 'lit'), ('lit', 'multi:nllll', 'lit'), ('fuz', 'mixed:nll', 'lit'),
                      ('lit', 'len', 'lit')]),
]
for i, (sp, gl) in enumerate(RANKS):
    prop('C13', pin('ranking %d: %s' % (i, sp), X.rank(sp, gl)))

# -- C14
prop('C14',
     Task('patterns', H.eq_pattern('pattern:Pattern'), sym_s=20),
     pin('loaded patterns', H.eq_pattern('pattern_matcher:MatchPattern')),
     pin('parsed pieces', H.eq_piece),
     pin('parsed pieces of views', H.eq_view),
     pin('objects of other kinds', H.eq_other))

# -- C15 / C16
prop('C15',
     Task('any lines, any outcome of matching', L.havoc_match, sym_s=60, pin_s=60),
     pin('progress messages', L.progress_match),
     pin('unusual lines', L.odd_lines),
     pin('pattern file and URLs', L.e2e_match))
FC = [["'a/9!"] * 3, ["a!/'b/9!"] * 2 + ['a']]
ENDS = [[("'a", [('', '')], None), ("'a", None, ''), "'a"], [("'a", [('k=', '')], ''), ("'a", [('k=', '')], None), "'a/"],
        ["'a - /", "'a -", "'a . "], ["'A/'a", "'a/'a", "'a/'A"], [("'a", [('k=', ''), ('l', '')], ''), "/'a", "'a/'a"]]
for f in ('CLUSTER', 'PATTERN', 'INLINE', 'JSON', 'NULL'):
    prop('C16', pin('lines of a file: ' + f, L.make_lines((f,), FC)))
for f in ('CLUSTER', 'PATTERN', 'INLINE'):
    prop('C16', pin('ends of lines: ' + f, L.make_lines((f,), ENDS, (None, b'#\n'))))
for f in ('CLUSTER', 'PATTERN'):
    prop('C16', pin('hosts, no line end: ' + f, L.make_lines((f,), FC[:1], (None, b'http://h/bc\td\n', b'http://h/bc d\n', b'\xef\xbb\xbf\n'),
                                                             hosts=('http://h', 'ftp://h', 'HTTP://u:p@H.com:80', 'h.com', 'x-y://h', 'https://h'))))
prop('C16', pin('any failure of one line', L.havoc_make), pin('progress messages', L.progress_make))
prop('C20', pin('configuration file', L.config_file))

# -- C17
prop('C17',
     pin('clustering again', H.again([["'a/9!"] * 3, ["9!/'a"] * 2 + ["9!/'b"]])),
     pin('clustering again: runs', H.again([["a1! - 9!"] * 3, ["'n - 9! . 'html"] * 3])),
     pin('clustering again: parents', H.again([["'x/9!", "'x/9!", "'y/9!", "'y/9!"]])),
     pin('two makers', H.two_makers([(["'a/9!"] * 3, ["'a/9!"] * 3), (["'a/9!"] * 2, ["'a/a!"] * 3),
                                     (["a1! - 9!"] * 3, ["a1! - 9!"] * 2)])),
     pin('two matchers', H.two_matchers([
         ([('9', ('len',)), ('9', ('fuz',))], [('9', ('lit',)), ('9', ('fuz',))], '9'),
         ([('a - 9', ('multi:lln',))], [('a - 9', ('multi:pll',)), ('a - 9', ('lit',))], 'a - 9'),
         ([("a 9 a - 9", ('mixed:nll',))], [("a 9 a - 9", ('mixed:pln',))], 'a 9 a - 9'),
         ([("'x/9", ('lit', 'len'))], [("'x/9", ('lit', 'fuz')), ("'x/9", ('fuz', 'lit'))], "'x/9")], (1,))),
     pin('two matchers, two lengths', H.two_matchers([
         ([('9', ('len',)), ('9', ('fuz',))], [('9', ('lit',)), ('9', ('fuz',))], '9')], (1, 2))),
     pin('answers of matching', H.answers_stay),
     pin('one piece parser', __import__('sa.drivers.piece', fromlist=['reuse']).reuse))

# -- C18
prop('C18',
     pin('rejected URLs while loading', H.reject_load([["'a/9!"] * 2, ['9'], [('a', [('k=', 'a')], None)]])),
     pin('nothing but rejected URLs', H.reject_only),
     pin('rejected patterns', H.reject_pattern),
     pin('rejected URLs while matching', H.reject_match))

# -- C19
prop('C19',
     pin('records', M.records),
     pin('formatting clusters again', M.reformat),
     pin('formatting two clusters at once', M.interleave),
     pin('formats of clusters', M.formats([["'a/9!"] * 3, ["'a/9!"] * 2 + ["'b/a"], ["a1! - 9!"] * 3])),
     pin('formats of queries and fragments', M.formats([[("'p", [('k=', '9!'), ('l=', "'a")], "'f")] * 3,
                                                        [("'p", [('k=', '9!')], None)] * 2 + [("'p", None, '')]])),
     pin('formats with several URLs per level', M.formats([["9!/'x"] * 3, ["'x/9!/'y"] * 2 + ["'x/9!/'z"] * 2, ["9"] * 3])))

# -- C20
prop('C20',
     pin('one varying level', M.threshold(M.VARY[:4], (1, 2, 3, 4, 5))),
     pin('one varying component', M.threshold(M.VARY[4:], (1, 2, 3, 4))),
     pin('many lengths', M.threshold(M.VARY, (1, 2, 3, 4), lengths='many')),
     pin('one varying run', M.threshold(M.TOKS, (1, 2, 3, 4))),
     pin('one varying run of many lengths', M.threshold(M.TOKS, (1, 2, 3, 4), lengths='many')),
     pin('default configuration', M.threshold(["'x/V", "'x - V", "V . 'html"], (1, 2, 3, 4), ('a', 'A', '9'), mcn='default')),
     pin('several values of many lengths', M.threshold(["'x/V", "V", ("'x", [('k=', 'V')], None), "'x - V"], None, mcn='symbolic',
                                                        groups=((5, 1, 1), (1, 4, 1), (2, 2, 1), (1, 1, 3), (2, 1, 1, 1), (4, 1)))),
     pin('few lengths', M.threshold(["'x/V", "V", ("'x", [('k=', 'V')], None), "'x - V", "V . 'html"], None, mcn='symbolic',
                                     groups=((1, 2), (3, 1), (2, 2), (4, 1), (3, 2), (1, 1, 2)))),
     pin('two parts varying together', M.together(M.BOTH, (1, 2, 3, 4))),
     pin('two parts of two spaces', M.together(M.BOTH[:5], (2, 3), ('a', '9'))),
     pin('few lengths, many values', M.threshold(["'x/V"], None, mcn='symbolic', groups=((3, 3), (5, 2), (5, 3), (2, 2, 2), (4, 1, 1), (3, 3, 3)))),
     pin('default threshold', M.default_threshold))

# -- C21
for name in sorted(CORP):
    prop('C21', pin(name, H.order(CORP[name], (1,)), 60))

# -- C29
prop('C29',
     pin('extensions', M.extensions(('9', 'a', 'A'))),
     pin('extensions of hash-like names', M.extensions(('a9', '9A'))),
     pin('extensions before a query', M.extensions(('9', 'a9'), ("'d/",), ("'jpg", "'png", "'mp '3"), ([('k=', "'v")],))),
     pin('few runs', M.hashlike(M.HASHES, (2, 3), (-1, 0))),
     pin('many runs', M.hashlike(M.HASHES[:7], (4, 5), (0,))),
     pin('many runs, other components', M.hashlike(M.HASHES[7:], (4, 5), (0,), '9a')),
     pin('capital letters', M.hashlike(M.HASHES[:7], (3, 4, 6), (1,), 'A9')))

# -- C30
prop('C30',
     pin('values shared by several URLs', M.sections(M.SECTIONS, ((2,), (1, 3), (2, 2), (1, 1, 2), (4, 1, 1), (1, 2, 1, 2)))),
     pin('shared values within a level', M.sections(M.INLEVEL, ((2,), (1, 3), (2, 2), (1, 1, 2), (4, 1, 1), (1, 2, 1, 2)))),
     pin('many URLs share values', M.sections([M.SECTIONS[0], "V/S"], ((3, 4), (5, 1, 1), (6, 2), (5, 3), (3, 3, 3), (1, 1, 1, 5)))))
