from ..registry import Task, prop
from . import piece as D

S2 = D.seqs(D.REPR, 2)
S3 = D.seqs(D.KINDS3, 3)

prop('C01',
     Task('any single character', D.one_char),
     Task('unsupported character inside a piece', D.bad_inside),
     Task('unsupported character inside a URL', D.bad_in_url))
prop('C02',
     Task('one run of any class', D.same_class(1, ('pieces',))),
     Task('empty piece', D.empty),
     Task('two runs', D.mk_tokens(S2, ('pieces',)), sym_s=40),
     Task('three runs', D.mk_tokens(S3, ('pieces',)), sym_s=40),
     Task('one parser, several pieces', D.reuse),
     Task('two texts of any classes', D.pair, phases=('pin',)))

from . import url as U

prop('C03',
     Task('absent and empty query', U.q_none),
     Task('one item', U.q_items([(s,) for s in U.ITEMS + ('k==v',)])),
     Task('two items', U.q_items(U.lists(U.ITEMS, 2)), sym_s=40),
     Task('three items', U.q_items(U.lists(('k', 'k=', 'k=v'), 3)), sym_s=40),
     Task('four items', U.q_items(U.lists(('k', 'k=v'), 4), pins=(1,)), sym_s=20),
     Task("misplaced '&'", U.q_bad),
     Task('normalised keys of a URL', U.norm_keys, sym_s=30),
     Task('normalised text', U.normalize_text(U.KEYTOKS + (('=',), ('a-z', '=', '-', 'a-z'))), sym_s=30))
prop('C04',
     Task('components of a URL', U.url_components),
     Task('path levels', U.url_struct(U.PATHS, (None,), (None, 'f')), sym_s=30),
     Task('queries and fragments', U.url_struct([('x',), ('x', '')], U.QUERIES), sym_s=40),
     Task('queries and fragments of the root', U.url_struct([('',)], U.QUERIES), sym_s=30),
     Task('no path', U.url_no_path),
     Task('schemes and hosts', U.url_hosts),
     Task('dropping of empty levels', U.filter_useless))

from . import pat as P

prop('C05',
     Task('URL patterns: paths', P.url_pattern(P.PPATHS, [None], [None, '', 'x'])),
     Task('URL patterns: queries', P.url_pattern([('x',), ('x', '')], P.PQUERIES, [None, 'x']), sym_s=30),
     Task('URL patterns: fragments', P.url_pattern([('x',)], [None, (('', ''),), (('k=', '?'),)], P.PFRAGS), sym_s=30),
     Task('URL patterns: the root', P.url_pattern([('',)], [None, (('', ''),), (('k=', '?'),), (('k', ''), ('l=', '+'))],
                                                   [None, '', '#', 'x']), sym_s=30),
     Task('URL to literal pattern and back', P.url_round_trip, sym_s=40))
prop('C06',
     Task('one unit', P.pattern_units([(s,) for s in P.ONE]), sym_s=30),
     Task('two units', P.pattern_units([(a, b) for a in P.SMALL for b in P.SMALL if P.units_ok((a, b))]), sym_s=30),
     Task('three units', P.pattern_units([(a, b, x) for a in P.SMALL[:5] for b in P.SMALL[:5] for x in P.SMALL[:5]
                                          if P.units_ok((a, b, x))]), sym_s=30),
     Task('malformed patterns', P.bad_pattern),
     Task('building units', P.specify))
prop('C07',
     Task('one run of any class', D.same_class(1, ('length',))),
     Task('empty piece', D.empty),
     Task('two texts of any classes', D.pair, phases=('pin',)),
     Task('two runs', D.mk_tokens(S2, ('length',)), sym_s=30),
     Task('three runs', D.mk_tokens(S3, ('length',)), sym_s=30))
