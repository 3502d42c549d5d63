"""Registrations: trees, views, patterns as regular expressions."""
from ..registry import Task, prop
from . import extra as E


def pin(name, fn, s=60, **k):
    return Task(name, fn, phases=('pin',), pin_s=s, **k)


prop('C24',
     pin('trees of equally long paths', E.tree([(1, 1, 1), (2, 2), (2, 2, 2), (1, 1, 1, 1)], (1, 2))),
     pin('trees of paths of different lengths', E.tree([(1, 2), (2, 1), (2, 1, 2), (3, 2), (1, 2, 3), (3, 2, 3), (2, 1, 1, 2), (3, 1, 2)])),
     pin('bags', E.bags))
prop('C25',
     pin('parts of views', E.view_parts),
     pin('levels with the same view', E.view_equal))
prop('C26',
     pin('one unit', E.regex([(s,) for s in E.RX1], (0, 1, 2, 3))),
     pin('two units', E.regex([(a, b) for a in E.RX2 for b in E.RX2 if a != b or a[0] != 'lit'], (0, 1, 2, 3, 4))),
     pin('three units', E.regex([(a, b, x) for a in E.RX2[:4] for b in E.RX2[1:5] for x in E.RX2[:3]], (3, 4))),
     pin('two patterns', E.many_patterns))
from . import cli as L

prop('C27',
     pin('options of pattern-make', L.opt_make),
     pin('options of pattern-match', L.opt_match),
     pin('wrong command lines', L.opt_bad))
prop('C28',
     pin('levels', E.low_level([["'a/9!"] * 3, ['9', '9', 'a'], ["'x/9!", "'y/9!", "'y/9!"], ["'x/", "'x", "'x/9"]])),
     pin('runs', E.low_level([["a1! - 9!"] * 3, ["'n - 9! . 'html"] * 3, ["a1! 91 A1 91 - 'x", "91! a1 91 A1 - 'x", "A1! 91 a1 91 - 'x"]])),
     pin('queries and fragments', E.low_level([[("'p", [('k=', '9!')], None)] * 3, [("'p", [('k=', '9!'), ('l=', '')], '')] * 2 + ["'p"],
                                               [("'p", None, 'a1!')] * 3 + [("'p", None, '')], [("'p", [('k=', '9!')], None), ("'p", [('l=', '9!')], None), "'p/9"]])))
