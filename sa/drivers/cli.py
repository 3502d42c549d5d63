"""The two command line tools."""
from ..vals import BI, VClass, VDict, VObj
from .common import *  # noqa: F401,F403
from .common import U, clusters, config, load_all, maker, match, matcher, metas
from .make import mk


def bts(c, t):
    """Bytes of an ASCII text."""
    if isinstance(t, str):
        return t.encode()
    return c.I.mk(c.I.parts(t), 'bytes')


def infile(c, lines, name='in'):
    lines = list(lines)

    def it(I, a, k):
        return I.iter(VList(list(lines)))

    def rl(I, a, k):
        return VList(list(lines))
    cls = VClass('File', [c.I.builtins['object']], {
        '__iter__': BI('__iter__', it), 'readlines': BI('readlines', rl),
        'close': BI('close', lambda I, a, k: None),
        '__enter__': BI('__enter__', lambda I, a, k: a[0]),
        '__exit__': BI('__exit__', lambda I, a, k: None)})
    o = VObj(cls)
    o.attrs['name'] = name
    return o


def args(c, **kw):
    cls = VClass('Namespace', [c.I.builtins['object']], {})
    o = VObj(cls)
    o.attrs.update(kw)
    return o


def output(c, start):
    """Everything written to the standard output since event ``start``: text."""
    out = []
    for e in c.P.events[start:]:
        if e[0] in ('out', 'textout'):
            out += c.I.parts(e[1]) if not isinstance(e[1], bytes) else [e[1].decode('latin-1')]
        elif e[0] == 'print':
            f = e[2].get('file')
            if f is not None and getattr(f, 'name', '') == 'sys.stderr':
                continue
            sep, end = e[2].get('sep', ' '), e[2].get('end', '\n')
            for i, x in enumerate(e[1]):
                if i:
                    out += c.I.parts(sep)
                out += c.I.parts(c.I.to_str(x))
            out += c.I.parts(end if end is not None else '\n')
    return c.I.mk(out)


def run_cmd(c, cls, a, *init):
    o = c.need(c.get('cmdline:' + cls), *init)
    n = len(c.P.events)
    r = c.meth(o, 'run', a)
    if r[0] != 'ok':
        c.fail('the command runs to its end', '%s at %s' % (r[1].cls.name, r[2]))
    return output(c, n)


def replace(c, cls, name, fn):
    """A method of a public class replaced by an arbitrary outcome."""
    k = c.get(cls)
    old = k.ns.get(name)

    def back():
        if old is None:
            k.ns.pop(name, None)
        else:
            k.ns[name] = old
    c.P.undo.append(back)
    k.ns[name] = BI(name, fn)


# -- pattern-match ---------------------------------------------------------------
LINE = ANY - CS([chr(i) for i in range(0x21)]) - CS('\x85\xa0')


def havoc_match(c):
    """Any text per line, any outcome of matching."""
    n = c.pick((1, 2, 3) if c.sym else (1, 2), 'lines')
    lines, raws, outs = [], [], []
    for i in range(n):
        t = c.cat('L%d' % i, c.run('line%d' % i, LINE, c.size('n%d' % i, 1, (1, 2) if i == 0 else (1,))))
        if i == 0 and c.pick((False, True), 'blanks inside the line'):
            t = c.cat(t, c.run('inner', CS(' \t\x0b\x0c\r\x1c\x85\xa0\u2028,;"'), 1), 'z', c.run('inner2', CS(' \t'), 1), '\t1')
        raws.append(c.note('line%d' % i, t))
        ws, we = ((b'', b'\n'), (b' ', b' \r\n'), (b'', b''))[i if i < 2 else (2 if i == n - 1 else 0)]
        lines.append(c.I.mk([ws.decode()] + c.I.parts(t) + [we.decode()], 'bytes'))
    allm = c.pick((False, True), 'all matched')
    kinds = ('none', 'one', 'two', 'InvalidCharException', 'IrregularURLException', 'InvalidPatternException',
             'ValueError', 'AttributeError', 'KeyError')
    what = [c.pick(kinds if i == 0 else ('one', 'none', 'ValueError'), 'outcome %d' % i) for i in range(n)]
    calls = []

    def stub(I, a, k):
        url = a[1] if len(a) > 1 else k.get('url')
        for i, r in enumerate(raws):
            if I.py_eq(url, r):
                break
        else:
            c.fail('the text of the line is what is matched', lambda f: f(url))
        calls.append(i)
        w = what[i]
        if w == 'none':
            return VList([])
        if w in ('one', 'two'):
            cls = VClass('Node', [I.builtins['object']], {
                '__lt__': BI('__lt__', lambda I, a, k: a[0].attrs['rank'] < a[1].attrs['rank'])})
            out = []
            for x in range(1 if w == 'one' else 2):
                o = VObj(cls)
                o.attrs.update(meta='/p%d%d' % (i, x), rank=x)
                out.append(o)
            return VList(out)
        cls = I.builtins.get(w) or I.modules['os_urlpattern.exceptions'].ns[w]
        from ..interp import PyExc
        raise PyExc(I.call(cls, ['message']), I.where())
    replace(c, 'pattern_matcher:PatternMatcher', 'match', stub)
    a = args(c, inputs=VList([infile(c, lines)]), pattern_files=VList([]), all_matched=allm)
    got = run_cmd(c, 'MatchPatternCommand', a)
    if not calls:
        und = [1 for k, v in c.P.opqmemo.items() if k[0] == 'undecodable' and v]
        if len(und) < n:
            raise Unsupported('matching is not done by PatternMatcher.match')
    exp = []
    for i in range(n):
        und = [v for k, v in c.P.opqmemo.items() if k[0] == 'undecodable' and v and
               any(getattr(p, 'src', None) is not None and p.src.uid == k[1] or id(p) == k[1] for p in c.I.parts(raws[i]))]
        w = what[i]
        if und:
            r = 'E'
        elif w == 'none':
            r = 'N'
        elif w == 'one':
            r = '/p%d0' % i
        elif w == 'two':
            r = '/p%d0\t/p%d1' % (i, i) if allm else '/p%d1' % i
        else:
            r = 'E'
        exp += [r, '\t'] + c.I.parts(raws[i]) + ['\n']
    want = c.I.mk(exp)
    c.require('one line of output per line of input: best pattern or N or E, tab, the line', c.eq(got, want),
              lambda f: 'expected %s, written %s' % (f(want), f(got)))


def e2e_match(c):
    """Pattern file and URLs through the real matcher."""
    d1, d2 = c.run('d1', DIG, 2), c.run('d2', DIG, 2)
    a1 = c.run('a1', LOW, c.size('n', 1, (1, 3)))
    junk = c.pick((b'', b'# comment\n', b'http://h/\n', b'/a/[0-9\n', b'/a/[\xff]\n', b'\n'), 'extra line of the pattern file')
    pats = [b'/a/[0-9]{2}\n', b'/a/[a-z]+\n', junk, b'/a/[0-9]+\n']
    pats = [x for x in pats if x]
    urls = [('http://h/a/', d1), ('http://h/a/', a1), ('http://h/b/', d2), ('http://h/a/', c.ch(BAD - CS([chr(i) for i in range(0x21)]) & CS([chr(i) for i in range(128)])), 'z'),
            ('http://h/a?x=1&', ), ('http://h/a/', d2)]
    k = c.pick(((0, 1, 2), (3, 0), (4, 5), (0, 3, 1), (2, 4, 0)), 'URLs')
    allm = c.pick((False, True), 'all matched')
    exp, lines = [], []
    for i in k:
        t = c.note('url', c.cat(*urls[i]))
        lines.append(bts(c, c.cat(t, '\n')))
        r = {0: '/a/[0-9]{2}', 1: '/a/[a-z]+', 2: 'N', 3: 'E', 4: 'E', 5: '/a/[0-9]{2}'}[i]
        if allm and i in (0, 5):
            r = '/a/[0-9]{2}\t/a/[0-9]+'
        exp += [r, '\t'] + c.I.parts(t) + ['\n']
    split = c.pick((False, True), 'two input files')
    ins = [infile(c, lines[:1]), infile(c, lines[1:])] if split else [infile(c, lines)]
    pf = [infile(c, pats[:2], 'p1'), infile(c, pats[2:], 'p2')] if split else [infile(c, pats, 'p')]
    got = run_cmd(c, 'MatchPatternCommand', args(c, inputs=VList(ins), pattern_files=VList(pf), all_matched=allm))
    want = c.I.mk(exp)
    c.require('one line of output per line of input: best pattern or N or E, tab, the line', c.eq(got, want),
              lambda f: 'expected %s, written %s' % (f(want), f(got)))


def interval(c):
    """Progress messages: as if the interval of the speed logger were short."""
    try:
        k = c.get('utils:LogSpeedAdapter')
    except Exception:
        c.stop()
    old = c.I.getattr(k, '__init__')
    step = c.pick((0.001, 2.0), 'seconds per line')
    n = c.pick((1, 2), 'messages per report')
    c.P.clockstep = step

    def init(I, a, kw):
        a, kw = list(a), dict(kw)
        if 'interval' in kw:
            kw['interval'] = n
        elif len(a) > 2:
            a[2] = n
        return I.call(old, a, kw)
    replace(c, 'utils:LogSpeedAdapter', '__init__', init)


def progress_match(c):
    interval(c)
    ds = [c.run('d%d' % i, DIG, 1) for i in range(3)]
    ts = [c.note('url', c.cat('http://h/a/', d)) for d in ds]
    lines = [bts(c, c.cat(t, '\n')) for t in ts]
    pats = [b'/a/[0-9]\n', b'/b\n', b'/c\n']
    got = run_cmd(c, 'MatchPatternCommand', args(c, inputs=VList([infile(c, lines)]), pattern_files=VList([infile(c, pats, 'p')]),
                                                 all_matched=False))
    want = c.cat(*[c.cat('/a/[0-9]\t', t, '\n') for t in ts])
    c.require('one line of output per line of input: best pattern or N or E, tab, the line', c.eq(got, want),
              lambda f: 'expected %s, written %s' % (f(want), f(got)))


def progress_make(c):
    interval(c)
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(3)]
    lines = [c.I.mk(c.I.parts(u.text) + ['\n'], 'bytes') for u in urls]
    a = args(c, inputs=VList([infile(c, lines)]), format_type='PATTERN', log_level='NOTSET', config=None)
    got = run_cmd(c, 'MakePatternCommand', a, config(c, 3))
    want = c.cat('/', piece(c, urls[0].levels[0]), '/[0-9]\n')
    c.require('output is that of the acceptable lines', c.eq(got, want),
              lambda f: 'expected %s, printed %s' % (f(want), f(got)))


def odd_lines(c):
    """Blank lines, lines that look like patterns or comments, line ends."""
    d = c.run('d', DIG, 2)
    good = c.note('url', c.cat('http://h/a/', d))
    t, r = c.pick((('', 'E'), ('#x', 'E'), ('http://h', 'E'), ('http://h/A/12', 'N'), ('http://h/a/12#', 'N'),
                   ('http://h/a/12?', 'N'), ('N', 'E'), ('E', 'E'), ('http://h/a//12', '/a/[0-9]{2}'), ('http://h/a/1 2', 'E'),
                   ('http://h/a/%31', 'N'), ('HTTP://H/a/12', '/a/[0-9]{2}'), ('http://h/a/12/', 'N'),
                   ('ftp://h:1/a/12', '/a/[0-9]{2}'), ('h/a/12', '/a/[0-9]{2}'), (b'\xef\xbb\xbfhttp://h/a/12', 'N'),
                   (b'\xc3\xa9/a/12', '/a/[0-9]{2}'), (b'h/a/\xff', 'E'), (b'\x00', 'E'), ("'http://h/a/12'", 'N'), ('"http://h/a/12"', 'N'),
                   ('<http://h/a/12>', 'N'), ('http://h/a/12,', 'N'), (b'h/a/\xd9\xa1\xd9\xa2', 'E')), 'line')
    end = c.pick(('\n', '\r\n', ' \n'), 'line end')
    pend = c.pick(('\n', '\r\n', '  \n', ''), 'line end of the pattern file')
    where = c.pick((0, 1), 'position')
    pats = [c.I.mk(['/b/[0-9]{2}' + (pend or '\n')], 'bytes'), c.I.mk(['/a/[0-9]{2}' + pend], 'bytes')]
    rows = [(good, '/a/[0-9]{2}')]
    rows.insert(where, (t, r))
    lines = [x + end.encode() if isinstance(x, bytes) else c.I.mk(c.I.parts(x) + [end], 'bytes') for x, _ in rows]
    got = run_cmd(c, 'MatchPatternCommand', args(c, inputs=VList([infile(c, lines)]), pattern_files=VList([infile(c, pats, 'p')]),
                                                 all_matched=c.pick((False, True), 'all matched')))
    want = c.cat(*[c.cat(r, '\t', x.decode('latin-1') if isinstance(x, bytes) else x, '\n') for x, r in rows])
    c.require('one line of output per line of input: best pattern or N or E, tab, the line', c.eq(got, want),
              lambda f: 'expected %s, written %s' % (f(want), f(got)))


# -- pattern-make ------------------------------------------------------------------
BADLINES = (None, b'\n', b'  \t\n', b'/a/[0-9]+\n', b'http://h/a?&x=1\n', b'http://h/a\xff/1\n', b'http://h/a b\n',
            b'http://[\n', b'#\n')


def make_lines(fmts, corpora, bads=BADLINES, where=(0, 1, -1), hosts=('http://h',)):
    """Records printed for a file = records of the URLs loaded through the API."""
    def d(c):
        fmt = c.pick(fmts, 'format')
        specs = c.pick(corpora, 'corpus')
        bad = c.pick(bads, 'extra line')
        host = c.pick(hosts, 'host') if len(hosts) > 1 else hosts[0]
        urls = [mk(c, i, s, (1,), host) for i, s in enumerate(specs)]
        n = c.count('min_cluster_num', 2)
        lines = [c.I.mk(c.I.parts(u.text) + ['\n'], 'bytes') for u in urls]
        if bad is not None:
            w = c.pick(where, 'position')
            lines.insert(len(lines) if w < 0 else w, bad)
        if len(hosts) > 1:
            lines[-1] = c.I.mk(c.I.parts(urls[-1].text), 'bytes') if bad is None else lines[-1]
        a = args(c, inputs=VList([infile(c, lines[:2]), infile(c, lines[2:])]), format_type=fmt, log_level='NOTSET',
                 config=None)
        cfg = config(c, n)
        got = run_cmd(c, 'MakePatternCommand', a, cfg)
        # the same through the API
        m = maker(c, n)
        for u in urls:
            r = c.call(c.attr(c.kept(m), 'load'), u.text, meta=u.text if fmt in ('CLUSTER', 'INLINE') else None)
            if r[0] != 'ok':
                c.fail('loading a URL works', r[1].cls.name)
        exp = []
        for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
            for rec in c.items(c.need('formatter:pformat', fmt, um, root)):
                exp += c.I.parts(rec) + ['\n']
        want = c.I.mk(exp)
        c.require('output is that of the acceptable lines', c.eq(got, want),
                  lambda f: 'expected %s, printed %s' % (f(want), f(got)))
        c.require('acceptable lines give output', bool(exp) or fmt == 'NULL', '')
    return d


def havoc_make(c):
    """Any failure while loading one line leaves the other lines loaded."""
    w = c.pick(('InvalidCharException', 'IrregularURLException', 'InvalidPatternException', 'ValueError',
                'IndexError', 'AttributeError', 'RuntimeError'), 'failure')
    pos = c.pick((0, 1, 2), 'position')
    texts = [c.note('line%d' % i, c.cat('http://h/', c.run('l%d' % i, LOW, c.size('n%d' % i, 1, (1, 2))))) for i in range(3)]
    lines = [bts(c, c.cat(t, '\n')) for t in texts]
    got = []

    def stub(I, a, k):
        i = len(got)
        got.append((a[1] if len(a) > 1 else k.get('url'), k.get('meta', a[2] if len(a) > 2 else None)))
        if i == pos:
            cls = I.builtins.get(w) or I.modules['os_urlpattern.exceptions'].ns[w]
            from ..interp import PyExc
            raise PyExc(I.call(cls, ['message']), I.where())
        return (None, True)
    replace(c, 'pattern_maker:PatternMaker', 'load', stub)
    fmt = c.pick(('CLUSTER', 'PATTERN', 'INLINE'), 'format')
    a = args(c, inputs=VList([infile(c, lines)]), format_type=fmt, log_level='NOTSET', config=None)
    run_cmd(c, 'MakePatternCommand', a, config(c, 3))
    if not got:
        raise Unsupported('loading is not done by PatternMaker.load')
    c.require('every line is loaded', len(got) == 3, '%d lines' % len(got))
    for (x, meta), t in zip(got, texts):
        c.req_eq('the text of the line is what is loaded', x, t)
        if fmt != 'PATTERN':
            c.req_eq('the URL is recorded for formats that show it', meta, t)


def config_file(c):
    """-c FILE: the options of the file are used."""
    n = c.count('min_cluster_num', 2)
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(3)]
    lines = [c.I.mk(c.I.parts(u.text) + ['\n'], 'bytes') for u in urls]
    f = Opq('config file')
    f.cfg = {('make', 'min_cluster_num'): n}
    a = args(c, inputs=VList([infile(c, lines)]), format_type='PATTERN', log_level='NOTSET', config=VList([f]))
    o = c.keep(c.need(c.get('cmdline:MakePatternCommand'), config(c, None)))
    r = c.meth(c.kept(o), 'process_args', a)
    if r[0] != 'ok':
        c.fail('options are accepted', '%s at %s' % (r[1].cls.name, r[2]))
    k = len(c.P.events)
    r = c.meth(c.kept(o), 'run', a)
    if r[0] != 'ok':
        c.fail('the command runs to its end', '%s at %s' % (r[1].cls.name, r[2]))
    got = output(c, k)
    if c.I.ge0(Lin.of(3).add(n, -1)):
        want = c.cat('/', piece(c, urls[0].levels[0]), '/[0-9]\n')
    else:
        want = c.cat(*[c.cat(u.literal(), '\n') for u in urls])
    c.require('the threshold of the configuration file is used', c.eq(got, want),
              lambda f: 'expected %s, printed %s' % (f(want), f(got)))


# -- options -----------------------------------------------------------------------
def program(c, entry, argv, files, stdin=()):
    """Runs pattern-make / pattern-match with a command line; -> (outcome, output)."""
    c.P.files = files
    b = c.get('compat:binary_stdin')
    old = b.attrs.get('iter')

    def back():
        b.attrs.pop('iter', None)
    c.P.undo.append(back)
    b.attrs['iter'] = BI('iter', lambda I, a, k: VList(list(stdin)))
    b.attrs['readlines'] = BI('readlines', lambda I, a, k: VList(list(stdin)))
    n = len(c.P.events)
    c.note('command line', ' '.join(argv))
    r = c.call(c.get('cmdline:' + entry), VList(['pattern-' + entry] + list(argv)))
    for e in c.P.events[n:]:
        if e[0] == 'log stream' and getattr(e[1], 'name', '') == 'sys.stdout':
            c.fail('messages do not go to the output', 'log handler for sys.stdout')
    return r, output(c, n)


def opt_make(c):
    """Options of pattern-make."""
    k = c.count('min_cluster_num', 2)
    urls = [mk(c, i, "'a/9!", (1,)) for i in range(3)]
    lines = [c.I.mk(c.I.parts(u.text) + ['\n'], 'bytes') for u in urls]
    f = Opq('config file')
    f.cfg = {('make', 'min_cluster_num'): k}
    files = {'f1': infile(c, lines[:2], 'f1'), 'f2': infile(c, lines[2:], 'f2'), 'cfg': f}
    INS = ((['-i', 'f1', 'f2'], 0), (['--inputs', 'f1', 'f2'], 0), ([], 3), (['-i', 'f2', 'f1'], 0), (['-i', 'f1'], 1))
    FMT = (([], 'CLUSTER'), (['-f', 'pattern'], 'PATTERN'), (['-f', 'PATTERN'], 'PATTERN'), (['-f', 'Inline'], 'INLINE'),
           (['--formatter', 'cluster'], 'CLUSTER'), (['-f', 'json'], 'JSON'), (['--formatter=null'], 'NULL'))
    LOG = ([], ['-l', 'notset'], ['-l', 'debug'], ['--loglevel', 'INFO'], ['-l', 'Warn'], ['-l', 'ERROR'], ['-l', 'fatal'])
    CFG = ([], ['-c', 'cfg'], ['--config', 'cfg'])
    combos = [(i, f, [], []) for i in INS[:3] for f in FMT] + [(i, FMT[0], LOG[2], []) for i in INS] + \
        [(INS[0], FMT[3], g, []) for g in LOG] + [(INS[2], f, LOG[2], []) for f in FMT] + \
        [(INS[0], f, [], g) for g in CFG[1:] for f in FMT[:4]] + [(INS[2], FMT[1], LOG[3], CFG[1])]
    (argv, stdin), (fmt, name), log, cfg = c.pick(combos, 'options')
    order = list(range(3)) if argv[-2:] != ['f2', 'f1'] else [2, 0, 1]
    if argv == ['-i', 'f1']:
        order = [0, 1]
    av = c.pick((argv + fmt + log + cfg, log + cfg + fmt + argv), 'order of the options')
    r, got = program(c, 'make', av, files, lines[:stdin])
    if r[0] != 'ok':
        c.fail('options are accepted', '%s at %s' % (r[1].cls.name, r[2]))
    m = maker(c, k if cfg else None)
    for i in order:
        c.need(c.attr(c.kept(m), 'load'), urls[i].text, meta=urls[i].text if name in ('CLUSTER', 'INLINE') else None)
    exp = []
    for um, root in c.items(c.need(c.attr(c.kept(m), 'make'))):
        for rec in c.items(c.need('formatter:pformat', name, um, root)):
            exp += c.I.parts(rec) + ['\n']
    want = c.I.mk(exp)
    c.require('the output is that of the inputs and options given', c.eq(got, want), lambda f: 'expected %s, printed %s' % (f(want), f(got)))


def opt_match(c):
    """Options of pattern-match."""
    d, e = c.run('d', DIG, 2), c.run('e', LOW, 1)
    us = [c.note('url0', c.cat('http://h/a/', d)), c.note('url1', c.cat('http://h/a/', e))]
    lines = [bts(c, c.cat(u, '\n')) for u in us]
    files = {'f1': infile(c, lines[:1], 'f1'), 'f2': infile(c, lines[1:], 'f2'), 'p1': infile(c, [b'/a/[0-9]{2}\n'], 'p1'),
             'p2': infile(c, [b'/a/[0-9]+\n', b'/a/[a-z]\n'], 'p2')}
    argv, stdin = c.pick(((['-i', 'f1', 'f2'], 0), (['--inputs', 'f2', 'f1'], 0), ([], 2), (['-i', 'f2'], 1)), 'inputs')
    order = {'f1': [0]}.get(None, [])
    order = [0, 1] if argv[-2:] == ['f1', 'f2'] or not argv else [1, 0] if len(argv) == 3 else [1]
    pat, ps = c.pick(((['-p', 'p1', 'p2'], (1, 2)), (['--pattern-files', 'p2', 'p1'], (1, 2)), (['-p', 'p1'], (1,)), (['-p', 'p2'], (2,))), 'patterns')
    allm = c.pick(([], ['-a'], ['--all-matched']), 'all matched')
    log = c.pick(([], ['-l', 'debug'], ['--loglevel', 'Error']), 'log level')
    av = c.pick((argv + pat + allm + log, log + allm + pat + argv), 'order of the options')
    r, got = program(c, 'match', av, files, lines[:stdin])
    if r[0] != 'ok':
        c.fail('options are accepted', '%s at %s' % (r[1].cls.name, r[2]))
    exp = []
    for i in order:
        best_ = (['/a/[0-9]{2}'] if 1 in ps else []) + (['/a/[0-9]+'] if 2 in ps else []) if i == 0 else ['/a/[a-z]'] if 2 in ps else []
        best_ = best_ if allm else best_[:1]
        exp.append((best_ or ['N'], us[i]))
    wants = [c.cat(*[c.cat('\t'.join(b if not j else b[::-1]), '\t', u, '\n') for b, u in exp]) for j in (0, 1)]
    c.require('the output is that of the inputs and options given', any(c.eq(got, w) for w in wants),
              lambda f: 'expected %s, printed %s' % (f(wants[0]), f(got)))


def opt_bad(c):
    """Wrong command lines."""
    line = c.cat('http://h/a/', c.run('d', DIG, 1))
    files = {'f1': infile(c, [bts(c, line)]), 'p1': infile(c, [b'/a/[0-9]\n'], 'p1')}
    e, argv = c.pick((('make', ['-f', 'nosuch']), ('make', ['-i', 'missing']), ('make', ['-i']), ('make', ['-l', 'loud']), ('make', ['-c', 'missing']),
                      ('make', ['--nosuch']), ('match', []), ('match', ['-a']), ('match', ['-p']), ('match', ['-p', 'missing']), ('match', ['-p', 'p1', '-l', 'x']),
                      ('match', ['-p', 'p1', '-i', 'missing']), ('match', ['-p', 'p1', '-f', 'json'])), 'command line')
    r, got = program(c, e, argv, files, [bts(c, line)])
    c.require('a wrong command line ends the program with a usage error', r[0] == 'exc' and r[1].cls.name == 'SystemExit',
              'accepted' if r[0] == 'ok' else r[1].cls.name)
    c.require('a wrong command line gives no output', c.eq(got, ''), lambda f: f(got))
