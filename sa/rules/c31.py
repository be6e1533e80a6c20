"""C31: the widths given are those used, and breaking lines keeps the text.

Rule: the programs are interpreted abstractly with every kind of width: the
catalogues and the wrapper must receive that width, or one without effect if
it means no limit. po2md is interpreted with a wrapper that breaks every line
where it can; the text returned, read as Markdown, must be the same document
as without breaks, and no paragraph may be left unbroken."""
import re

from .programs import *
from .fidelity import *
from ..values import Str
from . import c02, c28, c38

INF = 10000     # as good as no limit
WIDTHS = [(n, n) for n in (1, 2, 3, 4, 5, 6, 10, 78, 79, 80, 81, 500)] + [
    (str(n), n) for n in (1, 3, 10, 80)] + [
    (v, None) for v in (0, '0', 'inf', 'INF', -1, '-20', float('inf'),
                        float('-inf'), 0.5, '0.5')]
NO_WIDTHS = ['', 'abc', '12px', 'nan', 'NaN', 'ten', '1 2', '--']


def expect(ctx, name, w, low, what, got, floor=1):
    """The width got is that of w."""
    if not isinstance(got, K) or isinstance(got.v, str):
        ctx.finding('width', name, '%s gets the width %s' % (what, got))
    elif w is None and got.v < INF:
        ctx.finding('width', name, '%s gets the width %s for no limit' % (
            what, got.v))
    elif w is not None and not low <= got.v <= max(w, floor):
        ctx.finding('width', name, '%s gets the width %s' % (what, got.v))
    else:
        ctx.ok()


def blocks():
    yield 'text', P(T(0))
    yield 'item', UL(LI(T(0)))
    yield 'task', UL(LI(T(0), task='x'))
    yield 'number', OL(LI(T(0)))
    yield 'quote', QUOTE(P(T(0)))
    yield 'nested', UL(LI(T(0), OL(LI(T(1), UL(LI(T(2), task='x'))))))
    yield 'quoted', QUOTE(UL(LI(T(0), task='x'), LI(T(1))))


def runs_of(ctx, tool, w, evs):
    """how, (state, outcome)s of the tool given that width"""
    c = dict(parse=doc_parse(*evs), encode_fails=False, io_faults=False,
             wrap=c02.no_wrap)
    k = {} if w == 'default' else {
        'po_wrapwidth' if tool == 'md2po2md po' else
        'md_wrapwidth' if tool == 'md2po2md md' else 'wrapwidth': w}
    tool = tool.split()[0]
    if tool == 'md2po':
        a = [['doc.md']]
        k.update(po_filepath='cat.po', save=True)
    elif tool == 'po2md':
        a = ['doc.md', ['cat.po']]
    else:
        a = [['es'], 'doc.md', 'loc/{lang}']
    wd = World(files(), DIRS)
    yield 'API', api(ctx, tool, a, k, wd, st=ctx.state(), **c)


def cli_runs(ctx, tool, w, evs):
    c = dict(parse=doc_parse(*evs), encode_fails=False, io_faults=False,
             wrap=c02.no_wrap)
    o = {'md2po': ['-w', '--wrapwidth'], 'po2md': ['-w', '--wrapwidth'],
         'md2po2md po': ['--po-wrapwidth'],
         'md2po2md md': ['--md-wrapwidth']}[tool]
    t = tool.split()[0]
    a = {'md2po': ['doc.md', '--po-filepath', 'cat.po', '-s'],
         'po2md': ['doc.md', '-p', 'cat.po'],
         'md2po2md': ['doc.md', '-l', 'es', '-o', 'loc/{lang}']}[t]
    for n in o:
        ws = a if w == 'default' else a + ['%s=%s' % (n, w)] if \
            n.startswith('--') else a + [n + str(w)]
        yield 'CLI ' + n, cli(ctx, t, ws, World(files(), DIRS),
                              st=ctx.state(), **c)


def widths(ctx, tool, w, want, evs, dn):
    which = 'wrapper' if tool in ('po2md', 'md2po2md md') else 'catalogue'
    rs = list(runs_of(ctx, tool, w, evs))
    if isinstance(w, (str, int)):
        rs += list(cli_runs(ctx, tool, w, evs))
    for how, outs in rs:
        name = '%s, %s width %r, %s' % (how, tool, w, dn)
        n = 0
        for s, v in outs:
            if isinstance(v, Exc) and exc_name(s, v) != 'SystemExit':
                ctx.finding('width', name, 'raises ' + exc_name(s, v))
                continue
            for e in s.trace:
                if which == 'wrapper' and e[0] == 'wrap':
                    n += 1
                    if len(e[1]) < 2:
                        ctx.I.note('arguments of the wrapper')
                        continue
                    expect(ctx, name, want, want or 0, 'the text', e[1][1])
                    if len(e[1]) > 2:
                        expect(ctx, name, want, 1, 'the first line',
                               e[1][2])
                elif which == 'catalogue' and e[0] == 'pofile':
                    if tool != 'md2po' and e[3][0] != 'mdpo.md2po':
                        k = dict(e[2])
                        if 'wrapwidth' not in k:
                            continue
                    n += 1
                    expect(ctx, name, want, want or 0, 'the catalogue',
                           dict(e[2]).get('wrapwidth', K(78)), 5)
        if not n:
            ctx.finding('width', name, 'the width is not used')


def errors(ctx):
    for tool in ('md2po', 'po2md', 'md2po2md po', 'md2po2md md'):
        for w in NO_WIDTHS:
            ctx.begin('%s %r' % (tool, w))
            for how, outs in runs_of(ctx, tool, w, P(T(0))):
                for s, v in outs:
                    if not isinstance(v, Exc):
                        ctx.finding('wrong width', '%s %r' % (tool, w),
                                    'is taken as a width')
                    elif exc_name(s, v) not in ('ValueError', 'SystemExit'):
                        ctx.finding('wrong width', '%s %r' % (tool, w),
                                    'raises ' + exc_name(s, v))
                    else:
                        ctx.ok()


# ------------------------------------------------------------ broken lines
KEEP = ('CODE', 'WIKILINK', 'LATEXMATH', 'LATEXMATH_DISPLAY', 'IMG')


def doubled(evs):
    """Every text is two words, but for those the wrapper keeps together."""
    deep, out = 0, []
    for e in flat(evs):
        if e[0] in ('es', 'ls') and e[1] in KEEP:
            deep += 1 if e[0] == 'es' else -1
        if e[0] == 't' and isinstance(e[2], Sym) and not deep:
            e = (e[0], e[1], Str((e[2], ' ', e[2])))
        out.append(e)
    return out


def break_all(I, st, args, kw, cx, node):
    v = args[0]
    if isinstance(v, Str):
        ps = list(v.parts)
        for i in range(1, len(ps) - 1):
            if ps[i] == ' ' and isinstance(ps[i - 1], Sym) and \
                    ps[i - 1] == ps[i + 1]:
                ps[i] = '\n'
        v = Str(tuple(ps))
    return [(st, v)]


UNBROKEN = re.compile('([\ue000-\uf8ff]) \\1')


def one_line(blocks):
    """Texts of what has to be in one line: headings, tables."""
    out = set()
    for b in blocks:
        if b[0] in ('H', 'TABLE', 'CODE', 'HTML'):
            out |= set(re.findall('[\ue000-\uf8ff]', repr_chars(b)))
        elif b[0] == 'QUOTE':
            out |= one_line(b[1])
        elif b[0] in ('UL', 'OL'):
            for _, kids in b[1]:
                out |= one_line(kids)
    return out


def repr_chars(x):
    if isinstance(x, str):
        return x
    return ''.join(repr_chars(y) for y in x) if isinstance(
        x, (tuple, list)) else ''


def broken(ctx, rule, docs, entries=(), kw=None, refs=''):
    ctx.begin(rule)
    docs = [(n, doubled(e)) for n, e in docs]
    res = c38.run(ctx, docs, entries, kw, refs, wrap=break_all)
    whole = c38.run(ctx, docs, entries, kw, refs)
    for name, evs in docs:
        ctx.ok()
        if name not in res or name not in whole:
            ctx.I.note('document not analysed')
            continue
        ch = Chars()
        try:
            want = [written(v, ch, c38.EXT, refs) for v in whole[name]
                    if not isinstance(v, str)]
        except Unclear as e:
            ctx.I.note(str(e))
            continue
        for v in res[name]:
            if isinstance(v, str):
                if v not in whole[name]:
                    ctx.finding(rule, name, 'raises ' + v)
                continue
            try:
                text = ch.show(v)
                got = written(v, ch, c38.EXT, refs)
            except Unclear as e:
                ctx.I.note(str(e))
                continue
            if want and got not in want:
                p, a, b = first_difference(want[0], got)
                ctx.finding(rule, name, '%s: %s, in several lines, is '
                            'written as %s' % (p, ch.pretty(a)[:300],
                                               ch.pretty(b)[:300]))
                continue
            single = one_line(expected(evs, ch))
            for x in UNBROKEN.findall(text):
                if x not in single:
                    ctx.finding(rule, name, 'the line of %s is not broken' %
                                ch.pretty(x))


def check(ctx):
    deep = ctx.tier == 'thorough'
    for tool in ('md2po', 'po2md', 'md2po2md po', 'md2po2md md'):
        bs = list(blocks()) if tool == 'po2md' or deep else [
            ('text', P(T(0)))]
        d = 80 if tool in ('po2md', 'md2po2md md') else 78
        for w, want in WIDTHS + [('default', d)]:
            for dn, evs in bs:
                ctx.begin('%s %s %s' % (tool, w, dn))
                widths(ctx, tool, w, want, evs, dn)
    errors(ctx)
    broken(ctx, 'broken lines', list(c38.docs_structures(deep)))
    broken(ctx, 'broken lines', list(c38.docs_sequences(2)))
    broken(ctx, 'broken lines', list(c38.docs_attributes()))
    broken(ctx, 'broken lines', list(c38.docs_inline(deep)), refs=c38.REFS)
