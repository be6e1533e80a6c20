"""C26: a matched path is a path, not another pattern.

Rule: every program is interpreted abstractly in pairs of worlds that differ
only in the name of a file (or of a directory, or language): a plain name, and
a name with characters that are special in globs, next to a file that this
name would match if it were a pattern. Except for that name the results, the
files read and written, and their contents must be the same."""
import re

from .programs import *
from .c23 import DOC, STALE, REFS, HTMLEVS, words
from . import c02, c25

SPECIAL = ['f[a]', 'f?', 'f*', 'f[!b]', '[f]a', 'f[ab', 'f]a', 'f**']
DECOY = 'fa'
ONE = [{'msgid': K('alfa'), 'msgstr': K('uno'), 'fuzzy': True},
       {'msgid': K('beta'), 'msgstr': K('')},
       {'msgid': K('gone'), 'msgstr': K('ido')}]
TWO = [{'msgid': K('alfa'), 'msgstr': K('otro')},
       {'msgid': K('beta'), 'msgstr': K('dos')}]
CHECKS = ['--no-obsolete', '--no-fuzzy', '--no-empty-msgstr']
MINE, OTHER = '[ref-a]: href-a\n', '[ref-b]: href-b\n'
DOCS = {MINE: words(P(T(0)) + H(T(1)) + P(A('href-a', T(2)))),
        OTHER: words(FENCED(T(0), t('\n')) + P(T(3)))}


def programs(x, deep):
    """x: the name -> (name, tool, words | None, positional, keywords,
    files)"""
    d, o = 'dir/%s.md' % x, 'dir/%s.md' % DECOY
    docs = {d: MINE, o: OTHER, 'dir/z.md': 'zzz'}
    for k in ({}, {'location': False, 'plaintext': True},
              {'po_filepath': 'cat.po', 'save': True}):
        yield ('md2po of a glob', 'md2po', None, ['dir/*.md'], k, docs)
        if deep:
            yield ('md2po of globs', 'md2po', None, ['dir/*?.md'], k, docs)
    yield ('md2po command', 'md2po', ['dir/*.md', '-p', 'new.po', '-s',
                                      '--check'], None, None, docs)
    yield ('md2po ignoring', 'md2po', None, ['dir/*.md'],
           {'ignore': [d]}, docs)
    yield ('md2po into a catalogue', 'md2po', None, ['dir/z.md'],
           {'po_filepath': 'cats/%s.po' % x, 'save': True},
           {'dir/z.md': MINE, 'cats/%s.po' % x: ONE,
            'cats/%s.po' % DECOY: TWO})
    yield ('md2po command into a catalogue', 'md2po', [
        'dir/z.md', '-s', '-p', 'cats/%s.po' % x] + CHECKS, None,
        None, {'dir/z.md': MINE, 'cats/%s.po' % x: ONE,
               'cats/%s.po' % DECOY: TWO})
    cats = {'cats/%s.po' % x: ONE, 'cats/%s.po' % DECOY: TWO}
    page = {d: MINE, o: OTHER}
    for g in ('cats/*.po', ['cats/*.po', 'cats/?*.po']):
        yield ('po2md with a glob', 'po2md', None, ['dir/%s.md' % x, g],
               {'save': 'new/%s.md' % x}, {**cats, **page})
        yield ('mdpo2html with a glob', 'mdpo2html', None, [
            'dir/%s.html' % x, g], {'save': 'new/%s.html' % x},
            {**cats, 'dir/%s.html' % x: MINE,
             'dir/%s.html' % DECOY: OTHER})
    yield ('po2md command', 'po2md', ['dir/%s.md' % x, '-p', 'cats/*.po',
                                      '-s', 'new/%s.md' % x] + CHECKS,
           None, None, {**cats, **page})
    yield ('mdpo2html command', 'mdpo2html', [
        'dir/%s.html' % x, '-p', 'cats/*.po', '-s', 'new/%s.html' % x
    ] + CHECKS, None, None, {**cats, 'dir/%s.html' % x: MINE})
    old = {'loc/es/%s.md.po' % x: ONE, 'loc/es/%s.md.po' % DECOY: TWO}
    for sch in ('loc/{lang}', 'loc/{lang}/{basename}.{ext}',
                'loc/{lang}/{basename}'):
        yield ('md2po2md to %s' % sch, 'md2po2md', None,
               [['es'], 'dir/*.md', sch], {}, {**docs, **old})
        yield ('md2po2md command to %s' % sch, 'md2po2md', [
            'dir/*.md', '-l', 'es', '-o', sch, '--check'
        ] + CHECKS, None, None, {**docs, **old})
    lang = {'dir/z.md': MINE, 'loc/%s/z.md.po' % x: ONE,
            'loc/%s/z.md.po' % DECOY: TWO, 'loc/%s/z.md' % DECOY: OTHER}
    yield ('md2po2md of a language', 'md2po2md', None,
           [[x], 'dir/z.md', 'loc/{lang}'], {}, lang)
    yield ('md2po2md command for a language', 'md2po2md', [
        'dir/z.md', '-l', x, '-o', 'loc/{lang}'] + CHECKS, None, None, lang)
    yield ('md2po2md command into a directory', 'md2po2md', [
        'dir/z.md', '-l', 'es', '-o', 'l/%s/{lang}' % x] + CHECKS,
        None, None, {
               'dir/z.md': MINE, 'l/%s/es/z.md.po' % x: ONE,
               'l/%s/es/z.md.po' % DECOY: TWO})
    yield ('md2po2md into a directory', 'md2po2md', None,
           [['es'], 'dir/z.md', 'l/%s/{lang}' % x], {}, {
               'dir/z.md': MINE, 'l/%s/es/z.md.po' % x: ONE,
               'l/%s/es/z.md.po' % DECOY: TWO})


def run(ctx, x, tool, ws, pos, kw, files):
    dirs = {'/'.join(f.split('/')[:n]) for f in files
            for n in range(1, f.count('/') + 1)} | {'.', 'new'}

    def parse(I, s, ref, args, k, cx, node):
        evs = DOCS.get(args[0].v) if isinstance(args[0], K) else None
        return [(s2, e if isinstance(e, Exc) else NONE)
                for s2, e in Client(I, args, k).run(
                    s, flat(evs if evs is not None else STALE))]

    def feed(I, st, obj, args, k, cx, node):
        e = HTMLEVS if args[0] == K(MINE) else HTMLEVS[:1]
        return html_feed(ctx, *e)(I, st, obj, args, k, cx, node)
    cfg = dict(parse=parse, feed=feed, wrap=c02.no_wrap, encode_fails=False,
               io_faults=False)
    w, st = World(files, dirs), ctx.state()
    if ws is not None:
        outs = cli(ctx, tool, ws, w, st=st, **cfg)
    else:
        outs = api(ctx, tool, pos, kw, w, st=st, **cfg)
    res = {}
    for s, v in outs:
        reads = tuple(sorted((
            repr(e[1]) for e in s.trace
            if e[0] == 'open' and not writes(e[2]) or e[0] == 'pofile')))
        key = spelled(ctx, repr((c25.outcome(s, v), reads)))
        res[key.replace(x, '<name>')] = s
    return res


def spelled(ctx, text):
    """The text with the catalogues in full."""
    sn = {str(k): v for k, v in ctx.I.snapshots.items()}
    return re.sub(r'<postr\.(\w+)>', lambda m: repr(sn.get(m[1])), text)


def check(ctx):
    deep = ctx.tier == 'thorough'
    plain = {}
    # the plain name is at the same place of the order of the names
    for x in SPECIAL if deep else SPECIAL[:3]:
        p = next(c for c in ('f0a', '0a', 'fbc') if (c < DECOY) == (
            x < DECOY) and (c < 'z') == (x < 'z'))
        for (n, tool, *a), (_, _, *b) in zip(programs(p, deep),
                                             programs(x, deep)):
            ctx.begin('%s named %s' % (n, x))
            k = repr((p, a))
            if k not in plain:
                plain[k] = run(ctx, p, tool, *a)
            want, got = plain[k], run(ctx, x, tool, *b)
            ctx.ok()
            if not want:
                ctx.I.note('no outcome')
            if set(want) != set(got):
                ctx.finding('names', n, 'a file or directory named %s is '
                            'not processed as one named %s: %s' % (
                                x, p, difference(set(want), set(got))))


def difference(a, b):
    a, b = sorted(a - b), sorted(b - a)
    if not a or not b:
        return '%d or %d ways to end' % (len(b), len(a))
    i = 0
    while a[0][i:i + 1] == b[0][i:i + 1]:
        i += 1
    return '%.200s instead of %.200s' % (b[0][max(0, i - 100):],
                                         a[0][max(0, i - 100):])
