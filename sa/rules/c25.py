"""C25: the same arguments and files give the same results.

Rule: every program is interpreted abstractly twice, in worlds that differ
only in what no user chooses: the order in which the file system lists the
files of a glob and the order in which a set is iterated. The files written
and their contents, the standard streams, the exit code and the values
returned must be the same; and no value that depends on the clock, on random
numbers or on the process may reach them."""
from .programs import *
from ..m_polib import snapshot
from ..values import labels_of
from . import c02
from .c23 import DOC, STALE, REFS, HTMLEVS, deep as content, words
from .c23 import FULL as OPTIONS

# the debug mode shows the time
FULL = {t: {k: v for k, v in o.items() if k != 'debug'}
        for t, o in OPTIONS.items()}

ONE = [{'msgid': K('alfa'), 'msgstr': K('uno')},
       {'msgid': K('gone'), 'msgstr': K('ido')},
       {'msgid': K('beta'), 'msgstr': K('bis'), 'obsolete': TRUE},
       {'msgid': K('doubt'), 'msgstr': K('duda'), 'fuzzy': True},
       {'msgid': K('empty'), 'msgstr': K('')}]
TWO = [dict(e, msgstr=K('otro')) if e['msgstr'] != K('') else e
       for e in reversed(ONE)]
OTHERS = words(P(T(0)) + FENCED(t('code\n')) + P(T(1), A('href-b', T(2))))
NOREF = '[ref-b]: href-b "title"\n'


def world():
    return World({
        'dir/a.md': REFS, 'dir/b.md': NOREF, 'dir/c.md': 'ccc',
        'cat-a.po': ONE, 'cat-b.po': TWO, 'page.html': 'page',
        'loc/es/a.md.po': ONE, 'loc/es/b.md.po': TWO,
        'loc/fr/a.md.po': TWO}, ['dir', 'loc', 'loc/es', 'loc/fr', '.'])


def final(s):
    """What a user sees of the effects."""
    files, out = {}, []
    for e in s.trace:
        if e[0] == 'write':
            files.setdefault(e[1], []).append(repr(e[2]))
        elif e[0] == 'open' and writes(e[2]) and not (
                isinstance(e[2], K) and 'a' in e[2].v):
            files[e[1]] = []
        elif e[0] in ('po-save', 'mo-save'):
            files[e[2]] = [repr(e[4:])]
        elif e[0] in ('mkdir', 'remove', 'rename', 'copy'):
            files[e[1]] = [e[0], repr(e[2:-1])]
        elif e[0] == 'out':
            out.append((e[1], repr(e[2])))
    return (tuple(sorted((repr(k), tuple(v)) for k, v in files.items())),
            tuple(out))


def outcome(s, v):
    how, r = exit_of(s, v)
    return (how, content(s, r) if isinstance(r, Value) else r) + final(s)


CHECKS = {'no_obsolete': True, 'no_fuzzy': True, 'no_empty_msgstr': True}
CLIFLAGS = ['--no-obsolete', '--no-fuzzy', '--no-empty-msgstr', '--check']


def programs(deep):
    """(name, tool, words | None, positional, keywords)"""
    md = ['dir/*.md', ['dir/b.md', 'dir/a.md', 'dir/c.md']]
    if deep:
        md.append(['dir/a.md', 'dir/b.md', 'dir/a.md'])
    for x in md:
        for n, kw in (
                ('', {}), ('full', FULL['md2po']),
                ('plain', {'plaintext': True}),
                ('saved', {'po_filepath': 'cat-a.po', 'save': True}),
                ('removing', {'po_filepath': 'cat-a.po', 'save': True,
                              'preserve_not_found': False}),
                ('full, saved', dict(FULL['md2po'], po_filepath='cat-b.po',
                                     save=True, mo_filepath='new.mo')),
                ('aliases', {'command_aliases': {
                    'alias': 'mdpo-context', 'other': 'mdpo-disable',
                    'alias2': 'mdpo-disable'}})):
            yield ('md2po %s %s' % (x, n), 'md2po', None, [x], kw)
    for o in FULL['md2po'] if deep else ():
        yield ('md2po with %s' % o, 'md2po', None, ['dir/*.md'],
               {o: FULL['md2po'][o]})
    yield ('md2po command', 'md2po', ['dir/*.md', '-p', 'cat-a.po', '-s'] +
           CLIFLAGS, None, None)
    yield ('md2po command of files', 'md2po', [
        'dir/b.md', 'dir/a.md', '-d', 'a: b', '-d', 'c: d',
        '--command-alias', 'alias:context', '--command-alias', 'b:disable'],
        None, None)
    yield ('md2po ignoring', 'md2po', ['dir/*.md', '-i', 'dir/a.md', '-i',
                                       'c.md'], None, None)
    for p in ('cat-*.po', ['cat-*.po'], ['cat-b.po', 'cat-*.po'],
              ['cat-b.po', 'cat-a.po'], ['loc/*/*.po', 'cat-*.po']):
        for n, kw in (('', {}), ('full', dict(FULL['po2md'])),
                      ('saved', {'save': 'new.md'})):
            yield ('po2md %s %s' % (p, n), 'po2md', None,
                   ['dir/a.md', p], kw)
        yield ('mdpo2html %s' % (p,), 'mdpo2html', None, ['page.html', p],
               {})
        yield ('mdpo2html %s full' % (p,), 'mdpo2html', None,
               ['page.html', p], FULL['mdpo2html'])
    for tool, f in (('po2md', 'dir/a.md'), ('mdpo2html', 'page.html')):
        for ps in (['-p', 'cat-*.po'], ['-p', 'cat-b.po', 'cat-a.po'],
                   ['-p', 'cat-b.po', '-p', 'cat-a.po']):
            yield ('%s command %s' % (tool, ' '.join(ps)), tool, [f] + ps +
                   CLIFLAGS[:3 if tool == 'po2md' else 0], None, None)
    for langs in (['fr', 'es'],) if not deep else (
            ['es', 'fr'], ['fr', 'es'], ['fr', 'es', 'fr']):
        for sch in ('loc/{lang}', 'loc/{lang}/{basename}.{ext}',
                    'loc/{lang}.md'):
            yield ('md2po2md %s %s' % (langs, sch), 'md2po2md', None,
                   [langs, 'dir/*.md', sch], {})
            yield ('md2po2md %s %s full' % (langs, sch), 'md2po2md', None,
                   [langs, 'dir/*.md', sch], dict(FULL['md2po2md'],
                                                  **CHECKS))
        ws = [w for x in langs for w in ('-l', x)]
        yield ('md2po2md command %s' % langs, 'md2po2md', [
            'dir/*.md', '-o', 'loc/{lang}'] + ws + CLIFLAGS, None, None)
        yield ('md2po2md command of languages %s' % langs, 'md2po2md', [
            'dir/*.md', '-o', 'loc/{lang}', '-l'] + langs + CLIFLAGS[3:],
            None, None)


def run(ctx, tool, ws, pos, kw, order):
    docs = {REFS: DOC, NOREF: STALE, 'ccc': OTHERS}

    def parse(I, s, ref, args, k, cx, node):
        evs = docs.get(args[0].v) if isinstance(args[0], K) else None
        if evs is None:
            I.note('the content parsed is not that of a file')
            evs = []
        return [(s2, e if isinstance(e, Exc) else NONE)
                for s2, e in Client(I, args, k).run(s, flat(evs))]
    cfg = dict(parse=parse, feed=html_feed(ctx, *HTMLEVS), wrap=c02.no_wrap,
               encode_fails=False, io_faults=False, set_order=order,
               callsym=lambda I, s, f, a, k, c, n: [(s, NONE)])
    st = ctx.state()
    if ws is not None:
        outs = cli(ctx, tool, ws, world(), st=st, **cfg)
    else:
        outs = api(ctx, tool, pos, kw, world(), st=st, **cfg)
    res = {}
    for s, v in outs:
        ctx.ok()
        moving(ctx, tool, s, v)
        res[outcome(s, v)] = s
    return res


MOVING = {'clock', 'nondet'}


def moving(ctx, tool, s, v):
    for e in s.trace:
        x = e[2] if e[0] in ('write', 'out') else None
        if x is not None and MOVING & kinds(labels_of(x)):
            ctx.finding('moving', '%s [%s]' % (tool, construct_of(e[-1])),
                        'the value %s depends on %s' % (
                            x, ', '.join(MOVING & kinds(labels_of(x)))),
                        site=sitestr(e[-1]))
        if e[0] in ('po-save', 'mo-save'):
            for m in MOVING:
                if "'%s'" % m in repr(e[4:]):
                    ctx.finding('moving', '%s catalogue' % tool,
                                'the catalogue saved depends on the ' + m)


def check(ctx):
    for name, tool, ws, pos, kw in programs(ctx.tier == 'thorough'):
        ctx.begin(name)
        one = run(ctx, tool, ws, pos, kw, None)
        ctx.begin(name + ', other order')
        two = run(ctx, tool, ws, pos, kw, 'reversed')
        ctx.ok()
        if not one:
            ctx.I.note('no outcome')
        if set(one) != set(two):
            ctx.finding('order', name, difference(set(one), set(two)))


def difference(a, b):
    a, b = sorted(a - b, key=repr), sorted(b - a, key=repr)
    if not a or not b:
        return '%d or %d ways to end' % (len(a), len(b))
    for x, y in zip(a[0], b[0]):
        if x != y:
            i = 0
            x, y = repr(x), repr(y)
            while x[i:i + 1] == y[i:i + 1]:
                i += 1
            return 'depending on an order: %.200s or %.200s' % (
                x[max(0, i - 100):], y[max(0, i - 100):])
