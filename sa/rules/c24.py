"""C24: files processed together are processed as each one alone.

Rule: md2po and md2po2md are interpreted abstractly on two files, the first of
which leaves pending every command and every kind of block; the messages of
the two must be those of the first alone followed by those of the second
alone, and the files written for the second must be those written when it is
alone."""
from .programs import *
from ..m_polib import snapshot
from . import c02
from .c28 import number

REF = {'a.md': '[ref-a]: href-a\n', 'b.md': '[ref-b]: href-b "title-b"\n'}


def words(evs, base):
    """Each text is a word of its own."""
    out = []
    for e in number(flat(evs), base):
        if e[0] == 't' and isinstance(e[2], Sym):
            e = (e[0], e[1], K('word%d' % e[2].id[1]))
        out.append(e)
    return out


def com(x):
    return HTML('<!-- %s -->' % x)


CMDS = ['mdpo-disable', 'mdpo-enable', 'mdpo-disable-next-block',
        'mdpo-enable-next-line', 'mdpo-context some context',
        'mdpo-translator some note', 'mdpo-include-codeblock',
        'mdpo-disable-codeblock', 'mdpo-include-codeblocks',
        'mdpo-disable-codeblocks', 'alias']


def firsts(deep):
    docs = [('nothing', [])] + [(n, e) for n, e, _ in BLOCKS + CODE + INLINE]
    docs += [('%s at the end' % c, P(T(0)) + com(c)) for c in CMDS]
    docs += [('%s alone' % c, com(c)) for c in CMDS]
    docs += [('%s and a text' % c, com(c) + P(T(0))) for c in CMDS]
    docs += [('%s in a list' % c, UL(LI(T(0), com(c)))) for c in CMDS]
    docs.append(('link', P(A('href-a', T(0)))))
    if deep:
        docs += [('%s, %s' % (c, d), P(T(0)) + com(c) + com(d))
                 for c in CMDS for d in CMDS]
    return docs


def seconds(deep):
    two = [('text', P(T(0)) + P(T(1))),
           ('code', FENCED(T(0), t('\n')) + FENCED(T(1), t('\n')) + P(T(2))),
           ('list', UL(LI(T(0), UL(LI(T(1)))), LI(T(2)))),
           ('numbers', OL(LI(T(0), OL(LI(T(1)))), LI(T(2)))),
           ('quote', QUOTE(P(T(0))) + P(T(1))),
           ('heading', H(T(0)) + HR() + H(T(1))),
           ('table', TABLE([T(0)], [T(1)]) + P(T(2))),
           ('links', P(A('href-b', T(0), title='title-b'),
                       t(' '), A('href-a', T(1)))),
           ('spans', P(span('EM', T(0)), span('CODE', t(txt(1), 'CODE')))),
           ('context', com('mdpo-context other context') + P(T(0)) + P(T(1))),
           ('enabled', com('mdpo-disable') + P(T(0)) + com('mdpo-enable') +
            P(T(1)))]
    if deep:
        return two
    d = dict(two)
    res = []
    for names in (('text', 'code', 'heading', 'links'),
                  ('code', 'table', 'context'), ('list', 'quote'),
                  ('links', 'numbers'), ('enabled', 'quote', 'spans')):
        evs = []
        for i, n in enumerate(names):
            evs += number(d[n], 10 * i)
        res.append((', '.join(names), evs))
    return res


CONFIGS = [('', {}), ('plaintext', {'plaintext': True}),
           ('code blocks', {'include_codeblocks': True}),
           ('events', {'events': {'text': Sym(('hook', 0), 'callable',
                                              {'hook'}, truthy=True)}})]


def world(more=()):
    return World(dict({n: REF[n] for n in REF}, **dict(more)), DIRS)


def run(ctx, tool, names, docs, kw):
    """docs: {file: events}"""
    st = ctx.state()

    def parse(I, s, ref, args, kw_, cx, node):
        for n, text in REF.items():
            if args[0] == K(text):
                return [(s2, e if isinstance(e, Exc) else NONE)
                        for s2, e in Client(I, args, kw_).run(s, flat(
                            docs[n]))]
        I.note('the content parsed is not that of a file')
        return []
    cfg = dict(parse=parse, wrap=c02.no_wrap, encode_fails=False,
               callsym=lambda I, s, f, a, k, cx, n: [(s, NONE)]
               if f.id[0] == 'hook' else None)
    kw = dict(kw, command_aliases={'alias': 'mdpo-disable'})
    if tool == 'md2po':
        return api(ctx, 'md2po', [list(names)], kw, world(), st=st, **cfg)
    return api(ctx, 'md2po2md', [['es'], names[0] if len(names) == 1 else
                                 '*.md', 'loc/{lang}'], kw, world(), st=st,
               **cfg)


def entries(outs):
    res = set()
    for s, v in outs:
        if isinstance(v, Exc):
            res.add(('raises ' + exc_name(s, v),))
        else:
            res.add(snapshot(s, v)[2])
    return res


def files_written(outs, name):
    res = set()
    for s, v in outs:
        if isinstance(v, Exc):
            res.add('raises ' + exc_name(s, v))
            continue
        res.add(tuple((e[1], text(s, e[2])) for e in s.trace
                      if e[0] == 'write' and isinstance(e[1], K) and
                      e[1].v.split('/')[-1].startswith(name)))
    return res


def text(s, v):
    return repr(v)


def check(ctx):
    deep = ctx.tier == 'thorough'
    for cn, kw in CONFIGS:
        alone = {}
        for f, docs, base in (('a.md', firsts(deep), 0),
                              ('b.md', seconds(deep), 50)):
            for n, e in docs:
                ctx.begin('%s %s alone' % (cn, n))
                e = words(e, base)
                alone[f, n] = e, entries(run(ctx, 'md2po', [f], {f: e}, kw))
        for (n, _), (m, _) in itertools.product(
                firsts(deep), seconds(deep)[:None if deep or not cn else 2]):
            ctx.begin('%s %s, %s' % (cn, n, m))
            ctx.ok()
            a, ra = alone['a.md', n]
            b, rb = alone['b.md', m]
            got = entries(run(ctx, 'md2po', ['a.md', 'b.md'],
                              {'a.md': a, 'b.md': b}, kw))
            want = {x + y for x in ra for y in rb}
            if got != want:
                ctx.finding('messages', 'md2po %s: %s after %s' % (
                    cn, m, n), 'extracts %s instead of %s' % (
                        show(got - want), show(want - got)))
    for n, a in firsts(deep):
        for m, b in seconds(False)[:1 if not deep else 5]:
            ctx.begin('md2po2md %s, %s' % (n, m))
            ctx.ok()
            a, b = words(a, 0), words(b, 50)
            one = run(ctx, 'md2po2md', ['b.md'], {'b.md': b}, {})
            two = run(ctx, 'md2po2md', ['a.md', 'b.md'],
                      {'a.md': a, 'b.md': b}, {})
            x, y = files_written(one, 'b.'), files_written(two, 'b.')
            if x != y:
                ctx.finding('translations', 'md2po2md: %s after %s' % (m, n),
                            'writes %s instead of %s' % (
                                sorted(map(str, y - x))[:1],
                                sorted(map(str, x - y))[:1]))


def show(rs):
    out = []
    for r in sorted(rs, key=repr)[:2]:
        out.append(str([{k: str(v) for k, v in e if k in (
            'msgid', 'msgctxt', 'tcomment', 'comment', 'occurrences')}
            if isinstance(e, tuple) else e for e in r])[:400])
    return ' or '.join(out) or 'nothing'
