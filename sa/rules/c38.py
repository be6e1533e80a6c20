"""C38: po2md keeps the structure of the document.

Rule: po2md is interpreted abstractly on documents made of every kind of
block and span, with an empty catalogue and with translations of all
messages; the text it returns is read as Markdown and must have the blocks,
spans and attributes of the source."""
import itertools

from .extraction import *
from .docitems import *
from .docitems import T
from .structures import structures
from .fidelity import *
from . import c02, c28

EXT = ('tables', 'strikethrough', 'tasklists', 'wikilinks',
       'latex_math_spans')


def docs_structures(deep):
    for name, evs, _ in BLOCKS + CODE + INLINE + structures(deep):
        yield name, evs


def run(ctx, docs, entries=(), kw=None, refs='', wrap=c02.no_wrap):
    """sink for each document: the texts returned."""
    hold = {}

    def parse(I, st, ref, args, kw, cx, node):
        evs = hold['evs']
        return [(s, e if isinstance(e, Exc) else NONE)
                for s, e in Client(I, args, kw).run(st, flat(evs))]
    res = {}
    for st, obj in c02.po2md(ctx, ctx.state(), kw or {}, list(entries),
                             parse=parse, wrap=wrap):
        st.ghost['root'] = obj
        for name, evs in docs:
            hold['evs'] = evs
            s0 = st.copy()
            for s2, mt in ctx.getattr(s0, obj, 'translate'):
                for s, v in ctx.I.call(s2, mt, [K(refs or 'text')], [],
                                       DCX, None):
                    res.setdefault(name, []).append(
                        exc_name(s, v) if isinstance(v, Exc) else v)
    return res


def without_commands(blocks):
    """po2md does not write the commands."""
    out = []
    for b in blocks:
        if b[0] == 'HTML':
            ls = [l for l in b[1].split('\n')
                  if not l.startswith('<!-- mdpo')]
            if ls:
                out.append(('HTML', '\n'.join(ls)))
        elif b[0] == 'QUOTE':
            out.append(('QUOTE', tuple(without_commands(b[1]))))
        elif b[0] in ('UL', 'OL'):
            out.append((b[0], tuple((t, tuple(without_commands(k)))
                                    for t, k in b[1])))
        else:
            out.append(b)
    return merged(out)


def judge(ctx, rule, docs, entries=(), kw=None, refs='', change=None,
          ext=EXT):
    ctx.begin(rule)
    res = run(ctx, docs, entries, kw, refs)
    for name, evs in docs:
        ctx.ok()
        if name not in res:
            ctx.I.note('document not analysed')
            continue
        for v in res[name]:
            if isinstance(v, str):
                ctx.finding(rule, name, 'raises ' + v)
                continue
            ch = Chars()
            try:
                want = without_commands(expected(evs, ch))
                if change:
                    want = change(want, ch)
                got = written(v, ch, ext, refs)
            except Unclear as e:
                ctx.I.note(str(e))
                continue
            if list(want) != list(got):
                p, a, b = first_difference(want, got)
                ctx.finding(rule, name, '%s: %s is written as %s' % (
                    p, ch.pretty(a)[:300], ch.pretty(b)[:300]))


ALONE = [('text', [P(T(0))], 1), ('heading', [H(T(0))], 1),
         ('bullets', [UL(LI(T(0)), LI(T(1)))], 2),
         ('loose bullets', [UL(LI(P(T(0))), LI(P(T(1))), tight=False)], 2),
         ('numbers', [OL(LI(T(0)), LI(T(1)))], 2),
         ('nested bullets', [UL(LI(T(0), UL(LI(T(1)))))], 2),
         ('nested numbers', [OL(LI(T(0), OL(LI(T(1)))))], 2),
         ('quote', [QUOTE(P(T(0)))], 1),
         ('quoted bullets', [QUOTE(UL(LI(T(0))))], 1),
         ('fenced code', [FENCED(T(0), t('\n'))], 1),
         ('indented code', [INDENTED(T(0), t('\n'))], 1),
         ('table', [TABLE([T(0)], [T(1)])], 2),
         ('break', [HR()], 0), ('html', [HTML('<div>')], 0),
         ('comment', [HTML('<!-- note -->')], 0),
         ('command', [HTML('<!-- mdpo-enable -->')], 0)]


def docs_sequences(n):
    """Every sequence of n kinds of blocks, and a paragraph."""
    for c in itertools.product(ALONE, repeat=n):
        evs, base = [], 0
        for name, e, k in c:
            evs += c28.number(e, base)
            base += k
        if mergeable(c):
            continue
        yield ', '.join(x[0] for x in c), evs + P(T(base))


def mergeable(c):
    """Adjacent lists or quotes are not two in Markdown (and po2md does not
    write the commands that may have separated them)."""
    c = [x for x in c if x[0] != 'command']
    kinds = {'bullets': 'l', 'loose bullets': 'l', 'nested bullets': 'l',
             'numbers': 'n', 'nested numbers': 'n', 'quote': 'q',
             'quoted bullets': 'q', 'indented code': 'c'}
    for a, b in zip(c, c[1:]):
        if a[0] in kinds and kinds[a[0]] == kinds.get(b[0]):
            return True
        if kinds.get(a[0]) in ('l', 'n') and b[0] == 'indented code':
            return True
    return False


def ul(mark, *lis, tight=True):
    d = {'is_tight': tight, 'mark': mark}
    return blk('UL', flat(lis), **d)


def ol(delimiter, *lis, tight=True, start=1):
    return blk('OL', flat(lis), leave={
        'start': 0, 'is_tight': tight, 'mark_delimiter': delimiter},
        start=start, is_tight=tight, mark_delimiter=delimiter)


def code(info, *body, char='`'):
    lang = None if info is None else info.split(' ')[0]
    return blk('CODE', flat([list(body)]), lang=lang and ('attr', lang),
               info=info and ('attr', info), fence_char=char)


def table(aligns, *rows):
    n = len(aligns)

    def row(r, kind):
        return blk('TR', flat([blk(kind, flat([c]), align=Ext(
            'md4c.Align.' + a)) for c, a in zip(r, aligns)]))
    ev = blk('THEAD', row(rows[0], 'TH'))
    if len(rows) > 1:
        ev += blk('TBODY', flat([row(r, 'TD') for r in rows[1:]]))
    return blk('TABLE', ev, col_count=n, head_row_count=1,
               body_row_count=len(rows) - 1)


def docs_attributes():
    for n in range(1, 7):
        yield 'heading %d' % n, blk('H', [T(0)], level=n)
        yield 'heading %d in quote' % n, QUOTE(blk('H', [T(0)], level=n))
        yield 'heading %d in item' % n, UL(LI(T(0), blk('H', [T(1)],
                                                        level=n)))
    for info in ('py', 'py linenos=1', 'c++', 'some-long info & more'):
        for char in '`~':
            yield ('code %s %s' % (char * 3, info),
                   code(info, T(0), t('\n'), char=char))
            yield ('code %s %s in item' % (char * 3, info), UL(LI(
                T(0), code(info, T(1), t('\n'), char=char)), LI(T(2))))
            yield ('code %s %s in quote' % (char * 3, info), QUOTE(
                code(info, T(0), t('\n'), char=char)))
    for char in '`~':
        yield 'empty code ' + char * 3, code(None, char=char)
        for inner in ('```', '~~~', '````', '~~~~~', '`'):
            yield ('code %s with %s' % (char * 3, inner), code(
                None, t(inner), t('\n'), T(0), t('\n'), t(inner),
                t('\n'), char=char))
    lines = [T(0), t('\n'), t('\n'), t('  indented'), t('\n'),
             t('# hash'), t('\n')]
    for name, c in (('code', code('py', *lines)),
                    ('indented code', INDENTED(*lines))):
        yield name + ' lines', c
        yield name + ' lines in quote', QUOTE(c)
        yield name + ' lines in item', UL(LI(T(5), c), LI(T(6)))
        yield name + ' lines in numbered item', OL(LI(T(5), c), LI(T(6)))
        yield name + ' lines in nested item', UL(LI(T(7), UL(LI(
            T(5), c), LI(T(6)))))
    for a in itertools.product(('DEFAULT', 'LEFT', 'CENTER', 'RIGHT'),
                               repeat=2):
        yield 'table %s' % (a,), table(a, [T(0), T(1)], [T(2), T(3)])
    al = ('LEFT', 'CENTER', 'RIGHT')
    tb = table(al, [T(0), T(1), T(2)], [T(3), T(4), T(5)],
               [T(6), T(7), T(8)])
    yield 'table rows', tb
    yield 'table and table', tb + P(T(20)) + c28.number(tb, 9)
    yield 'table in quote', QUOTE(tb)
    yield 'table in quote and table', QUOTE(tb) + P(T(20)) + c28.number(
        tb, 9)
    yield 'table in item', UL(LI(P(T(20)), tb), tight=False)
    yield 'table in numbered item', OL(LI(P(T(20)), tb), tight=False)
    yield 'table without rows', table(al, [T(0), T(1), T(2)])
    yield 'table with empty cells', table(al, [T(0), T(1), []],
                                          [[], T(4), T(5)])
    for mark in '-*+':
        yield 'bullets ' + mark, ul(mark, LI(T(0)), LI(T(1)))
        yield 'loose bullets ' + mark, ul(mark, LI(P(T(0))), LI(P(T(1))),
                                          tight=False)
        yield 'nested bullets ' + mark, ul(mark, LI(T(0), ul('-', LI(
            T(1)))), LI(T(2)))
        yield 'bullets nested ' + mark, ul('-', LI(T(0), ul(mark, LI(
            T(1)), LI(T(2)))), LI(T(3)))
    for d in '.)':
        yield 'numbers ' + d, ol(d, LI(T(0)), LI(T(1)))
        yield 'nested numbers ' + d, ol(d, LI(T(0), ol('.', LI(
            T(1)))), LI(T(2)))
        yield 'numbers nested ' + d, ol('.', LI(T(0), ol(d, LI(
            T(1)), LI(T(2)))), LI(T(3)))
    for x in 'xX ':
        yield 'task [%s]' % x, UL(LI(T(0), task=x), LI(T(1)))
        yield 'loose task [%s]' % x, UL(LI(P(T(0)), task=x), LI(P(T(1))),
                                        tight=False)
        yield 'nested task [%s]' % x, UL(LI(T(0), UL(LI(T(1), task=x), LI(
            T(2), task='x'))), LI(T(3), task=x))
        yield 'quoted task [%s]' % x, QUOTE(UL(LI(T(0), task=x)))


REFS = '[ref-a]: href-a\n[ref-b]: href-b "title-b"\n'
ENTEXT = 'ENTITY'


def inline_elements():
    e = c28.elements(EXT)
    e['autolink'] = [A('http://some.where', t('http://some.where'))]
    e['mail autolink'] = [A('mailto:a@b.c', t('a@b.c'))]
    for k in ('quotes', 'inline html'):
        pass
    e['underscore'] = [t('_')]
    e['brackets'] = [t('['), T(0), t(']')]
    e['empty link'] = [A('', T(0))]
    e['link to place with spaces'] = [A('a b', T(0))]
    e['link to place with parenthesis'] = [A('a(b', T(0))]
    e['image from place with spaces'] = [IMG('a b', T(0))]
    e['strong link'] = [span('STRONG', A('some', T(0)))]
    e['strong link with title'] = [span('STRONG', A('some', T(0),
                                                    title='a title'))]
    e['strong with code'] = [span('STRONG', T(0), span(
        'CODE', t(txt(1), 'CODE')))]
    e['emphasis in strong'] = [span('STRONG', span('EM', T(0)))]
    e['emphasis and strong'] = [span('EM', T(0)), t(' '), span(
        'STRONG', T(1))]
    e['strong in strikethrough'] = [span('DEL', span('STRONG', T(0)))]
    e['image in emphasis'] = [span('EM', IMG('pic', T(0)))]
    return e


def docs_inline(deep):
    els = inline_elements()
    for place, wrap in c28.PLACES.items():
        for n, e in els.items():
            if 'break' in n and place in ('heading', 'table cell'):
                continue
            if n in ('wikilink with text', 'two lines') and \
                    place == 'table cell':
                continue  # its | or line break is the end of the cell
            if n == 'hard break' and place not in ('paragraph', 'quote'):
                continue
            if n in ('soft break', 'hard break'):
                e = [T(0)] + e + [T(1)]
            if 'display math' in n:
                # beside other texts: checked in a paragraph only
                yield '%s alone in %s' % (n, place), wrap(
                    c28.number(e, 10))
                if place != 'paragraph':
                    continue
            yield '%s in %s' % (n, place), wrap(c28.number(
                [T(0)] + [t(' ')], 50) + c28.number(e, 10))
            if place == 'paragraph' or deep:
                yield '%s in %s, text' % (n, place), wrap(
                    c28.number(e, 10) + c28.number([t(' '), T(0)], 50))


def check(ctx):
    deep = ctx.tier == 'thorough'
    judge(ctx, 'structure', list(docs_structures(deep)))
    judge(ctx, 'sequence', list(docs_sequences(3 if deep else 2)))
    judge(ctx, 'attributes', list(docs_attributes()))
    judge(ctx, 'inline', list(docs_inline(deep)), refs=REFS)
