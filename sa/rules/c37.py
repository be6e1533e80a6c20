"""C37: a message says what its block says.

Rule: md2po is interpreted abstractly on documents with every kind of span in
every kind of block; each message recorded is read as Markdown and must have
the texts, spans, targets and titles of its block, one message per block of
text, in the order of the document."""
from .extraction import *
from .docitems import *
from .docitems import T
from .structures import structures
from .fidelity import *
from ..mdtext import canonical, alt
from . import c28, c38
from .c38 import docs_attributes, docs_sequences, docs_inline, EXT

REFS = K(c38.REFS)
MARKS = {'bold_start_string': '__', 'bold_end_string': '__',
         'italic_start_string': '_', 'italic_end_string': '_'}


def messages(ctx, docs, kw, refs=REFS):
    """name -> the lists of message texts."""
    res = {}

    def parse(I, st, ref, args, kw_, cx, node):
        cl = Client(I, args, kw_)
        obj = st.ghost['root']
        for name, evs in docs:
            for s, e in cl.run(st.copy(), flat(evs)):
                if isinstance(e, Exc):
                    res.setdefault(name, []).append(exc_name(s, e))
                    continue
                out = []
                for r in po_items(s, obj):
                    out.append(entry(s, r).get('msgid'))
                res.setdefault(name, []).append(out)
        return []
    st = ctx.state()
    args = {'location': FALSE}
    for k, v in kw.items():
        args[k] = mlist(st, [K(x) for x in v], ('kw', k)) if isinstance(
            v, (list, tuple)) else K(v)
    cls = ctx.attr('mdpo.md2po', 'Md2Po')
    for s, obj in ctx.call(st, cls, [refs], list(args.items()),
                           parse=parse, glob=no_glob,
                           fs=lambda I, st, n, p: False):
        if not isinstance(obj, Exc):
            s.ghost['root'] = obj
            extract(ctx, s, obj)
    return res


def leaves(blocks):
    """The inline content of the blocks, in order."""
    for b in blocks:
        if b[0] == 'P':
            yield b[1]
        elif b[0] == 'H':
            yield b[2]
        elif b[0] == 'QUOTE':
            yield from leaves(b[1])
        elif b[0] in ('UL', 'OL'):
            for _, kids in b[1]:
                yield from leaves(kids)
        elif b[0] == 'TABLE':
            for row in b[2]:
                yield from row


def spaced(nodes):
    """Line breaks are spaces in messages."""
    out = []
    for n in nodes:
        if n == ('BR',):
            n = ' '
        elif not isinstance(n, str) and n[0] not in ('MATH', 'ICODE', 'RAW',
                                                     'DISPLAY', 'IMG'):
            k = {'A': 3, 'WIKI': 2}.get(n[0], 1)
            n = n[:k] + spaced(n[k:])
        if isinstance(n, str) and out and isinstance(out[-1], str):
            out[-1] += n
        else:
            out.append(n)
    return tuple(out)


def formula(nodes):
    """A display formula alone is a message without its delimiters."""
    if len(nodes) == 1 and not isinstance(nodes[0], str) and \
            nodes[0][0] == 'DISPLAY':
        return (nodes[0][1],)
    return nodes


def unique(xs):
    out = []
    for x in xs:
        if x and x not in out:
            out.append(x)
    return out


def judge(ctx, rule, docs, kw, read, want, also=lambda x: (), refs=REFS):
    ctx.begin(rule)
    docs = list(docs)
    res = messages(ctx, docs, kw, refs)
    for name, evs in docs:
        ctx.ok()
        if name not in res:
            ctx.I.note('document not analysed')
            continue
        for got in res[name]:
            if isinstance(got, str):
                ctx.finding(rule, name, 'raises ' + got)
                continue
            ch = Chars()
            try:
                ls = list(leaves(expected(evs, ch)))
                exp = unique(want(x) for x in ls)
                raw = [ch.show(m) for m in got]
                msgs = unique(read(m) for m in raw)
            except Unclear as e:
                ctx.I.note(str(e))
                continue
            for m in raw:
                if '\n' in m.strip('\n'):
                    ctx.finding(rule, name + ' lines', 'line break in '
                                'message %s' % ch.pretty(m))
            for x in ls:
                for m in also(x):
                    if m not in raw:
                        ctx.finding(rule, name, '%s is not extracted' %
                                    ch.pretty(m))
            if exp != msgs:
                p, a, b = first_difference(tuple(exp), tuple(msgs),
                                           'messages')
                ctx.finding(rule, name, '%s: %s is extracted as %s' % (
                    p, ch.pretty(a)[:300], ch.pretty(b)[:300]))


def reader(text):
    r = Reader(EXT)
    r.blocks(c38.REFS)
    bs = r.blocks(text)
    if len(bs) == 1 and bs[0][0] == 'P':
        return bs[0][1]
    return r.inlines(text)


def check(ctx):
    deep = ctx.tier == 'thorough'
    kw = {'extensions': EXT}
    docs = list(docs_inline(deep))
    judge(ctx, 'inline', docs, kw, reader, lambda x: formula(spaced(x)))
    judge(ctx, 'own marks', [x for x in docs if 'paragraph' in x[0] and
                             'math' not in x[0] and
                             'asterisk' not in x[0] and
                             'link with emphasis' not in x[0]],
          dict(kw, **MARKS), reader, spaced)
    docs = [(n, e) for n, e, _ in BLOCKS + structures(deep)]
    judge(ctx, 'structure', docs, kw, reader, lambda x: formula(spaced(x)))
    judge(ctx, 'attributes', docs_attributes(), kw, reader, spaced)
    judge(ctx, 'sequence', docs_sequences(3 if deep else 2), kw, reader,
          spaced)
