"""C34: in plaintext mode messages have the text without its markup.

Rule: md2po with plaintext is interpreted abstractly on documents with every
kind of span in every kind of block; each message must be the text of its
block without delimiters, targets and titles; titles are messages of their
own, and entities are kept as they are."""
from .c37 import *
from . import c37, c38


def titles(nodes):
    for n in nodes:
        if isinstance(n, str):
            continue
        if n[0] in ('A', 'IMG') and n[2]:
            yield n[2]
        if n[0] not in ('MATH', 'ICODE', 'RAW', 'DISPLAY', 'IMG'):
            yield from titles(n[{'A': 3, 'WIKI': 2}.get(n[0], 1):])


def check(ctx):
    deep = ctx.tier == 'thorough'

    def want(nodes):
        s = ' '.join(alt(spaced(nodes)).split())
        ts.update(titles(nodes))
        return s

    def read(text):
        s = ' '.join(text.split())
        return None if s in ts else s
    kw = {'extensions': EXT, 'plaintext': True}
    for rule, docs in (
            ('inline', [x for x in docs_inline(deep)
                        if not x[0].startswith('entity')]),
            ('structure', [(n, e) for n, e, _ in
                           BLOCKS + structures(deep)]),
            ('attributes', list(docs_attributes())),
            ('sequence', list(docs_sequences(3 if deep else 2)))):
        ts = set()
        c37.judge(ctx, rule, docs, kw, read, want, titles)
