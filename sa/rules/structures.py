"""Block structures, generated: every container with every first and second
child, in tight and loose lists and in quotes, nested up to three levels."""
from .docitems import *
from .docitems import T


class Num:
    def __init__(self):
        self.n = 0
        self.acts = []

    def text(self, kind='text'):
        i = self.n
        self.n += 1
        if kind == 'text':
            self.acts.append(('msg', i, 'text'))
        else:
            self.acts.append(('code', i))
        return T(i)


def build(spec, num, tight=True):
    """spec: 'p' | 't' | 'h' | 'code' | 'table' | 'hr' | 'html'
    | (container, child, ...) with container 'ul', 'ol', 'UL', 'OL' (loose) or
    'quote'; a child of a list is a tuple of the blocks of the item."""
    if spec == 't':
        return num.text()
    if spec == 'p':
        return P(num.text())
    if spec == 'h':
        return H(num.text())
    if spec == 'code':
        return FENCED(num.text('code'))
    if spec == 'table':
        return TABLE([num.text()], [num.text()])
    if spec == 'hr':
        return HR()
    if spec == 'html':
        return HTML('<div>')
    c = spec[0]
    if c == 'quote':
        return QUOTE(*[build(x, num) for x in spec[1:]])
    lis = [LI(*[build(x, num) for x in it]) for it in spec[1:]]
    return (UL if c.lower() == 'ul' else OL)(*lis, tight=c.islower())


def show(spec):
    if isinstance(spec, str):
        return spec
    if spec[0] == 'quote':
        return 'quote(%s)' % ' '.join(show(x) for x in spec[1:])
    return '%s(%s)' % (
        {'ul': 'bullets', 'ol': 'numbers', 'UL': 'loose bullets',
         'OL': 'loose numbers'}[spec[0]],
        ', '.join(' '.join(show(x) for x in it) for it in spec[1:]))


def item(spec):
    num = Num()
    ev = build(spec, num)
    return (show(spec), ev, num.acts)


def inner(kind, loose=False):
    b = 'p' if loose else 't'
    return {'ul': (('UL' if loose else 'ul'), (b,)),
            'ol': (('OL' if loose else 'ol'), (b,)),
            'quote': ('quote', 'p'), 'code': 'code', 'h': 'h',
            'table': 'table', 'p': 'p'}[kind]


def specs(depth3=False):
    out = []
    for l in ('ul', 'ol'):
        for k in ('ul', 'ol', 'quote', 'code', 'h'):
            out.append((l, ('t', inner(k)), ('t',)))
            out.append((l, (inner(k),), ('t',)))
            out.append((l, (inner(k),)))
            out.append((l.upper(), ('p', inner(k, True)), ('p',)))
            out.append((l.upper(), (inner(k, True), 'p')))
        out.append((l, ('t', inner('ul'), inner('ol'))))
        out.append((l, ('t', inner('ol'), inner('ul')), ('t',)))
        for a in ('ul', 'ol', 'quote'):
            for b in ('ul', 'ol', 'quote', 'code', 'h'):
                out.append((l, ('t', inner(a)), ('t', inner(b))))
        out.append((l, ('t', 'html'), ('t',)))
        out.append((l, ('t', 'html', 't')))
        out.append((l, ('t', 'hr', 't')))
        out.append((l.upper(), ('p', 'p', inner('ul'))))
        out.append((l.upper(), ('p', 'html', 'p'), ('p',)))
        out.append((l.upper(), ('p', 'hr', 'p')))
    for k in ('ul', 'ol', 'quote', 'code', 'h', 'table', 'p'):
        out.append(('quote', inner(k)))
        out.append(('quote', 'p', inner(k), 'p'))
        out.append(('quote', inner(k), 'h', inner(k)))
    out.append(('quote', 'p', 'html', 'p'))
    for a in ('ul', 'ol', 'quote'):
        for b in ('ul', 'ol', 'quote'):
            for c in ('ul', 'ol', 'quote'):
                if (a, b, c) == ('quote',) * 3 or depth3 or a != c:
                    out.append(nest((a, b, c)))
    for chain in (('ul',) * 4, ('ul',) * 6, ('ol',) * 5,
                  ('ul', 'ol', 'ul', 'ol'), ('ol', 'ul', 'ol', 'ul', 'ol')):
        out.append(nest(chain))
    # more items than those of the examples
    out.append(('ul',) + (('t',),) * 12)
    out.append(('ol',) + (('t',),) * 12)
    out.append(('OL',) + (('p', 'p'),) * 4)
    return out


def nest(chain):
    x = 't' if chain[-1] != 'quote' else 'p'
    if chain[-1] == 'quote':
        r = ('quote', 'p')
    else:
        r = (chain[-1], ('t',))
    for c in reversed(chain[:-1]):
        r = ('quote', 'p', r) if c == 'quote' else (c, ('t', r), ('t',))
    return r


def structures(depth3=False):
    out, seen = [], set()
    for s in specs(depth3):
        it = item(s)
        if it[0] not in seen:
            seen.add(it[0])
            out.append(it)
    return out
