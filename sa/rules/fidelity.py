"""Texts the analysis finds written, read back as Markdown and compared with
the parser events they come from."""
from ..values import Sym, Str, K, Value
from ..mdtext import Reader, from_events, merged

BASE = 0xE000


class Unclear(Exception):
    pass


class Chars:
    """One private character per opaque piece of text."""

    def __init__(self):
        self.table = {}

    def show(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, K):
            if not isinstance(v.v, str):
                raise Unclear('not a text: %r' % (v,))
            return v.v
        if isinstance(v, Str):
            return ''.join(self.show(p) for p in v.parts)
        if isinstance(v, Sym) and v.generic:
            return chr(self.table.setdefault(v, BASE + len(self.table)))
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'attr':
            return self.show(v[1])
        raise Unclear('opaque text %s' % (v,))

    def pretty(self, x):
        s = repr(x)
        for v, c in self.table.items():
            s = s.replace('\\u%04x' % c, '{%s}' % (v.id[1],)).replace(
                chr(c), '{%s%s}' % (v.id[0][0], v.id[1]))
        return s


def expected(evs, chars, change=None):
    t = from_events(evs, chars.show)
    return merged(t)


def written(text, chars, ext, refs=''):
    r = Reader(ext)
    if refs:
        r.blocks(refs)
    return merged(r.blocks(chars.show(text)))


def first_difference(a, b, path='document'):
    """Where two trees differ: (path, left, right)."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and
                                       isinstance(b, (list, tuple))):
        return path, a, b
    if isinstance(a, (list, tuple)):
        ka = a and isinstance(a[0], str) and a[0].isupper() and a[0]
        kb = b and isinstance(b[0], str) and b[0].isupper() and b[0]
        if ka != kb or len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, '%s%s' % (
                    path, ' > ' + ka if ka and i == 1 else ''))
    return path, a, b
