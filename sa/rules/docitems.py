"""Alphabet of document items and the specification automaton of commands.

An item is (name, events, actions); actions, in document order, are
  ('cmd', command, argument)   an mdpo command took effect
  ('msg', i, kind)             message number i of the item is complete
  ('title', i)                 a title, part of the message being read
  ('code', i)                  a code block with text i is complete
"""
from ..mdevents import *
from ..values import K, Str, Sym
from ..harness import kinds


def T(i):
    return t(txt(i))


def m(*ii):
    return [('msg', i, 'text') for i in ii]


def item_cmd(name, arg=None, canon=None):
    line = '<!-- %s -->' % (name if arg is None else '%s %s' % (name, arg))
    nm = '<!--%s-->' % name
    return (nm, HTML(line), [('cmd', canon or name, arg)])


DIS = ('mdpo-disable', 'mdpo-enable', 'mdpo-disable-next-block',
       'mdpo-disable-next-line', 'mdpo-enable-next-block',
       'mdpo-enable-next-line')
CODECMDS = ('mdpo-include-codeblock', 'mdpo-disable-codeblock',
            'mdpo-include-codeblocks', 'mdpo-disable-codeblocks')

BLOCKS = [
    ('paragraph', P(T(0)), m(0)),
    ('heading', H(T(0)), m(0)),
    ('two-line paragraph', P(T(0), t('\n', 'SOFTBR'), T(1)), m(0)),
    ('bullet list', UL(LI(T(0)), LI(T(1))), m(0, 1)),
    ('ordered list', OL(LI(T(0)), LI(T(1))), m(0, 1)),
    ('loose list', UL(LI(P(T(0)), P(T(1))), tight=False), m(0, 1)),
    ('nested bullet list', UL(LI(T(0), UL(LI(T(1)))), LI(T(2))),
     m(0, 1, 2)),
    ('ordered in bullet list', UL(LI(T(0), OL(LI(T(1))))), m(0, 1)),
    ('bullet in ordered list', OL(LI(T(0), UL(LI(T(1))))), m(0, 1)),
    ('ordered in ordered list', OL(LI(T(0), OL(LI(T(1)))), LI(T(2))),
     m(0, 1, 2)),
    ('bullet list directly in bullet list', UL(LI(UL(LI(T(0))))), m(0)),
    ('ordered list directly in bullet list', UL(LI(OL(LI(T(0))))), m(0)),
    ('quote', QUOTE(P(T(0)), P(T(1))), m(0, 1)),
    ('quoted list', QUOTE(UL(LI(T(0)), LI(T(1)))), m(0, 1)),
    ('quoted heading', QUOTE(H(T(0))), m(0)),
    ('quote in list item', UL(LI(T(0), QUOTE(P(T(1))))), m(0, 1)),
    ('task list', UL(LI(T(0), task='x'), LI(T(1))), m(0, 1)),
    ('table', TABLE([T(0)], [T(1)]), m(0, 1)),
    ('thematic break', HR(), []),
    ('html', HTML('<div>'), []),
    ('plain comment', HTML('<!-- -->'), []),
]
CODE = [
    ('fenced code', FENCED(T(0)), [('code', 0)]),
    ('indented code', INDENTED(T(0)), [('code', 0)]),
]
INLINE = [
    ('strong paragraph', P(T(0), span('STRONG', T(1))), m(0)),
    ('emphasis heading', H(span('EM', T(0)), T(1)), m(0)),
]
IN_CONTAINER = [
    ('command inside list item', UL(
        LI(P(T(0)), HTML('<!-- mdpo-disable-next-line -->'), P(T(1))),
        tight=False),
     m(0) + [('cmd', 'mdpo-disable-next-line', None)] + m(1)),
    ('command inside tight list item', UL(
        LI(T(0), HTML('<!-- mdpo-disable-next-line -->'), T(1)), LI(T(2))),
     m(0) + [('cmd', 'mdpo-disable-next-line', None)] + m(1, 2)),
    ('command inside quote', QUOTE(
        HTML('<!-- mdpo-disable -->'), P(T(0)),
        HTML('<!-- mdpo-enable -->'), P(T(1))),
     [('cmd', 'mdpo-disable', None)] + m(0)
     + [('cmd', 'mdpo-enable', None)] + m(1)),
]
MULTI = [
    ('two commands in one comment block', HTML(
        '<!-- mdpo-disable -->', '<!-- mdpo-enable-next-block -->'),
     [('cmd', 'mdpo-disable', None),
      ('cmd', 'mdpo-enable-next-block', None)]),
]


class Cmds:
    """Reference automaton of the documented commands.

    state = (disabled, disable next, enable next, codeblocks on, include next
    codeblock, disable next codeblock, context, comment).
    expected(state, actions) -> (state, [message or None per message])."""

    def __init__(self, code=False, translate=False, code_known=True):
        self.code, self.translate = code, translate

    def init(self):
        return (False, False, False, self.code, False, False, None, None)

    def command(self, s, name, arg):
        d, nd, ne, ca, ic, dc, cx, tc = s
        if name == 'mdpo-disable':
            d = True
        elif name == 'mdpo-enable':
            d = False
        elif name in ('mdpo-disable-next-block', 'mdpo-disable-next-line'):
            nd = True
        elif name in ('mdpo-enable-next-block', 'mdpo-enable-next-line'):
            ne = True
        elif name == 'mdpo-include-codeblocks':
            ca = True
        elif name == 'mdpo-disable-codeblocks':
            ca = False
        elif name == 'mdpo-include-codeblock':
            ic = True
        elif name == 'mdpo-disable-codeblock':
            dc = True
        elif name == 'mdpo-context':
            cx = arg
        elif name == 'mdpo-translator':
            tc = arg
        return (d, nd, ne, ca, ic, dc, cx, tc)

    def message(self, s, i):
        d, nd, ne, ca, ic, dc, cx, tc = s
        on = (not d and not nd) or ne
        return ((d, False, False, ca, ic, dc, None, None),
                (i, on, cx, tc))

    def expected(self, s, actions):
        out = []
        for a in actions:
            if a[0] == 'cmd':
                s = self.command(s, a[1], a[2])
                if a[1] == 'mdpo-include' and not self.translate:
                    s, r = self.message(s, ('k', a[2]))
                    out.append(r)
            elif a[0] == 'msg':
                s, r = self.message(s, a[1])
                out.append(r)
            elif a[0] == 'title':  # goes with the next message
                out.append((a[1], self.message(s, a[1])[1][1], None, None))
            elif a[0] == 'code':
                if self.translate:
                    s, r = self.message(s, a[1])
                    out.append(r)
                    continue
                d, nd, ne, ca, ic, dc, cx, tc = s
                if not dc and (ca or ic):
                    s, r = self.message(s, a[1])
                    out.append(r)
                d, nd, ne, ca, ic, dc, cx, tc = s
                s = (d, nd, ne, ca, False, False, cx, tc)
        return s, out


def ident(v):
    """Which message of the item a text stands for."""
    from ..values import labels_of
    ls = sorted(l[1] for l in labels_of(v) if isinstance(l, tuple)
                and l[0] == 'msg')
    if ls:
        return ls[0]
    if isinstance(v, K):
        return ('k', v.v)
    if 'old' in kinds(labels_of(v)):
        return 'text of an earlier block'
    return ('?', repr(v))
