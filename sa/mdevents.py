"""The md4c event language: what the Markdown parser may call back with.

A document item is a list of events
    ('eb', block, details) ('lb', block, details)
    ('es', span, details)  ('ls', span, details)  ('t', texttype, Value)
Details map names to plain constants, Values, or ('attr', Value) for md4c
attribute lists ([(TextType, text)])."""
from .values import HDict, HSeq, K, NONE, Ref, Sym, Tup, Ext, Value, Exc
from .harness import DCX


def txt(i, generic=True):
    """An arbitrary ordinary piece of text."""
    return Sym(('msg', i), 'str', {('msg', i)}, generic=True)


def eb(b, **d):
    return ('eb', b, d)


def lb(b, **d):
    return ('lb', b, d)


def es(s, **d):
    return ('es', s, d)


def ls(s, **d):
    return ('ls', s, d)


def t(v, typ='NORMAL'):
    return ('t', typ, K(v) if isinstance(v, str) else v)


def blk(b, body, leave=None, **d):
    return [eb(b, **d)] + list(body) + [lb(b, **(leave or d))]


def P(*body):
    return blk('P', flat(body))


def H(*body):
    return blk('H', flat(body), level=1)


def flat(body):
    out = []
    for x in body:
        if isinstance(x, list):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def LI(*body, task=None):
    d = {'is_task': False} if task is None else {
        'is_task': True, 'task_mark': task, 'task_mark_offset': 3}
    return blk('LI', flat(body), **d)


def UL(*lis, tight=True):
    return blk('UL', flat(lis), leave={'is_tight': True, 'mark': '-'},
               is_tight=tight, mark='-')


def OL(*lis, tight=True):
    return blk('OL', flat(lis), leave={
        'start': 0, 'is_tight': True, 'mark_delimiter': '.'},
        start=1, is_tight=tight, mark_delimiter='.')


def QUOTE(*body):
    return blk('QUOTE', flat(body))


def TABLE(head, body):
    ev = [eb('THEAD'), eb('TR')]
    for h in head:
        ev += blk('TH', flat([h]), align=Ext('md4c.Align.DEFAULT'))
    ev += [lb('TR'), lb('THEAD'), eb('TBODY'), eb('TR')]
    for h in body:
        ev += blk('TD', flat([h]), align=Ext('md4c.Align.DEFAULT'))
    ev += [lb('TR'), lb('TBODY')]
    return blk('TABLE', ev, col_count=len(head), head_row_count=1,
               body_row_count=1)


def FENCED(*body, lang=None):
    return blk('CODE', flat(body), lang=('attr', lang) if lang is not None
               else None, info=None, fence_char='`')


def INDENTED(*body):
    return blk('CODE', flat(body), lang=None, info=None, fence_char=None)


def HR():
    return blk('HR', [])


def HTML(*lines):
    ev = []
    for l in lines:
        ev += [t(l, 'HTML'), t('\n', 'HTML')]
    return blk('HTML', ev)


def span(s, *body, **d):
    return [es(s, **d)] + flat(body) + [ls(s, **d)]


def A(href, *body, title=None):
    return span('A', *body, href=('attr', href),
                title=None if title is None else ('attr', title))


def IMG(src, *body, title=None):
    return span('IMG', *body, src=('attr', src),
                title=None if title is None else ('attr', title))


def WIKI(target, *body):
    return span('WIKILINK', *body, target=('attr', target))


def detail(st, d, tag):
    items = []
    for k, v in d.items():
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'attr':
            x = v[1]
            x = K(x) if not isinstance(x, Value) else x
            v = st.alloc(('ev', tag, k), HSeq('list', (
                Tup([Ext('md4c.TextType.NORMAL'), x]),)))
        elif not isinstance(v, Value):
            v = K(v)
        items.append((K(k), v))
    return st.alloc(('ev', tag), HDict(items))


class Client:
    """Feeds events to the callbacks handed to GenericParser.parse."""
    ORDER = ('eb', 'lb', 'es', 'ls', 't')
    NAMES = {'enter_block_callback': 'eb', 'leave_block_callback': 'lb',
             'enter_span_callback': 'es', 'leave_span_callback': 'ls',
             'text_callback': 't'}

    def __init__(self, I, args, kw):
        self.I = I
        self.cb = {}
        for k, v in zip(self.ORDER, args[1:]):
            self.cb[k] = v
        for k, v in kw:
            if k in self.NAMES:
                self.cb[self.NAMES[k]] = v
        self.content = args[0] if args else None

    def event(self, st, ev):
        kind, name, x = ev
        f = self.cb.get(kind)
        if f is None:
            return [(st, NONE)]
        if kind == 't':
            a = [Ext('md4c.TextType.' + name), x]
        else:
            cls = 'BlockType' if kind in ('eb', 'lb') else 'SpanType'
            a = [Ext('md4c.%s.%s' % (cls, name)), detail(st, x, name)]
        return self.I.call(st, f, a, [], DCX, None)

    def run(self, st, events, on_event=None):
        """-> [(state, None | Exc)] after the events."""
        cur, done = [st], []
        for i, ev in enumerate(events):
            nxt = []
            for s in cur:
                for s2, v in self.event(s, ev):
                    if isinstance(v, Exc):
                        done.append((s2, v))
                    else:
                        if on_event is not None:
                            on_event(s2, i, ev)
                        nxt.append(s2)
            cur = [s for s, _ in self.I.dedupe([(s, None) for s in nxt])]
        return done + [(s, None) for s in cur]
