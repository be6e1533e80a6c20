"""C03: mdpo2html honours the disable / enable commands and contexts.

Rule: the HTML parser callbacks are interpreted abstractly under the most
general client over HTML items (commands, paragraphs, headings, lists, quotes,
tables, inline markup), in product with the reference automaton of the
commands; the text written must be the translation (in the pending context)
exactly for the messages the automaton says are enabled."""
from html import escape

from ..interp import concat
from .extraction import *
from .docitems import Cmds, DIS, ident, m
from .c01 import Spec, report
from .c02 import catalogue, cmp_translated, entries_for, one_file, trans
from .c05 import CTX, cmp_lookup, ctx_trans

RAW = ('raw',)      # key of the text of the tag in the attributes


def tag(name, *body, **attrs):
    return [('start', name, attrs)] + flat(body) + [('end', name, {})]


def D(i):
    return ('data', txt(i), {})


NL = ('data', K('\n'), {})


def comment(name, arg=None):
    text = ' %s ' % (name if arg is None else name + ' ' + arg)
    return ('<!--%s-->' % text.strip(), [('comment', K(text), {}), NL],
            [('cmd', name, arg)])


ITEMS = [
    ('<p>', [tag('p', D(0)), NL], m(0)),
    ('<h1>', [tag('h1', D(0)), NL], m(0)),
    ('<h6>', [tag('h6', D(0)), NL], m(0)),
    ('<p> with attributes', [tag('p', D(0), id='some'), NL], m(0)),
    ('<ul>', [tag('ul', NL, tag('li', D(0)), NL, tag('li', D(1)), NL), NL],
     m(0, 1)),
    ('<ol>', [tag('ol', NL, tag('li', D(0)), NL, tag('li', D(1)), NL), NL],
     m(0, 1)),
    ('<blockquote>', [tag('blockquote', NL, tag('p', D(0)), NL,
                          tag('p', D(1)), NL), NL], m(0, 1)),
    ('<table>', [tag('table', NL, tag('thead', NL, tag('tr', NL, tag(
        'th', D(0)), NL), NL), tag('tbody', NL, tag('tr', NL, tag(
            'td', D(1)), NL, tag('td', D(2)), NL), NL), NL), NL],
     m(0, 1, 2)),
    ('<p> then <hr/>', [tag('p', D(0)), NL, ('startend', 'hr', {}), NL],
     m(0)),
    ('<hr> then <p>', [('start', 'hr', {}), NL, tag('p', D(0)), NL], m(0)),
    ('plain comment', [('comment', K(' '), {}), NL], []),
    ('unknown comment', [('comment', K(' some-comment '), {}), NL], []),
    ('<div>', [tag('div', ('data', K('some'), {})), NL], []),
]
# one message, whose text is joined with markup characters
MARKUP = [
    ('<p> with <strong>', [tag('p', D(0), tag('strong', D(1))), NL],
     ('**', '**')),
    ('<p> with <b>', [tag('p', D(0), tag('b', D(1))), NL], ('**', '**')),
    ('<p> with <em>', [tag('p', D(0), tag('em', D(1))), NL], ('*', '*')),
    ('<li> with <code>', [tag('ul', tag('li', D(0), tag('code', D(1)))), NL],
     ('`', '`')),
    ('<p> with <a>', [tag('p', D(0), tag('a', D(1), href='target')), NL],
     ('[', '](target)')),
]
NESTED = [
    ('nested <ul>', [tag('ul', tag('li', D(0), tag('ul', tag(
        'li', D(1))))), NL], m(0, 1)),
    ('<p> in <li>', [tag('ul', tag('li', NL, tag('p', D(0)), NL, tag(
        'p', D(1)), NL)), NL], m(0, 1)),
    ('<pre> then <p>', [tag('pre', tag('code', ('data', K('code'), {}))),
                        NL, tag('p', D(0)), NL], m(0)),
]


def tag_text(kind, name, attrs):
    """The text of a start tag in the page."""
    if RAW in attrs:
        return attrs[RAW]
    return '<%s%s%s>' % (name, ''.join(
        ' ' + k if v is None else ' %s="%s"' % (k, escape(v))
        for k, v in attrs.items()), '/' if kind == 'startend' else '')


def run_events(ctx, st, obj, events):
    """-> [(state, None | Exc)]"""
    I = ctx.I
    cur, done = [st.copy()], []
    for kind, name, attrs in flat(events):
        nxt = []
        for s in cur:
            for key in ('$starttag', '$cdata'):
                s.ghost.pop(key, None)
            if kind in ('start', 'startend'):
                s.ghost['$starttag'] = K(tag_text(kind, name, attrs))
            if kind == 'data' and attrs.get('cdata'):
                s.ghost['$cdata'] = K(attrs['cdata'])
            if kind in ('start', 'startend'):
                a = [K(name), s.alloc(('ev', 'attrs'), HSeq('list', tuple(
                    Tup([K(k), NONE if v is None else K(v)])
                    for k, v in attrs.items() if k != RAW)))]
                meth = 'handle_%stag' % kind
            elif kind == 'end':
                a, meth = [K(name)], 'handle_endtag'
            else:
                a, meth = [name], 'handle_' + kind
            for s1, f in I.getattr(s, obj, meth, DCX, None):
                if isinstance(f, Exc):
                    done.append((s1, f))
                    continue
                for s2, v in I.call(s1, f, a, [], DCX, None):
                    if isinstance(v, Exc):
                        done.append((s2, v))
                    else:
                        nxt.append(s2)
        for s in nxt:
            for key in ('$starttag', '$cdata'):
                s.ghost.pop(key, None)
        cur = [s for s, _ in I.dedupe([(s, None) for s in nxt])]
    return done + [(s, None) for s in cur]


class HtmlClient:
    def __init__(self, ctx, obj):
        self.ctx, self.obj, self.I = ctx, obj, ctx.I

    def run(self, st, events, on_event=None):
        return run_events(self.ctx, st, self.obj, events)


class Obs:
    pass


def observe(obj):
    def f(before, after, exc, item):
        o = Obs()
        o.exc = exc and exc_name(after, exc)
        v = after.get(obj.a).attrs.get('output')
        ls = {l for l in labels_of(v, after) if isinstance(l, tuple)}
        o.shown = {x[1] for x in ls if x[0] == 'msg'}
        o.trans = {x[1] for x in ls if x[0] == 'tr'}
        o.disabled = [ident(entry(after, r).get('msgid', K('')))
                      for r in attr_items(after, obj, 'disabled_entries')]
        return o
    return f


def render(I, st, args, kw, cx, node):
    return [(st, concat([K('<p>'), args[0], K('</p>\n')]))]


def html(ctx, st, entries, kwargs=(), **cfg):
    cls = ctx.attr('mdpo.mdpo2html', 'MdPo2HTML')
    cfg.setdefault('glob', one_file)
    cfg.setdefault('pofile', catalogue(entries))
    cfg.setdefault('fs', lambda I, st, n, p: False)
    cfg.setdefault('render', render)
    outs = ctx.call(st, cls, [K('cat.po')], list(dict(kwargs).items()),
                    **cfg)
    return [(s, v) for s, v in outs if not isinstance(v, Exc)]


def drive(ctx, rule, alphabet, spec, entries, observe=observe, **cfg):
    hold = {}

    def feed(I, st, obj, args, kw, cx, node):
        root = st.ghost['root']
        c = Closure(ctx, HtmlClient(ctx, root), alphabet, spec,
                    observe(root), root.a, list(st.heap))
        hold['c'] = c
        c.run(st)
        return []
    for s, obj in html(ctx, ctx.state(), entries, feed=feed, **cfg):
        s.ghost['root'] = obj
        for s2, mt in ctx.getattr(s, obj, 'translate'):
            ctx.I.call(s2, mt, [CONTENT], [], DCX, None)
    c = hold.get('c')
    if c is None:
        ctx.I.note('HTML parser never fed')
        return
    report(ctx, rule, c, 'src/mdpo/mdpo2html/__init__.py')


def markup_entries():
    out = []
    for n, ev, (a, b) in MARKUP:
        out.append({'msgid': Str([txt(0), a, txt(1), b]),
                    'msgstr': trans(0)})
    return out


def check(ctx):
    al = [comment(n) for n in DIS] + ITEMS + [
        (n, ev, m(0)) for n, ev, _ in MARKUP] + NESTED
    drive(ctx, 'html-commands', al, Spec(Cmds(translate=True),
                                         cmp_translated),
          entries_for() + markup_entries())
    ctx.begin()
    ents = []
    for i in range(3):
        ents.append({'msgid': txt(i), 'msgstr': ctx_trans(None, i)})
        for c in CTX:
            ents.append({'msgid': txt(i), 'msgctxt': K(c),
                         'msgstr': ctx_trans(c, i)})
    al = [comment('mdpo-context', c) for c in CTX] + \
        [comment('mdpo-disable-next-block')] + ITEMS
    drive(ctx, 'html-context', al, Spec(Cmds(translate=True), cmp_lookup),
          ents)
