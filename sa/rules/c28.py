"""C28: md2po and po2md compute the same message text.

Rule: the parser callbacks of both tools are interpreted abstractly on the
same event sequences (every sequence, up to the bound, of inline elements in
every kind of block), with the same options; the list of message texts md2po
records must equal the list po2md looks up."""
import itertools

from .extraction import *
from .docitems import *
from .docitems import T
from .structures import structures
from . import c02

REFS = K('[ref-a]: href-a\n[ref-b]: href-b "title-b"\n')


# texts of code spans which need care
CODES = ['`', '*', ' a ', '`a', 'a`', '``', 'a``b', 'a `` b ` c', ' ', '  ',
         ' a', 'a ', '_', '**', '\\', '\\`', '[a](b)', '<b>', '$', '~~', '"',
         ' ` ', '&amp;']


def elements(ext=()):
    return dict(basic_elements(ext), **more_elements(ext))


def basic_elements(ext=()):
    """name -> events (fresh message numbers are assigned by `number`)"""
    e = {
        'text': [T(0)],
        'soft break': [t('\n', 'SOFTBR')],
        'two lines': [T(0), t('\n', 'SOFTBR'), T(1)],
        'hard break': [t('\n', 'BR')],
        'entity': [t('&amp;', 'ENTITY')],
        'asterisk': [t('*')],
        'backtick': [t('`')],
        'backslash': [t('\\')],
        'quotes': [t('"')],
        'inline html': [t('<b>', 'HTML')],
        'emphasis': [span('EM', T(0))],
        'strong': [span('STRONG', T(0))],
        'strong in emphasis': [span('EM', span('STRONG', T(0)))],
        'code span': [span('CODE', t(txt(0), 'CODE'))],
        'code span with backtick': [span('CODE', t('a`b', 'CODE'))],
        'code span in strong': [span('STRONG', span('CODE', t(txt(0), 'CODE')))],
        'link': [A('some', T(0))],
        'link with title': [A('some', T(0), title='a title')],
        'link with quoted title': [A('some', T(0), title='a "title"')],
        'autolink': [A('some', t('some'))],
        'link with emphasis': [A('some', span('EM', T(0)), T(1))],
        'link with code': [A('some', span('CODE', t(txt(0), 'CODE')))],
        'code span lines': [span('CODE', t('a`b', 'CODE'), t(' ', 'CODE'),
                                 t('c', 'CODE'))],
        'link with backtick code': [A('some', span(
            'CODE', t('a`b', 'CODE')))],
        'link with text and backtick code': [A('some', T(0), span(
            'CODE', t('a`b', 'CODE')))],
        'link with image': [A('some', IMG('pic', T(0)))],
        'link with soft break': [A('some', T(0), t('\n', 'SOFTBR'), T(1))],
        'emphasis with link': [span('EM', A('some', T(0)))],
        'reference link': [A('href-a', T(0))],
        'collapsed reference link': [A('href-a', t('ref-a'))],
        'reference link with title': [A('href-b', T(0), title='title-b')],
        'image': [IMG('pic', T(0))],
        'image without text': [IMG('pic')],
        'image with title': [IMG('pic', T(0), title='a title')],
        'image with quoted title': [IMG('pic', T(0), title='a "title"')],
        'image with emphasis': [IMG('pic', T(0), span('EM', T(1)))],
        'reference image': [IMG('href-a', T(0))],
        'reference image with title': [IMG('href-b', T(0), title='title-b')],
    }
    if 'strikethrough' in ext:
        e['strikethrough'] = [span('DEL', T(0))]
    if 'latex_math_spans' in ext:
        e['math'] = [span('LATEXMATH', t(txt(0), 'LATEXMATH'))]
        e['display math'] = [span('LATEXMATH_DISPLAY',
                                  t(txt(0), 'LATEXMATH'))]
        e['display math lines'] = [span(
            'LATEXMATH_DISPLAY', t(txt(0), 'LATEXMATH'),
            t(' ', 'LATEXMATH'), t(txt(1), 'LATEXMATH'))]
        e['spaced display math'] = [span(
            'LATEXMATH_DISPLAY', t(' a ', 'LATEXMATH'))]
        e['math in link'] = [A('some', span(
            'LATEXMATH', t(txt(0), 'LATEXMATH')))]
    if 'wikilinks' in ext:
        e['wikilink'] = [WIKI('some', t('some'))]
        e['wikilink with text'] = [WIKI('some', T(0))]
        e['wikilink with quotes'] = [WIKI('so"me', t('so"me'))]
    if 'underline' in ext:
        e['underline'] = [span('U', span('U', T(0)))]
        e['single underline'] = [span('U', T(0))]
        e['link with underline'] = [A('some', span('U', span('U', T(0))))]
        e['underline with strong'] = [span('U', span('STRONG', T(0)))]
    return e


def more_elements(ext):
    """Texts and nestings which need care, each alone."""
    e = {}
    for x in CODES:
        e['code span of %r' % x] = [span('CODE', t(x, 'CODE'))]
    for x in CODES[:6]:
        e['link with code span of %r' % x] = [A('some', T(0), span(
            'CODE', t(x, 'CODE')))]
    e['escaped asterisks'] = [t('*'), T(0), t('*')]
    e['escaped backticks'] = [t('`'), T(0), t('`')]
    e['two escaped asterisks'] = [t('*'), t('*'), T(0), t('*'), t('*')]
    e['code and asterisk'] = [span('CODE', t('x', 'CODE')), t('*'), T(0),
                              t('*')]
    e['emphasis and asterisk'] = [span('EM', t('*'), T(0), t('*'))]
    e['image in image'] = [IMG('pic', T(0), IMG('in', T(1)), T(2))]
    e['image in image in image'] = [IMG('pic', T(0), IMG('in', T(1), IMG(
        'deep', T(2)), T(3)), T(4)), T(5)]
    e['link in image'] = [IMG('pic', T(0), A('in', T(1)), T(2))]
    e['spans in image'] = [IMG('pic', span('EM', span('STRONG', T(0))),
                               span('CODE', t('x', 'CODE')), T(1))]
    e['image and code'] = [IMG('pic', T(0)), T(1),
                           span('CODE', t(txt(2), 'CODE'))]
    e['images in link'] = [A('some', IMG('pic', T(0)), T(1), IMG(
        'other', T(2), title='a title'))]
    e['link and link'] = [A('some', T(0)), t(' '), A('other', T(1))]
    names = ['EM', 'STRONG'] + ['DEL'] * ('strikethrough' in ext)
    for a in names:
        for b in names:
            if a != b:
                e['%s around %s' % (a, b)] = [span(a, T(0), t(' '), span(
                    b, T(1)), t(' '), T(2))]
        for b in names:
            for c in names:
                if len({a, b, c}) == 3:
                    e['%s, %s, %s' % (a, b, c)] = [span(a, T(0), t(
                        ' '), span(b, T(1), t(' '), span(c, T(2))))]
    if 'underline' in ext:
        for a in ('EM', 'STRONG'):
            e['double underline around ' + a] = [span('U', span(
                'U', T(0), t(' '), span(a, T(1)), t(' '), T(2)))]
            e['double underline in ' + a] = [span(a, T(0), t(' '), span(
                'U', span('U', T(1))), t(' '), T(2))]
            e[a + ' after double underline'] = [span('U', span(
                'U', T(0))), t(' '), span(a, T(1))]
        e['double underline around code'] = [span('U', span(
            'U', T(0), t(' '), span('CODE', t('x', 'CODE'))))]
        e['double underline around link'] = [span('U', span(
            'U', T(0), t(' '), A('some', T(1)), t(' '), T(2)))]
        e['link around double underline'] = [A('some', T(0), t(' '), span(
            'U', span('U', T(1))), t(' '), T(2))]
        e['two underlines'] = [span('U', span('U', T(0))), t(' '), span(
            'U', span('U', T(1)))]
    return e


def number(evs, base):
    """Shift the message numbers of generic texts."""
    out = []
    for ev in flat(evs):
        if ev[0] == 't' and isinstance(ev[2], Sym) and ev[2].generic:
            ls = sorted(l[1] for l in ev[2].labels if isinstance(l, tuple)
                        and l[0] == 'msg')
            ev = (ev[0], ev[1], txt(base + ls[0]))
        out.append(ev)
    return out


PLACES = {
    'paragraph': lambda b: P(*b),
    'heading': lambda b: H(*b),
    'list item': lambda b: UL(LI(*b), LI(T(90))),
    'ordered item': lambda b: OL(LI(*b), LI(T(90))),
    'loose item': lambda b: UL(LI(P(*b)), LI(P(T(90))), tight=False),
    'table cell': lambda b: TABLE([T(90)], [b]),
    'quote': lambda b: QUOTE(P(*b)),
    'nested item': lambda b: UL(LI(T(90), UL(LI(*b)))),
}
MARKERS = {
    'bold_start_string': '<b1', 'bold_end_string': 'b2>',
    'italic_start_string': '_', 'italic_end_string': '_',
    'code_start_string': '^', 'code_end_string': '^',
}


def msgids(st, obj):
    out = []
    for r in attr_items(st, obj, 'disabled_entries'):
        e = entry(st, r)
        if 'msgid' in e and e['msgid'] != K(''):
            out.append((e['msgid'], e.get('msgctxt', NONE)))
    return out


class Pair:
    """The two tools, constructed once per configuration."""

    def __init__(self, ctx, kw):
        self.ctx, self.kw = ctx, kw

    def side(self, po2md, docs, sink):
        """sink(doc name, set of message lists | exception)"""
        ctx = self.ctx

        def parse(I, st, ref, args, kw, cx, node):
            cl = Client(I, args, kw)
            obj = st.ghost['root']
            made = [e for e in st.trace if e[0] == 'md-parser']
            sink('parser', {tuple(
                (e[1], tuple(sorted(e[2], key=str))) for e in made)})
            for name, evs in docs:
                res = set()
                s0 = st.copy()
                pre = HTML('<!-- mdpo-disable -->')
                for s, e in cl.run(s0, pre + flat(evs)):
                    if isinstance(e, Exc):
                        res.add(('raises', exc_name(s, e)))
                    else:
                        res.add(tuple(msgids(s, obj)))
                sink(name, res)
            return []
        st = ctx.state()
        kw = {}
        for k, v in self.kw.items():
            kw[k] = mlist(st, [K(x) for x in v], ('kw', k)) if isinstance(
                v, (list, tuple)) else K(v)
        if not po2md:
            kw['location'] = FALSE
            cls = ctx.attr('mdpo.md2po', 'Md2Po')
            for s, obj in ctx.call(st, cls, [REFS], list(kw.items()),
                                   parse=parse, glob=no_glob,
                                   fs=lambda I, st, n, p: False):
                if isinstance(obj, Exc):
                    sink('construction', {('raises', exc_name(s, obj))})
                    continue
                s.ghost['root'] = obj
                extract(ctx, s, obj)
        else:
            for s, obj in c02.po2md(ctx, st, kw, [], parse=parse):
                s.ghost['root'] = obj
                for s2, mt in ctx.getattr(s, obj, 'translate'):
                    ctx.I.call(s2, mt, [REFS], [], DCX, None)


def compare(ctx, rule, kw, docs):
    left, right = {}, {}
    p = Pair(ctx, kw)
    p.side(False, docs, lambda n, r: left.setdefault(n, set()).update(r))
    p.side(True, docs, lambda n, r: right.setdefault(n, set()).update(r))
    ctx.ok()
    a, b = left.pop('parser', None), right.pop('parser', None)
    if a is None or b is None:
        ctx.I.note('document not parsed')
    elif a != b:
        ctx.finding(rule, 'parser', 'md2po reads Markdown with %s but po2md '
                    'with %s' % (a, b))
    for n, _ in docs:
        ctx.ok()
        if n not in left or n not in right:
            ctx.I.note('document not analysed')
            continue
        if left[n] != right[n]:
            ctx.finding(rule, n, 'md2po extracts %s but po2md looks up %s' % (
                show(left[n]), show(right[n])))


def show(rs):
    out = []
    for r in sorted(rs, key=str):
        if r and r[0] == 'raises':
            out.append('raises ' + r[1])
        else:
            out.append(' , '.join(text(m) for m, _ in r) or 'nothing')
    return ' or '.join(out)


def text(v):
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, Str):
        return repr(''.join(x if isinstance(x, str) else x.v if isinstance(
            x, K) else '<%s>' % '.'.join(map(str, getattr(x, 'id', ('?',))))
            for x in v.parts))
    return '<%s>' % '.'.join(map(str, getattr(v, 'id', ('?',))))


def docs_of(els, places, k):
    docs = []
    for seq in itertools.product(els, repeat=k):
        evs = []
        for j, n in enumerate(seq):
            evs += number(els[n], 10 * j)
        for pl in places:
            docs.append(('%s in %s' % (' + '.join(seq), pl),
                         PLACES[pl](evs)))
    return docs


def check(ctx):
    default = ('collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
               'latex_math_spans', 'wikilinks')
    els = elements(default)
    compare(ctx, 'message-text', {}, docs_of(els, PLACES, 1))
    ctx.begin()
    compare(ctx, 'message-text', {}, docs_of(
        basic_elements(default), PLACES if ctx.thorough else (
            'paragraph', 'list item'), 2))
    ctx.begin()
    els = elements(default[:2] + ('underline',))
    compare(ctx, 'message-text without default extensions', {
        'extensions': ('tables', 'underline')}, docs_of(
            els, PLACES, 1))
    ctx.begin()
    compare(ctx, 'message-text with own markers', MARKERS, docs_of(
        elements(default), ('paragraph', 'list item'), 1))
    ctx.begin()
    compare(ctx, 'message-text of structures', {'include_codeblocks': True},
            [(n, ev) for n, ev, _ in BLOCKS + CODE + structures(True)])
    ctx.begin()
    both = BLOCKS + CODE
    compare(ctx, 'message-text of two blocks', {'include_codeblocks': True},
            [('%s, %s' % (n, n2), flat(ev) + number(ev2, 20))
             for n, ev, _ in both for n2, ev2, _ in both])
