"""C35: link references keep leading where the document says.

Rule: md2po and po2md are interpreted abstractly on documents which define
link references in every form, beside lines which only look like them. The
messages, and what po2md writes, are read as Markdown: the definitions must be
those of the document (translated, if they are), and every link and image must
have the destination and title that the parser gave it."""
from .programs import *
from ..mdtext import Reader
from ..m_polib import snapshot
from .docitems import T, t
from .fidelity import *
from . import c02, c37, c38
from .c24 import com

# lines of a document -> the definitions it has
FORMS = [
    ('[a]: href', ('a', 'href', None)),
    ('[a]: href "title"', ('a', 'href', 'title')),
    ("[a]: href 'title'", ('a', 'href', 'title')),
    ('[a]: href (title)', ('a', 'href', 'title')),
    ('[a]: <href>', ('a', 'href', None)),
    ('[a]: <href> "title"', ('a', 'href', 'title')),
    ('[a]:   href   "title"  ', ('a', 'href', 'title')),
    ('   [a]: href "title"', ('a', 'href', 'title')),
    ('[a]: href "two words"', ('a', 'href', 'two words')),
    ('[a]: href "it\'s"', ('a', 'href', "it's")),
    ('[a]: href "a (b) c"', ('a', 'href', 'a (b) c')),
    ('[a]: href \'a "b" c\'', ('a', 'href', 'a "b" c')),
    ('[a]: href "a \\"b\\" c"', ('a', 'href', 'a "b" c')),
    ('[a]: href "a: b, c; d!"', ('a', 'href', 'a: b, c; d!')),
    ('[a]: <two words>', ('a', 'two words', None)),
    ('[a]: <two words> "title"', ('a', 'two words', 'title')),
    ('[a]: ./some/place.md#part?x=1&y=2', (
        'a', './some/place.md#part?x=1&y=2', None)),
    ('[a]: https://some.where/a_(b)', ('a', 'https://some.where/a_(b)',
                                       None)),
    ('[a]: #part', ('a', '#part', None)),
    ('[some text]: href', ('some text', 'href', None)),
    ('[a.b-c_d:e/1]: href', ('a.b-c_d:e/1', 'href', None)),
    ('[`code`]: href', ('`code`', 'href', None)),
    ('[^1]: href', ('^1', 'href', None)),
    ('[\xf1and\xfa]: href "t\xedtulo"', ('\xf1and\xfa', 'href',
                                         't\xedtulo')),
    ('[1]: 2', ('1', '2', None)),
]
OTHERS = ['[note]: this is a note', '[^1]: some text here',
          '[note]: see "this" too', '[x] y: z', '[x]: ', '[x](y): z',
          '![x]: y z', '```\n[x]: y\n```', '~~~ text\n[x]: y "t"\n~~~',
          '````\n```\n[x]: y\n````', '[x]:', '[]: y', 'x [y]: z',
          '`[x]: y`', '- [x] y: z', '[x]: y z', '[x]: "y" z']


def definition(text):
    """The definition that a line of Markdown is."""
    r = Reader(())
    if r.blocks(text) or len(r.refs) != 1:
        return None
    return text[1:text.index(']:')], list(r.refs.values())[0]


def contents():
    """(name, text, definitions)"""
    for line, d in FORMS:
        yield line, 'x\n\n%s\n' % line, [d]
    for line in OTHERS:
        yield 'not a definition: %r' % line, 'x\n\n%s\n' % line, []
        yield 'definition after %r' % line, 'x\n\n%s\n\n[a]: href\n' % line, [
            ('a', 'href', None)]
    some = FORMS[:4] + FORMS[9:15] + FORMS[19:]
    lines, ds = [], []
    for n, (line, (_, h, ti)) in enumerate(some):
        lines.append('[ref %d]' % n + line[line.index(']:') + 1:].replace(
            'href', 'h%d' % n))
        ds.append(('ref %d' % n, h.replace('href', 'h%d' % n), ti))
    yield 'many', '\n'.join(lines) + '\n\nx\n', ds
    yield 'in other order', 'x\n\n' + '\n'.join(lines[::-1]), ds[::-1]


BEFORE = [('', []), ('after mdpo-disable', com('mdpo-disable')),
          ('after mdpo-disable-next-block',
           com('mdpo-disable-next-block')),
          ('after mdpo-context', com('mdpo-context some context')),
          ('after mdpo-translator', com('mdpo-translator some comment'))]


LINK = P(A('zz', t('link')))
USES = [('used by an image', P(IMG('zz', t('link')))),
        ('used in a heading', H(A('zz', t('link')))),
        ('used by an image in a heading', H(IMG('zz', t('link')))),
        ('used in an item', UL(LI(A('zz', t('link'))))),
        ('used by an image in an item', OL(LI(P(IMG('zz', t('link')))))),
        ('used in a quote', QUOTE(P(A('zz', t('link'), title='t')))),
        ('used in emphasis', P(span('EM', A('zz', t('link'))))),
        ('used by an image in a link', P(A('zz', IMG('zz', t('link'))))),
        ('used by an image with title', P(IMG('zz', t('link'), title='t'))),
        ('used after text', P(t('some text')) + P(t('more'), A(
            'zz', t('link')))),
        ('used before a block', P(IMG('zz', t('link'))) + P(t('more')))]


def extracted(ctx, name, text, defs, before=(), use=LINK):
    """The messages of the definitions; judges them."""
    w = World({'doc.md': text}, ('.',))
    evs = flat(use) + flat(before)
    ctx.begin('definitions extracted: ' + name)
    out = None
    for s, v in api(ctx, 'md2po', ['doc.md'], {'location': False}, w,
                    st=ctx.state(), parse=doc_parse(*evs),
                    encode_fails=False, io_faults=False):
        ctx.ok()
        if isinstance(v, Exc):
            ctx.finding('definitions-extracted', name, 'raises ' +
                        exc_name(s, v))
            continue
        es = [dict(e) for e in snapshot(s, v)[2]]
        if not es or not all(isinstance(e['msgid'], K) for e in es):
            ctx.I.note('messages not known')
            continue
        es = [e for e in es if definition(e['msgid'].v) or not any(
            x in e['msgid'].v for x in ('link', 'some text', 'more'))]
        got = [definition(e['msgid'].v) or e['msgid'].v for e in es]
        want = [(a, (h, ti)) for a, h, ti in defs]
        if got != want:
            ctx.finding('definitions-extracted', name, 'the definitions '
                        'extracted are %s instead of %s' % (got, want))
            continue
        for e in es:
            bad = [k for k, x in (('msgstr', e['msgid']), ('msgctxt', NONE),
                                  ('comment', K('')), ('tcomment', K('')))
                   if e.get(k, x) not in (x, NONE if x == K('') else x)]
            if bad or 'fuzzy' not in str(e.get('flags')):
                ctx.finding('definitions-extracted', name, 'the message of '
                            'a definition is not its own fuzzy translation, '
                            'without context and comment: %s' % (bad,))
        out = [e['msgid'].v for e in es]
    return out


def written_back(ctx, name, text, defs, ids, tr, before=(), use=LINK):
    ents = []
    want = {}
    for n, ((a, h, ti), m) in enumerate(zip(defs, ids)):
        if tr == 'all' or tr == n:
            ents.append({'msgid': K(m), 'msgstr': K('[%s]: tr%d "t r %d"' % (
                a, n, n))})
            want[' '.join(a.lower().split())] = ('tr%d' % n, 't r %d' % n)
        else:
            want[' '.join(a.lower().split())] = (h, ti)
    w = World({'doc.md': text, 'cat.po': ents}, ('.',))
    evs = flat(use) + flat(before)
    ctx.begin('definitions written: ' + name)
    for s, v in api(ctx, 'po2md', ['doc.md', 'cat.po'], {}, w,
                    st=ctx.state(), parse=doc_parse(*evs), wrap=c02.no_wrap,
                    encode_fails=False, io_faults=False):
        ctx.ok()
        if isinstance(v, Exc):
            ctx.finding('definitions-written', name, 'raises ' +
                        exc_name(s, v))
        elif isinstance(v, K):
            r = Reader(())
            bs = r.blocks(v.v)
            if r.refs != want:
                ctx.finding('definitions-written', name, 'the definitions '
                            'written are %s instead of %s' % (r.refs, want))
            if len(bs) != (1 if use is LINK else len(Reader(()).blocks(
                    v.v.split('\n\n[')[0]))):
                ctx.finding('definitions-written', name, 'writes %s' % (bs,))
        else:
            ctx.I.note('output not known')


REFS = [
    '[r]: p\n',
    '[r]: p "t"\n',
    '[r]: p\n[s]: p "t"\n',
    '[r]: p "t"\n[s]: p\n',
    '[r]: p "t"\n[s]: p "u"\n',
    '[r]: p "t"\n[s]: q "t"\n',
    '[r]: p "a \\"b\\" c"\n',
    "[r]: p 'a (b) c'\n",
    '[r]: <a b> "t"\n',
    '[r]: p\n[s]: p\n',
    '[r s]: p\n',
    '[r]: P\n[s]: p/\n',
    '[r]: p\n[R]: q\n',
    '[q]: p\n[p]: q "p"\n',
    '[t]: t "p"\n[p]: t\n',
    '[u]: https://some.where/a?b=1&c=2#d\n[v]: mailto:a@b.c "t"\n',
    '',
]
TARGETS = ['p', 'q', 'a b', 'P', 't', '[r]', 'r', '']
ALONE = ['https://some.where/a?b=1&c=2#d', 'mailto:a@b.c', 'urn:x-y', 'c:d',
         './a.md', '#a', 'b@c.d', 'https://x.y/a b', 'http://[::1]/']
TITLES = [None, 't', 'u', 'p', 'a "b" c', 'a (b) c', 'T']


def uri(h):
    return ':' in h[2:] and ' ' not in h


def links(deep, targets=TARGETS):
    for h in targets:
        for ti in TITLES:
            n = '%r with title %r' % (h, ti)
            yield 'link to ' + n, P(A(h, T(0), title=ti))
            yield 'image from ' + n, P(IMG(h, T(0), title=ti))
            if h and h[0] != '[' and not (uri(h) and ti):
                yield 'link to its own text, ' + n, P(
                    T(0), t(' '), A(h, t(h), title=ti))
            if deep or ti in (None, 't'):
                yield 'link to its text, ' + n, P(A(h, t('p'), title=ti))
                yield 'in heading, link to ' + n, H(A(h, T(0), title=ti))
                yield 'in item, link to ' + n, UL(LI(
                    T(0), A(h, T(1), title=ti), T(2)))
                yield 'in emphasis, link to ' + n, P(span('EM', A(
                    h, T(0), title=ti)))
                yield 'in a link to %s' % n, P(A(h, IMG(
                    'p', T(0), title='t'), title=ti))
                for ti2 in (None, 't'):
                    yield 'link to %s and to %r with title %r' % (
                        n, 'p', ti2), P(A(h, T(0), title=ti), T(1), A(
                            'p', T(2), title=ti2))


def check(ctx):
    deep = ctx.tier == 'thorough'
    for name, text, defs in contents():
        many = len(defs) > 1
        for bname, before in BEFORE if many or deep or name in (
                FORMS[0][0], FORMS[1][0]) else BEFORE[:1]:
            full = ', '.join(x for x in (name, bname) if x)
            ids = extracted(ctx, full, text, defs, before)
            if ids is None:
                continue
            for tr in [None, 'all'] + list(range(len(defs)) if many and
                                           not before else ()):
                written_back(ctx, full + (
                    '' if tr is None else ', translated %s' % tr), text,
                    defs, ids, tr, before)
    for uname, use in USES:
        for name, text, defs in contents():
            if deep or len(defs) > 1 or name in (FORMS[0][0], FORMS[1][0]):
                ids = extracted(ctx, '%s, %s' % (name, uname), text, defs,
                                (), use)
                for tr in (None, 'all') if ids is not None else ():
                    written_back(ctx, '%s, %s, %s' % (
                        name, uname, 'translated' if tr else 'as it was'),
                        text, defs, ids, tr, (), use)
    docs = list(links(deep))
    for refs in REFS:
        what = ' / '.join(refs.strip().split('\n')) or 'no definitions'
        ctx.begin()
        both(ctx, 'links', 'with ' + what, docs, refs)


    ctx.begin()
    docs = list(links(deep, ALONE))
    for refs in ('', REFS[-2]):
        what = ' / '.join(refs.strip().split('\n')) or 'no definitions'
        both(ctx, 'links', 'with ' + what, docs, refs)
    ctx.begin()
    both(ctx, 'own-text-links', 'alone', [('to its own text, with a title', P(
        T(0), t(' '), A(ALONE[0], t(ALONE[0]), title='t')))], '')


def both(ctx, rule, what, docs, refs):
    c37.judge(ctx, '%s-extracted %s' % (rule, what), docs,
              {'extensions': c38.EXT}, lambda x: reader(x, refs),
              c37.spaced, refs=K(refs or 'text'))
    c38.judge(ctx, '%s-written %s' % (rule, what), docs, refs=refs)


def reader(text, refs):
    r = Reader(c38.EXT)
    r.blocks(refs)
    bs = r.blocks(text)
    if len(bs) == 1 and bs[0][0] == 'P':
        return bs[0][1]
    return r.inlines(text)
