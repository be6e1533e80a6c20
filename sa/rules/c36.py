"""C36: mdpo2html keeps the page and writes the translation of its messages.

Rule: the callbacks of the HTML parser are interpreted abstractly on pages
made of every kind of element that a Markdown renderer writes, alone and in
every order of two, with every kind of inline markup. The page written, read as
HTML, must have the same tags, attributes, comments and texts as the source
page, except that the contents of each block with a translation are those of
the translation rendered."""
import html
import html.parser

from .programs import *
from ..mdtext import Reader
from .c03 import RAW
from . import c02

CDATA = ('script', 'style')


# ------------------------------------------------------------ reading of HTML
class Events(html.parser.HTMLParser):
    """The calls that the parser of the standard library makes."""

    def __init__(self, text):
        super().__init__()
        self.evs = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.evs.append(('start', tag, dict(attrs, **{}) | {
            RAW: self.get_starttag_text()}))

    def handle_startendtag(self, tag, attrs):
        self.evs.append(('startend', tag, dict(attrs) | {
            RAW: self.get_starttag_text()}))

    def handle_endtag(self, tag):
        self.evs.append(('end', tag, {}))

    def handle_data(self, data):
        self.evs.append(('data', K(data), {'cdata': self.cdata_elem}
                         if self.cdata_elem else {}))

    def handle_comment(self, data):
        self.evs.append(('comment', K(data), {}))

    def handle_decl(self, decl):
        self.evs.append(('decl', K(decl), {}))

    def handle_pi(self, data):
        self.evs.append(('pi', K(data), {}))


def stream(text):
    """What a page says: its tags, texts and comments."""
    out = []
    for kind, x, attrs in Events(text).evs:
        if kind == 'data':
            if out and out[-1][0] == 'data':
                out[-1] = ('data', out[-1][1] + x.v)
            else:
                out.append(('data', x.v))
        elif kind in ('start', 'startend'):
            if kind == 'startend' and x not in VOID:
                out.append(('start', x, attributes(attrs)))
                out.append(('end', x))
            else:
                out.append(('start', x, attributes(attrs)))
        elif kind == 'end':
            out.append(('end', x))
        else:
            out.append((kind, x.v))
    return out


VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link',
        'meta', 'source', 'track', 'wbr')


def attributes(attrs):
    return tuple(sorted((k, v or '') for k, v in attrs.items() if k != RAW))


# ------------------------------------------------------- rendering of Markdown
def esc(s):
    return html.escape(s)


def inline(nodes):
    out = ''
    for n in nodes:
        if isinstance(n, str):
            out += esc(n)
        elif n[0] == 'BR':
            out += '<br>\n'
        elif n[0] in ('EM', 'STRONG', 'DEL', 'U'):
            t = n[0].lower()
            out += '<%s>%s</%s>' % (t, inline(n[1:]), t)
        elif n[0] == 'ICODE':
            out += '<code>%s</code>' % esc(n[1])
        elif n[0] == 'RAW':
            out += n[1]
        elif n[0] == 'A':
            out += '<a href="%s"%s>%s</a>' % (
                esc(n[1]), ' title="%s"' % esc(n[2]) if n[2] else '',
                inline(n[3:]))
        elif n[0] == 'IMG':
            out += '<img src="%s" alt="%s"%s>' % (
                esc(n[1]), esc(''.join(n[3:])),
                ' title="%s"' % esc(n[2]) if n[2] else '')
        else:
            out += esc(str(n))
    return out


def blocks(bs):
    out = ''
    for b in bs:
        if b[0] == 'P':
            out += '<p>%s</p>\n' % inline(b[1])
        elif b[0] == 'H':
            out += '<h%d>%s</h%d>\n' % (b[1], inline(b[2]), b[1])
        elif b[0] == 'HR':
            out += '<hr>\n'
        elif b[0] == 'HTML':
            out += b[1] + '\n'
        elif b[0] == 'CODE':
            out += '<pre><code>%s\n</code></pre>\n' % esc(b[2])
        elif b[0] == 'QUOTE':
            out += '<blockquote>\n%s</blockquote>\n' % blocks(b[1])
        elif b[0] in ('UL', 'OL'):
            t = b[0].lower()
            out += '<%s>\n%s</%s>\n' % (t, ''.join(
                '<li>%s</li>\n' % (inline(i[1][0][1]) if len(
                    i[1]) == 1 and i[1][0][0] == 'P' else blocks(i[1]))
                for i in b[1]), t)
        else:
            out += '<table></table>\n'
    return out


def rendered(text):
    return blocks(Reader(()).blocks(text))


def render(I, st, args, kw, cx, node):
    if args and isinstance(args[0], K) and isinstance(args[0].v, str):
        return [(st, K(rendered(args[0].v)))]
    I.note('text rendered')
    return [(st, Sym(('rendered', len(st.trace)), 'str', frozenset()))]


# ---------------------------------------------------------------------- pages
# inline contents: (message, translation)
INLINE = [
    ('some words', 'other words here'),
    ('*emphasis*', '*stress*'),
    ('some *emphasis* inside', '*stress* at start'),
    ('**strong** at start', 'at end **bold**'),
    ('some **strong** inside', 'no bold'),
    ('***both***', '***all***'),
    ('*a **b** c*', '*x **y** z*'),
    ('**a *b* c**', '**x *y* z** w'),
    ('`code`', '`other`'),
    ('some `code` inside `more`', '`more` first and `code`'),
    ('`a  b` c', 'z `a  b`'),
    ('`<b>` and `{}`', '`<i>` and `{0}`'),
    ('[link](dest)', '[lien](lieu)'),
    ('a [link](dest) b', 'x [lien](lieu) y'),
    ('[link](dest "title")', '[lien](lieu "titre")'),
    ('a [link](dest "two words") and [other](place)',
     '[autre](place2) et [lien](lieu "deux mots")'),
    ('[*em*](dest)', '[*stress*](lieu)'),
    ('[**strong** text](dest "title") end', '[**bold** texte](lieu "titre")'),
    ('[`code`](dest)', '[`autre`](lieu)'),
    ('[a `b` *c*](dest) d', 'x [y `z` *w*](lieu)'),
    ('*[link](dest)*', '*[lien](lieu)*'),
    ('**[link](dest) text**', '**texte [lien](lieu)**'),
    ('<https://some.where>', '<https://other.place>'),
    ('see <https://some.where/x?y=1#z> now',
     'voir <https://other.place/x?y=2>'),
    ('![alt](src)', '![autre](img)'),
    ('a ![alt](src "title") b', 'x ![autre](img "titre") y'),
    ('![one](a) and ![two](b)', '![deux](d) et ![un](c)'),
    ('[![alt](src)](dest)', '[![autre](img)](lieu)'),
    ('[![alt](src "title") text](dest "other") end',
     '[texte ![autre](img "titre")](lieu)'),
    ('[link](dest) ![alt](src)', '![autre](img) [lien](lieu)'),
    ('braces { and } and {} {0}', 'accolades {} { } {x}'),
    ('this & that', 'ceci & cela'),
    ('1 < 2 > 0', '0 > 1 < 2'),
    ('"quotes" it\'s', 'l\'"autre"'),
    ('\xf1and\xfa', 'avestruz\xe9'),
    ('[link](dest?a=1&b=2#c)', '[lien](lieu?a=2&b=3)'),
    ('[link](<two words>)', '[lien](<deux mots>)'),
    ('[link](dest "it\'s")', '[lien](lieu "l\'autre")'),
    ('text with <', '< avec texte'),
    ('100%', '%100'),
    ('a \\\\ b', 'b \\\\ a') if False else ('a: b; c', 'c; b: a'),
]
# contents which would be other blocks at the start of a paragraph
LIKE_BLOCKS = [
    ('1. one', '1. uno'), ('2) two', '2) dos'), ('- minus', '- menos'),
    ('+ plus', '+ mas'), ('# number', '# numero'), ('> more', '> mas'),
    ('C #', 'D #'), ('---', '***'),
]
# blocks with a message: name, page with %s for each message
LEAVES = [
    ('p', '<p>%s</p>\n'), ('h1', '<h1>%s</h1>\n'),
    ('h2 with id', '<h2 id="some-id" class="a b">%s</h2>\n'),
    ('li', '<ul>\n<li>%s</li>\n</ul>\n'),
    ('li p', '<ol>\n<li>\n<p>%s</p>\n</li>\n</ol>\n'),
    ('quote', '<blockquote>\n<p>%s</p>\n</blockquote>\n'),
    ('table', '<table>\n<thead>\n<tr>\n<th>%s</th>\n<th align="right">%s</th>'
     '\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>%s</td>\n<td align="right">%s'
     '</td>\n</tr>\n</tbody>\n</table>\n'),
]
PAGES = LEAVES + [
    ('h6', '<h6>%s</h6>\n'), ('h3', '<h3>%s</h3>'), ('h4', '<h4>%s</h4>\n'),
    ('h5', '<h5>%s</h5>\n'),
    ('anchor in heading', '<h2><a name="x"></a>%s</h2>\n'),
    ('p in line', '<p class="x">%s</p><p>%s</p>'),
    ('tight list', '<ul>\n<li>%s</li>\n<li>%s</li>\n</ul>\n'),
    ('numbered list', '<ol start="3">\n<li>%s</li>\n<li>%s</li>\n</ol>\n'),
    ('loose list', '<ul>\n<li>\n<p>%s</p>\n<p>%s</p>\n</li>\n<li>\n<p>%s</p>'
     '\n</li>\n</ul>\n'),
    ('nested list', '<ul>\n<li>%s\n<ul>\n<li>%s</li>\n<li>%s</li>\n</ul>\n'
     '</li>\n<li>%s</li>\n</ul>\n'),
    ('nested numbers', '<ul>\n<li>%s<ol>\n<li>%s</li>\n</ol></li>\n</ul>\n'),
    ('three levels', '<ul><li>%s<ul><li>%s<ul><li>%s</li></ul></li></ul></li>'
     '<li>%s</li></ul>\n'),
    ('loose nested list', '<ul>\n<li>\n<p>%s</p>\n<ul>\n<li>\n<p>%s</p>\n'
     '</li>\n</ul>\n</li>\n</ul>\n'),
    ('list with quote', '<ul>\n<li>%s\n<blockquote>\n<p>%s</p>\n</blockquote>'
     '\n</li>\n</ul>\n'),
    ('list with code', '<ul>\n<li>%s\n<pre><code>a &lt; b\n  c\n</code></pre>'
     '\n</li>\n<li>%s</li>\n</ul>\n'),
    ('list with table', '<ul>\n<li>%s\n<table>\n<tr>\n<td>%s</td>\n</tr>\n'
     '</table>\n</li>\n</ul>\n'),
    ('list with p and code', '<ol>\n<li>\n<p>%s</p>\n<pre><code class='
     '"language-sh">a &amp; b\n</code></pre>\n<p>%s</p>\n</li>\n</ol>\n'),
    ('task list', '<ul>\n<li class="task-list-item"><input type="checkbox" '
     'class="c" disabled checked>%s</li>\n<li class="task-list-item"><input '
     'type="checkbox" disabled>%s</li>\n</ul>\n'),
    ('quotes', '<blockquote>\n<p>%s</p>\n<p>%s</p>\n</blockquote>\n'),
    ('nested quotes', '<blockquote>\n<p>%s</p>\n<blockquote>\n<p>%s</p>\n'
     '</blockquote>\n</blockquote>\n'),
    ('quote with list', '<blockquote>\n<ul>\n<li>%s</li>\n</ul>\n<h3>%s</h3>'
     '\n</blockquote>\n'),
    ('section', '<section id="a">\n<h2>%s</h2>\n<p>%s</p>\n</section>\n'),
    ('article in main', '<main><article>\n<p>%s</p>\n</article></main>\n'),
    ('table in line', '<table><tr><th>%s</th></tr><tr><td>%s</td></tr>'
     '</table>\n'),
    ('p not closed', '<p>%s'),
    ('p then comment', '<p>%s</p>\n<!-- some comment -->\n<p>%s</p>\n'),
    ('code', '<pre><code>a &lt; b &amp;&amp; c\n  d {}\n\ne\n</code></pre>\n'),
    ('code with spans', '<pre><span></span><code class="language-py"><span '
     'class="k">if</span> x:\n    y  =  "1"\n</code></pre>\n'),
    ('div', '<div class="x">\nsome &lt;text&gt;\n<p>a <b>c</b></p>\n'
     '<div>other</div> </div>\n'),
    ('divs', '<div>\n<div>ignored</div>\n<p>ignored</p>\n<ul>\n<li>ignored'
     '</li>\n</ul>\n</div>\n'),
    ('div of everything', '<div id="x"><p>ignored</p><pre><code>ignored'
     '</code></pre><h1>ignored</h1><pre>ignored</pre><table><tr><td>ignored'
     '</td></tr></table><hr><p>ignored</p></div>\n'),
    ('code of tags', '<pre><p>ignored</p><div>ignored</div><ul><li>ignored'
     '</li></ul></pre>\n'),
    ('code in div', '<div class="highlight"><pre>a\n  b</pre></div>\n'),
    ('rule', '<hr>\n'), ('closed rule', '<hr />\n'), ('rule/', '<hr/>\n'),
    ('comment', '<!-- a comment & more -->\n'),
    ('image alone', '<img src="a.png" alt="b &quot;c&quot;">\n'),
    ('entities', '&lt;tag&gt; &amp; more\n'),
    ('definitions', '<dl>\n<dt>ignored</dt>\n<dd>ignored</dd>\n</dl>\n'),
    ('details', '<details open><summary>ignored</summary>\ntext\n</details>\n'),
    ('script', '<script type="x">if (a<b && c) { d("&lt;"); }</script>\n'),
    ('style', '<style>\na > b { c: "d"; }\n</style>\n'),
    ('attributes', '<ul data-x=\'a "b"\' hidden title="1 &lt; 2 {}">\n<li '
     'data-y="{0}">%s</li>\n</ul>\n'),
    ('empty p', '<p></p>\n'), ('empty bold', '<p><b></b></p>\n'),
    ('blanks', '\n\n   \n'),
    ('declaration', '<!DOCTYPE html>\n'), ('instruction', '<?php x ?>\n'),
    ('whole page', '<html lang="en">\n<head>\n<meta charset="utf-8">\n<title>'
     'ignored</title>\n<link rel="x" href="y">\n</head>\n<body class="z">\n'
     '<h1>%s</h1>\n<p>%s</p>\n</body>\n</html>\n'),
    ('text', 'some text & more\n'), ('message-like text', 'ignored\n'),
    ('span alone', '<span class="x">a</span> b\n'),
    ('link alone', '<a href="x" title="y">a &amp; b</a>\n'),
]
# pages that only have to be kept, and when they have no translation
KEPT = [
    ('attributes of tags', '<p>a <b class="x">b</b> <a href="c" rel="d" '
     'title=\'e "f"\'>g</a> <code id="h">i</code></p>\n'),
    ('markup', '<p>a <b>b</b> <i>c</i> <span class="x">d</span> <sup>e</sup> '
     '<kbd>f</kbd> <del>g</del></p>\n'),
    ('breaks', '<p>a<br>\nb<br/>c</p>\n'),
    ('lines', '<p>a\nb\n  c   d</p>\n'),
    ('comment inside', '<p>a <!-- b --> c</p>\n'),
    ('entities', '<p>&lt;b&gt; &amp;amp; &copy; &nbsp;&quot;x&quot; *y* '
     '_z_ [w](v) `u` 1. - # &gt;</p>\n'),
    ('entities in code', '<p><code>&lt;b&gt; &amp;amp; *y*</code></p>\n'),
    ('like a list', '<p>1. a</p>\n<p>- b</p>\n<h2># c</h2>\n<td>&gt; d</td>'),
    ('title first', '<p>a <a title="b" href="c">d</a></p>\n'),
    ('no href', '<p><a name="b">a</a> c</p>\n'),
    ('no text', '<p><a href="b"></a> c <img src="d"></p>\n'),
    ('spans around', '<p><span>a</span> <em>b</em></p>\n'),
    ('nested markup', '<p><em>a <strong>b <code>c</code></strong></em></p>\n'),
]
# markup of which only the parts inside the message change
WRAPPED = [
    ('span around', '<p><span class="x">%s</span></p>\n'),
    ('font around', '<td><font>%s</font></td>\n'),
    ('anchor before', '<h2><a name="x"></a>%s</h2>\n'),
    ('anchor after', '<h2>%s<a class="y" id="z"></a></h2>\n'),
    ('sign after', '<p>%s<wbr></p>\n'),
]


def fill(text, parts):
    out = text.split('%s')
    return ''.join(a + b for a, b in zip(out, list(parts) + ['']))


# the texts of what is not translated by design
IGNORED = [('ignored', 'wrong')]


def difference(want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return 'has %s instead of %s' % (say(b), say(a))
    if len(want) > len(got):
        return 'lacks %s' % say(want[len(got)])
    if len(got) > len(want):
        return 'has %s too' % say(got[len(want)])
    return None


def say(x):
    if x[0] == 'data':
        return 'the text %r' % x[1][:40]
    if x[0] == 'end':
        return '</%s>' % x[1]
    if x[0] == 'start':
        return '<%s%s>' % (x[1], ''.join(' %s=%r' % a for a in x[2]))
    return '%s %r' % x[:2]


def judge(ctx, rule, name, page, want, entries, **kw):
    w = World({'page.html': None, 'cat.po': [
        {'msgid': K(a), 'msgstr': K(b)} for a, b in entries + IGNORED]},
        ('.',))
    ctx.begin('%s: %s' % (rule, name))
    evs = Events(page).evs
    for s, v in api(ctx, 'mdpo2html', ['page.html', 'cat.po'], kw, w,
                    st=ctx.state(), feed=html_feed(ctx, *[[e] for e in evs]),
                    render=render, encode_fails=False, io_faults=False):
        ctx.ok()
        if isinstance(v, Exc):
            ctx.finding(rule, name, 'raises %s' % exc_name(s, v))
        elif isinstance(v, K):
            d = difference(stream(want), stream(v.v))
            if d:
                ctx.finding(rule, name, 'the page written ' + d,
                            page=page, expected=want, written=v.v)
        else:
            ctx.I.note('page not known')


def source(message):
    return inline(Reader(()).inlines(message))


def plain(i):
    return 'message %s' % 'abcdefghijklmnop'[i]


def both(n):
    return [(plain(i), 'translation %s' % 'abcdefghijklmnop'[i])
            for i in range(n)]


def pages(ctx):
    for name, text in PAGES:
        n = text.count('%s')
        es = both(n)
        yield name, text, es
    for a, x in PAGES:
        for b, y in PAGES:
            if 'not closed' in a and b not in ('p', 'h1', 'li', 'quotes'):
                continue
            if a == b and not ctx.thorough and '%s' not in x:
                continue
            yield '%s, %s' % (a, b), x + y, both(x.count('%s') +
                                                 y.count('%s'))


def check(ctx):
    for msg, tr in INLINE:
        page = ''.join(t for _, t in LEAVES)
        n = page.count('%s')
        src = fill(page, [source(msg)] * n)
        judge(ctx, 'inline', msg, src, fill(page, [source(tr)] * n),
              [(msg, tr)])
        judge(ctx, 'inline untranslated', msg, src, src, [('x', 'y')])
        for name, t in WRAPPED:
            judge(ctx, 'wrapped', '%s: %s' % (name, msg), fill(t, [
                source(msg)]), fill(t, [source(tr)]), [(msg, tr)])
    for msg, tr in LIKE_BLOCKS:
        page = '<h2>%s</h2>\n<table><tr><td>%s</td></tr></table>\n'
        judge(ctx, 'inline', msg, fill(page, [esc(msg)] * 2),
              fill(page, [esc(tr)] * 2), [(msg, tr)])
    for name, text, es in pages(ctx):
        src = fill(text, [a for a, _ in es])
        if es:
            judge(ctx, 'page', name, src, fill(text, [b for _, b in es]), es)
        if ',' not in name:
            judge(ctx, 'page untranslated', name, src, src, [('x', 'y')])
        for i in range(len(es) if len(es) < 6 or ctx.thorough else 0):
            if len(es) > 1 and (',' not in name or ctx.thorough):
                one = es[:i] + es[i + 1:]
                judge(ctx, 'page partly translated', '%s but %d' % (name, i),
                      src, fill(text, [b if (a, b) in one else a
                                       for a, b in es]), one)
        if not es:
            judge(ctx, 'page', name, src, src, [('x', 'y')])
    for name, text in KEPT:
        judge(ctx, 'kept', name, text, text, [('x', 'y')])
        for before, after in [('<p>%s</p>\n', ''), ('', '<p>%s</p>\n')]:
            t = before + text.replace('%', '%%') + after
            judge(ctx, 'kept', name + ' beside a message',
                  t % plain(0), t % both(1)[0][1], both(1))
    merged = {'merge_adjacent_markups': True}
    for name, text, es in pages(ctx):
        if ',' not in name or ctx.thorough:
            src = fill(text, [a for a, _ in es])
            judge(ctx, 'page with markups merged', name, src,
                  fill(text, [b for _, b in es]), es or [('x', 'y')],
                  **merged)
            judge(ctx, 'page with markups merged, untranslated', name, src,
                  src, [('x', 'y'), ('MESSAGE A', 'z')], **merged)
    for extra in ({}, merged):
        for near in ('message a', 'Message A', 'MESSAGE', ' MESSAGE A ',
                     'MESSAGE  A', 'MESSAGE A.'):
            judge(ctx, 'near another msgid', near, '<p>MESSAGE A</p>\n',
                  '<p>MESSAGE A</p>\n', [(near, 'z')], **extra)
    for page, want in MERGED:
        judge(ctx, 'markups merged', page, page, want, [('x', 'y')],
              **merged)
    links(ctx)


MERGED = [
    ('<p><strong>a</strong> <strong>b</strong></p>\n',
     '<p><strong>a b</strong></p>\n'),
    ('<p>x <em>a</em>\n<em>b</em> y</p>\n', '<p>x <em>a b</em> y</p>\n'),
    ('<p><em>a</em> <strong>b</strong> <em>c</em></p>\n',
     '<p><em>a</em> <strong>b</strong> <em>c</em></p>\n'),
    ('<p><code>a</code> <code>b</code></p>\n',
     '<p><code>a</code> <code>b</code></p>\n'),
]


# --------------------------------------------- links by reference in catalogues
REFS = [
    ('full', 'a [link][ref] b', 'x [lien][ref] y'),
    ('two', '[link][ref] and [other][more]', '[autre][more] [lien][ref]'),
    ('collapsed', 'see [ref]', 'voir [ref]'),
    ('alone', '[link][ref]', '[lien][ref]'),
    ('image', 'an ![alt][ref]', 'une ![autre][ref]'),
    ('mixed', '[link][ref] [in](place)', '[en](lieu) [lien][ref]'),
]
DEFS = [
    ('plain', ('dest', None), ('lieu', None)),
    ('title', ('dest', 'title'), ('lieu', 'titre')),
    ('title of words', ('dest', 'two words'), ('lieu', 'deux mots')),
    ('address', ('https://some.where/x?y=1', None),
     ('https://other.place', None)),
]
MORE = (('there', None), ('ici', None))


def definition(name, target):
    href, title = target
    return '[%s]: %s%s' % (name, href, ' "%s"' % title if title else '')


def links(ctx):
    for dn, a, b in DEFS:
        for n, msg, tr in REFS:
            def solved(text, i):
                r = Reader(())
                r.blocks('\n'.join([definition('ref', (a, b)[i]),
                                    definition('more', MORE[i])]))
                return inline(r.inlines(text))
            es = [(msg, tr)] + [
                (definition(k, x), definition(k, y))
                for k, x, y in (('ref', a, b), ('more',) + MORE)]
            for t, leaf in LEAVES[:5]:
                judge(ctx, 'references', '%s, %s, in %s' % (n, dn, t),
                      fill(leaf, [solved(msg, 0)]),
                      fill(leaf, [solved(tr, 1)]), es)
