"""C43: an object used again works as a new one.

Rule: Md2Po, Po2Md and MdPo2HTML objects are interpreted abstractly twice,
first on inputs that leave pending every command and every kind of block. The
second result, what is saved, and the entries reported after it, must be
those of a new object that meets the second input only."""
from .programs import *
from . import c02, c03
from .c23 import FULL, deep
from .c24 import CMDS, REF, com, firsts, seconds, words
from .c39 import records

ENTRIES = [{'msgid': K('word%d' % n), 'msgstr': K('WORD%d' % n)}
           for n in (0, 1, 2, 50, 52)] + [
    {'msgid': K('word50'), 'msgctxt': K('some context'),
     'msgstr': K('CONTEXT50')},
    {'msgid': K('word51'), 'msgctxt': K('other context'),
     'msgstr': K('CONTEXT51')}]
FIRST = [dict(e, msgstr=K('first')) for e in ENTRIES[:-1]] + [
    {'msgid': K('word60'), 'msgstr': K('FIRST60')}]
LISTS = ('found_entries', 'disabled_entries', 'translated_entries')
ALIAS = {'alias': 'mdpo-disable'}
# whether a file saved changed is cumulative
SOME = {'command_aliases': ALIAS, 'debug': False, 'xheader': False,
        '_check_saved_files_changed': None}
PAGES = {'a.html': 'page-a', 'b.html': 'page-b'}
KEPT = ('mdpo-include-codeblocks', 'mdpo-disable-codeblocks')


def hook(I, s, f, a, k, cx, n):
    return [(s, NONE)] if f.id[0] == 'hook' else None


HOOK = Sym(('hook', 0), 'callable', {'hook'}, truthy=True)


def document(s, obj):
    """All that is reported by an object."""
    res = []
    for n in LISTS:
        r = records(s, obj, n)
        if r is not None:
            res.append((n, tuple(r)))
    o = s.get(obj.a).attrs
    for n in ('output', '_saved_files_changed'):
        if n in o:
            res.append((n, repr(o[n])))
    return tuple(res)


def saved(s):
    return tuple((e[0], repr(e[2]), repr(e[4:])) if e[0].endswith('-save')
                 else (e[0],) + tuple(repr(x) for x in e[1:-1]
                                      if not isinstance(x, Ref))
                 for e in s.trace if e[0] in (
                     'write', 'po-save', 'mo-save', 'out', 'mkdir'))


class Object:
    """kw: of the constructor; calls: of the method"""

    def __init__(self, tool, kw=(), call=(), content=False):
        self.tool, self.kw, self.call = tool, dict(kw), dict(call)
        self.content = content

    def uses(self, ctx, docs):
        """docs: [(name, events)], used in turn -> results of the last"""
        I = ctx.I
        st = ctx.state()
        by = dict(docs)

        def parse(I, st, ref, args, kw, cx, node):
            evs = now(I, st, args[0])
            if evs is None:
                return []
            return [(s, e if isinstance(e, Exc) else NONE)
                    for s, e in Client(I, args, kw).run(st, flat(evs))]

        def feed(I, st, obj, args, kw, cx, node):
            evs = now(I, st, args[0])
            if evs is None:
                return []
            return [(s, e if isinstance(e, Exc) else NONE)
                    for s, e in c03.run_events(ctx, st, obj, flat(evs))]

        def now(I, st, text):
            n = st.ghost.get('c43')
            if self.tool == 'md2po' and (
                    self.content or text == K(docs[n.v][0])):
                return docs[n.v][1]
            for f, t in list(REF.items()) + list(PAGES.items()):
                if text == K(t):
                    return by[f]
            I.note('the text parsed is not that of a file: %r' % (text,))

        w = World(dict(REF, **{**PAGES, 'cat.po': ENTRIES}), DIRS)
        cfg = w.cfg(parse=parse, feed=feed, wrap=c02.no_wrap,
                    encode_fails=False, callsym=hook, render=c03.render)
        mod, cls, meth = {
            'md2po': ('mdpo.md2po', 'Md2Po', 'extract'),
            'po2md': ('mdpo.po2md', 'Po2Md', 'translate'),
            'mdpo2html': ('mdpo.mdpo2html', 'MdPo2HTML', 'translate'),
        }[self.tool]
        arg = 'cat.po' if self.tool != 'md2po' else \
            REF['a.md'] if self.content else ['a.md']
        outs = ctx.call(st, ctx.attr(mod, cls), [val(st, arg, ('c43 arg',))], [
            (k, val(st, v, ('c43', k))) for k, v in self.kw.items()], **cfg)
        cur = []
        for s, v in outs:
            if isinstance(v, Exc):
                I.note('raises ' + exc_name(s, v))
                continue
            s.ghost['root'] = v
            cur.append((s, NONE))
        start = {}
        for n, (f, _) in enumerate(docs):
            nxt = []
            for s, _ in cur:
                s.ghost['c43'] = K(n)
                # files change between uses
                s.trace = ()
                w.files['cat.po'] = FIRST if n < len(docs) - 1 else ENTRIES
                if self.tool == 'md2po' and not self.content:
                    w.text['a.md'] = f
                obj = s.ghost['root']
                for s2, m in ctx.getattr(s, obj, meth):
                    call = [(k, val(s2, v, ('c43 m', k)))
                            for k, v in self.call.items()]
                    nxt += I.call(s2, m, [] if self.tool == 'md2po' else
                                  [K(f)], call, DCX, None)
            cur = nxt
        res = set()
        for s, v in cur:
            r = 'raises ' + exc_name(s, v) if isinstance(v, Exc) else deep(
                s, v)
            res.add((r, document(s, s.ghost['root']),
                     saved(s)))
        return res


def objects(deep):
    yield 'po2md', Object('po2md', {'command_aliases': ALIAS})
    yield 'po2md with save', Object('po2md', {'command_aliases': ALIAS},
                                    {'save': 'out.md'})
    yield 'md2po', Object('md2po', {'command_aliases': ALIAS})
    yield 'md2po of a content', Object('md2po', {'command_aliases': ALIAS},
                                       content=True)
    yield 'md2po with catalogue', Object(
        'md2po', {'command_aliases': ALIAS, 'location': True,
                  'mark_not_found_as_obsolete': True},
        {'po_filepath': 'cat.po'})
    yield 'md2po with code blocks', Object(
        'md2po', {'command_aliases': ALIAS, 'include_codeblocks': True})
    yield 'md2po in plain text', Object(
        'md2po', {'command_aliases': ALIAS, 'plaintext': True})
    yield 'md2po with options', Object('md2po', dict(
        FULL['md2po'], **SOME), {
            'po_filepath': 'cat.po', 'save': True, 'mo_filepath': 'o.mo'})
    yield 'po2md with options', Object('po2md', dict(
        FULL['po2md'], **SOME), {
            'save': 'out.md'})
    if deep:
        yield 'po2md with events', Object('po2md', {
            'command_aliases': ALIAS, 'events': {'text': HOOK}})
        yield 'md2po with events', Object('md2po', {
            'command_aliases': ALIAS, 'events': {'text': HOOK}})
        yield 'md2po that removes', Object(
            'md2po', {'command_aliases': ALIAS, 'preserve_not_found': False},
            {'po_filepath': 'cat.po', 'save': True})


D = [('data', K('word%d' % n), {}) for n in range(2)]
E = [('data', K('word%d' % (50 + n)), {}) for n in range(3)]


def hcom(x):
    return [('comment', K(' %s ' % x), {}), c03.NL]


def first_pages(deep):
    p = c03.tag('p', D[0])
    yield 'nothing', []
    for n, evs, _ in c03.ITEMS + c03.NESTED:
        yield n, evs
    for c in CMDS:
        yield '%s at the end' % c, [p, c03.NL] + hcom(c)
        yield '%s alone' % c, hcom(c)
        yield '%s in a list' % c, [c03.tag('ul', c03.tag(
            'li', D[0], *hcom(c)))]
    yield 'link', [c03.tag('p', c03.tag('a', D[0], href='href-a'))]
    for t in ('p', 'ul', 'a', 'pre', 'h1', 'strong', 'table', 'div', 'li'):
        yield '<%s> not closed' % t, [('start', t, {}), D[0]]
        yield '</%s> alone' % t, [D[0], ('end', t, {})]
        yield '<%s> only' % t, [('start', t, {})]
    if deep:
        for c, d in itertools.product(CMDS, CMDS):
            yield '%s, %s' % (c, d), [p] + hcom(c) + hcom(d)


def second_pages(deep):
    yield 'paragraphs', [c03.tag('p', E[0]), c03.NL, c03.tag('p', E[1]),
                         c03.NL]
    yield 'list, link', [
        c03.tag('ul', c03.NL, c03.tag('li', E[0]), c03.NL, c03.tag(
            'li', E[1]), c03.NL), c03.NL,
        c03.tag('p', c03.tag('a', E[2], href='href-a')), c03.NL]
    yield 'markup', [c03.tag('h1', c03.tag('strong', E[0]), E[1]), c03.NL]
    if deep:
        yield 'context', hcom('mdpo-context other context') + [
            c03.tag('p', E[0]), c03.NL] + [c03.tag('p', E[1])]
        yield 'disabled', hcom('mdpo-disable') + [
            c03.tag('p', E[0]), c03.NL] + hcom('mdpo-enable') + [
                c03.tag('p', E[1])]


def check(ctx):
    more = ctx.tier == 'thorough'
    for on, o in objects(more):
        two = seconds(more)[:None if more else 4]
        if 'with' in on and not more:
            two = two[:2]
        two = [(m, words(b, 50)) for m, b in two]
        one = firsts(more and on in ('po2md', 'md2po'))
        for n, a in one:
            if o.content and any(k in n for k in KEPT):
                continue  # its effect can be read in the object
            a = words(a, 0)
            pairs = [('again', a)] if o.content else two
            for m, b in pairs:
                judge(ctx, on, o, n, ('a.md', a), m,
                      ('a.md' if o.content else 'b.md', b))
    for on, o in [('mdpo2html', Object('mdpo2html', {
            'command_aliases': ALIAS})), ('mdpo2html with save', Object(
                'mdpo2html', {'command_aliases': ALIAS,
                              'merge_adjacent_markups': True},
                {'save': 'out.html'}))]:
        for (n, a), (m, b) in itertools.product(
                first_pages(more), second_pages(more)):
            judge(ctx, on, o, n, ('a.html', a), m, ('b.html', b))


ALONE = {}


def judge(ctx, on, o, n, a, m, b):
    ctx.begin('%s: %s, %s' % (on, n, m))
    ctx.ok()
    k = ctx, on, m if m != 'again' else n
    if k not in ALONE:
        ALONE[k] = o.uses(ctx, [b])
    want, got = ALONE[k], o.uses(ctx, [a, b])
    if not want or not got:
        ctx.I.note('no outcome')
    if want != got:
        x, y = sorted(want - got, key=repr), sorted(got - want, key=repr)
        ctx.finding('used-again', '%s: %s after %s' % (on, m, n),
                    difference(x[0], y[0]) if x and y else
                    'gives %d outcomes instead of %d' % (len(got),
                                                         len(want)))


def difference(x, y):
    for what, a, b in zip(('gives', 'reports', 'saves'), x, y):
        if a != b:
            if isinstance(a, tuple) and isinstance(b, tuple):
                for p, q in itertools.zip_longest(a, b):
                    if p != q:
                        return '%s %s instead of %s' % (
                            what, str(q)[:300], str(p)[:300])
            return '%s %s instead of %s' % (what, str(b)[:300], str(a)[:300])
    return 'differs'
