"""C23: calls are independent and leave the caller's objects alone.

Rule: the API functions are interpreted abstractly one after another in the
same abstract process. The second call must give the same result and have the
same effects as alone, whatever the options, the document and the outcome of
the first; and the lists and dictionaries given as arguments must be equal
before and after."""
from .programs import *
from ..m_core import freeze
from ..m_polib import snapshot
from . import c02

EXT = ['tables', 'strikethrough', 'wikilinks', 'latex_math_spans',
       'underline', 'tasklists']
W = ['alfa', 'beta', 'gamma', 'delta']


def words(evs):
    out, n = [], 0
    for e in flat(evs):
        if e[0] == 't' and isinstance(e[2], Sym):
            e = (e[0], e[1], K(W[n % 4]))
            n += 1
        out.append(e)
    return out


def com(x):
    return HTML('<!-- %s -->' % x)


DOC = words(P(T(0)) + H(T(1)) + UL(LI(T(2), UL(LI(T(3))))) +
            FENCED(t('code\n')) + P(A('href-a', t('alfa'))) +
            QUOTE(P(t('beta'))) + TABLE([T(0)], [T(1)]))
STALE = words(com('mdpo-disable-next-block') + com('mdpo-include-codeblock') +
              P(T(0)) + com('mdpo-include-codeblocks') +
              com('alias some context') + com('mdpo-translator note') +
              UL(LI(T(1), UL(LI(span('STRONG', A('href-a', T(2))))))) +
              com('mdpo-disable') + P(T(3)) + com('mdpo-enable-next-block') +
              P(T(0)) + com('mdpo-context pending') + com(
                  'mdpo-disable-next-codeblock'))
REFS = '[ref-a]: href-a\n'
ENTRIES = [{'msgid': K(w), 'msgstr': K(w.upper())} for w in W] + [
    {'msgid': K('alfa'), 'msgctxt': K('some context'),
     'msgstr': K('OMEGA')}]
FULL = {
    'md2po': dict(
        extensions=list(EXT), command_aliases={'alias': 'mdpo-context'},
        metadata={'Some-Key': 'some value'}, ignore_msgids=['alfa'],
        ignore=['x.md'], include_codeblocks=True, xheader=True, debug=True,
        bold_start_string='__', bold_end_string='__', plaintext=False,
        code_start_string='^', code_end_string='^', wrapwidth=20,
        location=True, _check_saved_files_changed=True),
    'po2md': dict(
        extensions=list(EXT), command_aliases={'alias': 'mdpo-context'},
        ignore=['x.po'], debug=True, bold_start_string='__',
        bold_end_string='__', code_start_string='^', code_end_string='^',
        wrapwidth=20, _check_saved_files_changed=True),
    'mdpo2html': dict(
        ignore=['x.po'], command_aliases={'alias': 'mdpo-context'},
        merge_adjacent_markups=True, bold_tags=['b'], italic_tags=['i'],
        code_tags=['tt'], link_tags=['a', 'x']),
    'md2po2md': dict(
        command_aliases={'alias': 'mdpo-context'}, extensions=list(EXT),
        md2po_kwargs={'ignore_msgids': ['alfa']},
        po2md_kwargs={'bold_start_string': '__'}, debug=True,
        include_codeblocks=True, _check_saved_files_changed=True)}
HTMLEVS = [c03.tag('p', c03.D(0)), c03.comment('mdpo-disable')[1],
           c03.tag('p', c03.D(1))]


def files(n):
    """The files at the first call (0) and at the second."""
    r = REFS if not n else REFS.replace('ref-a', 'ref-b')
    e = ENTRIES if not n else [dict(x, msgstr=K('other')) for x in ENTRIES]
    return {'doc.md': r, 'a.md': r, 'cat.po': e,
            'page.html': 'page', 'x.md': r, 'x.po': e}


ARGUMENTS = {'md2po': [['doc.md', 'a.md']], 'po2md': ['doc.md', ['cat.po']],
             'mdpo2html': ['page.html', ['cat.po']],
             'md2po2md': [['es', 'fr'], 'doc.md', 'loc/{lang}']}


def hooks(fail):
    def h(I, s, f, args, kw, cx, node):
        if f.id[0] != 'hook':
            return None
        n = sum(1 for e in s.trace if e[0] == 'callsym' and e[1] == f)
        if fail and n == fail:
            return [(s, I.exc(s, 'ValueError', (), cx, node))]
        return [(s, NONE)]
    return h


class Call:
    def __init__(self, name, tool, kw=(), doc=DOC, fail=0, args=None,
                 events=True, hooked=False):
        self.name, self.tool, self.doc = name, tool, doc
        self.kw = dict(kw)
        if tool in ('md2po', 'po2md') and (
                events and kw or hooked):
            self.kw['events'] = {'text': [
                Sym(('hook', 0), 'callable', {'hook'}, truthy=True)],
                'msgid': Sym(('hook', 1), 'callable', {'hook'},
                             truthy=True)}
        self.fail = fail
        self.args = args or ARGUMENTS[tool]

    def go(self, ctx, st, n):
        """-> [(state, value, arguments, before, trace start)]"""
        I = ctx.I
        args = [val(st, a, ('c23', n, i)) for i, a in enumerate(self.args)]
        kw = [(k, val(st, v, ('c23', n, k))) for k, v in self.kw.items()]
        vs = args + [v for _, v in kw]
        before = [deep(st, v) for v in vs]
        st.ghost['c23', n] = Tup(vs)
        start = len(st.trace)
        w = World(files(n))
        cfg = w.cfg(parse=doc_parse(*self.doc), encode_fails=False,
                    feed=html_feed(ctx, *HTMLEVS), wrap=c02.no_wrap, callsym=hooks(self.fail))
        out = []
        for s, v in ctx.call(st, ctx.attr(*API[self.tool]), args, kw, **cfg):
            out.append((s, v, vs, before, start))
        return out


def deep(st, v, d=0):
    """The whole content of a value."""
    if d > 6:
        return '...'
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HSeq):
            return (o.kind,) + tuple(deep(st, x, d + 1) for x in o.items) + (
                (o.rest,) if o.rest is not None else ())
        if isinstance(o, HDict):
            return ('dict',) + tuple(
                (deep(st, k, d + 1), deep(st, x, d + 1))
                for k, x in o.items)
        if isinstance(o, HObj) and '$list' in o.attrs:
            return snapshot(st, v)
        return 'object'
    if isinstance(v, Tup):
        return tuple(deep(st, x, d + 1) for x in v.items)
    return repr(v)


EFFECTS = {'write', 'open', 'po-save', 'mo-save', 'mkdir', 'remove',
           'rename', 'copy', 'out', 'parse', 'pofile', 'md-parser', 'wrap',
           'chmod', 'glob'}


def effects(s, start):
    out = []
    for e in s.trace[start:]:
        if e[0] in ('po-save', 'mo-save'):
            out.append((e[0], repr(e[2]), repr(e[4:])))
        elif e[0] in EFFECTS:
            out.append((e[0],) + tuple(
                deep(s, x) if isinstance(x, Value) else
                repr(x) for x in e[1:-1] if not isinstance(x, Ref)))
    return tuple(out)


def results(outs):
    res = {}
    for s, v, vs, before, start in outs:
        r = 'raises ' + exc_name(s, v) if isinstance(v, Exc) else deep(s, v)
        res[(r, effects(s, start))] = s
    return res


def firsts():
    for t in ('md2po', 'po2md', 'mdpo2html', 'md2po2md'):
        f = FULL[t]
        yield Call('%s plain' % t, t)
        yield Call('%s with all options' % t, t, f, STALE)
        for o in f:
            yield Call('%s with %s' % (t, o), t, {o: f[o]}, STALE,
                       events=False)
        if t in ('md2po', 'po2md'):
            yield Call('%s with events' % t, t, {}, STALE, hooked=True)
            yield Call('%s left half way' % t, t, f, STALE, fail=2)
            yield Call('%s of a document with commands' % t, t, {}, STALE)
        if t == 'md2po':
            yield Call('%s plaintext' % t, t, dict(f, plaintext=True), STALE)
        yield Call('%s of nothing' % t, t, {}, DOC, args={
            'md2po': ['none*.md'], 'po2md': ['doc.md', ['none*.po']],
            'mdpo2html': ['page.html', ['none*.po']],
            'md2po2md': [['es'], 'none*.md', 'loc/{lang}']}[t])


def seconds():
    for t in ('md2po', 'po2md', 'mdpo2html', 'md2po2md'):
        yield Call('%s' % t, t)
        if t in ('md2po', 'po2md'):
            yield Call('%s of a document with commands' % t, t, {}, STALE)
    yield Call('md2po plaintext', 'md2po', {'plaintext': True})
    yield Call('md2po of a content', 'md2po', {}, args=[REFS])
    yield Call('po2md with an alias', 'po2md',
               {'command_aliases': {'alias': 'mdpo-context'}},
               STALE)


def check(ctx):
    alone = {}
    for b in seconds():
        ctx.begin('alone: ' + b.name)
        alone[b.name] = results(b.go(ctx, ctx.state(), 1))
    for a in firsts():
        ctx.begin('after ' + a.name)
        outs = a.go(ctx, ctx.state(), 0)
        if not outs:
            ctx.I.note('no outcome')
        for s, v, vs, before, start in outs:
            names = ['argument %d' % i for i in range(len(a.args))] + list(
                a.kw)
            for n, x, y in zip(names, before, [deep(s, x) for x in vs]):
                ctx.ok()
                if x != y:
                    ctx.finding('arguments', '%s: %s' % (a.name, n),
                                'modified: %s instead of %s' % (y, x))
        for b in seconds():
            ctx.ok()
            got = {}
            for s, *_ in outs:
                s2 = s.copy()
                s2.trace = ()  # the files are those of the second call
                got.update(results(b.go(ctx, s2, 1)))
            if outs and set(got) != set(alone[b.name]):
                ctx.finding('independent', '%s after %s' % (b.name, a.name),
                            difference(set(alone[b.name]), set(got)))


def difference(xs, ys):
    x, y = sorted(xs - ys, key=repr), sorted(ys - xs, key=repr)
    if not x or not y:
        return 'gives %d outcomes instead of %d' % (len(ys), len(xs))
    a, b = x[0], y[0]
    if a[0] != b[0]:
        return 'gives %s instead of %s' % (str(b[0])[:200], str(a[0])[:200])
    for p, q in itertools.zip_longest(a[1], b[1]):
        if p != q:
            return 'does %s instead of %s' % (str(q)[:200], str(p)[:200])
