"""C08: every active, non-empty translation of the catalogues is used.

Rule: po2md and mdpo2html are interpreted abstractly on a document of one
message, for every ordered combination of catalogue entries (active/obsolete,
translated/untranslated, fuzzy, other context) of that message spread over one
or two catalogue files given as a list or matched by a glob; if at least one
active entry of the message has a translation the text written is one of
those translations, otherwise the source text."""
import itertools
import time

from ..m_polib import new_entry, new_pofile
from .extraction import *
from .docitems import *
from . import c02, c03
from . import alike

CX = 'the context'
FORMS = {
    'translated': dict(),
    'untranslated': dict(tr=False),
    'obsolete': dict(obsolete=True),
    'obsolete untranslated': dict(obsolete=True, tr=False),
    'fuzzy': dict(fuzzy=True),
    'other context': dict(cx='other context'),
    'in the context': dict(cx=CX),
    'untranslated in the context': dict(cx=CX, tr=False),
    'other message': dict(msg=1),
    'other message in the context': dict(msg=1, cx=CX),
    'other message in other context': dict(msg=1, cx='other context'),
}


def trn(n):
    return Sym(('tr', n), 'str', {('tr', n)}, generic=True)


def maker(files):
    """files: {path: [(n, form)]} -> cfg 'pofile' handler"""
    def f(I, st, src, kd, cx, node):
        refs = []
        for n, form in files.get(src.v if isinstance(src, K) else None, ()):
            d = FORMS[form]
            vals = {'msgid': txt(d.get('msg', 0)),
                    'msgstr': trn(n) if d.get('tr', True) else K(''),
                    'obsolete': kbool(d.get('obsolete', False))}
            if d.get('cx'):
                vals['msgctxt'] = K(d['cx'])
            if d.get('fuzzy'):
                vals['flags'] = st.alloc(('cat', n, 'fl'),
                                         HSeq('list', (K('fuzzy'),)))
            refs.append(new_entry(st, ('cat', n), vals))
        return [(st, new_pofile(st, ('cat', src), refs, None, src,
                                K('utf-8')))]
    return f


def usable(forms, cx):
    return {n for n, f in forms if FORMS[f].get('tr', True)
            and not FORMS[f].get('obsolete') and FORMS[f].get('cx') == cx
            and not FORMS[f].get('msg')}


def layouts(forms):
    yield 'one file', {'a.po': forms}, ['a.po'], None
    if len(forms) > 1:
        h = {'a.po': forms[:1], 'b.po': forms[1:]}
        yield 'a list of files', h, ['a.po', 'b.po'], None
        yield 'a glob', h, ['*.po'], ['a.po', 'b.po']
        h = {'es/a.po': forms[:1], 'fr/a.po': forms[1:]}
        yield 'a glob of directories', h, ['*.po'], ['es/a.po', 'fr/a.po']
        if len(forms) == 2 and 'fuzzy' not in dict(forms).values():
            yield 'a list of homonyms', h, ['es/a.po', 'fr/a.po'], None


def globber(hits):
    def f(I, st, p, cx, node):
        h = hits if isinstance(p, K) and p.v == '*.po' else None
        its = tuple(K(x) for x in h) if h is not None else (p,)
        return [(st, st.alloc(I.asite(cx, node), HSeq('list', its)))]
    return f


def run(ctx, tool, handler, arg, glob, msgctxt):
    """-> [(written translations, source shown, exception)]"""
    res = []
    mod, cls = {'po2md': ('mdpo.po2md', 'Po2Md'),
                'mdpo2html': ('mdpo.mdpo2html', 'MdPo2HTML')}[tool]

    def parse(I, st, ref, args, kw, cx, node):
        out = []
        ev = [P(T(0))] if msgctxt is None else [
            item_cmd('mdpo-context', msgctxt)[1], P(T(0))]
        for s, e in Client(I, args, kw).run(st, flat(ev)):
            out.append((s, e if isinstance(e, Exc) else NONE))
        return out

    def feed(I, st, obj, args, kw, cx, node):
        out = []
        ev = [c03.tag('p', c03.D(0))]
        if msgctxt is not None:
            ev = [c03.comment('mdpo-context', msgctxt)[1]] + ev
        for s, e in c03.run_events(ctx, st, st.ghost['root'], ev):
            out.append((s, e if isinstance(e, Exc) else NONE))
        return out
    st = ctx.state()
    a = K(arg[0]) if len(arg) == 1 else mlist(st, [K(x) for x in arg], 'po')
    cls = ctx.attr(mod, cls)
    cfg = dict(glob=glob, pofile=handler, wrap=c02.no_wrap, parse=parse,
               feed=feed, render=c03.render, fs=lambda I, st, n, p: False)
    for s, obj in ctx.call(st, cls, [a], [], **cfg):
        if isinstance(obj, Exc):
            res.append((set(), False, exc_name(s, obj)))
            continue
        s.ghost['root'] = obj
        for s2, mt in ctx.getattr(s, obj, 'translate'):
            for s3, v in ctx.I.call(s2, mt, [CONTENT], [], DCX, None):
                if isinstance(v, Exc):
                    res.append((set(), False, exc_name(s3, v)))
                    continue
                ls = labels_of(v, s3)
                res.append(({x[1] for x in ls if isinstance(x, tuple)
                             and x[0] == 'tr'},
                            ('msg', 0) in ls, None))
    return res


def check(ctx):
    combos = []
    for k in range(0, 4 if ctx.thorough else 3):
        combos += list(itertools.product(FORMS, repeat=k))
    for tool in ('po2md', 'mdpo2html'):
        for c in combos:
            forms = list(enumerate(c))
            if len({(FORMS[f].get('msg'), FORMS[f].get('cx'))
                    for f in c}) < len(c) and len(c) > 2:
                continue
            for name, files, arg, hits in layouts(forms):
                for cx in (None, CX):
                    case(ctx, tool, c, cx, usable(forms, cx), name, files,
                         arg, hits)
            if time.time() > ctx.deadline:
                ctx.I.cut('time')
                return
    ctx.scenario('%d combinations of entries' % len(combos))
    alike.lookups(ctx, 'translation-used')


def case(ctx, tool, c, cx, ok, name, files, arg, hits):
    ctx.begin()
    ctx.ok()
    res = run(ctx, tool, maker(files), arg, globber(hits), cx)
    what = None
    if not res:
        ctx.I.note('no translation analysed')
    for tr, src, exc in res:
        if exc:
            what = 'raises ' + exc
        elif ok and not (tr and tr <= ok):
            what = 'the message has an active translation but %s is ' \
                'written' % ('another text' if tr else 'its source text')
        elif not ok and tr:
            what = 'a translation of another message, of another context ' \
                'or of an obsolete entry is written'
        elif not ok and not src:
            what = 'the source text is lost'
    if what:
        ctx.finding('catalogue-lookup', '%s: [%s] in %s%s' % (
            tool, ', '.join(c), name, ' looked up in a context' if cx
            else ''), what)
