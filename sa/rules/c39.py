"""C39: the entries reported are those of the messages skipped and translated.

Rule: as for C01-C03 (most-general client in product with the reference
automaton of the commands); the entries that each tool records for the
messages that it skipped and for those that it replaced must be those of these
messages, in order, each with its text, context, comment and translation."""
from .extraction import *
from .docitems import *
from .c01 import Spec, drive
from .c05 import CTX, COM, ctx_trans, show
from . import c02, c03

FIELDS = ('msgid', 'msgctxt', 'tcomment', 'msgstr')


def record(e):
    """(message, context, comment, translation)"""
    tr = e.get('msgstr', K(''))
    ls = sorted(l[1] for l in labels_of(tr) if isinstance(l, tuple)
                and l[0] == 'tr')
    tc = e.get('tcomment')
    if tc is None or tc == NONE:
        tc = e.get('comment')
    m = e.get('msgid', K(''))
    i = ident(m)
    if isinstance(m, Str) and any(isinstance(x, str) and not x.strip()
                                  for x in (m.parts[0], m.parts[-1])):
        i = ('spaces around', i)
    return (i, show(e.get('msgctxt')) or None,
            show(tc) or None,
            ls[0] if ls else show(tr) or None)


def records(st, obj, name):
    if name not in st.get(obj.a).attrs:
        return None
    es = [entry(st, r) for r in attr_items(st, obj, name)]
    return [record(e) for e in es if 'msgid' in e]


def observe(obj):
    def f(before, after, exc, item):
        o = Obs()
        o.exc = exc and exc_name(after, exc)
        o.skipped = records(after, obj, 'disabled_entries')
        o.translated = records(after, obj, 'translated_entries')
        return o
    return f


class Obs:
    pass


def compare(tr, comments, empty=()):
    """tr: (context, message) -> is there a translation"""
    def f(s, exp, obs):
        skip = [(i, cx, tc if comments else None, None)
                for i, on, cx, tc in exp if not on]
        done = [(i, cx, tc, (cx, i)) for i, on, cx, tc in exp
                if on and tr(cx, i)]
        for name, want, got in (('skipped', skip, obs.skipped),
                                ('translated', done, obs.translated)):
            if got is None:
                continue
            got = [g for g in got if g[0] not in (('k', ''),)]
            if got != want:
                return ('the messages %s are %s (text, context, comment, '
                        'translation) but those reported are %s' % (
                            name, want, got))
        return None
    return f


ITEMS = [b for b in BLOCKS if b[0] != 'two-line paragraph'] + CODE + INLINE


def known(cx, i):
    """Message 1 has no translation, 2 only in one context."""
    return i == 0 or i > 2 or (i == 2 and cx == CTX[0])


def catalogue_entries():
    for i in range(6):
        if known(None, i):
            yield {'msgid': txt(i), 'msgstr': ctx_trans(None, i)}
        for c in CTX:
            if known(c, i):
                yield {'msgid': txt(i), 'msgctxt': K(c),
                       'msgstr': ctx_trans(c, i)}
    yield {'msgid': Str([txt(0), ' ', txt(1)]), 'msgstr': ctx_trans(None, 0)}


def check(ctx):
    cmds = [item_cmd('mdpo-context', CTX[0]),
            item_cmd('mdpo-translator', COM[0])]
    cmds = [(n + ' ' + a[0][2], ev, a) for n, ev, a in cmds]
    dis = [item_cmd(n) for n in ('mdpo-disable-next-block', 'mdpo-disable',
                                 'mdpo-enable', 'mdpo-enable-next-block')]
    blocks = ITEMS if ctx.thorough else [
        b for b in ITEMS if b[0] in (
            'paragraph', 'heading', 'bullet list', 'ordered in bullet list',
            'quote', 'quote in list item', 'table', 'fenced code',
            'indented code', 'thematic break', 'html', 'strong paragraph')]
    al = cmds + dis + blocks
    ctx.begin('md2po')
    drive(ctx, 'reported-entries', {
        'include_codeblocks': TRUE, 'location': FALSE}, al,
        Spec(Cmds(code=True), lambda s, exp, obs: compare(
            lambda *a: False, True)(s, exp, wrap(obs))))
    ctx.begin('po2md')
    c02.drive(ctx, 'reported-entries', {}, [
        x for x in al if x not in INLINE],
        Spec(Cmds(translate=True), compare(known, True)),
        list(catalogue_entries()), observe=observe)
    ctx.begin('mdpo2html')
    hal = [c03.comment(n) for n in ('mdpo-disable-next-block', 'mdpo-disable',
                                    'mdpo-enable',
                                    'mdpo-enable-next-block')] + [
        c03.comment('mdpo-context', CTX[0])] + c03.ITEMS + [
        ('<p> with line breaks', [
            c03.tag('p', [('data', Str(['\n', txt(0), '\n']), {})]),
            c03.NL], m(0))]
    c03.drive(ctx, 'reported-entries', hal,
              Spec(Cmds(translate=True), compare(known, False)),
              list(catalogue_entries()), observe=observe)


def wrap(obs):
    o = Obs()
    o.skipped = [record(e) for _, e in obs.disabled]
    o.translated = None
    return o
