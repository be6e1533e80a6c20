"""C07: a message without translation in its context keeps its source text.

Rule: most-general client over the po2md and mdpo2html parser callbacks, for
catalogues in which the messages are absent, untranslated, obsolete, or
translated only in another context or only outside any context; no exception
may escape, the source text must be written, and no translation recorded for
another context may be."""
from .extraction import *
from .docitems import *
from .c01 import Spec
from .c05 import ctx_trans
from . import c02, c03
from . import alike

N = 4
ONE, TWO = 'one context', 'other context'


def catalogues():
    def e(i, cx=None, tr=True, **kw):
        d = {'msgid': txt(i), 'msgstr': ctx_trans(cx, i) if tr else K('')}
        if cx:
            d['msgctxt'] = K(cx)
        d.update(kw)
        return d
    r = range(N)
    yield 'empty catalogue', [], set()
    yield 'untranslated entries', [e(i, tr=False) for i in r] + [
        e(i, ONE, False) for i in r], set()
    yield 'obsolete entries', [e(i, obsolete=TRUE) for i in r] + [
        e(i, ONE, obsolete=TRUE) for i in r], set()
    yield 'translated in one context', [e(i, ONE) for i in r], {
        (ONE, i) for i in r}
    yield 'translated without context', [e(i) for i in r], {
        (None, i) for i in r}
    yield 'translated without context, untranslated with', [
        e(i) for i in r] + [e(i, ONE, False) for i in r], {
            (None, i) for i in r}


def cmp_source(have):
    def f(s, exp, obs):
        for i, on, cx, tc in exp:
            got = sorted((x for x in obs.trans if x[1] == i), key=str)
            if (cx, i) in have and on:
                if (cx, i) not in obs.trans:
                    return ('message %s in context %s is not replaced by its '
                            'translation' % (i, cx))
                continue
            if got:
                return ('message %s has no translation for context %s but '
                        'the one for context %s is written' % (
                            i, cx, got[0][0]))
            if i not in obs.shown:
                return ('message %s has no translation for context %s and '
                        'is lost from the output' % (i, cx))
        return None
    return f


def on_exc(s, item, name):
    return 'raises %s for a message without translation' % name


def spec(have):
    return Spec(Cmds(translate=True), cmp_source(have), on_exc)


def check(ctx):
    cm = [(n + ' ' + a[0][2], ev, a) for n, ev, a in (
        item_cmd('mdpo-context', c) for c in (ONE, TWO))]
    blocks = [b for b in BLOCKS if b[0] != 'two-line paragraph']
    if not ctx.thorough:
        blocks = [b for b in blocks if 'nested' not in b[0] and
                  'directly' not in b[0]]
    hcm = [c03.comment('mdpo-context', c) for c in (ONE, TWO)]
    for name, ents, have in catalogues():
        ctx.begin()
        c02.drive(ctx, 'po2md: ' + name, {}, cm + blocks + CODE, spec(have),
                  ents)
        ctx.begin()
        c03.drive(ctx, 'mdpo2html: ' + name, hcm + c03.ITEMS, spec(have),
                  ents)
    alike.lookups(ctx, 'messages')
