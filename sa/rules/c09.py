"""C09: re-extraction keeps the translations of the messages it finds.

Rule: md2po is interpreted abstractly on documents of generic messages and on
every ordered combination of existing catalogue entries (found or not, with or
without context, active or obsolete, translated, untranslated or fuzzy), under
every not-found policy and default msgstr; each found message must end with
its earlier translation and its earlier fuzzy flag."""
from .catalogues import *
from . import alike

DEFAULT = Sym(('default',), 'str', {'default'}, generic=True)


def judge(found, combo, mode, default, items):
    had = {}
    for n, f in enumerate(combo):
        i, c, ob, tr, fz = FORMS[f]
        had[msgkey(i, c)] = (old(n) if tr else None, fz)
    for k in found:
        es = [e for e in items if e.key == k]
        act = [e for e in es if e.obsolete == FALSE] or es
        if not act:
            return 'the found message %r has no entry' % (k[0],)
        tr, fz = had.get(k, (None, False))
        for e in act:
            if tr is not None and e.msgstr != tr:
                return 'the translation of a found message is replaced ' \
                    'by %r' % (e.msgstr,)
            if tr is not None and e.fuzzy != fz:
                return 'the fuzzy flag of a found message is %s' % (
                    'lost' if fz else 'set')
            if tr is None and e.msgstr not in (K(''), default):
                return 'a found message without translation gets %r' % (
                    e.msgstr,)
            if k not in had and e.msgstr != (
                    default if default is not None else K('')):
                return 'a new message gets msgstr %r instead of the ' \
                    'default' % (e.msgstr,)
    return None


def check(ctx):
    sweep(ctx, 'translation-kept', judge, defaults=(None, DEFAULT))
    alike.reextractions(ctx, 'translation-kept', True)
