"""C10: messages no longer found are treated as the options say.

Rule: as C09, but for the entries whose message is not in the document: they
must be gone when not-found entries are removed, obsolete with their
translation, flags and context unchanged when they are marked, and untouched
when they are kept."""
from .catalogues import *
from . import alike


def judge(found, combo, mode, default, items):
    keys = set(found)
    for n, f in enumerate(combo):
        i, c, ob, tr, fz = FORMS[f]
        k = msgkey(i, c)
        if k in keys:
            continue
        keys.add(k)
        es = [e for e in items if e.key == k]
        if mode in REMOVED:
            if es:
                return 'the entry of a message that is not found is kept'
            continue
        if len(es) != 1:
            return 'the message that is not found has %d entries' % len(es)
        e = es[0]
        want = TRUE if mode == 'default options' else kbool(ob)
        if e.obsolete != want:
            return 'the entry of a message that is not found is %s' % (
                'not marked as obsolete' if want == TRUE else
                'marked as obsolete although it had to be kept')
        if e.msgstr != (old(n) if tr else K('')) or e.fuzzy != fz:
            return 'the entry of a message that is not found is altered'
        for a, v in EXTRA.get(f, {}).items():
            if e.extra[a] != v:
                return 'the %s of the entry of a message that is not found ' \
                    'is altered: %s' % (a, e.extra[a])
    extra = [e for e in items if e.key not in keys]
    if extra:
        return 'an entry %r appears that was neither found nor in the ' \
            'catalogue' % (extra[0].key,)
    return None


def check(ctx):
    sweep(ctx, 'not-found-policy', judge)
    alike.reextractions(ctx, 'not-found-policy', False)
