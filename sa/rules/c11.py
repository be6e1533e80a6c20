"""C11: a found message has exactly one active entry and no obsolete one.

Rule: as C09; every message of the document must have exactly one entry that
is not obsolete and, unless not-found entries are kept, no obsolete entry."""
from .catalogues import *
from .c09 import DEFAULT


def judge(found, combo, mode, default, items):
    for k in found:
        es = [e for e in items if e.key == k]
        act = [e for e in es if e.obsolete == FALSE]
        if len(act) != 1:
            return 'a found message has %d entries that are not ' \
                'obsolete' % len(act)
        if mode != 'not found entries kept' and len(es) > 1:
            return 'a found message also has an obsolete entry'
    return None


def check(ctx):
    sweep(ctx, 'found-once', judge, defaults=(None, DEFAULT))
