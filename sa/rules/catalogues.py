"""Extraction into an existing catalogue: driver and observations."""
import itertools
import time

from ..m_polib import new_entry, new_pofile
from .extraction import *
from .docitems import *
from .docitems import item_cmd, T

C = 'some context'
# name -> (message, context, obsolete, translated, fuzzy)
FORMS = {}
for _m, _n in ((0, 'found'), (1, 'other found'), (2, 'not found')):
    for _c in (None, C):
        for _o in (False, True):
            for _t, _f, _tn in ((True, False, 'translated'),
                                (False, False, 'untranslated'),
                                (True, True, 'fuzzy')):
                if _m == 1 and (_c or _f):
                    continue
                if _c and _tn == 'untranslated':
                    continue
                FORMS['%s%s%s %s' % (
                    'obsolete ' if _o else '', _tn, ' in context' if _c
                    else '', _n)] = (_m, _c, _o, _t, _f)

# entries with other attributes: name -> {attribute: value}
EXTRA = {}
for _n, _x in (('commented', {'comment': K('some remark')}),
               ('annotated', {'tcomment': K('some note')}),
               ('flagged', {'flags': ('c-format',)}),
               ('located', {'occurrences': (('gone.md', 'block 1 (list)'),)}),
               ('other', {'comment': K('some remark'),
                          'tcomment': K('some note'),
                          'flags': ('no-wrap', 'c-format'),
                          'previous_msgid': K('former'),
                          'occurrences': (('gone.md', '3'), ('b.md', ''))})):
    for _f in ('translated not found', 'untranslated not found',
               'obsolete translated not found', 'fuzzy not found',
               'translated in context not found', 'translated found',
               'obsolete translated found', 'fuzzy found'):
        FORMS['%s %s' % (_n, _f)] = FORMS[_f]
        EXTRA['%s %s' % (_n, _f)] = _x
FORMS['flagged obsolete fuzzy found'] = FORMS['obsolete fuzzy found']
EXTRA['flagged obsolete fuzzy found'] = {'flags': ('c-format',)}

MODES = {
    'default options': {},
    'not found entries removed': {'preserve_not_found': FALSE},
    'not found entries kept': {'mark_not_found_as_obsolete': FALSE},
    'removed although marking is on': {
        'preserve_not_found': FALSE, 'mark_not_found_as_obsolete': TRUE},
}
REMOVED = ('not found entries removed', 'removed although marking is on')

DOCS = {
    'two paragraphs': ([P(T(0)), P(T(1))], [(0, None), (1, None)]),
    'contexts and repetitions': (
        [item_cmd('mdpo-context', C)[1], P(T(0)), H(T(1)), P(T(0)),
         P(T(0))], [(0, C), (1, None), (0, None)]),
    'a context': (
        [item_cmd('mdpo-context', C)[1], P(T(0)), P(T(1))],
        [(0, C), (1, None)]),
}


def old(n):
    return Sym(('tr', n), 'str', {('tr', n)}, generic=True)


def msgkey(i, c):
    return (txt(i), NONE if c is None else K(c))


class Item:
    def __init__(self, st, ref):
        a = entry(st, ref)
        c = a.get('msgctxt', NONE)
        if c == K(''):
            c = NONE
        self.key = (a.get('msgid'), c)
        self.msgstr = a.get('msgstr')
        self.obsolete = a.get('obsolete')
        fl = a.get('flags')
        o = st.get(fl.a) if isinstance(fl, Ref) else None
        self.flags = tuple(x.v if isinstance(x, K) else x for x in o.items) \
            if isinstance(o, HSeq) else ()
        self.fuzzy = 'fuzzy' in self.flags
        occ = a.get('occurrences')
        o = st.get(occ.a) if isinstance(occ, Ref) else None
        self.extra = {k: a.get(k) for k in (
            'comment', 'tcomment', 'previous_msgid', 'msgid_plural')}
        self.extra['flags'] = tuple(f for f in self.flags if f != 'fuzzy')
        self.extra['occurrences'] = tuple(
            tuple(x.v if isinstance(x, K) else x for x in i.items)
            if isinstance(i, Tup) else i for i in o.items) if isinstance(
                o, HSeq) else occ

    def __repr__(self):
        return repr((self.key, self.msgstr, self.obsolete, self.flags))


def reextract(ctx, combo, doc, mode, default=None, **kw):
    """-> [(exception name | None, [Item], state)]"""
    def pofile(I, st, src, kd, cx, node):
        refs = []
        for n, f in enumerate(combo):
            i, c, ob, tr, fz = FORMS[f]
            vals = {'msgid': txt(i), 'msgstr': old(n) if tr else K(''),
                    'obsolete': kbool(ob)}
            if c:
                vals['msgctxt'] = K(c)
            x = dict(EXTRA.get(f, {}))
            flags = tuple(map(K, x.pop('flags', ()))) + (
                (K('fuzzy'),) if fz else ())
            if flags:
                vals['flags'] = st.alloc(('cat', n, 'fl'), HSeq(
                    'list', flags))
            if 'occurrences' in x:
                vals['occurrences'] = st.alloc(('cat', n, 'occ'), HSeq(
                    'list', tuple(Tup(tuple(map(K, o))) for o in x.pop(
                        'occurrences'))))
            vals.update(x)
            refs.append(new_entry(st, ('cat', n), vals))
        return [(st, new_pofile(st, ('cat',), refs, None, src, K('utf-8')))]

    def parse(I, st, ref, args, kw, cx, node):
        return [(s, e if isinstance(e, Exc) else NONE) for s, e in
                Client(I, args, kw).run(st, flat(DOCS[doc][0]))]
    kwargs = {'location': FALSE}
    kwargs.update(MODES[mode])
    if default is not None:
        kwargs['msgstr'] = default
    res = []
    for s, obj in md2po(ctx, ctx.state(), kwargs, parse=parse,
                        pofile=pofile, fs=lambda I, st, n, p: True):
        for s2, v in extract(ctx, s, obj, {'po_filepath': K('old.po')}):
            if isinstance(v, Exc):
                res.append((exc_name(s2, v), [], s2))
                continue
            o = s2.get(v.a) if isinstance(v, Ref) else None
            if not isinstance(o, HObj) or '$list' not in o.attrs:
                ctx.I.note('extract does not return a catalogue')
                continue
            l = s2.get(o.attrs['$list'].a)
            if l.rest is not None:
                ctx.I.note('catalogue entries unknown')
            res.append((None, [Item(s2, r) for r in l.items], s2))
    return res


CORE = ('translated found', 'obsolete translated found', 'fuzzy found',
        'untranslated found', 'translated other found',
        'obsolete translated other found', 'translated in context found',
        'translated not found', 'obsolete translated not found')


def combos(ctx):
    yield ()
    for k in (1, 2, 3):
        if k == 3 and not ctx.thorough:
            return
        al = FORMS if k == 1 or (k == 2 and ctx.thorough) else CORE
        for c in itertools.product(al, repeat=k):
            keys = [FORMS[f][:2] for f in c]
            if len(set(keys)) == len(keys):
                yield c


def sweep(ctx, rule, judge, modes=MODES, defaults=(None,)):
    """judge(doc keys, combo, mode, default, items) -> None | message"""
    n = 0
    for doc in DOCS:
        found = [msgkey(*k) for k in DOCS[doc][1]]
        for mode in modes:
            for c in combos(ctx):
                if len(c) == 3 and mode != 'default options':
                    continue
                for d in defaults if len(c) < 2 or ctx.thorough or \
                        len(defaults) == 1 else defaults[:2]:
                    ctx.begin()
                    ctx.ok()
                    n += 1
                    res = reextract(ctx, c, doc, mode, d)
                    if not res:
                        ctx.I.note('no extraction analysed')
                    for exc, items, st in res:
                        what = 'raises ' + exc if exc else judge(
                            found, c, mode, d, items)
                        if what:
                            ctx.finding(rule, '[%s], %s' % (
                                ', '.join(c), mode), '%s (document: %s)' % (
                                    what, doc), catalogue=list(map(
                                        repr, items)))
                    if len(ctx.findings) > 60:
                        return
                    if time.time() > ctx.deadline:
                        ctx.I.cut('time')
                        return
    ctx.scenario('%d re-extractions' % n)
