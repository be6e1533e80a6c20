"""polib (catalogues and entries) and md4c (Markdown parser) models."""
import hashlib

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HMod, HObj,
    HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .interp import concat
from .m_core import mk, str_of, strsym
from .m_builtins import FN, ext
from .m_os import CLOSED, OA, OM, oa, om, open_, pathval

ENTRY = Ext('polib.POEntry')
POFILE = Ext('polib.POFile')

ENTRY_FIELDS = ('msgid', 'msgstr', 'msgid_plural', 'msgstr_plural',
                'msgctxt', 'obsolete', 'comment', 'tcomment', 'occurrences',
                'flags', 'previous_msgctxt', 'previous_msgid',
                'previous_msgid_plural', 'linenum', 'encoding')


def new_entry(st, site, vals, owner=None):
    attrs = {'msgid': K(''), 'msgstr': K(''), 'msgid_plural': K(''),
             'msgctxt': NONE, 'obsolete': FALSE, 'comment': K(''),
             'tcomment': K(''), 'previous_msgctxt': NONE,
             'previous_msgid': NONE, 'previous_msgid_plural': NONE,
             'linenum': NONE, 'encoding': K('utf-8')}
    if 'occurrences' not in vals:
        attrs['occurrences'] = st.alloc((site, 'occ'), HSeq('list', ()))
    if 'flags' not in vals:
        attrs['flags'] = st.alloc((site, 'flags'), HSeq('list', ()))
    if 'msgstr_plural' not in vals:
        attrs['msgstr_plural'] = st.alloc((site, 'mp'), HDict())
    attrs.update(vals)
    return st.alloc((site, 'entry'), HObj(ENTRY, attrs, owner))


@ext('polib.POEntry')
def _poentry(I, st, args, kw, cx, node):
    vals = {}
    for k, v in kw:
        if k is None:
            continue
        if k not in ENTRY_FIELDS:
            continue
        vals[k] = v
    r = new_entry(st, I.asite(cx, node), vals)
    st.emit('new-entry', r.a, I.site(cx, node))
    return [(st, r)]


@oa('polib.POEntry', 'fuzzy')
def _fuzzy(I, st, ref, o, cx, node):
    fl = o.attrs['flags']
    from .m_core import contains
    return [(s, x if isinstance(x, Exc) else kbool(x)) for s, x in
            contains(I, st, K('fuzzy'), fl, cx, node)]


@om('polib.POEntry', 'translated')
def _translated(I, st, ref, o, args, kw, cx, node):
    out = []
    for s, b in I.truth(st, o.attrs['obsolete'], cx, node):
        if b:
            out.append((s, FALSE))
            continue
        for s1, f in _fuzzy(I, s, ref, s.get(ref.a), cx, node):
            if f == TRUE:
                out.append((s1, FALSE))
                continue
            for s2, t in I.truth(s1, o.attrs['msgstr'], cx, node):
                out.append((s2, kbool(t)))
    return out


@om('polib.POEntry', 'merge')
def _merge(I, st, ref, o, args, kw, cx, node):
    p = st.get(args[0].a)
    for f in ('msgid', 'msgctxt', 'occurrences', 'comment', 'flags',
              'msgid_plural', 'obsolete'):
        o = o.set(f, p.attrs[f])
    st.put(ref.a, o)
    return [(st, NONE)]


@om('polib.POEntry', '__cmp__')
def _cmp(I, st, ref, o, args, kw, cx, node):
    out = []
    for s, r in I.eq(st, ref, args[0], cx, node):
        out.append((s, K(0) if r else mk(s, 'cmp', (ref, args[0]), 'int',
                                         truthy=True)))
    return out


@om('polib.POEntry', '__unicode__', '__str__', '__repr__')
def _estr(I, st, ref, o, args, kw, cx, node):
    return [(st, Sym(('entrystr', ref), 'str', labels_of(
        o.attrs['msgid'], st), truthy=True))]


# --------------------------------------------------------------------- POFile
def new_pofile(st, site, entries=(), rest=None, fpath=NONE, encoding=None,
               wrapwidth=K(78), metadata=(), owner=None, dups=FALSE,
               mdrest=None):
    l = st.alloc((site, 'list'), HSeq('list', entries, rest, owner=owner))
    m = st.alloc((site, 'meta'), HDict(metadata, mdrest, owner=owner))
    return st.alloc((site, 'po'), HObj(POFILE, {
        '$list': l, 'metadata': m, 'fpath': fpath,
        'encoding': encoding if encoding is not None else K('utf-8'),
        'wrapwidth': wrapwidth, 'header': K(''), 'metadata_is_fuzzy': K(0),
        'check_for_duplicates': dups}, owner))


@ext('polib.POFile')
def _POFile(I, st, args, kw, cx, node):
    kd = dict(kw)
    r = new_pofile(st, I.asite(cx, node), fpath=kd.get('fpath', NONE),
                   encoding=kd.get('encoding'),
                   wrapwidth=kd.get('wrapwidth', K(78)),
                   dups=kd.get('check_for_duplicates', FALSE))
    st.emit('new-pofile', r.a, tuple(kw), I.site(cx, node))
    return [(st, r)]


@ext('polib.pofile', 'polib.mofile')
def _pofile(I, st, args, kw, cx, node):
    kd = dict(kw)
    src = args[0] if args else kd.get('pofile')
    src = pathval(I, st, src)
    if isinstance(src, Ref):
        st.emit('bad-open', I.site(cx, node))
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    st.emit('pofile', src, tuple(sorted((k, v) for k, v in kd.items()
                                        if k)), I.site(cx, node))
    out = []
    if I.cfg.get('io_faults'):
        s2 = st.copy()
        s2.emit('fault', 'pofile', I.site(cx, node))
        out.append((s2, I.exc(s2, 'OSError', (), cx, node)))
    h = I.cfg.get('pofile')
    if h is not None:
        r = h(I, st, src, kd, cx, node)
        if r is not None:
            return r + out
    enc = kd.get('encoding')
    if enc is None or I.fact_none(st, enc) is True:
        enc = mk(st, 'detect_encoding', (src,), 'str', truthy=True)
    r = new_pofile(
        st, I.asite(cx, node), (), None, src, enc,
        kd.get('wrapwidth', K(78)),
        mdrest=(mk(st, 'mdkey', (src,), 'str', truthy=True),
                mk(st, 'mdval', (src,), 'str')))
    return [(st, r)] + out


def find(I, st, ref, o, value, by, incl, ctxt, cx, node):
    """polib._BaseFile.find -> [(state, entry or NONE)]"""
    l = st.get(o.attrs['$list'].a)
    any_ctxt = ctxt == FALSE
    cur = [(st, [])]
    for e in l.items:
        nxt = []
        for s, ms in cur:
            eo = s.get(e.a) if isinstance(e, Ref) else None
            if not isinstance(eo, HObj):
                nxt.append((s, ms))
                continue
            obs = [(s, False)] if incl else I.truth(
                s, eo.attrs['obsolete'], cx, node)
            for s1, ob in obs:
                if ob:
                    nxt.append((s1, ms))
                    continue
                for s2, r in I.eq(s1, eo.attrs.get(by, NONE), value, cx,
                                  node):
                    if not r:
                        nxt.append((s2, ms))
                        continue
                    if any_ctxt:
                        nxt.append((s2, ms + [e]))
                        continue
                    for s3, c in I.eq(s2, eo.attrs['msgctxt'], ctxt, cx,
                                      node):
                        nxt.append((s3, ms + [e] if c else ms))
        cur = nxt
    out = []
    for s, ms in cur:
        if not ms:
            if l.rest is not None:
                out.append((s.copy(), mk(s, 'found', (value, ctxt))))
            out.append((s, NONE))
        elif len(ms) == 1:
            out.append((s, ms[0]))
        else:
            for s1, t in I.truth(s, ctxt, cx, node):
                if t:
                    out.append((s1, NONE))
                    continue
                pend = [s1]
                for m in reversed(ms):
                    nx = []
                    for s2 in pend:
                        for s3, c in I.truth(
                                s2, s2.get(m.a).attrs['msgctxt'], cx,
                                node):
                            if c:
                                nx.append(s3)
                            else:
                                out.append((s3, m))
                    pend = nx
                out.extend((s2, ms[0]) for s2 in pend)
    return out


def PO(*names):
    return om('polib.POFile', *names)


@PO('find')
def _find(I, st, ref, o, args, kw, cx, node):
    kd = dict(kw)
    val = args[0] if args else kd.get('st', NONE)
    by = args[1] if len(args) > 1 else kd.get('by', K('msgid'))
    incl = args[2] if len(args) > 2 else kd.get('include_obsolete_entries',
                                                FALSE)
    ctxt = args[3] if len(args) > 3 else kd.get('msgctxt', FALSE)
    st.emit('find', val, ctxt, incl, I.site(cx, node))
    return find(I, st, ref, o, val, by.v if isinstance(by, K) else 'msgid',
                incl == TRUE, ctxt, cx, node)


def po_contains(I, st, x, ref, o, cx, node):
    eo = st.get(x.a) if isinstance(x, Ref) else None
    if not isinstance(eo, HObj) or 'msgid' not in eo.attrs:
        return [(st, I.exc(st, 'AttributeError', (), cx, node))]
    return [(s, r != NONE) for s, r in find(
        I, st, ref, o, eo.attrs['msgid'], 'msgid', False,
        eo.attrs['msgctxt'], cx, node)]


@PO('append', 'insert')
def _append(I, st, ref, o, args, kw, cx, node):
    l = o.attrs['$list']
    I.mutated(st, ref, o, cx, node, 'append')
    st.emit('po-append', ref.a, args[-1], I.site(cx, node))
    meth = 'append' if len(args) == 1 else 'insert'

    def go(s):
        return I.call(s, Meth(l, meth), args, kw, cx, node)
    if o.attrs['check_for_duplicates'] == FALSE:
        return go(st)
    out = []
    for s, t in I.truth(st, o.attrs['check_for_duplicates'], cx, node):
        if not t:
            out.extend(go(s))
            continue
        for s1, r in po_contains(I, s, args[-1], ref, s.get(ref.a), cx,
                                 node):
            out.extend([(s1, I.exc(s1, 'ValueError', (), cx, node))]
                       if r else go(s1))
    return out


@PO('remove', 'pop', 'extend', 'sort', 'index', 'clear', 'reverse', 'copy',
    'count')
def _listm(I, st, ref, o, args, kw, cx, node):
    import ast
    name = node.func.attr if isinstance(getattr(node, 'func', None),
                                        ast.Attribute) else 'index'
    if name not in ('index', 'copy', 'count'):
        st.emit('po-' + name, ref.a, tuple(args), I.site(cx, node))
    return I.call(st, Meth(o.attrs['$list'], name), args, kw, cx, node)


def entries_where(pred):
    def f(I, st, ref, o, args, kw, cx, node):
        l = st.get(o.attrs['$list'].a)
        acc = st.alloc(I.asite(cx, node, 'flt'), HSeq('list', (), l.rest))
        cur = [st]
        for e in l.items:
            nxt = []
            for s in cur:
                for s1, t in pred(I, s, e, s.get(e.a), cx, node):
                    if t:
                        a = s1.get(acc.a)
                        s1.put(acc.a, a.upd(items=a.items + (e,)))
                    nxt.append(s1)
            cur = nxt
        return [(s, acc) for s in cur]
    return f


def p_translated(I, st, e, eo, cx, node):
    return [(s, v == TRUE) for s, v in
            _translated(I, st, e, eo, [], [], cx, node)]


def p_fuzzy(I, st, e, eo, cx, node):
    out = []
    for s, v in _fuzzy(I, st, e, eo, cx, node):
        if v != TRUE:
            out.append((s, False))
            continue
        for s1, ob in I.truth(s, eo.attrs['obsolete'], cx, node):
            out.append((s1, not ob))
    return out


def p_obsolete(I, st, e, eo, cx, node):
    return I.truth(st, eo.attrs['obsolete'], cx, node)


def p_untranslated(I, st, e, eo, cx, node):
    out = []
    for s, v in p_translated(I, st, e, eo, cx, node):
        if v:
            out.append((s, False))
            continue
        for s1, ob in p_obsolete(I, s, e, s.get(e.a), cx, node):
            if ob:
                out.append((s1, False))
                continue
            for s2, f in _fuzzy(I, s1, e, s1.get(e.a), cx, node):
                out.append((s2, f != TRUE))
    return out


OM[('polib.POFile', 'translated_entries')] = entries_where(p_translated)
OM[('polib.POFile', 'fuzzy_entries')] = entries_where(p_fuzzy)
OM[('polib.POFile', 'obsolete_entries')] = entries_where(p_obsolete)
OM[('polib.POFile', 'untranslated_entries')] = entries_where(p_untranslated)


@PO('save', 'save_as_pofile')
def _save(I, st, ref, o, args, kw, cx, node):
    kd = dict(kw)
    p = args[0] if args else kd.get('fpath', NONE)
    p = pathval(I, st, p)
    outs = []
    for s, isn in I.is_(st, p, NONE, cx, node):
        tgt = o.attrs['fpath'] if isn else p
        for s1, n2 in I.is_(s, tgt, NONE, cx, node):
            if n2:
                outs.append((s1, I.exc(s1, 'OSError', (), cx, node)))
                continue
            cont = postr(I, s1, ref, s1.get(ref.a))
            snap = snapshot(s1, ref)
            for s2, f in open_(I, s1, tgt, K('w'), o.attrs['encoding'], cx,
                               node):
                if isinstance(f, Exc):
                    outs.append((s2, f))
                    continue
                r = I.call(s2, Meth2(I, s2, f, 'write'), [cont], [], cx,
                           node)
                for s3, v in r:
                    s3.emit('close', tgt, I.site(cx, node))
                    s3.emit('po-save', ref.a, tgt, I.site(cx, node), snap)
                    if not isinstance(v, Exc) and \
                            I.fact_none(s3, o.attrs['fpath']) is True:
                        s3.put(ref.a, s3.get(ref.a).set('fpath', tgt))
                    outs.append((s3, v if isinstance(v, Exc) else NONE))
    return outs


def Meth2(I, st, ref, name):
    o = st.get(ref.a)
    h = OM[(o.cls.path, name)]
    return Nat(('om', o.cls.path, name, ref), lambda I2, s, a, k, c, n: h(
        I2, s, ref, s.get(ref.a), a, k, c, n))


@PO('save_as_mofile')
def _savemo(I, st, ref, o, args, kw, cx, node):
    p = pathval(I, st, args[0] if args else dict(kw).get('fpath', NONE))
    out = []
    for s, f in open_(I, st, p, K('wb'), NONE, cx, node):
        if not isinstance(f, Exc):
            s.emit('write', p, mostr(I, s, ref), NONE, I.site(cx, node))
            s.emit('close', p, I.site(cx, node))
            s.emit('mo-save', ref.a, p, I.site(cx, node))
            f = NONE
        out.append((s, f))
    return out


@PO('__unicode__', '__str__', 'to_binary', '__repr__')
def _postr(I, st, ref, o, args, kw, cx, node):
    w = o.attrs.get('wrapwidth')
    if isinstance(w, K) and w.v in (1, 2):
        # textwrap.wrap(..., width - 2)
        return [(st, I.exc(st, 'ValueError', (), cx, node))]
    return [(st, postr(I, st, ref, o))]


def snapshot(st, ref):
    """What the text of a catalogue depends on."""
    from .m_core import freeze
    o = st.get(ref.a)
    l = st.get(o.attrs['$list'].a)
    es = []
    for e in l.items + ((l.rest,) if l.rest is not None else ()):
        eo = st.get(e.a) if isinstance(e, Ref) else None
        es.append(tuple((k, freeze(st, v)) for k, v in sorted(
            eo.attrs.items()) if k not in ('linenum', 'encoding'))
            if isinstance(eo, HObj) else e)
    return (freeze(st, o.attrs.get('metadata')),
            freeze(st, o.attrs.get('wrapwidth')), tuple(es))


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def postr(I, st, ref, o):
    sn = snapshot(st, ref)
    d = digest(sn)
    I.snapshots[d] = sn
    return Sym(('postr', d), 'str', {'po'}, truthy=True)


def mostr(I, st, ref):
    sn = snapshot(st, ref)
    d = digest(sn)
    I.snapshots[d] = sn
    return Sym(('mostr', d), 'bytes', {'po'}, truthy=True)


@PO('percent_translated')
def _pct(I, st, ref, o, args, kw, cx, node):
    return [(st, mk(st, 'pct', (ref,), 'int'))]


@PO('ordered_metadata')
def _omd(I, st, ref, o, args, kw, cx, node):
    return I.call(st, Meth(o.attrs['metadata'], 'items'), [], [], cx, node)


@PO('metadata_as_entry')
def _mae(I, st, ref, o, args, kw, cx, node):
    return [(st, new_entry(st, I.asite(cx, node), {}))]


@ext('polib.escape')
def _esc(I, st, args, kw, cx, node):
    v = args[0]
    if isinstance(v, K) and isinstance(v.v, str):
        return [(st, K(v.v.replace('\\', r'\\').replace('\t', r'\t')
                       .replace('\r', r'\r').replace('\n', r'\n')
                       .replace('\v', r'\v').replace('\b', r'\b')
                       .replace('\f', r'\f').replace('"', r'\"')))]
    if isinstance(v, Sym) and v.generic:
        return [(st, v)]
    return [(st, mk(st, 'po.escape', args, 'str',
                    truthy=I.fact_truth(st, v)))]


@ext('polib.unescape')
def _unesc(I, st, args, kw, cx, node):
    v = args[0]
    if isinstance(v, K) and v.v == '' or isinstance(v, Sym) and v.generic:
        return [(st, v)]
    if isinstance(v, Sym) and v.id and v.id[0] == 'po.escape':
        return [(st, v.id[1])]
    return [(st, mk(st, 'po.unescape', args, 'str'))]


@ext('polib.detect_encoding')
def _detenc(I, st, args, kw, cx, node):
    return [(st, mk(st, 'detect_encoding', args, 'str', truthy=True))]


# ----------------------------------------------------------------------- md4c
BLOCKS = dict(DOC=0, QUOTE=1, UL=2, OL=3, LI=4, HR=5, H=6, CODE=7, HTML=8,
              P=9, TABLE=10, THEAD=11, TBODY=12, TR=13, TH=14, TD=15)
SPANS = dict(EM=0, STRONG=1, A=2, IMG=3, CODE=4, DEL=5, LATEXMATH=6,
             LATEXMATH_DISPLAY=7, WIKILINK=8, U=9)
TEXTS = dict(NORMAL=0, NULLCHAR=1, BR=2, SOFTBR=3, ENTITY=4, CODE=5, HTML=6,
             LATEXMATH=7)
ALIGNS = dict(DEFAULT=0, LEFT=1, CENTER=2, RIGHT=3)
ENUMS = {'md4c.BlockType': BLOCKS, 'md4c.SpanType': SPANS,
         'md4c.TextType': TEXTS, 'md4c.Align': ALIGNS}


@ext('md4c.GenericParser', 'md4c.ParserObject')
def _gp(I, st, args, kw, cx, node):
    st.emit('md-parser', tuple(args), tuple(kw), I.site(cx, node))
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('md4c.GenericParser'), {'args': Tup(args), 'kw': Tup(
            Tup([K(k), v]) for k, v in kw if k)})))]


@om('md4c.GenericParser', 'parse')
def _gparse(I, st, ref, o, args, kw, cx, node):
    st.emit('parse', tuple(args[1:]), I.site(cx, node))
    h = I.cfg.get('parse')
    if h is not None:
        return h(I, st, ref, args, kw, cx, node)
    return [(st, NONE)]


@ext('md4c.HTMLRenderer')
def _hr(I, st, args, kw, cx, node):
    st.emit('html-renderer', tuple(args), tuple(kw), I.site(cx, node))
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('md4c.HTMLRenderer'), {'args': Tup(args)})))]


@om('md4c.HTMLRenderer', 'parse')
def _hrparse(I, st, ref, o, args, kw, cx, node):
    st.emit('html-parse', args[0], I.site(cx, node))
    h = I.cfg.get('render')
    if h is not None:
        return h(I, st, args, kw, cx, node)
    return [(st, mk(st, 'html', (args[0],), 'str'))]


for _c in ('md4c.GenericParser', 'md4c.HTMLRenderer', 'polib.POEntry',
           'polib.POFile', '$file', 'argparse.ArgumentParser', '$match',
           '$pattern', 'argparse.Namespace', 'pathlib.Path'):
    CLOSED.add(_c)
