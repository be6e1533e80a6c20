"""Messages and contexts that look alike but are not the same: each must have
its own entry, translation and fate."""
import re

from .programs import *
from ..m_polib import snapshot
from . import c02, c03
from .c24 import com

ALIKE = ['one', 'one:', 'one.', 'One', 'ONE', 'one!', '(one)', '"one"', 'on',
         'one one', 'one\xa0one', 'one-one', 'one\u2026', '\xf3ne', 'o.e',
         'o*', '?', '1', '1.0', '01', 'on\u0435', 'one # two', '# one',
         'one\u200b', '\ufb01', 'fi', 'None', '0', 'a, b', 'a', 'b']
CONTEXTS = [None, 'one', 'One', 'one.', 'on', 'one one', '\xf3ne', '0',
            'None']


def msg(x):
    return P(('t', 'NORMAL', K(x)))


def doc(pairs_):
    out = []
    for x, c in pairs_:
        if c is not None:
            out += com('mdpo-context ' + c)
        out += msg(x)
    return out


def page(pairs_):
    out = []
    for x, c in pairs_:
        if c is not None:
            out.append(c03.comment('mdpo-context', c)[1])
        out.append(c03.tag('p', ('data', K(x), {})))
    return out


def ent(k, tr=True):
    x, c = k
    d = {'msgid': K(x), 'msgstr': K(trans(k)) if tr else K('')}
    if c is not None:
        d['msgctxt'] = K(c)
    return d


def trans(k):
    return 'tr%d-%d' % (ALIKE.index(k[0]), CONTEXTS.index(k[1]))


KEYS = [(x, None) for x in ALIKE] + [('one', c) for c in CONTEXTS[1:]]


def cases_(deep):
    """(messages of the document, entries of the catalogue)"""
    yield 'all', KEYS, KEYS
    yield 'all, in other order', KEYS, KEYS[::-1]
    for k in KEYS if deep else KEYS[:6] + KEYS[-3:]:
        yield 'all but %s' % (k,), KEYS, [x for x in KEYS if x != k]
        yield 'others than %s' % (k,), [k], [x for x in KEYS if x != k]


def lookups(ctx, rule):
    for name, ms, ks in cases_(ctx.tier == 'thorough'):
        w = World({'doc.md': None, 'page.html': None,
                   'cat.po': [ent(k) for k in ks]}, ('.',))
        ctx.begin('alike: ' + name)
        for s, v in api(ctx, 'po2md', ['doc.md', 'cat.po'], {}, w,
                        st=ctx.state(), parse=doc_parse(*doc(ms)),
                        wrap=c02.no_wrap, encode_fails=False,
                        io_faults=False):
            ctx.ok()
            want = [trans(k) if k in ks else k[0] for k in ms]
            if isinstance(v, Exc):
                ctx.finding(rule, 'po2md, messages alike', 'raises %s (%s)'
                            % (exc_name(s, v), name))
            elif isinstance(v, K):
                got = [x for x in v.v.split('\n') if x.strip()]
                if got != want:
                    ctx.finding(rule, 'po2md, messages alike', 'writes %s '
                                '(%s)' % (first(want, got), name))
            else:
                ctx.I.note('output not known')
        for s, v in api(ctx, 'mdpo2html', ['page.html', 'cat.po'], {}, w,
                        st=ctx.state(), feed=html_feed(ctx, *page(ms)),
                        encode_fails=False, io_faults=False):
            ctx.ok()
            if isinstance(v, Exc):
                ctx.finding(rule, 'mdpo2html, messages alike', 'raises %s '
                            '(%s)' % (exc_name(s, v), name))
                continue
            got = [a.v for e in s.trace if e[0] == 'html-parse'
                   for a in (e[1] if isinstance(e[1], (tuple, list))
                             else (e[1],)) if isinstance(a, K)]
            have = {y for x in got if isinstance(x, str)
                    for y in re.findall(r'\btr[\w-]+', x)}
            want = {trans(k) for k in ms if k in ks}
            if have != want:
                d = sorted(have ^ want)[0]
                ctx.finding(rule, 'mdpo2html, messages alike', '%s %s (%s)'
                            % ('uses' if d in have else 'does not use', d,
                               name))


def first(want, got):
    for a, b in zip(want, got):
        if a != b:
            return '%r instead of %r' % (b, a)
    return '%d messages instead of %d' % (len(got), len(want))


def reextractions(ctx, rule, found):
    """Judges the messages found, or those not found."""
    for name, ms, ks in cases_(ctx.tier == 'thorough'):
        for kw in ({}, {'preserve_not_found': False},
                   {'mark_not_found_as_obsolete': False}):
            w = World({'doc.md': None, 'cat.po': [ent(k) for k in ks]},
                      ('.',))
            ctx.begin('alike: ' + name)
            for s, v in api(ctx, 'md2po', ['doc.md'], dict(
                    kw, po_filepath='cat.po', location=False), w,
                    st=ctx.state(), parse=doc_parse(*doc(ms)),
                    encode_fails=False, io_faults=False):
                ctx.ok()
                if isinstance(v, Exc):
                    ctx.finding(rule, 'messages alike', 'raises %s (%s)' % (
                        exc_name(s, v), name))
                    continue
                es = {}
                for e in map(dict, snapshot(s, v)[2]):
                    c = e.get('msgctxt')
                    k = (e['msgid'].v, c.v or None if isinstance(c, K)
                         else None)
                    if k in es:
                        ctx.finding(rule, 'messages alike', '%s has two '
                                    'entries (%s)' % (k, name))
                    es[k] = e
                for k in KEYS:
                    want = judge(k, ms, ks, kw)
                    e = es.get(k)
                    got = None if e is None else (
                        e['msgstr'].v, e['obsolete'] == TRUE)
                    if (k in ms) == found and got != want:
                        ctx.finding(rule, 'messages alike', 'the entry of '
                                    '%s is %s instead of %s (%s, %s)' % (
                                        k, got, want, name, kw))


def judge(k, ms, ks, kw):
    if k in ms:
        return (trans(k) if k in ks else '', False)
    if k not in ks or kw.get('preserve_not_found') is False:
        return None
    return (trans(k), kw.get('mark_not_found_as_obsolete', True))
