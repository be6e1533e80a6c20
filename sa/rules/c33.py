"""C33: what is ignored is left out, and nothing else.

Rule: md2po is interpreted abstractly on every kind of document with each of
its messages ignored (and with words that are not messages): the catalogue
must be the one without the option less the messages ignored. The tools with
--ignore are interpreted on files in several directories with every way of
naming them: those used must be those not named, in order."""
import os

from .programs import *
from ..m_polib import snapshot
from . import c02
from .alike import ALIKE
from .c24 import words, com
from .structures import structures
from .world import pairs

NOTES = [('note', com('mdpo-translator some note') + P(T(0)) + P(T(1))),
         ('context', com('mdpo-context some context') + P(T(0)) + P(T(1))),
         ('disabled', com('mdpo-disable') + P(T(0)) + com('mdpo-enable') +
          P(T(1))),
         ('next disabled', P(T(0)) + com('mdpo-disable-next-block') +
          P(T(1)) + P(T(2))),
         ('code', com('mdpo-include-codeblock') + FENCED(T(0), t('\n')) +
          FENCED(T(1), t('\n')) + P(T(2))),
         ('links', P(A('href-b', T(0), title='title-b'), t(' '),
                     A('href-a', T(1))) + P(T(2))),
         ('spans', P(span('EM', T(0)), t(' '), span(
             'CODE', t(txt(1), 'CODE'))) + P(T(2))),
         ('image', P(IMG('pic', T(0), title='the title')) + P(T(1))),
         ('sequence', H(T(0)) + P(T(1)) + UL(LI(T(2)), LI(T(3))) + QUOTE(
             P(T(4))) + TABLE([T(5)], [T(6)]) + P(T(7)))]
NOTES.append(('alike', sum(([*P(('t', 'NORMAL', K(x)))] for x in ALIKE), [])))
OLD = [{'msgid': K('word0'), 'msgstr': K('cero')},
       {'msgid': K('word1'), 'msgstr': K('uno'), 'fuzzy': True},
       {'msgid': K('gone'), 'msgstr': K('ido')}]
CFGS = [('', {}), ('plaintext', {'plaintext': True}),
        ('code blocks', {'include_codeblocks': True}),
        ('catalogue', {'po_filepath': 'cat.po'}),
        ('catalogue, not obsolete', {'po_filepath': 'cat.po',
                                     'mark_not_found_as_obsolete': False}),
        ('catalogue, removed', {'po_filepath': 'cat.po',
                                'preserve_not_found': False})]


def world():
    return World({'a.md': '[ref-a]: href-a\n[ref-b]: href-b "title-b"\n',
                  'cat.po': OLD, 'ids': 'word0\nword2\n'}, ('.',))


def extracted(ctx, evs, kw, how='api'):
    """One tuple of entries for each outcome."""
    c = dict(parse=doc_parse(*evs), encode_fails=False, io_faults=False)
    a = dict(kw)
    res = []
    for s, v in api(ctx, 'md2po', [['a.md']], a, world(), st=ctx.state(),
                    **c):
        if isinstance(v, Exc):
            res.append('raises ' + exc_name(s, v))
        else:
            res.append(tuple(dict(e) for e in snapshot(s, v)[2]))
    return res


def known(es):
    return isinstance(es, tuple) and all(
        isinstance(e['msgid'], K) for e in es)


def without(es, ids, old, kw):
    """The entries expected when those identifiers are ignored."""
    out = []
    was = {e['msgid'] for e in old}
    for e in es:
        if e['msgid'].v in ids:
            if e['msgid'] not in was or isinstance(e.get('msgctxt'), K) \
                    and e['msgctxt'] != NONE or \
                    kw.get('preserve_not_found') is False:
                continue
            e = dict(e)
            e['?'] = True
        out.append(e)
    return out


def shown_entry(e):
    return '%s%s' % (e['msgid'].v, ' (obsolete)' if e.get(
        'obsolete') == TRUE else '')


def compare(ctx, name, base, got, ids, kw):
    old = OLD if 'po_filepath' in kw else []
    for es in got:
        if not known(es):
            if isinstance(es, str):
                ctx.finding('messages', name, es)
            else:
                ctx.I.note('message not known')
            continue
        best = None
        for b in base:
            if not known(b):
                continue
            d = difference(without(b, ids, old, kw), es, kw, old)
            if d is None:
                best = None
                break
            best = best or d
        if best:
            ctx.finding('messages', name, best)
        else:
            ctx.ok()


def difference(want, got, kw, old):
    a = [w['msgid'].v for w in want]
    b = [g['msgid'].v for g in got]
    if a != b:
        lost = [x for x in a if x not in b]
        more = [x for x in b if x not in a]
        return 'messages %s instead of %s' % (b, a) if not lost and \
            not more else 'lacks %s' % lost if lost else 'has %s' % more
    for w, g in zip(want, got):
        if w.pop('?', None):
            # in the catalogue but not found in the document
            mark = kw.get('mark_not_found_as_obsolete', True)
            if (g['obsolete'] == TRUE) != mark:
                return '%s is %sobsolete' % (w['msgid'].v, '' if not mark
                                             else 'not ')
            o = [e for e in old if e['msgid'] == w['msgid']][0]
            if g['msgstr'] != o['msgstr']:
                return '%s loses its translation' % w['msgid'].v
            continue
        for k in w:
            if w[k] != g.get(k):
                return '%s of %s changes' % (k, w['msgid'].v)
    return None


def messages(ctx, deep):
    docs = [(n, e) for n, e, *_ in BLOCKS + CODE + INLINE] + NOTES
    if deep:
        docs += [(n, e) for n, e, *_ in structures(False)]
    for n, e in docs:
        evs = words(e, 0)
        for cn, kw in CFGS:
            if cn and not deep and n not in dict(NOTES):
                continue
            if n == 'alike' and cn not in ('', 'catalogue') and not deep:
                continue
            ctx.begin('%s %s' % (n, cn))
            base = extracted(ctx, evs, kw)
            ids = []
            for b in base:
                if known(b):
                    ids += [x['msgid'].v for x in b if x['msgid'].v not in
                            ids and x['obsolete'] != TRUE]
            sets = [[i] for i in ids] + [ids] + [[
                'wor', 'other', 'word', 'word0x', 'WORD0', ' word1', 'word0 '
                'word1', '']]
            for ign in sets:
                for form in (list, frozenset):
                    if form is frozenset and len(ign) > 1:
                        continue
                    k = dict(kw, ignore_msgids=ign)
                    name = '%s, %s%signoring %s' % (n, cn, cn and ', ',
                                                    ign)
                    compare(ctx, name, base, extracted(ctx, evs, k),
                            set(ign), kw)
                    break
    # from the file of the command line
    evs = words(NOTES[-1][1], 0)
    ctx.begin('CLI')
    base = extracted(ctx, evs, {'po_filepath': 'cat.po'})
    got = []
    for s, v in cli(ctx, 'md2po', ['a.md', '--po-filepath', 'cat.po', '-s',
                                   '--ignore-msgids', 'ids'], world(),
                    st=ctx.state(), parse=doc_parse(*evs),
                    encode_fails=False, io_faults=False):
        for e in s.trace:
            if e[0] == 'po-save':
                got.append(tuple(dict(x) for x in e[4][2]))
            elif e[0] == 'write' and isinstance(e[2], Sym) and \
                    e[2].id[0] == 'postr':
                got.append(tuple(dict(x) for x in ctx.I.snapshots[
                    e[2].id[1]][2]))
    if not got:
        ctx.finding('messages', 'CLI', 'no catalogue is saved')
    compare(ctx, 'CLI --ignore-msgids', base, got, {'word0', 'word2'},
            {'po_filepath': 'cat.po'})


# ------------------------------------------------------------------- files
NAMES = ['z', 'a', 'dir/b', 'dir/a', 'dir/sub/c', 'other/a',
         'other/dir', '/abs/dir/x', 'dirt/a', 'other/sub/dir/y']
GIVEN = ['a.{x}', 'dir', 'dir/', 'dir/a.{x}', 'sub', 'dir/sub', 'other',
         '/abs/dir', '/abs', 'a', 'b', '.{x}', '*.{x}', 'dirt', 'other/sub',
         'nothing', 'other/sub/dir', './a.{x}', 'A.{x}', 'b.{x}']


def left(paths, ign):
    """Those that the documentation says are not ignored."""
    out = []
    for p in paths:
        d, f = os.path.split(p)
        if f in ign or p in ign or (d and (
                d in ign or os.path.basename(d) in ign)):
            continue
        out.append(p)
    return sorted(out)


def used(s, x, first):
    """Files of that extension read or opened, in order."""
    out = []
    for e in s.trace:
        p = None
        if e[0] == 'pofile' and x == 'po':
            p = e[1]
        elif e[0] == 'open' and not writes(e[2]):
            p = e[1]
        if isinstance(p, K) and isinstance(p.v, str) and \
                p.v.endswith('.' + x) and p.v != first and p.v not in out:
            out.append(p.v)
    return out


def files_ignored(ctx, deep):
    c = dict(parse=doc_parse(*PLAIN), encode_fails=False, io_faults=False,
             wrap=c02.no_wrap, feed=html_feed(ctx, *EVENTS['html']))
    for tool in ('md2po', 'po2md', 'mdpo2html'):
        x = 'md' if tool == 'md2po' else 'po'
        all_ = ['%s.%s' % (n, x) for n in NAMES]
        one = [[g.format(x=x)] for g in GIVEN] + [
            ['a.' + x, 'sub'], ['dir', 'other/a.' + x], []]
        fs = {n: 'text' if x == 'md' else PO for n in all_}
        if x == 'po':
            fs.update({'doc.md': 'text', 'page.html': 'text'})
        dirs = {os.path.dirname(n) for n in all_} | {'.', '/abs'}
        pats = [['*.%s' % x, 'dir/*.%s' % x, 'dir/sub/c.%s' % x,
                 'other/*.%s' % x, '/abs/dir/x.%s' % x,
                 'dirt/a.%s' % x, 'other/sub/dir/y.%s' % x]]
        pats.append(['dir/*.%s' % x])
        if deep:
            pats.append(['other/sub/dir/*.%s' % x, 'dir/a.%s' % x])
        for pat in pats:
            w = World(fs, dirs)
            first = {'md2po': None, 'po2md': 'doc.md',
                     'mdpo2html': 'page.html'}[tool]
            hits = []
            for p in pat:
                h = [n for n in all_ if globmatch_(n, p)]
                hits.append(h)
            for ign in one:
                kw = {'ignore': ign}
                name = '%s %s, ignoring %s' % (tool, pat[0] if len(
                    pat) == 1 else 'everywhere', ign)
                ctx.begin(name)
                if len(pat) == 1 and not deep and len(name) % 2 and not \
                        set(ign) & {'a.' + x, 'dir', 'dir/a.' + x}:
                    continue
                args = pat[0] if len(pat) == 1 else pat
                if tool == 'md2po':
                    outs = [('API', api(ctx, tool, [args], kw, w,
                                        st=ctx.state(), **c))]
                    ws = list(pat)
                    want = left(set(sum(hits, [])), ign)
                else:
                    outs = [('API', api(ctx, tool, [first, args], kw, w,
                                        st=ctx.state(), **c))]
                    ws = [first]
                    for p in pat:
                        ws += ['-p', p]
                    want = sum([left(h, ign) for h in hits], [])
                for g in ign:
                    ws += ['-i', g]
                outs.append(('CLI', cli(ctx, tool, ws, w, st=ctx.state(),
                                        **c)))
                for how, rs in outs:
                    for s, v in rs:
                        if isinstance(v, Exc) and exc_name(
                                s, v) != 'SystemExit':
                            ctx.finding('files', name + ', ' + how,
                                        'raises ' + exc_name(s, v))
                            continue
                        got = used(s, x, first)
                        if got != want:
                            ctx.finding('files', name + ', ' + how,
                                        'uses %s instead of %s' % (got,
                                                                   want))
                        else:
                            ctx.ok()


def globmatch_(n, p):
    from .world import globmatch
    return globmatch(n, p) if '*' in p else n == p


def check(ctx):
    deep = ctx.tier == 'thorough'
    messages(ctx, deep)
    files_ignored(ctx, deep)
