"""C29: references lead to the block of each message.

Rule: md2po is interpreted abstractly on files with every structure of
blocks; each entry extracted must have exactly one reference: the file where
the message is first found, and the number and kind of the top-level block
(counted from 1 in its file, thematic breaks aside; a quote in a list counts
too) that contains it. There is none with location off, nor for a content that is not in a file."""
from .programs import *
from .c37 import docs_attributes, docs_sequences
from .structures import structures
from . import c28, c38

KIND = {'QUOTE': 'quote', 'UL': 'unordered list', 'OL': 'ordered list',
        'H': 'header', 'CODE': 'code', 'HTML': 'html', 'P': 'paragraph',
        'TABLE': 'table'}
CONTENT = {'a.md': 'content a', 'b.md': 'content b'}


def words(evs, base):
    """Each text is a word that is in no other."""
    out = []
    for e in c28.number(evs, base):
        if e[0] == 't' and isinstance(e[2], Sym):
            ls = [l[1] for l in e[2].labels if isinstance(l, tuple)]
            e = (e[0], e[1], K('w%dx' % (ls[0] if ls else 0)))
        out.append(e)
    return out


def places(evs):
    """word -> the (number, kind) of its block

    A quote in a list is a block of its own (an existing test requires it);
    the text of the list after it may be referred to either."""
    res, stack, n, here = {}, [], 0, ()
    for e in evs:
        if e[0] == 'eb' and e[1] != 'DOC':
            quote = e[1] == 'QUOTE' and 'QUOTE' not in stack
            if e[1] in KIND and (not stack or quote):
                n += 1
                if not stack:
                    outer = ((n, KIND[e[1]]),)
                here = ((n, KIND[e[1]]),)
            stack.append(e[1])
        elif e[0] == 'lb' and e[1] != 'DOC':
            stack.pop()
            if e[1] == 'QUOTE' and stack and 'QUOTE' not in stack:
                here = outer + here
        texts = [e[2]] if e[0] == 't' else [
            v[1] for v in e[2].values() if isinstance(v, tuple)]
        for x in texts:
            x = x.v if isinstance(x, K) else x
            if isinstance(x, str) and x.strip():
                res.setdefault(x, here)
    return res


def docs(deep):
    for n, e, _ in BLOCKS + CODE + INLINE:
        yield n, e
    for n, e, _ in structures(deep):
        yield n, e
    for n, e in docs_sequences(3 if deep else 2):
        yield n, e
    for n, e in (
            ('items after nested numbers', OL(LI(T(0), OL(LI(T(1))), ),
                                              LI(T(2), UL(LI(T(3)))))),
            ('a heading after nested numbers', OL(LI(
                P(T(0)), OL(LI(T(1))), H(T(2)), P(T(3)),
                FENCED(T(4)), TABLE([T(5)], [T(6)]), QUOTE(P(T(7))),
                UL(LI(T(8)))), tight=False)),
            ('a quote in an item', UL(LI(P(T(0)), QUOTE(P(T(1))), P(T(2))),
                                      tight=False)),
            ('a quote in a numbered item', OL(LI(
                P(T(0)), QUOTE(P(T(1)), OL(LI(T(2))), P(T(3)), H(T(4)),
                               UL(LI(T(5)))), P(T(6)), H(T(7))),
                tight=False)),
            ('quotes in a quote', QUOTE(QUOTE(P(T(0))), H(T(1)), UL(LI(T(2))),
                                        OL(LI(T(3))), FENCED(T(4)),
                                        TABLE([T(5)], [T(6)]), P(T(7)))),
            ('commands', HTML('<!-- mdpo-context foo -->') + P(T(0)) +
             UL(LI(T(1), HTML('<!-- mdpo-disable-next-block -->'), T(2))) +
             HTML('<!-- mdpo-disable -->') + P(T(3)) +
             HTML('<!-- mdpo-enable -->') + P(T(4))),
            ('a tight item and a code block', UL(LI(T(0), FENCED(T(1)))) +
             OL(LI(T(2), FENCED(T(3)))))):
        yield n, e


CONFIGS = [{}, {'include_codeblocks': True}, {'plaintext': True},
           {'command_aliases': {'a': 'mdpo-context'},
            'mark_not_found_as_obsolete': False}]


def entries(s, v):
    o = s.get(v.a).attrs
    for r in s.get(o['$list'].a).items:
        a = s.get(r.a).attrs
        occ = a.get('occurrences')
        o = s.get(occ.a) if isinstance(occ, Ref) else None
        yield a.get('msgid'), o.items if isinstance(o, HSeq) else None


def run(ctx, names, evs, kw):
    def parse(I, s, ref, args, k, cx, node):
        for n, c in CONTENT.items():
            if args[0] == K(c):
                return [(s2, e if isinstance(e, Exc) else NONE)
                        for s2, e in Client(I, args, k).run(s, evs[n])]
        if args[0] == K('some content'):
            return [(s2, e if isinstance(e, Exc) else NONE)
                    for s2, e in Client(I, args, k).run(s, evs['a.md'])]
        I.note('the content parsed is not that of a file')
        return []
    return api(ctx, 'md2po', [names], kw, World(CONTENT, ['.']),
               st=ctx.state(), parse=parse, encode_fails=False)


def judge(ctx, what, names, evs, kw, located):
    outs = run(ctx, names, evs, kw)
    if not outs:
        ctx.I.note('no outcome')
    for s, v in outs:
        ctx.ok()
        if isinstance(v, Exc):
            ctx.finding('reference', what, 'raises ' + exc_name(s, v))
            continue
        where = {}
        for n in ('b.md', 'a.md'):
            where.update((w, (n, p)) for w, p in places(evs[n]).items())
        for m, occ in entries(s, v):
            if not isinstance(m, K):
                ctx.I.note('message not known: %s' % m)
                continue
            if not located:
                if occ:
                    ctx.finding('reference', what, 'the message %s has the '
                                'references %s' % (m, occ))
                continue
            found = {(n, ps) for w, (n, ps) in where.items() if w in m.v}
            want = {Tup((K(n), K('block %d (%s)' % p)))
                    for n, ps in found for p in ps}
            if m.v.startswith('[') and ']: ' in m.v or not want:
                continue  # link references are of the whole document
            if len({(n, ps[0]) for n, ps in found}) > 1:
                ctx.finding('reference', what, 'the message %s joins texts '
                            'of several blocks' % m)
            elif occ is None or len(occ) != 1 or occ[0] not in want:
                ctx.finding('reference', what, 'the message %s has the '
                            'reference %s instead of %s' % (
                                m, ', '.join(map(str, occ or ())),
                                ', '.join(map(str, want))))


def check(ctx):
    deep = ctx.tier == 'thorough'
    for i, kw in enumerate(CONFIGS):
        ctx.begin('references, %s' % (sorted(kw) or 'default'))
        for n, e in docs(deep and not i) if deep or not i else list(
                docs(False))[i::3]:
            a = words(P(T(90)) + flat([e]) + HR() + P(T(91)), 0)
            b = words(flat([e]) + H(T(92)), 200)
            judge(ctx, n, ['a.md', 'b.md'], {'a.md': a, 'b.md': b}, kw, True)
    ctx.begin('no references')
    for n, e in list(docs(False))[::1 if deep else 3]:
        d = {'a.md': words(flat([e]), 0), 'b.md': words(flat([e]), 200)}
        judge(ctx, n, ['a.md', 'b.md'], d, {'location': False}, False)
        judge(ctx, n, 'some content', d, {}, False)
