"""C05: contexts and translator comments apply to exactly the next message.

Rule: as for C01/C02 (most-general client in product with the reference
automaton of the commands); every entry saved or skipped by md2po must carry
exactly the pending context and comment, and the text po2md writes must be the
translation recorded under exactly the pending context."""
from .extraction import *
from .docitems import *
from .c01 import Spec, drive
from . import c02

CTX = ('one context', 'other context')
COM = ('one comment', 'other comment')


def show(v):
    if v is None or v == NONE:
        return None
    return v.v if isinstance(v, K) else v


def cmp_attach(s, exp, obs):
    want = {}
    for i, on, cx, tc in exp:
        want[i] = (cx, tc)
    for i, e in obs.saved:
        if i not in want:
            continue
        got = (show(e.get('msgctxt')), show(e.get('comment')))
        if got[0] != want[i][0]:
            return ('message %s is extracted with context %s but the '
                    'pending context is %s' % (i, got[0], want[i][0]))
        if got[1] != want[i][1]:
            return ('message %s is extracted with comment %s but the '
                    'pending comment is %s' % (i, got[1], want[i][1]))
    for i, e in obs.disabled:
        if i in want and show(e.get('msgctxt')) != want[i][0]:
            return ('disabled message %s is recorded with context %s but '
                    'the pending context is %s' % (
                        i, show(e.get('msgctxt')), want[i][0]))
    return None


def ctx_trans(cx, i):
    return Sym(('tr', (cx, i)), 'str', {('tr', (cx, i))}, generic=True)


def cmp_lookup(s, exp, obs):
    want = {(cx, i) for i, on, cx, tc in exp if on}
    for w in sorted(want, key=str):
        if w not in obs.trans:
            other = sorted((x for x in obs.trans if x[1] == w[1]), key=str)
            return ('message %s in context %s is not replaced by its '
                    'translation in that context but by %s' % (
                        w[1], w[0], other or 'its source text'))
    for x in sorted(obs.trans, key=str):
        if x not in want:
            return ('the translation of message %s for context %s is '
                    'written but that context is not the pending one' % (
                        x[1], x[0]))
    return None


ITEMS = [b for b in BLOCKS if b[0] != 'two-line paragraph'] + CODE + INLINE


def check(ctx):
    cmds = [item_cmd('mdpo-context', c) for c in CTX] + \
        [item_cmd('mdpo-translator', c) for c in COM]
    cmds = [(n + ' ' + a[0][2], ev, a) for n, ev, a in cmds]
    dis = [item_cmd(n) for n in ('mdpo-disable-next-block', 'mdpo-disable',
                                 'mdpo-enable')]
    al = cmds + dis + ITEMS
    if ctx.thorough:
        al += [item_cmd('mdpo-enable-next-block')]
    drive(ctx, 'extracted-context', {
        'include_codeblocks': TRUE, 'location': FALSE}, al,
        Spec(Cmds(code=True), cmp_attach))
    ctx.begin()
    ents = []
    for i in range(4):
        ents.append({'msgid': txt(i), 'msgstr': ctx_trans(None, i)})
        for c in CTX:
            ents.append({'msgid': txt(i), 'msgctxt': K(c),
                         'msgstr': ctx_trans(c, i)})
    al2 = cmds[:2] + [x for x in al[4:] if x not in INLINE]
    c02.drive(ctx, 'looked-up-context', {}, al2,
              Spec(Cmds(translate=True), cmp_lookup), ents)
