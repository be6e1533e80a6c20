"""C21: custom events see every step and can skip it, and only it.

Rule: md2po and po2md are interpreted abstractly on documents with every kind
of block, span and command, with an opaque function in each event. The calls
recorded must be exactly one per parser event (command, message, reference),
in order and with its arguments; the result must be that of the run without
events when the functions return anything but False; when they return False
for one step, it must be the result of the same document without that step
(the oracle is another abstract run)."""
from .programs import *
from . import c02
from .c28 import elements

W = ['alfa', 'beta', 'gamma', 'delta', 'sigma']
REFS = ('[ref-a]: href-a\n[ref-b]: href-b "title-b"\n')
PARSER = {'enter_block': 'eb', 'leave_block': 'lb', 'enter_span': 'es',
          'leave_span': 'ls', 'text': 't'}


def concrete(evs):
    """Generic texts replaced by words."""
    out, n = [], 0
    for e in flat(evs):
        if e[0] == 't' and isinstance(e[2], Sym):
            e = (e[0], e[1], K(W[n % len(W)]))
            n += 1
        out.append(e)
    return out


def documents(deep):
    docs = [(n, e) for n, e, _ in BLOCKS + CODE + INLINE + IN_CONTAINER]
    els = elements(('latex_math_spans', 'wikilinks', 'strikethrough'))
    docs += [(n, P(*e)) for n, e in els.items()]
    docs = [(n, concrete(e)) for n, e in docs]
    if not deep:
        return docs
    return docs + [(a + ', ' + b, x + y) for (a, x), (b, y) in
                   itertools.product(docs[:24], docs[:24])]


ENTRIES = [{'msgid': K(w), 'msgstr': K(w.upper())} for w in W]


class Tool:
    def __init__(self, ctx, tool, kw=()):
        self.ctx, self.tool, self.kw = ctx, tool, dict(kw)

    def run(self, evs, events=None, returns=None, content=REFS):
        """-> {(result, calls)}"""
        ctx = self.ctx
        st = ctx.state()
        kw = dict(self.kw)
        if events is not None:
            fs = {}
            for name, n in events.items():
                ss = [Sym(('hook', name, i), 'callable', {'hook'}, truthy=True)
                      for i in range(n)]
                fs[name] = ss[0] if n == 1 else ss
            kw['events'] = fs

        def callsym(I, s, f, args, k, cx, node):
            if f.id[0] != 'hook':
                return None
            n = sum(1 for e in s.trace if e[0] == 'callsym' and e[1] == f)
            return [(s, returns(f.id[1], f.id[2], n - 1))]
        if self.tool == 'md2po':
            outs = api(ctx, 'md2po', [content], dict(kw, location=False),
                       World({}), st=st, callsym=callsym,
                       parse=doc_parse(*evs), wrap=c02.no_wrap)
        else:
            outs = api(ctx, 'po2md', [content, ['cat.po']], kw,
                       World({'cat.po': ENTRIES}), st=st, callsym=callsym,
                       parse=doc_parse(*evs), wrap=c02.no_wrap)
        res = set()
        for s, v in outs:
            calls = tuple((e[1].id[1], e[1].id[2]) + tuple(
                frozen(s, a) for a in e[2][1:])
                for e in s.trace
                if e[0] == 'callsym' and e[1].id[0] == 'hook')
            res.add((self.result(s, v), calls))
        return res

    def result(self, s, v):
        if isinstance(v, Exc):
            return ('raises', exc_name(s, v))
        if self.tool == 'po2md':
            return ('text', v)
        from ..m_polib import snapshot
        return ('po', snapshot(s, v)[2])


def frozen(s, v):
    from ..m_core import freeze
    if isinstance(v, Ref) and repr(v).startswith('&ev.'):
        return 'details'
    return freeze(s, v)


def at(name, k, i=0):
    """False in the k-th call of that event."""
    return lambda n, j, c: FALSE if n == name and j == i and (
        k is None or c == k) else NONE


def results(rs):
    return {r for r, _ in rs}


def calls_of(rs):
    return {c for _, c in rs}


def check_doc(ctx, T, doc, evs, deep):
    where = '%s: %s' % (T.tool + (' plaintext' if T.kw.get('plaintext')
                                  else ''), doc)
    base = T.run(evs)
    for name, kind in PARSER.items():
        idx = [i for i, e in enumerate(evs) if e[0] == kind]
        rs = T.run(evs, {name: 1}, lambda n, j, c: [
            NONE, TRUE, K(0), K('')][c % 4])
        ctx.ok()
        if results(rs) != results(base):
            ctx.finding('event-transparent', '%s [%s]' % (where, name),
                        'the result changes although the functions of %s do '
                        'not return False' % name)
        want = tuple((name, 0) + argument(evs[i]) for i in idx)
        if calls_of(rs) != {want} and not any(
                r[0] == 'raises' for r in results(base)):
            ctx.finding('event-calls', '%s [%s]' % (where, name),
                        'the calls are %s instead of %s' % (
                            sorted(map(str, calls_of(rs)))[:1], want))
        ks = range(len(idx)) if deep else sorted({0, len(idx) - 1} & set(
            range(len(idx))))
        for k in ks:
            got = results(T.run(evs, {name: 1}, at(name, k)))
            less = evs[:idx[k]] + evs[idx[k] + 1:]
            want = results(T.run(less))
            ctx.ok()
            if got != want:
                ctx.finding('event-skip', '%s [%s]' % (where, name),
                            'skipping the %s %r does not give what the '
                            'document without it gives: %s instead of %s' % (
                                name, evs[idx[k]][1], show(got),
                                show(want)))
        if idx:
            for i in (0, 1):
                rs = T.run(evs, {name: 2}, at(name, None, i))
                got = results(rs)
                want = results(T.run([e for e in evs if e[0] != kind]))
                ctx.ok()
                if got != want:
                    ctx.finding('event-skip', '%s [%s, %s]' % (
                        where, name, 'function %d of 2' % (i + 1)),
                        'a step is not skipped although a function returns '
                        'False')
                n = [sum(1 for c in cs if c[1] == j) for cs in calls_of(rs)
                     for j in (0, 1)]
                if len(set(n)) > 1:
                    ctx.finding('event-calls', '%s [%s, two functions]' % (
                        where, name), 'one of the functions is not called')
    ctx.ok()
    got = T.run(evs, {'msgid': 1}, lambda n, j, c: NONE)
    if results(got) != results(base):
        ctx.finding('event-transparent', '%s [msgid]' % where,
                    'the result changes although the function of msgid does '
                    'not return False')
    if T.tool == 'md2po' and not any(r[0] == 'raises' for r in results(base)):
        messages(ctx, T, where, evs, base, got)
    dbg = Tool(ctx, T.tool, dict(T.kw, debug=True)).run(evs)
    ctx.ok()
    if results(dbg) != results(base):
        ctx.finding('event-debug', where, 'the result changes in debug mode: %s instead '
                    'of %s' % (show(results(dbg)), show(results(base))))


def messages(ctx, T, where, evs, base, got):
    items = next(iter(results(base)))[1]
    calls = next(iter(calls_of(got)))
    ids = [dict(e)['msgid'] for e in items]
    called = [m for m in dict.fromkeys(c[2] for c in calls) if m != K('')]
    if [m for m in called if m in ids] != ids:
        ctx.finding('event-calls', where + ' [msgid]', 'the messages seen '
                    'are %s instead of %s' % (called, ids))
        return
    for k, c in enumerate(calls):
        if c[2] not in ids:  # empty or disabled
            continue
        rs = results(T.run(evs, {'msgid': 1}, at('msgid', k)))
        if sum(1 for x in calls if x[2] == c[2]) > 1:
            continue
        want = {('po', tuple(e for e in items if dict(e)['msgid'] != c[2]))}
        ctx.ok()
        if rs != want:
            ctx.finding('event-skip', where + ' [msgid]',
                        'skipping the message %s gives %s' % (
                            c[2], show(rs)))


def argument(ev):
    kind, name, x = ev
    if kind == 't':
        return (Ext('md4c.TextType.' + name), x)
    cls = 'BlockType' if kind in ('eb', 'lb') else 'SpanType'
    return (Ext('md4c.%s.%s' % (cls, name)), 'details')


def show(rs):
    out = []
    for r in rs:
        if r[0] == 'po':
            out.append(str([dict(e).get('msgid') for e in r[1]]))
        else:
            out.append(str(r[1]))
    return ' or '.join(sorted(out))


CMDS = [('mdpo-disable', None), ('mdpo-enable', None),
        ('mdpo-disable-next-block', None), ('mdpo-enable-next-line', None),
        ('mdpo-context', 'some context'), ('mdpo-translator', 'some note'),
        ('mdpo-include', 'some text'), ('mdpo-include-codeblock', None),
        ('mdpo-disable-codeblock', None), ('mdpo-include-codeblocks', None),
        ('mdpo-disable-codeblocks', None), ('alias', None)]
NOTHING = {'md2po': '<!-- mdpo-nothing -->',
           'po2md': '<!-- mdpo-nothing -->'}


def commands(ctx, T):
    T = Tool(ctx, T.tool, dict(T.kw, command_aliases={
        'alias': 'mdpo-disable'}))
    tail = flat(P(t('alfa')) + FENCED(t('beta')) + P(t('gamma')))
    for (a, x), (b, y) in itertools.product(CMDS, CMDS):
        one, two = (flat(HTML('<!-- %s -->' % (
            n if v is None else n + ' ' + v))) for n, v in ((a, x), (b, y)))
        no = flat(HTML(NOTHING[T.tool]))
        evs = one + two + tail
        where = '%s: %s, %s' % (T.tool, a, b)
        rs = T.run(evs, {'command': 1}, lambda n, j, c: NONE)
        ctx.ok()
        canon = [('mdpo-disable' if n == 'alias' else n, v, n)
                 for n, v in ((a, x), (b, y))]
        want = tuple(('command', 0, K(c), NONE if v is None else K(v), K(n))
                     for c, v, n in canon)
        if calls_of(rs) != {want}:
            ctx.finding('event-calls', where + ' [command]', 'the calls are '
                        '%s' % sorted(map(str, calls_of(rs)))[:1])
        if results(rs) != results(T.run(evs)):
            ctx.finding('event-transparent', where + ' [command]',
                        'the result changes although the function does not '
                        'return False')
        for k, less in ((0, no + two + tail), (1, one + no + tail)):
            got = results(T.run(evs, {'command': 1}, at('command', k)))
            want = results(T.run(less))
            ctx.ok()
            if got != want:
                ctx.finding('event-skip', where + ' [command]',
                            'skipping command %d gives %s instead of %s' % (
                                k, show(got), show(want)))


def references(ctx, T):
    evs = flat(P(t('alfa'), A('other', t('beta'))))
    lines = REFS.splitlines(True)
    for k in range(2):
        rs = T.run(evs, {'link_reference': 1}, at('link_reference', k))
        want = T.run(evs, content=lines[1 - k])
        ctx.ok()
        if results(rs) != results(want):
            ctx.finding('event-skip', '%s: reference %d [link_reference]' % (
                T.tool, k), 'skipping it gives %s instead of %s' % (
                    show(results(rs)), show(results(want))))
        got = calls_of(rs)
        exp = {(('link_reference', 0, K('ref-a'), K('href-a'), NONE),
                ('link_reference', 0, K('ref-b'), K('href-b'),
                 K('title-b')))}
        if got != exp:
            ctx.finding('event-calls', T.tool + ' [link_reference]',
                        'the calls are %s' % sorted(map(str, got))[:1])
    for i in (0, 1):
        rs = T.run(evs, {'link_reference': 2}, at('link_reference', 1, i))
        want = T.run(evs, content=lines[0])
        two_functions(ctx, T, 'link_reference', i, rs, want)
        ev2 = flat(P(t('alfa')) + P(t('beta')))
        if T.tool == 'md2po':
            two_functions(ctx, T, 'msgid', i, T.run(
                ev2, {'msgid': 2}, lambda n, j, c: FALSE if j == i else NONE),
                T.run([]))
        hide = flat(HTML('<!-- mdpo-disable -->')) + ev2
        two_functions(ctx, T, 'command', i, T.run(
            hide, {'command': 2}, at('command', 0, i)),
            T.run(flat(HTML(NOTHING[T.tool])) + ev2))
    rs = T.run(evs, {'link_reference': 2}, lambda n, j, c: TRUE)
    if results(rs) != results(T.run(evs)):
        ctx.finding('event-transparent', T.tool + ' [link_reference]',
                    'the result changes although the function does not '
                    'return False')


def two_functions(ctx, T, name, i, rs, want):
    where = '%s: function %d of 2 [%s]' % (T.tool, i + 1, name)
    ctx.ok()
    if results(rs) != results(want):
        ctx.finding('event-skip', where, 'a step is not skipped although the '
                    'function returns False: gives %s instead of %s' % (
                        show(results(rs)), show(results(want))))
    for cs in calls_of(rs):
        n = [sum(1 for c in cs if c[1] == j) for j in (0, 1)]
        if n[0] != n[1]:
            ctx.finding('event-calls', where, 'one of the functions is not '
                        'called')


def check(ctx):
    deep = ctx.tier == 'thorough'
    tools = [Tool(ctx, 'md2po'), Tool(ctx, 'po2md'),
             Tool(ctx, 'md2po', {'plaintext': True})]
    for T in tools:
        for n, evs in documents(deep):
            ctx.begin('%s: %s' % (T.tool, n))
            check_doc(ctx, T, n, evs, deep)
    for T in tools[:2]:
        ctx.begin(T.tool + ': commands')
        commands(ctx, T)
        ctx.begin(T.tool + ': references')
        references(ctx, T)
