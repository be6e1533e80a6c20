"""C01: md2po honours the disable / enable commands.

Rule: the parser callbacks handed to the Markdown parser are interpreted
abstractly under the most general client (any sequence, of any length, of the
document items of the alphabet); in product with the reference automaton of
the documented commands, every item from every reachable boundary state must
save exactly the messages the automaton says are enabled and record the others
as disabled."""
from .extraction import *
from .docitems import *
from .structures import structures


class Obs:
    def __init__(self, saved, disabled, exc, found):
        self.saved, self.disabled = saved, disabled
        self.exc, self.found = exc, found


def observe_md2po(obj):
    def f(before, after, exc, item):
        def ents(items):
            out = []
            for r in items:
                e = entry(after, r)
                if 'msgid' in e:
                    out.append((ident(e['msgid']), e))
            return out
        return Obs(ents(po_items(after, obj)),
                   ents(attr_items(after, obj, 'disabled_entries')),
                   exc and exc_name(after, exc),
                   ents(attr_items(after, obj, 'found_entries')))
    return f


class Spec:
    def __init__(self, ref, compare, on_exc=None):
        self.ref, self.compare, self.on_exc = ref, compare, on_exc

    def init(self):
        return self.ref.init()

    def step(self, s, item, obs):
        s2, exp = self.ref.expected(s, item[2])
        if obs.exc is not None:
            return (None, self.on_exc(s, item, obs.exc)
                    if self.on_exc else None)
        return s2, self.compare(s, exp, obs)


def cmp_saved(s, exp, obs):
    want = [i for i, on, _, _ in exp if on]
    got = [i for i, _ in obs.saved]
    if got == want:
        dis = [i for i, on, _, _ in exp if not on]
        gd = [i for i, _ in obs.disabled]
        if dis != gd:
            return ('messages skipped by a command are %s but %s are '
                    'recorded as disabled' % (dis, gd))
        return None
    extra = [i for i in got if i not in want]
    miss = [i for i in want if i not in got]
    if extra:
        return 'message %s is extracted although %s' % (
            extra[0], 'extraction is disabled for it' if extra[0] in
            [i for i, on, _, _ in exp if not on] else 'no such text exists')
    if miss:
        return 'message %s is not extracted although extraction is ' \
            'enabled for it' % (miss[0],)
    return 'messages are extracted in the order %s instead of %s' % (
        got, want)


def drive(ctx, rule, kwargs, alphabet, spec, second=None):
    """Closure over the first file; returns the explorer."""
    hold = {}

    def parse(I, st, ref, args, kw, cx, node):
        cl = Client(I, args, kw)
        root = st.ghost['root'].a
        obj = st.ghost['root']
        c = Closure(ctx, cl, alphabet, spec, observe_md2po(obj), root,
                    list(st.heap))
        hold['c'] = c
        hold['states'] = c.run(st)
        return []
    for s, obj in md2po(ctx, ctx.state(), kwargs, parse=parse):
        s.ghost['root'] = obj
        extract(ctx, s, obj)
    c = hold.get('c')
    if c is None:
        ctx.I.note('parser never invoked')
        return None
    report(ctx, rule, c)
    return c


def report(ctx, rule, c, file='src/mdpo/md2po/__init__.py'):
    for path, err, s2, used, obs in c.bad:
        fns = [q for _, q in used if '.' in q]
        ctx.finding(rule, '%s [%s]' % (path[-1], err.split(' although')[0]
                                       .split(' but')[0]),
                    err, document=' ; '.join(path),
                    functions=['%s:%s' % u for u in used],
                    file=file)
        if len(ctx.findings) > 40:
            break
    ctx.scenario('%s: %d boundary states, %d transitions' % (
        rule, len(c.states), c.transitions))


def check(ctx):
    al = [item_cmd(n) for n in DIS] + BLOCKS + CODE + INLINE + \
        IN_CONTAINER + MULTI + [
            item_cmd('mdpo-include', 'included text')]
    if ctx.thorough:
        al += [item_cmd('mdpo-include-codeblock'),
               item_cmd('mdpo-context', 'some context')]
    for plain in (False, True):
        for code in ((False, True) if ctx.thorough else (True,)):
            ctx.begin()
            drive(ctx, 'extraction-commands', {
                'plaintext': K(plain), 'include_codeblocks': K(code),
                'location': FALSE},
                al, Spec(Cmds(code=code), cmp_saved))
    ctx.begin()
    title = [('title', 1)]
    drive(ctx, 'extraction-commands', {'plaintext': TRUE, 'location': FALSE},
          [item_cmd(n) for n in DIS] + BLOCKS[:1] + [
              ('link with title', P(A('some', T(0), title=txt(1))),
               title + m(0)),
              ('image with title', P(IMG('some', T(0), title=txt(1))),
               title + m(0)),
              ('titles in a list', UL(
                  LI(A('some', T(0), title=txt(1))), LI(T(2))),
               title + m(0, 2)),
              ('title in a quote', QUOTE(P(T(2)), P(A(
                  'some', T(0), title=txt(1)))), m(2) + title + m(0)),
          ], Spec(Cmds(), cmp_saved))
    ctx.begin()
    some = [item_cmd(n) for n in (DIS if ctx.thorough else DIS[:3])
            if n != 'mdpo-enable' or ctx.thorough]
    drive(ctx, 'extraction-commands', {
        'include_codeblocks': TRUE, 'location': FALSE},
        some + BLOCKS[:1] + structures(ctx.thorough),
        Spec(Cmds(code=True), cmp_saved))
