"""C16: the programs print their result, and only that, on STDOUT.

Rule: every program is interpreted abstractly with every combination of
inputs, outputs and quiet mode, with a terminal or with the document in STDIN;
on every path that ends normally the text written to STDOUT must be the
result followed by a line break when it has to be printed and nothing
otherwise, and the API functions must not print."""
from .programs import *
from ..interp import concat
from ..m_polib import postr


def expected(ctx, r, s, v):
    o = r.opts if r.kind == 'cli' else r.opts[1]
    if r.kind == 'api' or o.get('quiet') or r.tool == 'md2po2md':
        return K('')
    if r.tool != 'md2po' and o.get('save'):
        return K('')
    res = v.items[0] if isinstance(v, Tup) else v
    if isinstance(res, Ref):
        res = postr(ctx.I, s, res, s.get(res.a))
    return concat([res, K('\n')])


def judge(ctx, r, s, v):
    how, code = exit_of(s, v)
    outs = [e for e in s.trace if e[0] == 'out' and e[1] == 'stdout']
    where = '%s %s' % (r.kind, r.tool)
    for e in outs:
        ctx.note_site('stdout', sitestr(e[3]))
    if how != 'return':
        if outs:
            ctx.finding('streams', where, 'a run that fails prints %r on '
                        'STDOUT (%s)' % (outs[0][2], r.name))
        return
    got = concat([e[2] for e in outs]) if outs else K('')
    want = expected(ctx, r, s, v)
    if got != want:
        ctx.finding('streams', where + (
            ' prints nothing' if got == K('') else ' prints' if want == K('')
            else ' prints something else'),
            'STDOUT is %s instead of %s (%s)' % (got, want, r.name),
            sites=[sitestr(e[3]) for e in outs])


def check(ctx):
    deep = ctx.tier == 'thorough'
    for r in runs(deep=deep, keep=lambda o: 'debug' not in o):
        for s, v in r.go(ctx):
            ctx.ok()
            judge(ctx, r, s, v)
        if r.kind == 'cli' and 'Some text' in r.name:
            r.world.stdin = 'Other text'
            a = ARGS[r.tool][-1]
            o = dict(r.opts)
            r.opts = dict(o, **{a: []})
            for s, v in r.go(ctx):
                ctx.ok()
                judge(ctx, r, s, v)
