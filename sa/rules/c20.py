"""C20: the environment is left as it was found.

Rule: each command line program and API function is interpreted abstractly
with the variable it uses to mark itself as running present or absent before,
and with failures at every modelled point (invalid values, contents that can
not be encoded, files that can not be opened, an exception in the parsing);
on every path the environment variables at the end must be those at the
beginning."""
from .programs import *
from .c13 import failing
from . import c19


def initial(ctx):
    return ctx.state().get(('environ',)) if ctx.I.base.get(
        ('environ',)) else None


def judge(ctx, what, s, v, name):
    base = ctx.I.base.get(('environ',))
    if base is None:
        return
    now = s.get(('environ',))
    for k, x in now.items:
        was = any(f[0] == 'I' and f[1] == k and y for f, y in
                  s.facts.items() if len(f) > 1)
        same = isinstance(x, Sym) and 'env' in kinds(x.labels)
        if not (was and same):
            ctx.finding('environment', '%s [%s]' % (
                what, exit_of(s, v)[0]), 'the variable %s ends with %s (%s)'
                % (k, x, name))
    for f, y in s.facts.items():
        if f[0] == 'I' and len(f) > 2 and y and isinstance(f[2], Sym) and \
                f[2].id[0] == 'envkey':
            if removed(s, f[1], now):
                ctx.finding('environment', '%s [%s]' % (
                    what, exit_of(s, v)[0]), 'the variable %s is removed '
                    '(%s)' % (f[1], name))
    if now.rest != base.rest:
        ctx.finding('environment', '%s [%s]' % (what, exit_of(s, v)[0]),
                    'the environment is replaced (%s)' % name)


def removed(s, key, now):
    if any(k == key for k, _ in now.items):
        return False
    muts = [e for e in s.trace if e[0] == 'mutate' and
            e[1] == 'module:environ']
    return bool(muts) and muts[-1][2] not in ('item',)


def check(ctx):
    deep = ctx.tier == 'thorough'
    seen = set()
    for r in runs(deep=deep):
        key = (r.tool, r.kind, bool(r.targets), 'Some' in r.name,
               'check' in r.name, 'no_fuzzy' in r.name)
        if key in seen and not deep:
            continue
        seen.add(key)
        for s, v in r.go(ctx, encode_fails=True, io_faults=True,
                         parse=failing(PLAIN)):
            ctx.ok()
            judge(ctx, '%s %s' % (r.kind, r.tool), s, v, r.name)
    for tool, base in c19.BASE.items():
        for d, x, bad in c19.cases_of(tool):
            if bad is None:
                continue
            name = '%s %s=%r' % (tool, d, x)
            ctx.begin(name)
            w = World(files(), DIRS)
            for s, v in main(ctx, tool, dict(base, **{d: x}), w,
                             parse=doc_parse(*PLAIN),
                             feed=html_feed(ctx, *EVENTS['html'])):
                ctx.ok()
                judge(ctx, 'cli ' + tool, s, v, name)
