"""C12: nothing is written that the user did not ask for.

Rule: every program is interpreted abstractly (command line and API) with
every combination of inputs and output options of a small world; on every
path, the effects on the file system recorded (files opened for writing,
directories created, files removed, renamed, copied or changed) must be on the
outputs requested, and on every path that ends normally each output requested
must have been written, unless the path established that its content is the
same."""
from .programs import *

EFFECTS = ('remove', 'rename', 'copy', 'chmod')


def effects(st):
    for e in st.trace:
        if e[0] == 'open' and writes(e[2]):
            yield 'writes', e[1], e[4]
        elif e[0] == 'mkdir':
            yield 'creates', e[1], e[-1]
        elif e[0] in EFFECTS:
            yield e[0] + 's', e[1], e[-1]


def pathname(p):
    while isinstance(p, Sym) and p.id[0] in ('abspath', 'realpath', 'normpath'):
        p = p.id[1]
    return p.v if isinstance(p, K) else p


def judge(ctx, r, s, v):
    for what, p, site in effects(s):
        n = pathname(p)
        ctx.note_site('effect', sitestr(site))
        allowed = r.targets if what == 'writes' else \
            r.dirs if what == 'creates' else ()
        if n not in allowed:
            ctx.finding('unrequested-write', '%s %s: %s [%s]' % (
                r.kind, r.tool, what, construct_of(site)),
                '%s the path %r, which was not requested (%s)' % (
                    what, n, r.name), site=sitestr(site))
    how, code = exit_of(s, v)
    if how == 'return':
        for t in sorted(r.targets):
            if not written(s, K(t)) and not unchanged(s, t):
                ctx.finding('requested-write', '%s %s' % (r.kind, r.tool),
                            'the output %r is not written (%s)' % (
                                t, r.name))


def unchanged(s, t):
    """Only a file that has been compared may be left as it is."""
    return any(e[0] == 'read' and e[1] == K(t) for e in s.trace)


def check(ctx):
    for r in runs(deep=ctx.tier == 'thorough'):
        for s, v in r.go(ctx):
            ctx.ok()
            judge(ctx, r, s, v)
