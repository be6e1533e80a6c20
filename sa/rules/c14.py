"""C14: check mode reports exactly the changes of the files saved.

Rule: each command line program is interpreted abstractly on a fixed document
three or more times: first without output files, to know the contents it
saves; then, in check mode, for each assignment of its output files to
"absent", "same content" and "another content". The exit code must be 2 if
and only if some output was absent or different, and the final content of each
output must be the new one. Without check mode the code must be 0."""
from .programs import *
from . import c02

OTHER = K('Another content\n')
DOC = [P(t('Some text')), P(t('Other text'))]
PAGE = [c03.tag('p', ('data', K('Some text'), {}))]


def run(ctx, r, opts, world, empty=False):
    st = ctx.state()
    return main(ctx, r.tool, opts, world, st=st,
                parse=doc_parse(*([] if empty else DOC)),
                feed=html_feed(ctx, *([] if empty else PAGE)),
                wrap=c02.no_wrap)


def contents(s, targets):
    w = {}
    for e in s.trace:
        if e[0] == 'write' and isinstance(e[1], K):
            w[e[1].v] = e[2]
    return tuple(w.get(t) for t in targets)


def world_with(r, targets, states, new):
    f = files()
    for t in targets:
        f.pop(t, None)
    for t, x, n in zip(targets, states, new):
        if x == 'absent':
            continue
        f[t] = n if x == 'same' else OTHER
    w = World(f, DIRS)
    for t, x in zip(targets, states):
        if x == 'different' and t.endswith('.po'):
            w.files[t] = PO
    return w


def selected(o):
    return (o.get('save') or 'langs' in o) and 'debug' not in o and \
        'no_obsolete' not in o and 'quiet' not in o and \
        'mo_filepath' not in o and not o.get('check_saved_files_changed') \
        and o.get('po_filepath') != 'new.po' and o.get('save') not in (
            'new.md', 'new.html')


def check(ctx):
    deep = ctx.tier == 'thorough'
    for n, r in enumerate(runs(deep=deep, kinds=('cli',), keep=selected)):
        once(ctx, deep, r, False)
        if deep or len(r.opts) < 5:
            once(ctx, deep, r, True)


def once(ctx, deep, r, empty):
    targets = sorted(r.targets)
    ctx.begin(r.name + (', nothing to write' if empty else ''))
    base = {contents(s, targets) for s, v in run(
        ctx, r, r.opts, world_with(r, targets, ['absent'] * 9, [None] * 9),
        empty)}
    if len(base) != 1 or None in next(iter(base)):
        return
    new = next(iter(base))
    kinds_ = ['absent', 'same', 'different']
    combos = list(itertools.product(kinds_, repeat=len(targets)))
    if len(combos) > 27 and not deep:
        combos = [c for c in combos if sum(x != 'same' for x in c) <= 1]
    elif len(combos) > 81:
        combos = [c for c in combos if sum(x != 'same' for x in c) <= 2]
    for states in combos:
        # the contents change with the previous catalogue
        for checking in (True, False):
            o = dict(r.opts)
            if checking:
                o['check_saved_files_changed'] = True
            w = world_with(r, targets, states, new)
            for s, v in run(ctx, r, o, w, empty):
                ctx.ok()
                judge(ctx, r, s, v, targets, states, new, checking, w)


def judge(ctx, r, s, v, targets, states, new, checking, w):
    how, x = exit_of(s, v)
    if any(k[0] == 'C' and y == OTHER for k, y in s.facts.items()):
        return      # assumed to be the same content
    code = v if how == 'return' else None
    if isinstance(v, Tup):
        code = v.items[-1]
    name = '%s with %s' % (r.name, ', '.join(
        '%s %s' % (t, y) for t, y in zip(targets, states)))
    want = 2 if checking and any(y != 'same' for y in states) else 0
    if not isinstance(code, K) or code.v != want:
        got = code if how == 'return' else x
        ctx.finding('check-mode', '%s%s: %s' % (
            r.tool, '' if checking else ' without check mode',
            'unchanged' if want == 0 else 'changed'),
            'the exit code is %s instead of %d (%s)' % (got, want, name))
    for t, y, n in zip(targets, states, new):
        last = w.last(s, K(t))
        if t.endswith('.po') and y == 'different':
            # the entries of the other catalogue are kept
            good = isinstance(last, Sym) and last.id[0] == 'postr'
        else:
            good = last == n
        if how == 'return' and not good:
            ctx.finding('check-mode', '%s: content' % r.tool,
                        '%s ends with %s instead of %s (%s)' % (
                            t, last, n, name))
