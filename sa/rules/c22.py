"""C22: events run the functions the user named.

Rule: the programs are interpreted abstractly with the events given as
functions, as 'path.py::function', as 'path.py::Class.method' and as lists of
them, in a small world with and without other imported modules of the same
name. The functions called must be, for each specification and in their
order, the member of that name of a module executed from that file; nothing
that is already imported is replaced; a specification that can not be
resolved is an error before anything is parsed or written."""
from .programs import *

MEMBERS = {'func', 'other', 'Class', 'method', 'second'}
TOOLS = ('md2po', 'po2md')
DOC = P(t('alfa')) + H(t('beta'))
EVFILES = ('ev.py', 'dir/ev.py', '/abs/ev.py', 'ev.two.py')


def member(v, name):
    return Sym(('member', v, name), None, v.labels, truthy=True)


def sym_attr(loaded):
    """loaded: the file of the modules of the same name already imported"""
    def h(I, st, v, name, cx, node):
        if v.id[0] == 'module':
            if name == '__file__':
                return [(st, v.id[2])]
        elif v.id[0] == 'sysmodule':
            if name == '__file__':
                if loaded in (None, False):
                    return [(st, I.exc(st, 'AttributeError', (K(name),), cx,
                                       node))]
                return [(st, K(loaded))]
        elif v.id[0] != 'member' or v.id[2] != 'Class':
            return None
        if name in MEMBERS:
            return [(st, member(v, name))]
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    return h


def known_functions(I, st, f, args, kw, cx, node):
    return [(st, NONE)] if f.id[0] in ('member', 'hook') else None


def run(ctx, tool, spec, loaded=False, words=None, event='text'):
    """-> [(state, value)] ; loaded False: no module of that name."""
    st = ctx.state()
    for p in EVFILES:
        for m in (p[:-3], p[:-3].replace('/', '.'), p[:-3].split('/')[-1]):
            st.facts[('P', 'in-sys.modules', K(m), ())] = loaded is not False
    w = World(dict({p: 'python' for p in EVFILES}, **{
        'in.md': None, 'cat.po': PO, 'in.html': 'x'}))
    cfg = dict(callsym=known_functions, sym_attr=sym_attr(loaded),
               parse=doc_parse(*DOC), feed=html_feed(ctx), encode_fails=False)
    if words is not None:
        return cli(ctx, tool, words, w, st=st, **cfg)
    args = ['text'] if tool == 'md2po' else ['text', ['cat.po']]
    return api(ctx, tool, args, {'events': {event: spec}}, w, st=st, **cfg)


def calls(s):
    out = []
    for e in s.trace:
        if e[0] == 'callsym' and e[1].id[0] in ('member', 'hook'):
            out.append(e[1])
    return out


def origin(v):
    """(file it comes from, names)"""
    names = ()
    while v.id[0] == 'member':
        names = (v.id[2],) + names
        v = v.id[1]
    if v.id[0] == 'module':
        return v.id[2], names
    return v, names


def good(v, path, names, loaded):
    o, n = origin(v)
    if n != names:
        return False
    if isinstance(o, K):
        return o.v == path or isinstance(o.v, str) and \
            o.v.endswith('/' + path)
    if isinstance(o, Sym) and o.id[:1] in (('abspath',), ('realpath',)):
        return o.id[1] == K(path)
    return isinstance(o, Sym) and o.id[0] == 'sysmodule' and loaded == path


def order(xs):
    return list(dict.fromkeys(xs))


def resolve(ctx, tool, where, spec, want, loaded, words=None):
    """want: [(path, names) | hook]"""
    ctx.ok()
    outs = run(ctx, tool, spec, loaded, words)
    done = False
    for s, v in outs:
        code = exit_of(s, v) if words is not None else None
        if isinstance(v, Exc) and (words is None or code not in (0, None)
                                   or exc_name(s, v) != 'SystemExit'):
            ctx.finding('resolve', where, 'raises %s' % exc_name(s, v))
            continue
        done = True
        got = order(calls(s))
        if len(got) != len(want) or not all(
                (x == y) if isinstance(y, Sym) else good(x, y[0], y[1],
                                                         loaded)
                for x, y in zip(got, want)):
            ctx.finding('resolve', where, 'the functions called are %s '
                        'instead of %s' % ([show(x) for x in got],
                                           [show(y) for y in want]))
        n = len([e for e in s.trace if e[0] == 'callsym' and
                 e[1].id[0] in ('member', 'hook')])
        if len(got) and n % len(got):
            ctx.finding('resolve', where, 'a function is not called for '
                        'every event')
        ex = [e[1] for e in s.trace if e[0] == 'exec-module']
        if loaded is False and len(set(ex)) != len(ex):
            ctx.finding('resolve', where, 'a module is executed twice')
        if loaded is False and len(ex) != len({y[0] for y in want
                                          if not isinstance(y, Sym)}):
            ctx.finding('resolve', where, 'the files executed are %s' % (
                ex,))
        if loaded is not False:
            for e in s.trace:
                if e[0] == 'sys-modules-write' and isinstance(
                        e[1], K) and ('P', 'in-sys.modules', e[1], ()) in \
                        ctx_facts(loaded, e[1]):
                    ctx.finding('replace', where, 'the imported module %r '
                                'is replaced' % e[1].v)
    if not done:
        ctx.I.note('no outcome')


def ctx_facts(loaded, name):
    for p in EVFILES:
        if name.v in (p[:-3], p[:-3].replace('/', '.'),
                      p[:-3].split('/')[-1]):
            return {('P', 'in-sys.modules', name, ())}
    return set()


def show(x):
    if isinstance(x, Sym):
        o, n = origin(x)
        return '%s::%s' % (o, '.'.join(n)) if n else str(x)
    return '%s::%s' % (x[0], '.'.join(x[1]))


BAD = [('no function', 'ev.py'), ('no file', 'none.py::func'),
       ('no such function', 'ev.py::nothing'),
       ('no such class', 'ev.py::Nothing.method'),
       ('no such method', 'ev.py::Class.nothing'),
       ('empty function', 'ev.py::'), ('empty file', '::func'),
       ('empty', ''), ('a folder', 'dir::func')]


def check(ctx):
    hook = Sym(('hook', 0), 'callable', {'hook'}, truthy=True)
    for tool in TOOLS:
        for path in EVFILES:
            for loaded in (False, None, (
                    '/' if path[0] == '/' else '') + 'somewhere/else.py',
                           ('/' if path[0] == '/' else '') + 'lib/' +
                           path.split('/')[-1],
                           ('/' if path[0] == '/' else '') + 'other/' +
                           path.lstrip('/'), path):
                ctx.begin('%s %s %s' % (tool, path, loaded))
                how = 'no module of that name' if loaded is False else \
                    'a module of that name without file' if loaded is None \
                    else 'a module of that name from ' + loaded
                one, two = path + '::func', path + '::other'
                m, m2 = path + '::Class.method', path + '::Class.second'
                f1, f2 = (path, ('func',)), (path, ('other',))
                c1 = (path, ('Class', 'method'))
                c2 = (path, ('Class', 'second'))
                for name, spec, want in (
                        ('function', one, [f1]), ('method', m, [c1]),
                        ('list', [one], [f1]),
                        ('functions', [two, one], [f2, f1]),
                        ('methods', [m, m2], [c1, c2]),
                        ('function and method', [one, m], [f1, c1]),
                        ('callable and function', [hook, one], [hook, f1]),
                        ('method and callable', [m, hook], [c1, hook])):
                    st = spec
                    resolve(ctx, tool, '%s: %s of %s, %s' % (
                        tool, name, path, how), st, want, loaded)
        ctx.begin(tool + ' two files')
        for spec, want in (
                (['ev.py::func', 'dir/ev.py::func'],
                 [('ev.py', ('func',)), ('dir/ev.py', ('func',))]),
                (['dir/ev.py::Class.method', 'ev.py::Class.method'],
                 [('dir/ev.py', ('Class', 'method')),
                  ('ev.py', ('Class', 'method'))])):
            resolve(ctx, tool, '%s: functions of two files, %s' % (
                tool, spec[0]), spec, want, False)
        ctx.begin(tool + ' callables')
        resolve(ctx, tool, tool + ': callable', hook, [hook], False)
        ctx.begin(tool + ' command line')
        words = ['in.md'] if tool == 'md2po' else ['in.md', '-p', 'cat.po']
        for loaded in (False, 'somewhere/else.py'):
            resolve(ctx, tool, '%s command line, %s' % (tool, loaded), None,
                    [('ev.py', ('func',)), ('dir/ev.py',
                                            ('Class', 'method'))],
                    loaded, words + ['-e', 'text: ev.py::func', '--event',
                                     'text:dir/ev.py::Class.method'])
        for name, spec in BAD:
            for how in ('function', 'list', 'command line'):
                ctx.begin('%s %s %s' % (tool, name, how))
                ctx.ok()
                wd = None
                sp = spec
                if how == 'command line':
                    wd = words + ['-e', 'text: ' + spec] + (
                        ['--save', '--po-filepath', 'out.po']
                        if tool == 'md2po' else ['--save', 'out.md'])
                elif how == 'list':
                    sp = ['ev.py::func', spec]
                where = '%s: %s, %s' % (tool, name, how)
                for s, v in run(ctx, tool, sp, False, wd):
                    if not isinstance(v, Exc):
                        if wd is None or exit_of(s, v) == 0:
                            ctx.finding('unresolved', where, 'no error')
                    elif exc_name(s, v) == 'SystemExit':
                        if exit_of(s, v) == 0:
                            ctx.finding('unresolved', where, 'no error')
                    elif wd is None and exc_name(s, v) not in (
                            'ValueError', 'FileNotFoundError'):
                        ctx.finding('unresolved', where, 'raises ' +
                                    exc_name(s, v))
                    if any(e[0] in ('parse', 'write') for e in s.trace):
                        ctx.finding('unresolved', where, 'the document is '
                                    'parsed or written before the error')
