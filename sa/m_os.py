"""os, sys, files, pathlib, tempfile, shutil, glob."""
import os.path
import posixpath

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HMod, HObj,
    HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .interp import concat
from .m_core import is_strish, mk, str_of, strsym
from .m_builtins import FN, ext

OM = {}     # (external class, method) -> handler(I, st, ref, o, args, ...)
OA = {}     # (external class, attribute) -> handler(I, st, ref, o, cx, node)
CLOSED = set()  # external classes whose attributes are all modelled


def om(cls, *names):
    def reg(f):
        for n in names:
            OM[(cls, n)] = f
        return f
    return reg


def oa(cls, *names):
    def reg(f):
        for n in names:
            OA[(cls, n)] = f
        return f
    return reg


def environ_ref(I):
    a = ('environ',)
    if a not in I.base:
        I.base[a] = HDict((), (Sym(('envkey',), 'str', {'env'}),
                               Sym(('envval',), 'str', {'env'})))
    return Ref(a)


def pathval(I, st, v):
    """Path-like -> abstract string."""
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj) and 'p' in o.attrs:
            return o.attrs['p']
    return strsym(v)


# ------------------------------------------------------------------- os.path
def fold_path(name, typ='str'):
    fn = getattr(posixpath, name)

    def f(I, st, args, kw, cx, node):
        args = [pathval(I, st, a) for a in args]
        if any(isinstance(a, K) and a.v is None for a in args) or any(
                isinstance(a, Sym) and I.fact_none(st, a) is True
                for a in args):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if all(isinstance(a, K) and isinstance(a.v, (str, bytes))
               for a in args) and name not in (
                   'abspath', 'realpath', 'expanduser', 'relpath'):
            r = fn(*[a.v for a in args])
            return [(st, Tup(K(x) for x in r) if isinstance(r, tuple)
                     else K(r))]
        if typ == 'pair':
            return [(st, Tup([mk(st, name + '0', args, 'str'),
                              mk(st, name + '1', args, 'str')]))]
        r = mk(st, name, args, typ)
        if name in ('abspath', 'realpath'):
            r = Sym(r.id, r.typ, r.labels, truthy=True)
        return [(st, r)]
    return f


for _n in ('basename', 'dirname', 'join', 'abspath', 'realpath', 'normpath',
           'expanduser', 'expandvars', 'relpath', 'normcase'):
    FN['os.path.' + _n] = fold_path(_n)
for _n in ('splitext', 'split', 'splitdrive'):
    FN['os.path.' + _n] = fold_path(_n, 'pair')


@ext('os.fspath')
def _fspath(I, st, args, kw, cx, node):
    return [(st, pathval(I, st, args[0]))]


@ext('os.path.isfile', 'os.path.isdir', 'os.path.exists', 'os.path.islink',
     'os.path.isabs', 'os.path.lexists')
def _isfile(I, st, args, kw, cx, node):
    name = node_name(node)
    return fs_pred(I, st, name, pathval(I, st, args[0]))


def node_name(node):
    import ast
    f = getattr(node, 'func', None)
    if isinstance(f, ast.Attribute):
        return f.attr
    if isinstance(f, ast.Name):
        return f.id
    return 'exists'


def fs_pred(I, st, name, p):
    name = {'is_file': 'isfile', 'is_dir': 'isdir', 'lexists': 'exists',
            'is_absolute': 'isabs'}.get(name, name)
    h = I.cfg.get('fs')
    if h is not None:
        r = h(I, st, name, p)
        if r is not None:
            return [(st, kbool(r))]
    if isinstance(p, K) and p.v == '':
        return [(st, FALSE)]

    def known(n):
        return st.facts.get(('P', n, p, ()))
    if name == 'exists' and (known('isfile') or known('isdir')):
        return [(st, TRUE)]
    if name in ('isfile', 'isdir') and known('exists') is False:
        return [(st, FALSE)]
    if name == 'isdir' and known('isfile') or \
            name == 'isfile' and known('isdir'):
        return [(st, FALSE)]
    return [(s, kbool(r)) for s, r in I.memo(st, ('P', name, p, ()))]


def effect(tag, *idx):
    def f(I, st, args, kw, cx, node):
        a = [pathval(I, st, args[i]) for i in idx if i < len(args)]
        st.emit(tag, *(a + [I.site(cx, node)]))
        out = [(st, NONE)]
        if I.cfg.get('io_faults'):
            s2 = st.copy()
            s2.emit('fault', tag, I.site(cx, node))
            out.append((s2, I.exc(s2, 'OSError', (), cx, node)))
        return out
    return f


FN['os.makedirs'] = effect('mkdir', 0)
FN['os.mkdir'] = effect('mkdir', 0)
FN['os.remove'] = effect('remove', 0)
FN['os.unlink'] = effect('remove', 0)
FN['os.rmdir'] = effect('remove', 0)
FN['shutil.rmtree'] = effect('remove', 0)
FN['os.replace'] = effect('rename', 0, 1)
FN['os.rename'] = effect('rename', 0, 1)
FN['shutil.move'] = effect('rename', 0, 1)
FN['shutil.copy'] = effect('copy', 0, 1)
FN['shutil.copyfile'] = effect('copy', 0, 1)
FN['shutil.copy2'] = effect('copy', 0, 1)
FN['os.chmod'] = effect('chmod', 0)
FN['shutil.copymode'] = effect('chmod', 1)
FN['os.close'] = effect('fdclose', 0)
FN['os.fsync'] = effect('fsync', 0)
FN['os.truncate'] = effect('truncate', 0)
FN['os.chdir'] = effect('chdir', 0)


@ext('os.getcwd')
def _getcwd(I, st, args, kw, cx, node):
    return [(st, Sym(('cwd',), 'str', truthy=True))]


@ext('os.getpid', 'time.time', 'time.monotonic', 'random.random',
     'uuid.uuid4', 'time.perf_counter')
def _nondet(I, st, args, kw, cx, node):
    st.emit('nondet', I.site(cx, node))
    return [(st, Sym(('nondet', len(st.trace)), 'int', {'nondet'},
                     truthy=True))]


@ext('os.getenv')
def _getenv(I, st, args, kw, cx, node):
    return I.call(st, Meth(environ_ref(I), 'get'), args, kw, cx, node)


@ext('os.putenv')
def _putenv(I, st, args, kw, cx, node):
    st.emit('mutate', 'module:environ', 'putenv', I.site(cx, node))
    return [(st, NONE)]


@ext('os.listdir', 'os.scandir')
def _listdir(I, st, args, kw, cx, node):
    p = pathval(I, st, args[0]) if args else K('.')
    r = mk(st, 'dirent', (p,), 'str', {'fs-order'}, truthy=True)
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'list', (), r, unord='listdir')))]


@ext('os.walk')
def _walk(I, st, args, kw, cx, node):
    p = pathval(I, st, args[0])
    d = mk(st, 'walkdir', (p,), 'str', truthy=True)
    fs = mk(st, 'walkfile', (p,), 'str', truthy=True)
    a = st.alloc(I.asite(cx, node, 'd'), HSeq('list', (), d,
                                             unord='os.walk'))
    b = st.alloc(I.asite(cx, node, 'f'), HSeq('list', (), fs,
                                             unord='os.walk'))
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'list', (), Tup([d, a, b]), unord='os.walk')))]


# ----------------------------------------------------------------------- glob
@ext('glob.glob', 'glob.iglob')
def _glob(I, st, args, kw, cx, node):
    p = pathval(I, st, args[0])
    if isinstance(p, Tup) or isinstance(p, Ref) and isinstance(
            st.get(p.a), (HSeq, HDict)) or isinstance(p, K) and \
            not isinstance(p.v, (str, bytes)):
        return [(st, I.exc(st, 'TypeError', (K('expected str'),), cx, node))]
    st.emit('glob', p, I.site(cx, node))
    h = I.cfg.get('glob')
    if h is not None:
        r = h(I, st, p, cx, node)
        if r is not None:
            return r
    if isinstance(p, Sym) and p.id[0] == 'globesc':
        # an escaped path matches itself iff it exists
        out = []
        for s, r in fs_pred(I, st, 'exists', p.id[1]):
            out.append((s, s.alloc(I.asite(cx, node), HSeq(
                'list', [p.id[1]] if r == TRUE else []))))
        return out
    el = mk(st, 'globbed', (p,), 'str', {'globbed'}, truthy=True)
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'list', (), el, unord='glob')))]


@ext('glob.escape')
def _globescape(I, st, args, kw, cx, node):
    return [(st, mk(st, 'globesc', (pathval(I, st, args[0]),), 'str'))]


@ext('glob.has_magic')
def _hasmagic(I, st, args, kw, cx, node):
    return [(s, kbool(r)) for s, r in I.memo(
        st, ('P', 'has_magic', args[0], ()))]


# ---------------------------------------------------------------------- files
@ext('builtins.open', 'io.open', 'codecs.open', 'os.fdopen')
def _open(I, st, args, kw, cx, node):
    kd = dict(kw)
    a = list(args)
    p = pathval(I, st, a[0] if a else kd.get('file', NONE))
    mode = a[1] if len(a) > 1 else kd.get('mode', K('r'))
    enc = kd.get('encoding')
    if enc is None:
        j = 2 if node_is_codecs(node) else 3
        enc = a[j] if len(a) > j else NONE
    return open_(I, st, p, mode, enc, cx, node)


def node_is_codecs(node):
    import ast
    f = getattr(node, 'func', None)
    return isinstance(f, ast.Attribute) and isinstance(
        f.value, ast.Name) and f.value.id == 'codecs'


def open_(I, st, p, mode, enc, cx, node):
    if isinstance(a := p, Ref):
        o = st.get(a.a)
        st.emit('bad-open', I.site(cx, node))
        return [(st, I.exc(st, 'TypeError', (K('path'),), cx, node))]
    if isinstance(p, K) and p.v is None or isinstance(p, Sym) and \
            I.fact_none(st, p) is True:
        st.emit('bad-open', I.site(cx, node))
        return [(st, I.exc(st, 'TypeError', (K('path'),), cx, node))]
    out = []
    h = I.cfg.get('missing')
    if h is not None and h(I, st, p, mode):
        st.emit('missing', p, I.site(cx, node))
        return [(st, I.exc(st, 'FileNotFoundError', (p,), cx, node))]
    if I.cfg.get('io_faults'):
        s2 = st.copy()
        s2.emit('fault', 'open', I.site(cx, node))
        out.append((s2, I.exc(s2, 'OSError', (), cx, node)))
    st.emit('open', p, mode, enc, I.site(cx, node))
    f = st.alloc(I.asite(cx, node, 'file'), HObj(
        Ext('$file'), {'path': p, 'mode': mode, 'enc': enc, 'name': p,
                       'encoding': enc, 'closed': FALSE}))
    return [(st, f)] + out


@om('$file', 'read')
def _fread(I, st, ref, o, args, kw, cx, node):
    st.emit('read', o.attrs['path'], o.attrs['enc'], I.site(cx, node))
    h = I.cfg.get('content')
    if h is not None:
        r = h(I, st, o.attrs['path'], cx, node)
        if r is not None:
            return r
    m = o.attrs['mode']
    t = 'bytes' if isinstance(m, K) and 'b' in m.v else 'str'
    return [(st, mk(st, 'content', (o.attrs['path'],), t, {'file'}))]


@om('$file', 'readlines', '__iter__')
def _freadlines(I, st, ref, o, args, kw, cx, node):
    st.emit('read', o.attrs['path'], o.attrs['enc'], I.site(cx, node))
    h = I.cfg.get('lines')
    if h is not None:
        ls = h(I, st, o.attrs['path'], o.attrs['mode'])
        if ls is not None:
            return [(st, st.alloc(I.asite(cx, node), HSeq('list', ls)))]
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', (), mk(
        st, 'line', (o.attrs['path'],), 'str', {'file'}, truthy=True))))]


@om('$file', 'readline')
def _freadline(I, st, ref, o, args, kw, cx, node):
    st.emit('read', o.attrs['path'], o.attrs['enc'], I.site(cx, node))
    return [(st, mk(st, 'line', (o.attrs['path'],), 'str', {'file'}))]


@om('$file', 'write')
def _fwrite(I, st, ref, o, args, kw, cx, node):
    out = []
    if I.cfg.get('io_faults'):
        s2 = st.copy()
        s2.emit('fault', 'write', I.site(cx, node))
        out.append((s2, I.exc(s2, 'UnicodeEncodeError', (), cx, node)))
    st.emit('write', o.attrs['path'], args[0], o.attrs['enc'],
            I.site(cx, node))
    return [(st, mk(st, 'len', (K('s'), args[0]), 'int'))] + out


@om('$file', 'writelines')
def _fwritelines(I, st, ref, o, args, kw, cx, node):
    outs = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            outs.append((s, d))
            continue
        items = list(d[0]) + ([d[1]] if d[1] is not None else [])
        s.emit('write', o.attrs['path'], concat(items), o.attrs['enc'],
               I.site(cx, node))
        outs.append((s, NONE))
    return outs


@om('$file', 'close', '__exit__')
def _fclose(I, st, ref, o, args, kw, cx, node):
    st.emit('close', o.attrs['path'], I.site(cx, node))
    return [(st, NONE)]


@om('$file', 'flush', 'seek', 'tell', 'truncate', 'fileno', 'isatty')
def _fflush(I, st, ref, o, args, kw, cx, node):
    return [(st, mk(st, 'fileop', (o.attrs['path'],), 'int'))]


@om('$file', '__enter__')
def _fenter(I, st, ref, o, args, kw, cx, node):
    return [(st, ref)]


# ------------------------------------------------------------------- tempfile
@ext('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile')
def _ntf(I, st, args, kw, cx, node):
    kd = dict(kw)
    p = Sym(('tmp', I.asite(cx, node)), 'str', {'tmp'}, truthy=True)
    mode = args[0] if args else kd.get('mode', K('w+b'))
    r = open_(I, st, p, mode, kd.get('encoding', NONE), cx, node)
    for s, f in r:
        if not isinstance(f, Exc):
            s.put(f.a, s.get(f.a).set('name', p))
    return r


@ext('tempfile.mkstemp')
def _mkstemp(I, st, args, kw, cx, node):
    p = Sym(('tmp', I.asite(cx, node)), 'str', {'tmp'}, truthy=True)
    st.emit('open', p, K('w'), NONE, I.site(cx, node))
    return [(st, Tup([Sym(('fd',), 'int'), p]))]


@ext('tempfile.mkdtemp', 'tempfile.gettempdir', 'tempfile.mktemp')
def _mkdtemp(I, st, args, kw, cx, node):
    return [(st, Sym(('tmp', I.asite(cx, node)), 'str', {'tmp'},
                     truthy=True))]


@ext('tempfile.TemporaryDirectory')
def _tdir(I, st, args, kw, cx, node):
    p = Sym(('tmp', I.asite(cx, node)), 'str', {'tmp'}, truthy=True)
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$tempdir'), {'name': p, '$enter': p})))]


@ext('io.StringIO', 'io.BytesIO')
def _stringio(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$stringio'), {'buf': args[0] if args else K('')})))]


@om('$stringio', 'write')
def _siow(I, st, ref, o, args, kw, cx, node):
    st.put(ref.a, o.set('buf', concat([o.attrs['buf'], strsym(args[0])])))
    return [(st, K(1))]


@om('$stringio', 'getvalue', 'read')
def _siog(I, st, ref, o, args, kw, cx, node):
    return [(st, o.attrs['buf'])]


@om('$stringio', 'close', '__exit__', 'flush', 'seek')
def _sioc(I, st, ref, o, args, kw, cx, node):
    return [(st, NONE)]


@om('$stringio', '__enter__')
def _sioe(I, st, ref, o, args, kw, cx, node):
    return [(st, ref)]


# ------------------------------------------------------------------------ sys
def std_write(I, st, name, args, cx, node):
    for s, v in str_of(I, st, args[0], cx, node):
        s.emit('out', name, v, I.site(cx, node))
    return [(st, mk(st, 'len', (K('s'), args[0]), 'int'))]


for _n in ('stdout', 'stderr', '__stdout__', '__stderr__'):
    def _w(I, st, args, kw, cx, node, _n=_n):
        return std_write(I, st, _n.strip('_'), args, cx, node)

    def _wl(I, st, args, kw, cx, node, _n=_n):
        outs = []
        for s, d in I.seq(st, args[0], cx, node):
            items = list(d[0]) + ([d[1]] if d[1] is not None else [])
            s.emit('out', _n.strip('_'), concat(items), I.site(cx, node))
            outs.append((s, NONE))
        return outs

    def _none(I, st, args, kw, cx, node):
        return [(st, NONE)]
    FN['sys.%s.write' % _n] = _w
    FN['sys.%s.writelines' % _n] = _wl
    FN['sys.%s.buffer.write' % _n] = _w
    FN['sys.%s.flush' % _n] = _none
    FN['sys.%s.reconfigure' % _n] = _none


@ext('sys.stdin.isatty')
def _isatty(I, st, args, kw, cx, node):
    if I.cfg.get('isatty') is not None:
        return [(st, kbool(I.cfg['isatty']))]
    return [(s, kbool(r)) for s, r in I.memo(st, ('P', 'isatty',
                                                  K('stdin'), ()))]


@ext('sys.stdout.isatty', 'sys.stderr.isatty')
def _isatty2(I, st, args, kw, cx, node):
    return [(s, kbool(r)) for s, r in I.memo(st, ('P', 'isatty',
                                                  K('stdout'), ()))]


@ext('sys.stdin.read')
def _stdin(I, st, args, kw, cx, node):
    st.emit('stdin', I.site(cx, node))
    if I.cfg.get('stdin') is not None:
        return [(st, K(I.cfg['stdin']))]
    return [(st, Sym(('stdin',), 'str', {'stdin'}))]


@ext('sys.stdin.readlines')
def _stdinl(I, st, args, kw, cx, node):
    st.emit('stdin', I.site(cx, node))
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', (), Sym(
        ('stdin',), 'str', {'stdin'}))))]


# -------------------------------------------------------------------- pathlib
@ext('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath',
     'pathlib.PurePosixPath')
def _Path(I, st, args, kw, cx, node):
    ps = [pathval(I, st, a) for a in args]
    if not ps:
        p = K('.')
    elif len(ps) == 1:
        p = ps[0]
    else:
        p = FN['os.path.join'](I, st, ps, [], cx, node)[0][1]
    return [(st, mkpath(I, st, p, cx, node))]


def mkpath(I, st, p, cx, node):
    return st.alloc(I.asite(cx, node, 'path'), HObj(Ext('pathlib.Path'),
                                                    {'p': p}))


def P(*names):
    return om('pathlib.Path', *names)


@P('exists', 'is_file', 'is_dir', 'is_absolute')
def _pex(I, st, ref, o, args, kw, cx, node):
    return fs_pred(I, st, node_name(node), o.attrs['p'])


@P('read_text', 'read_bytes')
def _prt(I, st, ref, o, args, kw, cx, node):
    enc = args[0] if args else dict(kw).get('encoding', NONE)
    out = []
    for s, f in open_(I, st, o.attrs['p'], K('r'), enc, cx, node):
        if isinstance(f, Exc):
            out.append((s, f))
        else:
            for s1, v in _fread(I, s, f, s.get(f.a), [], [], cx, node):
                s1.emit('close', o.attrs['p'], I.site(cx, node))
                out.append((s1, v))
    return out


@P('write_text', 'write_bytes')
def _pwt(I, st, ref, o, args, kw, cx, node):
    enc = args[1] if len(args) > 1 else dict(kw).get('encoding', NONE)
    out = []
    for s, f in open_(I, st, o.attrs['p'], K('w'), enc, cx, node):
        if isinstance(f, Exc):
            out.append((s, f))
        else:
            for s1, v in _fwrite(I, s, f, s.get(f.a), args[:1], [], cx,
                                 node):
                s1.emit('close', o.attrs['p'], I.site(cx, node))
                out.append((s1, v))
    return out


@P('open')
def _pop(I, st, ref, o, args, kw, cx, node):
    return _open(I, st, [o.attrs['p']] + list(args), kw, cx, node)


@P('mkdir')
def _pmk(I, st, ref, o, args, kw, cx, node):
    return FN['os.makedirs'](I, st, [o.attrs['p']], [], cx, node)


@P('unlink', 'rmdir')
def _prm(I, st, ref, o, args, kw, cx, node):
    return FN['os.remove'](I, st, [o.attrs['p']], [], cx, node)


@P('replace', 'rename')
def _pmv(I, st, ref, o, args, kw, cx, node):
    return FN['os.replace'](I, st, [o.attrs['p']] + list(args), [], cx,
                            node)


@P('glob', 'rglob', 'iterdir')
def _pgl(I, st, ref, o, args, kw, cx, node):
    el = mk(st, 'globbed', [o.attrs['p']] + list(args), 'str', {'globbed'},
            truthy=True)
    x = mkpath(I, st, el, cx, node)
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', (x,),
                                                  unord='glob')))]


@P('joinpath')
def _pjoin(I, st, ref, o, args, kw, cx, node):
    r = FN['os.path.join'](I, st, [o.attrs['p']] + list(args), [], cx, node)
    return [(s, mkpath(I, s, v, cx, node)) for s, v in r]


def _pw(name):
    def f(I, st, ref, o, args, kw, cx, node):
        r = FN['os.path.' + name](I, st, [o.attrs['p']], [], cx, node)
        return [(s, mkpath(I, s, v, cx, node)) for s, v in r]
    return f


OM[('pathlib.Path', 'resolve')] = _pw('realpath')
OM[('pathlib.Path', 'absolute')] = _pw('abspath')
OM[('pathlib.Path', 'expanduser')] = _pw('expanduser')


@P('as_posix', '__str__', '__fspath__')
def _pstr(I, st, ref, o, args, kw, cx, node):
    return [(st, o.attrs['p'])]


@P('with_suffix', 'with_name', 'relative_to')
def _pws(I, st, ref, o, args, kw, cx, node):
    return [(st, mkpath(I, st, mk(st, node_name(node), [o.attrs['p']] +
                                  list(args), 'str'), cx, node))]


@oa('pathlib.Path', 'name')
def _pname(I, st, ref, o, cx, node):
    return FN['os.path.basename'](I, st, [o.attrs['p']], [], cx, node)


@oa('pathlib.Path', 'parent')
def _pparent(I, st, ref, o, cx, node):
    return [(s, mkpath(I, s, v, cx, node)) for s, v in
            FN['os.path.dirname'](I, st, [o.attrs['p']], [], cx, node)]


@oa('pathlib.Path', 'stem')
def _pstem(I, st, ref, o, cx, node):
    return [(st, mk(st, 'stem', (o.attrs['p'],), 'str'))]


@oa('pathlib.Path', 'suffix')
def _psuf(I, st, ref, o, cx, node):
    return [(st, mk(st, 'splitext1', (o.attrs['p'],), 'str'))]
