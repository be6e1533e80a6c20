"""Dispatch for external modules, classes and objects."""
import builtins
import importlib
import html.parser

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HMod, HObj,
    HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .interp import concat
from .m_core import ext_pyclass, mk, str_of, strsym
from .m_builtins import FN, ext
from . import m_os, m_lib, m_polib
from .m_os import CLOSED, OA, OM, environ_ref
from .m_polib import ENUMS, po_contains, postr

STD = {'os', 'os.path', 'sys', 're', 'glob', 'itertools', 'functools',
       'contextlib', 'collections', 'html', 'math', 'io', 'shutil',
       'tempfile', 'pathlib', 'warnings', 'string', 'operator', 'textwrap',
       'time', 'datetime', 'json', 'copy', 'types', 'typing', 'argparse',
       'importlib', 'html.parser', 'codecs', 'builtins', 'collections.abc',
       'dataclasses', 'enum', 'errno', 'locale', 'stat', 'logging'}
CONST = {'os.sep': '/', 'os.linesep': '\n', 'os.path.sep': '/',
         'os.pathsep': ':', 'os.name': 'posix', 'sys.platform': 'linux',
         'os.extsep': '.', 'os.altsep': None, 'sys.byteorder': 'little',
         'os.curdir': '.', 'os.pardir': '..', 'sys.maxsize': 2**63 - 1}


def ext_attr(I, st, ext, name, cx, node):
    p = ext.path
    full = p + '.' + name
    if full in CONST:
        return [(st, K(CONST[full]))]
    if full in ('re.IGNORECASE', 're.I', 're.MULTILINE', 're.M', 're.DOTALL',
                're.S', 're.VERBOSE', 're.X', 're.ASCII', 're.A',
                're.UNICODE', 're.U'):
        import re
        return [(st, K(int(getattr(re, name))))]
    if full in ('math.inf', 'math.nan', 'math.pi'):
        import math
        return [(st, K(getattr(math, name)))]
    if full == 'os.environ':
        return [(st, environ_ref(I))]
    if full == 'sys.version_info':
        return [(st, Tup([K(3), K(12), K(0), K('final'), K(0)]))]
    if full == 'sys.argv':
        a = ('sysargv',)
        if a not in I.base:
            I.base[a] = HSeq('list', (K('prog'),), Sym(
                ('argv',), 'str', {'argv'}))
        return [(st, Ref(a))]
    if full == 'os.path' or full == 'importlib.metadata' or \
            full == 'importlib.util' or full == 'html.parser':
        return [(st, Ext(full))]
    if p.startswith('string') and p == 'string':
        import string
        v = getattr(string, name, None)
        if isinstance(v, str):
            return [(st, K(v))]
    if p in ENUMS:
        if name in ENUMS[p]:
            return [(st, Ext(full))]
        if name in ('__members__',):
            return [(st, st.alloc(I.asite(cx, node), HDict(
                (K(k), Ext(p + '.' + k)) for k in ENUMS[p])))]
        if name == '__name__':
            return [(st, K(p.split('.')[-1]))]
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    base, _, leaf = p.rpartition('.')
    if base in ENUMS:
        if name == 'value':
            return [(st, K(ENUMS[base][leaf]))]
        if name == 'name':
            return [(st, K(leaf))]
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    if full == 'sys.modules':
        return [(st, Ext('sys.modules'))]
    if name == '__name__':
        return [(st, K(p.split('.')[-1]))]
    if name in ('__doc__', '__file__', '__module__'):
        return [(st, K(p))]
    if p in STD:
        try:
            m = importlib.import_module(p)
            if not hasattr(m, name):
                return [(st, I.exc(st, 'AttributeError', (K(name),), cx,
                                   node))]
            v = getattr(m, name)
            if isinstance(v, (str, int, float, bool, type(None))) and \
                    not isinstance(v, type):
                return [(st, K(v if isinstance(
                    v, (str, float, bool, type(None))) else int(v)))]
        except ImportError:
            pass
    c = ext_pyclass(p)
    if c is not None and not hasattr(c, name):
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    return [(st, Ext(full))]


def iter_ext(I, ext):
    if ext.path in ENUMS:
        return tuple(Ext(ext.path + '.' + k) for k in ENUMS[ext.path])
    return None


def iter_object(I, st, ref, o, cx, node):
    if isinstance(o.cls, Ref):
        r = I.class_attr(st, o.cls, '__iter__')
        if r is not None:
            return I.call(st, Bound(r[0], ref), [], [], cx, node)
        return None
    if o.cls.path == '$file':
        return m_os._freadlines(I, st, ref, o, [], [], cx, node)
    return None


def nat(cls, name, ref):
    h = OM[(cls, name)]
    return Nat(('om', cls, name, ref), lambda I, s, a, k, c, n: h(
        I, s, ref, s.get(ref.a), a, k, c, n))


def ext_obj_attr(I, st, ref, o, name, cx, node):
    p = o.cls.path
    if (p, name) in OM:
        return [(st, nat(p, name, ref))]
    if (p, name) in OA:
        return OA[(p, name)](I, st, ref, o, cx, node)
    if name in ('args', 'code') and 'args' in o.attrs:
        a = o.attrs['args']
        if name == 'args':
            return [(st, a)]
        return [(st, a.items[0] if a.items else NONE)]
    c = ext_pyclass(p)
    if c is not None and issubclass(c, BaseException):
        if name == '__class__':
            return [(st, o.cls)]
        if hasattr(c, name) or name in ('__module__', 'errno', 'strerror',
                                        'filename', 'reason'):
            return [(st, mk(st, 'excattr', (ref, K(name)), 'str'))]
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    if p.endswith(('Error', 'error', 'Exception')):
        if name == '__module__':
            return [(st, K(p.rpartition('.')[0]))]
        return [(st, mk(st, 'excattr', (ref, K(name)), 'str'))]
    if p == 'argparse.ArgumentParser' and name in ('_positionals',
                                                   '_optionals'):
        return [(st, mk(st, 'attr', (ref, K(name)), truthy=True))]
    if p in CLOSED:
        return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
    I.note('attribute %s.%s' % (p, name))
    return [(st, mk(st, 'attr', (ref, K(name))))]


def ext_instance_attr(I, st, ref, o, exts, name, cx, node):
    for e in exts:
        if (e.path, name) in OM:
            return [(st, nat(e.path, name, ref))]
        if (e.path, name) in OA:
            return OA[(e.path, name)](I, st, ref, o, cx, node)
        if e.path == 'html.parser.HTMLParser':
            if name == 'cdata_elem':
                return [(st, st.ghost.get('$cdata', NONE))]
            if name == 'CDATA_CONTENT_ELEMENTS':
                return [(st, Tup([K('script'), K('style')]))]
            if name in ('rawdata', 'lasttag', 'offset', 'lineno',
                        'convert_charrefs', 'interesting'):
                return [(st, mk(st, 'parserattr', (K(name),)))]
        if e.path == 'html.parser.HTMLParser' and hasattr(
                html.parser.HTMLParser, name):
            return [(st, Nat(('hp', name, ref),
                             lambda I2, s, a, k, c, n: ext_super(
                                 I2, s, [e], name, ref, a, k, c, n)))]
        c = ext_pyclass(e.path)
        if c is not None and issubclass(c, BaseException):
            return ext_obj_attr(I, st, ref, HObj(e, o.attrs), name, cx,
                                node)
        if c is not None and hasattr(c, name) and c is not object:
            return [(st, Meth(ref, name))]
    return None


def ext_super(I, st, exts, name, obj, args, kw, cx, node):
    for e in exts:
        if e.path == 'html.parser.HTMLParser':
            if name == 'feed':
                st.emit('feed', args[0], I.site(cx, node))
                h = I.cfg.get('feed')
                if h is not None:
                    return h(I, st, obj, args, kw, cx, node)
            if name == 'unescape':
                return [(st, mk(st, 'html.unescape', args, 'str'))]
            if name == 'get_starttag_text':
                text = st.ghost.get('$starttag')
                return [(st, text if text is not None else mk(
                    st, 'starttag', (K(len(st.trace)),), 'str',
                    truthy=True))]
            return [(st, NONE)]
        c = ext_pyclass(e.path)
        if c is not None and issubclass(c, BaseException):
            if name == '__init__':
                o = st.get(obj.a)
                st.put(obj.a, o.set('args', Tup(args)))
            return [(st, NONE)]
        if (e.path, name) in OM and isinstance(obj, Ref):
            return OM[(e.path, name)](I, st, obj, st.get(obj.a), args, kw,
                                      cx, node)
    return [(st, NONE)]


def call_object(I, st, f, o, args, kw, cx, node):
    if isinstance(o.cls, Ext) and (o.cls.path, '__call__') in OM:
        return OM[(o.cls.path, '__call__')](I, st, f, o, args, kw, cx, node)
    return [(st, I.exc(st, 'TypeError', (K('not callable'),), cx, node))]


def call_ext(I, st, f, args, kw, cx, node):
    h = I.cfg.get('extcall')
    if h is not None:
        r = h(I, st, f, args, kw, cx, node)
        if r is not None:
            return r
    h = FN.get(f.path)
    if h is not None:
        try:
            return h(I, st, args, kw, cx, node)
        except IndexError:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    c = ext_pyclass(f.path)
    if c is not None and issubclass(c, BaseException):
        r = st.alloc(I.asite(cx, node, 'exc'),
                     HObj(f, {'args': Tup(args)}))
        return [(st, r)]
    if f.path.startswith('builtins.') and f.path.count('.') == 2:
        # unbound method of a builtin type
        _, t, m = f.path.split('.')
        if args and hasattr(getattr(builtins, t, None), m):
            return I.call(st, Meth(args[0], m), args[1:], kw, cx, node)
    base, _, leaf = f.path.rpartition('.')
    if f.path in ENUMS and args:
        if isinstance(args[0], K):
            for k, v in ENUMS[f.path].items():
                if v == args[0].v:
                    return [(st, Ext(f.path + '.' + k))]
            return [(st, I.exc(st, 'ValueError', (), cx, node))]
        if isinstance(args[0], Ext):
            return [(st, args[0])]
    if leaf.endswith(('Error', 'Exception', 'Warning')):
        return [(st, st.alloc(I.asite(cx, node, 'exc'), HObj(
            f, {'args': Tup(args)})))]
    I.note('external %s' % f.path)
    st.emit('ext-call', f.path, tuple(args), I.site(cx, node))
    return [(st, mk(st, 'call', [K(f.path)] + [
        a for a in args if isinstance(a, Value)]))]


# ----------------------------------------------------------- operators on exts
def obj_contains(I, st, x, ref, o, cx, node):
    if isinstance(o.cls, Ext):
        if o.cls.path == 'polib.POFile':
            return po_contains(I, st, x, ref, o, cx, node)
        if o.cls.path == 'argparse.Namespace':
            return [(st, isinstance(x, K) and x.v in o.attrs)]
    return None


def ext_contains(I, st, x, c, cx, node):
    if c.path == 'sys.modules':
        if isinstance(x, K):
            if x.v == 'sphinx':
                return [(st, False)]
            return I.memo(st, ('P', 'in-sys.modules', x, ()))
        return I.memo(st, ('P', 'in-sys.modules', strsym(x), ()))
    if c.path in ENUMS:
        return [(st, isinstance(x, Ext) and x.path.startswith(
            c.path + '.'))]
    return I.memo(st, ('I', x, c))


def obj_binop(I, st, t, a, oa, b, cx, n):
    import ast
    if oa.cls.path == 'pathlib.Path' and t is ast.Div:
        return m_os._pjoin(I, st, a, oa, [b], [], cx, n)
    return None


def obj_str(I, st, v, o, cx, node):
    if isinstance(o.cls, Ext):
        if o.cls.path == 'pathlib.Path':
            return [(st, o.attrs['p'])]
        if o.cls.path == 'polib.POFile':
            return [(st, postr(I, st, v, o))]
        if (o.cls.path, '__str__') in OM:
            return OM[(o.cls.path, '__str__')](I, st, v, o, [], [], cx,
                                               node)
    a = o.attrs.get('args')
    if isinstance(a, Tup):
        if len(a.items) == 1:
            return str_of(I, st, a.items[0], cx, node)
        if not a.items:
            return [(st, mk(st, 'excstr', (v,), 'str'))]
    return [(st, mk(st, 'strof', (v,), 'str', truthy=True))]


def obj_getitem(I, st, b, o, i, cx, node):
    if isinstance(o.cls, Ext) and (o.cls.path, '__getitem__') in OM:
        return OM[(o.cls.path, '__getitem__')](I, st, b, o, [i], [], cx,
                                               node)
    return [(st, I.exc(st, 'TypeError', (), cx, node))]


def obj_setitem(I, st, b, o, i, v, cx, node):
    lst = o.attrs.get('$list')
    if lst is not None:
        from .m_core import setitem
        return setitem(I, st, lst, i, v, cx, node)
    return [(st, I.exc(st, 'TypeError', (), cx, node))]


def ext_getitem(I, st, b, i, cx, node):
    if b.path == 'sys.modules':
        st.emit('sys-modules-read', i, I.site(cx, node))
        out = []
        for s, r in ext_contains(I, st, i, b, cx, node):
            out.append((s, mk(s, 'sysmodule', (strsym(i),), truthy=True) if r else I.exc(
                s, 'KeyError', (i,), cx, node)))
        return out
    if b.path in ENUMS and isinstance(i, K):
        if i.v in ENUMS[b.path]:
            return [(st, Ext(b.path + '.' + i.v))]
        return [(st, I.exc(st, 'KeyError', (i,), cx, node))]
    if b.path.startswith(('typing.', 'builtins.', 'collections.')):
        return [(st, b)]
    return [(st, mk(st, 'item', (b, i)))]


@ext('sys.modules.get')
def _modget(I, st, args, kw, cx, node):
    i = args[0]
    st.emit('sys-modules-read', i, I.site(cx, node))
    for e in reversed(st.trace):
        if e[0] == 'sys-modules-write' and e[1] == i:
            return [(st, e[2])]
    return [(s, mk(s, 'sysmodule', (strsym(i),), truthy=True) if r else
             args[1] if len(args) > 1 else NONE)
            for s, r in ext_contains(I, st, i, Ext('sys.modules'), cx, node)]


def ext_setitem(I, st, b, i, v, cx, node):
    st.emit('mutate', 'module:' + b.path, i, I.site(cx, node))
    if b.path == 'sys.modules':
        st.emit('sys-modules-write', i, v, I.site(cx, node))
        st.facts[('P', 'in-sys.modules', strsym(i) if not isinstance(
            i, K) else i, ())] = True
    return [(st, NONE)]


def ext_delitem(I, st, b, i, cx, node):
    st.emit('mutate', 'module:' + b.path, i, I.site(cx, node))
    return [(st, NONE)]


def sym_attr(I, st, v, name, cx, node):
    h = I.cfg.get('sym_attr')
    if h is not None:
        r = h(I, st, v, name, cx, node)
        if r is not None:
            return r
    if v.id[0] == 'module' and name == '__file__' and len(v.id) > 2:
        return [(st, v.id[2])]
    if v.id[0] == 'sysmodule' and name == '__file__':
        s2 = st.copy()
        return [(st, mk(st, 'modfile', (v,), 'str', truthy=True)),
                (s2, I.exc(s2, 'AttributeError', (K(name),), cx, node))]
    if v.typ is None:
        from .m_str import STRONLY
        if name in STRONLY or name in (
                'items', 'keys', 'values', 'append', 'extend', 'sort'):
            return [(st, Meth(v, name))]
        if name == '__name__':
            return [(st, mk(st, 'name', (v,), 'str', truthy=True))]
    if v.typ == 'callable' and name == '__name__':
        return [(st, mk(st, 'name', (v,), 'str', truthy=True))]
    if v.typ == 'datetime':
        import datetime
        if not hasattr(datetime.datetime, name):
            return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
        if callable(getattr(datetime.datetime, name)):
            return [(st, Meth(v, name))]
        return [(st, mk(st, 'attr', (v, K(name)), 'int'))]
    if v.typ in ('str', 'list', 'dict', 'int', 'float', 'bytes', 'bool'):
        t = getattr(builtins, v.typ)
        if not hasattr(t, name):
            return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
        # a nullable value: None has no such attribute
        if I.fact_none(st, v) is None and I.cfg.get('null_attr', True):
            s2 = st.copy()
            st.facts[('N', v)] = False
            s2.facts[('N', v)] = True
            return [(st, Meth(v, name)),
                    (s2, I.exc(s2, 'AttributeError', (K(name),), cx, node))]
        return [(st, Meth(v, name))]
    return None
