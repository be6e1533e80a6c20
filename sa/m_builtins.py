"""Builtin functions, decorators and classes on abstract values."""
import builtins

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HMod, HObj,
    HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .interp import SuperV, concat
from .m_core import (
    contains, dict_set, ext_pyclass, has_method, is_strish, is_subclass,
    merge_dict, mk, repr_of, str_of, strsym, typename,
)
from .m_methods import length, next_of, sorted_seq

FN = {}


def ext(*paths):
    def reg(f):
        for p in paths:
            FN[p] = f
        return f
    return reg


def b(*names):
    return ext(*['builtins.' + n for n in names])


def builtin(name):
    if hasattr(builtins, name):
        v = getattr(builtins, name)
        if isinstance(v, (bool, type(None))):
            return K(v)
        return Ext('builtins.' + name)
    return None


# ------------------------------------------------------------------ decorators
def cached(g):
    return Fn(g.info, g.env, g.defaults, g.kwdefaults, g.decos + ('cached',))


def decorate(I, st, deco, g, cx, node):
    if isinstance(deco, Ext) and isinstance(g, Fn):
        leaf = deco.path.split('.')[-1]
        if deco.path in ('builtins.staticmethod', 'builtins.classmethod',
                         'builtins.property', 'contextlib.contextmanager',
                         'functools.cached_property',
                         'contextlib.asynccontextmanager'):
            if leaf == 'cached_property':
                leaf = 'property'
            return [(st, Fn(g.info, g.env, g.defaults, g.kwdefaults,
                            g.decos + (leaf,)))]
        if deco.path in ('functools.lru_cache', 'functools.cache'):
            return [(st, cached(g))]
        if deco.path in ('functools.wraps', 'typing.overload',
                         'typing.no_type_check', 'typing.final',
                         'functools.total_ordering',
                         'abc.abstractmethod', 'typing.override'):
            return [(st, g)]
    if isinstance(deco, Ext) and isinstance(g, Ref):
        if deco.path in ('dataclasses.dataclass',):
            return [(st, as_dataclass(I, st, g))]
        return [(st, g)]
    if isinstance(deco, Meth) and isinstance(deco.obj, Fn) and \
            deco.name in ('setter', 'deleter', 'getter') and \
            isinstance(g, Fn):
        e = st.get(cx.env)
        if deco.name == 'setter':
            st.put(cx.env, e.set(node.name + '$setter', Fn(
                g.info, g.env, g.defaults, g.kwdefaults)))
            return [(st, deco.obj)]
        if deco.name == 'deleter':
            return [(st, deco.obj)]
        return [(st, Fn(g.info, g.env, g.defaults, g.kwdefaults,
                        g.decos + ('property',)))]
    return I.call(st, deco, [g], [], cx, node)


def as_dataclass(I, st, g):
    import ast
    c = st.get(g.a)
    fields = []
    for s in c.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            n = s.target.id
            fields.append(Tup([K(n), c.attrs.get(n, Ext('$nodefault'))]))
    st.put(g.a, c.set('$dataclass', Tup(fields)))
    return g


def dataclass_init(I, st, obj, cref, c, args, kw, cx, node):
    fields = c.attrs['$dataclass'].items
    vals = {}
    names = [f.items[0].v for f in fields]
    if len(args) > len(names):
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    for n, a in zip(names, args):
        vals[n] = a
    for k, v in kw:
        if k not in names:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        vals[k] = v
    for f in fields:
        n, d = f.items[0].v, f.items[1]
        if n in vals:
            continue
        if d == Ext('$nodefault'):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if isinstance(d, Ref):
            o = st.get(d.a)
            if isinstance(o, HObj) and o.cls == Ext('$field'):
                fac = o.attrs.get('default_factory')
                if fac is not None:
                    r = I.call(st, fac, [], [], cx, node)
                    st, d = r[0]
                else:
                    d = o.attrs.get('default', NONE)
        vals[n] = d
    o = st.get(obj.a)
    for n in names:
        o = o.set(n, vals[n])
    st.put(obj.a, o)
    r = I.class_attr(st, cref, '__post_init__')
    if r is not None:
        return [(s, v if isinstance(v, Exc) else obj) for s, v in
                I.call(st, Bound(r[0], obj), [], [], cx, node)]
    return [(st, obj)]


@ext('dataclasses.field')
def _field(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(Ext('$field'), dict(kw))))]


# ------------------------------------------------------------------ inspection
NUM = {'int', 'float', 'bool'}


def isinst(I, st, v, t):
    """True / False / None"""
    if isinstance(t, Tup):
        r = False
        for x in t.items:
            m = isinst(I, st, v, x)
            if m:
                return True
            if m is None:
                r = None
        return r
    if isinstance(v, Sym) and ('C', v) in st.facts:
        v = st.facts[('C', v)]
    if isinstance(v, K):
        if isinstance(t, Ext):
            c = ext_pyclass(t.path)
            if c is not None:
                return isinstance(v.v, c)
            if t.path in ('typing.Iterable', 'collections.abc.Iterable',
                          'collections.abc.Sequence'):
                return isinstance(v.v, (str, bytes))
        return False
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            r = is_subclass(I, st, o.cls, t)
            if r is False and o.attrs.get('$list') is not None and \
                    t == Ext('builtins.list'):
                return True
            if t == Ext('builtins.object'):
                return True
            return r
    if isinstance(v, Sym):
        if I.fact_none(st, v) is True:
            return t == Ext('types.NoneType')
        if v.typ is None:
            return None
    tn = typename(I, st, v)
    if isinstance(t, Ext):
        if t.path == 'builtins.object':
            return True
        if t.path.startswith('builtins.'):
            w = t.path[9:]
            if tn is None:
                return None
            if tn == w:
                r = True
            elif w == 'int' and tn == 'bool':
                r = True
            else:
                r = False
            if r and isinstance(v, Sym) and I.fact_none(st, v) is None:
                return None
            return r
        leaf = t.path.split('.')[-1]
        if leaf in ('Iterable', 'Sequence', 'Collection'):
            return tn in ('list', 'tuple', 'set', 'frozenset', 'dict', 'str')
        if leaf in ('Mapping', 'MutableMapping'):
            return tn == 'dict'
        if leaf == 'Callable':
            return tn == 'function'
        if leaf == 'OrderedDict':
            return None if tn == 'dict' else False
    return False


@b('isinstance')
def _isinstance(I, st, args, kw, cx, node):
    v, t = args
    r = isinst(I, st, v, t)
    if r is not None:
        return [(st, kbool(r))]
    if isinstance(v, Sym) and v.typ is not None:
        # typed but possibly None
        return [(s, kbool(not x)) for s, x in I.is_(st, v, NONE)]
    ts = t.items if isinstance(t, Tup) else (t,)
    if isinstance(v, Sym):
        for x in ts:
            if st.facts.get(('P', 'isinstance', v, x)) is True:
                return [(st, TRUE)]
        # exclusive builtin types
        for k, f in st.facts.items():
            if k[0] == 'P' and k[1] == 'isinstance' and k[2] == v and f:
                return [(st, kbool(k[3] in ts))]
    cur, out = [st], []
    for x in ts:
        nxt = []
        for s in cur:
            for s1, r in I.memo(s, ('P', 'isinstance', v, x)):
                if r:
                    out.append((s1, TRUE))
                else:
                    nxt.append(s1)
        cur = nxt
    return out + [(s, FALSE) for s in cur]


@b('issubclass')
def _issubclass(I, st, args, kw, cx, node):
    r = is_subclass(I, st, args[0], args[1])
    if r is None:
        return [(s, kbool(x)) for s, x in
                I.memo(st, ('P', 'issubclass', args[0], args[1]))]
    return [(st, kbool(r))]


@b('callable')
def _callable(I, st, args, kw, cx, node):
    v = args[0]
    if isinstance(v, (Fn, Bound, Nat, Meth, Partial)):
        return [(st, TRUE)]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HClass):
            return [(st, TRUE)]
        if isinstance(o, HObj) and isinstance(o.cls, Ref):
            return [(st, kbool(I.class_attr(st, o.cls, '__call__')
                               is not None))]
        return [(st, FALSE)]
    if isinstance(v, Ext):
        return [(st, TRUE)]
    if isinstance(v, Sym):
        if v.typ == 'callable':
            return [(s, kbool(not x)) for s, x in I.is_(st, v, NONE)]
        if v.typ is not None or I.fact_none(st, v) is True:
            return [(st, FALSE)]
        return [(s, kbool(r)) for s, r in I.memo(st, ('P', 'callable', v,
                                                      ()))]
    return [(st, FALSE)]


@b('hasattr')
def _hasattr(I, st, args, kw, cx, node):
    v, n = args
    if isinstance(n, K):
        if isinstance(v, Sym):
            if I.fact_none(st, v) is True:
                return [(st, kbool(hasattr(None, n.v)))]
            t = {'str': str, 'list': list, 'dict': dict, 'int': int,
                 'bool': bool, 'float': float, 'bytes': bytes}.get(v.typ)
            if t is not None:
                return [(st, kbool(hasattr(t, n.v)))]
            if I.cfg.get('sym_attr') is not None and v.id[0] in (
                    'module', 'sysmodule', 'member'):
                return [(s, kbool(not isinstance(x, Exc)))
                        for s, x in I.getattr(st, v, n.v, cx, node)]
            return [(s, kbool(r)) for s, r in I.memo(
                st, ('P', 'hasattr', v, (n,)))]
        if isinstance(v, K):
            return [(st, kbool(hasattr(v.v, n.v)))]
        if isinstance(v, Tup):
            return [(st, kbool(hasattr((), n.v)))]
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, (HSeq, HDict)):
                t = {'list': list, 'set': set, 'frozenset': frozenset,
                     'dict': dict}.get(o.kind, list)
                return [(st, kbool(hasattr(t, n.v)))]
        out = []
        for s, x in I.getattr(st, v, n.v, cx, node):
            out.append((s, kbool(not isinstance(x, Exc))))
        return out
    return [(s, kbool(r)) for s, r in I.memo(
        st, ('P', 'hasattr', v, (n,)))]


def known_str(I, st, n):
    if isinstance(n, Sym) and ('C', n) in st.facts:
        n = st.facts[('C', n)]
    return n.v if isinstance(n, K) and isinstance(n.v, str) else None


@b('getattr')
def _getattr(I, st, args, kw, cx, node):
    n = known_str(I, st, args[1])
    if n is None:
        return [(st, mk(st, 'getattr', args))]
    out = []
    for s, x in I.getattr(st, args[0], n, cx, node):
        if isinstance(x, Exc) and len(args) > 2 and isinstance(
                x.val, Ref) and s.get(x.val.a).cls == Ext(
                    'builtins.AttributeError'):
            out.append((s, args[2]))
        else:
            out.append((s, x))
    return out


@b('setattr')
def _setattr(I, st, args, kw, cx, node):
    n = known_str(I, st, args[1])
    if n is None:
        I.note('setattr with unknown name')
        return [(st, NONE)]
    return [(s, x if isinstance(x, Exc) else NONE) for s, x in
            I.setattr(st, args[0], n, args[2], cx, node)]


@b('delattr')
def _delattr(I, st, args, kw, cx, node):
    n = known_str(I, st, args[1])
    o = st.get(args[0].a) if isinstance(args[0], Ref) else None
    if n is not None and isinstance(o, HObj):
        st.put(args[0].a, o.delete(n))
    return [(st, NONE)]


@b('vars')
def _vars(I, st, args, kw, cx, node):
    return I.getattr(st, args[0], '__dict__', cx, node)


@b('type')
def _type(I, st, args, kw, cx, node):
    v = args[0]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            return [(st, o.cls)]
    tn = typename(I, st, v)
    if tn and tn != '$obj' and hasattr(builtins, tn):
        return [(st, Ext('builtins.' + tn))]
    return [(st, mk(st, 'type', (v,)))]


@b('id', 'hash')
def _id(I, st, args, kw, cx, node):
    return [(st, mk(st, 'id', args, 'int', truthy=True))]


# ------------------------------------------------------------------ sequences
@b('len')
def _len(I, st, args, kw, cx, node):
    return length(I, st, args[0], cx, node)


def anyall(is_any):
    def f(I, st, args, kw, cx, node):
        v = args[0]
        out = []
        for s, d in I.seq(st, v, cx, node):
            if isinstance(d, Exc):
                out.append((s, d))
                continue
            items, rest, m1, un = d
            cur = [s]
            for x in items:
                nxt = []
                for s1 in cur:
                    for s2, t in I.truth(s1, x, cx, node):
                        if isinstance(t, Exc):
                            out.append((s2, t))
                        elif t == is_any:
                            out.append((s2, kbool(is_any)))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s1 in cur:
                if rest is None:
                    out.append((s1, kbool(not is_any)))
                else:
                    for s2, r in I.memo(s1, ('P', 'any' if is_any else
                                             'all', rest, ())):
                        out.append((s2, kbool(r)))
        return out
    return f


FN['builtins.any'] = anyall(True)
FN['builtins.all'] = anyall(False)


@b('sorted')
def _sorted(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        items, rest, m1, un = d
        for s1, v in sorted_seq(I, s, items, rest, kw, cx, node):
            if isinstance(v, Exc):
                out.append((s1, v))
                continue
            out.append((s1, s1.alloc(I.asite(cx, node), HSeq(
                'list', v, rest, m1))))
    return out


def lazy(f):
    """Sequence-to-sequence builtins: f(I, s, list of (items, rest, m1, un))
    -> (items, rest, m1, un)."""
    def g(I, st, args, kw, cx, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s1, d in I.seq(s, a, cx, node):
                    nxt.append((s1, d if isinstance(d, Exc)
                                else acc + [d]))
            cur = nxt
        out = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                out.append((s, acc))
                continue
            items, rest, m1, un = f(I, s, acc, kw)
            out.append((s, s.alloc(I.asite(cx, node), HSeq(
                'iter', items, rest, m1, un))))
        return out
    return g


def _reversed(I, s, acc, kw):
    items, rest, m1, un = acc[0]
    if rest is not None and items:
        return (), rest, True, un
    return tuple(reversed(items)), rest, m1, un


def _zip(I, s, acc, kw):
    n = min(len(d[0]) for d in acc)
    if all(d[1] is None for d in acc):
        return tuple(Tup(d[0][i] for d in acc) for i in range(n)), None, \
            False, next((d[3] for d in acc if d[3]), None)
    lim = min([len(d[0]) for d in acc if d[1] is None] or [None],
              key=lambda x: 10**9 if x is None else x)
    n = lim if lim is not None else max(len(d[0]) for d in acc)

    def at(d, i):
        return d[0][i] if i < len(d[0]) else I.inst(d[1], i - len(d[0]))
    items = tuple(Tup(at(d, i) for d in acc) for i in range(n))
    rest = None
    if lim is None:
        rest = Tup(d[1] for d in acc)
    return items, rest, all(d[2] or d[0] for d in acc), \
        next((d[3] for d in acc if d[3]), None)


FN['builtins.reversed'] = lazy(_reversed)
FN['builtins.zip'] = lazy(_zip)


@b('enumerate')
def _enumerate(I, st, args, kw, cx, node):
    start = args[1] if len(args) > 1 else dict(kw).get('start', K(0))
    n = start.v if isinstance(start, K) else 0
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        items, rest, m1, un = d
        its = [Tup([K(n + i), x]) for i, x in enumerate(items)]
        r = None
        if rest is not None:
            r = Tup([Sym(('idx', repr(rest)), 'int'), rest])
        out.append((s, s.alloc(I.asite(cx, node), HSeq(
            'iter', its, r, m1, un))))
    return out


@b('map')
def _map(I, st, args, kw, cx, node):
    return mapfilter(I, st, args, cx, node, False)


@b('filter')
def _filter(I, st, args, kw, cx, node):
    return mapfilter(I, st, args, cx, node, True)


def mapfilter(I, st, args, cx, node, flt):
    f = args[0]
    acc = st.alloc(I.asite(cx, node), HSeq('iter', ()))

    def body(s, x):
        out = []
        if flt and isinstance(f, K) and f.v is None:
            rs = [(s, x)]
        else:
            rs = I.call(s, f, [x], [], cx, node)
        for s1, v in rs:
            if isinstance(v, Exc):
                out.append((s1, v))
                continue
            if flt:
                ts = I.truth(s1, v, cx, node)
            else:
                ts = [(s1, True)]
            for s2, t in ts:
                if isinstance(t, Exc):
                    out.append((s2, t))
                    continue
                if t:
                    o = s2.get(acc.a)
                    un = o.unord
                    if s2.marks != marks0 and s2.marks:
                        un = un or s2.marks[-1][0]
                    s2.put(acc.a, o.upd(
                        items=o.items + (x if flt else v,), unord=un))
                out.append((s2, None))
        return out
    marks0 = st.marks
    it = args[1]
    if len(args) > 2:
        r = FN['builtins.zip'](I, st, args[1:], [], cx, node)
        st, it = r[0]
        g = f

        def star(I2, s, a, k, c, n):
            return I2.call(s, g, list(a[0].items), k, c, n)
        f = Nat(('star', repr(g)), star)
    return [(s, sig if isinstance(sig, Exc) else acc) for s, sig in
            I.loop(st, it, body, cx, node)]


@b('range')
def _range(I, st, args, kw, cx, node):
    if all(isinstance(a, K) and isinstance(a.v, int) for a in args):
        r = range(*[a.v for a in args])
        if len(r) <= 64:
            return [(st, st.alloc(I.asite(cx, node), HSeq(
                'list', [K(i) for i in r])))]
    if any(isinstance(a, K) and not isinstance(a.v, int) for a in args):
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'list', (), mk(st, 'range', args, 'int'))))]


@b('iter')
def _iter(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
        else:
            out.append((s, s.alloc(I.asite(cx, node), HSeq(
                'iter', d[0], d[1], d[2], d[3]))))
    return out


@b('next')
def _next(I, st, args, kw, cx, node):
    v = args[0]
    d = args[1] if len(args) > 1 else None
    o = st.get(v.a) if isinstance(v, Ref) else None
    if isinstance(o, HSeq):
        if o.unord and len(o.items) > 1:
            st.emit('unord-pop', I.site(cx, node))
        return next_of(I, st, v, o, d, cx, node)
    return [(st, mk(st, 'next', (v, K(len(st.trace)))))]


def mkcont(kind):
    def f(I, st, args, kw, cx, node):
        site = I.asite(cx, node, kind)
        if not args:
            if kind == 'tuple':
                return [(st, Tup(()))]
            return [(st, st.alloc(site, HSeq(kind, ())))]
        a = args[0]
        if isinstance(a, Sym) and ('C', a) in st.facts:
            a = st.facts[('C', a)]
        out = []
        for s, d in I.seq(st, a, cx, node):
            if isinstance(d, Exc):
                out.append((s, d))
                continue
            items, rest, m1, un = d
            if kind == 'tuple' and rest is None and not un:
                out.append((s, Tup(items)))
                continue
            k = 'list' if kind == 'tuple' else kind
            if kind in ('set', 'frozenset'):
                u = []
                for x in items:
                    if x not in u:
                        u.append(x)
                items, un = u, None
                bad = [x for x in items if isinstance(x, Ref) and
                       isinstance(s.get(x.a), (HSeq, HDict)) and
                       s.get(x.a).kind != 'frozenset']
                if bad:
                    out.append((s, I.exc(s, 'TypeError', (
                        K('unhashable'),), cx, node)))
                    continue
            out.append((s, s.alloc(site, HSeq(k, items, rest, m1, un))))
        return out
    return f


for _k in ('list', 'tuple', 'set', 'frozenset'):
    FN['builtins.' + _k] = mkcont(_k)


@b('dict')
@ext('collections.OrderedDict')
def _dict(I, st, args, kw, cx, node):
    cur = [(st, HDict())]
    if args:
        a = args[0]
        if isinstance(a, Ref) and isinstance(st.get(a.a), HSeq):
            nxt = []
            for s, d in I.seq(st, a, cx, node):
                if isinstance(d, Exc):
                    nxt.append((s, d))
                    continue
                t = s.alloc(I.asite(cx, node, 't'), HSeq(
                    'list', d[0], d[1]))
                nxt.append((s, merge_dict(I, s, HDict(unord=d[3]), t)))
            cur = nxt
        else:
            cur = [(st, merge_dict(I, st, HDict(), a))]
    out = []
    for s, d in cur:
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        for k, v in kw:
            if k is None:
                d = d.upd(rest=v)
            else:
                d = dict_set(d, K(k), v)
        out.append((s, s.alloc(I.asite(cx, node), d.upd(
            owner=None, reads=None))))
    return out


@b('dict.fromkeys')
@ext('collections.OrderedDict.fromkeys')
def _fromkeys(I, st, args, kw, cx, node):
    val = args[1] if len(args) > 1 else NONE
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        h = HDict()
        for x in d[0]:
            h = dict_set(h, x, val)
        if d[1] is not None:
            h = h.upd(rest=(d[1], val))
        out.append((s, s.alloc(I.asite(cx, node), h.upd(unord=d[3]))))
    return out


@b('sum')
def _sum(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        items, rest, m1, un = d
        if rest is None and all(isinstance(x, K) and isinstance(
                x.v, (int, float)) for x in items):
            out.append((s, K(sum(x.v for x in items))))
        else:
            out.append((s, mk(s, 'sum', items + (
                (rest,) if rest is not None else ()), 'int')))
    return out


def minmax(name):
    def f(I, st, args, kw, cx, node):
        kd = dict(kw)
        if len(args) == 1:
            out = []
            for s, d in I.seq(st, args[0], cx, node):
                if isinstance(d, Exc):
                    out.append((s, d))
                    continue
                items, rest, m1, un = d
                if rest is None and not items:
                    out.append((s, kd['default'] if 'default' in kd else
                                I.exc(s, 'ValueError', (), cx, node)))
                elif rest is None and 'key' not in kd and all(
                        isinstance(x, K) for x in items):
                    out.append((s, K(getattr(builtins, name)(
                        x.v for x in items))))
                elif rest is None and len(items) == 1:
                    out.append((s, items[0]))
                else:
                    if un and 'key' in kd:
                        s.emit('unord-pop', I.site(cx, node))
                    t = 'int' if items and all(
                        isinstance(x, Sym) and x.typ == 'int'
                        for x in items) else None
                    out.append((s, mk(s, name, tuple(items) + (
                        (rest,) if rest is not None else ()), t)))
            return out
        if all(isinstance(x, K) for x in args) and 'key' not in kd:
            try:
                return [(st, K(getattr(builtins, name)(
                    *[x.v for x in args])))]
            except TypeError:
                return [(st, I.exc(st, 'TypeError', (), cx, node))]
        t = 'float' if any(typename(I, st, x) == 'float' for x in args) \
            else 'int'
        return [(st, mk(st, name, args, t))]
    return f


FN['builtins.min'] = minmax('min')
FN['builtins.max'] = minmax('max')


# ------------------------------------------------------------------ scalars
@b('str')
def _str(I, st, args, kw, cx, node):
    if not args:
        return [(st, K(''))]
    return str_of(I, st, args[0], cx, node)


@b('repr', 'ascii')
def _repr(I, st, args, kw, cx, node):
    return [(st, repr_of(I, st, args[0]))]


@b('format')
def _format(I, st, args, kw, cx, node):
    if len(args) == 1:
        return str_of(I, st, args[0], cx, node)
    return [(st, mk(st, 'fmt', args, 'str'))]


@b('bool')
def _bool(I, st, args, kw, cx, node):
    if not args:
        return [(st, FALSE)]
    return [(s, t if isinstance(t, Exc) else kbool(t))
            for s, t in I.truth(st, args[0], cx, node)]


def number(name):
    py = getattr(builtins, name)

    def f(I, st, args, kw, cx, node):
        if not args:
            return [(st, K(py()))]
        v = args[0]
        if isinstance(v, Sym) and ('C', v) in st.facts:
            v = st.facts[('C', v)]
        if isinstance(v, K):
            try:
                return [(st, K(py(v.v, *[a.v for a in args[1:]])))]
            except ValueError:
                return [(st, I.exc(st, 'ValueError', (), cx, node))]
            except OverflowError:
                return [(st, I.exc(st, 'OverflowError', (), cx, node))]
            except Exception:
                return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if isinstance(v, (Ref, Tup, Fn, Bound)):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if isinstance(v, Sym) and I.fact_none(st, v) is True:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        tn = typename(I, st, v)
        if tn == name or tn == 'bool' or tn == 'int':
            return [(st, v if tn == name else mk(st, name, (v,), name))]
        r = mk(st, name, (v,), name)
        key = ('P', 'parses-' + name, v, ())
        out = []
        if tn == 'float' and name == 'int':
            for s, ok in I.memo(st, ('P', 'finite', v, ())):
                out.append((s, r if ok else I.exc(
                    s, 'OverflowError', (), cx, node)))
            return out
        for s, ok in I.memo(st, key):
            out.append((s, r if ok else I.exc(
                s, 'ValueError', (), cx, node)))
        return out
    return f


FN['builtins.int'] = number('int')
FN['builtins.float'] = number('float')


@b('abs', 'round')
def _abs(I, st, args, kw, cx, node):
    if all(isinstance(a, K) for a in args):
        return [(st, K(abs(args[0].v)))]
    return [(st, mk(st, 'abs', args, 'int'))]


@b('ord')
def _ord(I, st, args, kw, cx, node):
    if isinstance(args[0], K):
        try:
            return [(st, K(ord(args[0].v)))]
        except TypeError:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    return [(st, mk(st, 'ord', args, 'int'))]


@b('chr', 'hex', 'bin', 'oct')
def _chr(I, st, args, kw, cx, node):
    if isinstance(args[0], K):
        return [(st, K(chr(args[0].v)))]
    return [(st, mk(st, 'chr', args, 'str', truthy=True))]


@b('slice')
def _slice(I, st, args, kw, cx, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return [(st, Tup([Ext('builtins.slice')] + a))]


@b('print')
def _print(I, st, args, kw, cx, node):
    kd = dict(kw)
    f = kd.get('file', NONE)
    name = 'stdout'
    if isinstance(f, Ext):
        name = {'sys.stderr': 'stderr', 'sys.__stderr__': 'stderr'}.get(
            f.path, 'stdout')
    elif isinstance(f, Ref):
        name = 'file'
    cur = [(st, [])]
    for a in args:
        nxt = []
        for s, acc in cur:
            for s1, v in str_of(I, s, a, cx, node):
                nxt.append((s1, acc + [v]))
        cur = nxt
    for s, acc in cur:
        parts = []
        for i, x in enumerate(acc):
            if i:
                parts.append(K(' '))
            parts.append(x)
        s.emit('out', name, concat(parts), I.site(cx, node))
    return [(s, NONE) for s, _ in cur]


@b('super')
def _super(I, st, args, kw, cx, node):
    return [(st, SuperV(args[0], args[1]))]


@b('object')
def _object(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('builtins.object'), {})))]


@b('globals', 'locals', 'dir')
def _globals(I, st, args, kw, cx, node):
    return [(st, mk(st, 'globals', (), 'dict'))]


@b('input')
def _input(I, st, args, kw, cx, node):
    return [(st, Sym(('input', len(st.trace)), 'str'))]


@b('exit', 'quit')
@ext('sys.exit', 'os._exit')
def _exit(I, st, args, kw, cx, node):
    return [(st, I.exc(st, 'SystemExit', tuple(args) or (NONE,), cx, node))]


@b('exec', 'eval', 'compile', '__import__')
def _dyn(I, st, args, kw, cx, node):
    I.note('dynamic code')
    st.emit('dynamic-code', I.site(cx, node))
    return [(st, mk(st, 'dyn', args))]


@b('staticmethod', 'classmethod', 'property')
def _deco_call(I, st, args, kw, cx, node):
    g = args[0] if args else NONE
    if isinstance(g, Fn):
        leaf = 'property'
        return [(st, Fn(g.info, g.env, g.defaults, g.kwdefaults,
                        g.decos + (leaf,)))]
    return [(st, g)]
