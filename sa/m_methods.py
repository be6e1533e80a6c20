"""Methods of builtin containers on abstract values."""
from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HDict, HObj, HSeq, K, Meth,
    Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .m_core import (
    any_eq, contains, dict_del, dict_lookup, dict_set, dict_val, is_strish,
    merge_dict, mk, set_op,
)
from . import m_str
import ast


def call_meth(I, st, m, args, kw, cx, node):
    v, name = m.obj, m.name
    if isinstance(v, Sym) and ('C', v) in st.facts:
        v = st.facts[('C', v)]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HSeq):
            if o.kind in ('set', 'frozenset'):
                return set_meth(I, st, v, o, name, args, kw, cx, node)
            return list_meth(I, st, v, o, name, args, kw, cx, node)
        if isinstance(o, HDict):
            return dict_meth(I, st, v, o, name, args, kw, cx, node)
    if isinstance(v, Tup):
        if name == 'index':
            return index_of(I, st, v.items, None, args[0], cx, node)
        if name == 'count':
            return [(st, mk(st, 'count', [v] + args, 'int'))]
        if name == '_asdict' or name == '_replace':
            I.note('namedtuple method')
    if isinstance(v, (K, Str)) or isinstance(v, Sym) and (
            v.typ in ('str', 'bytes') or
            v.typ is None and name in m_str.STRONLY):
        if isinstance(v, K) and not isinstance(v.v, (str, bytes)):
            try:
                r = getattr(v.v, name)(*[a.v for a in args])
                return [(st, K(r))]
            except Exception:
                return [(st, I.exc(st, 'AttributeError', (K(name),), cx,
                                   node))]
        return m_str.call(I, st, v, name, args, kw, cx, node)
    if isinstance(v, Sym):
        return sym_meth(I, st, v, name, args, kw, cx, node)
    if isinstance(v, (Fn, Bound)):
        if name == '__call__':
            return I.call(st, v, args, kw, cx, node)
        if name in ('cache_clear',):
            return [(st, NONE)]
        if name == '__wrapped__':
            return I.call(st, v, args, kw, cx, node)
    I.note('method %s of %s' % (name, type(v).__name__))
    return [(st, mk(st, 'm.' + name, [v] + list(args)))]


def sym_meth(I, st, v, name, args, kw, cx, node):
    if v.typ == 'list' or v.typ is None and name in (
            'append', 'extend', 'insert', 'sort', 'reverse'):
        if name in ('append', 'extend', 'insert', 'remove', 'sort',
                    'reverse', 'clear', 'pop'):
            st.emit('sym-mutate', v, name, I.site(cx, node))
            if name == 'pop':
                return [(st, mk(st, 'pop', [v] + args))]
            return [(st, NONE)]
        if name in ('index', 'count'):
            return [(st, mk(st, name, [v] + args, 'int'))]
        if name == 'copy':
            return [(st, st.alloc(I.asite(cx, node), HSeq(
                'list', (), Sym(('in', v.id), None, v.labels))))]
    if v.typ == 'dict' or v.typ is None and name in (
            'items', 'keys', 'values', 'get', 'setdefault', 'update'):
        k = Sym(('key', v.id), 'str', v.labels)
        x = Sym(('val', v.id), None, v.labels)
        s = I.asite(cx, node)
        if name == 'items':
            return [(st, st.alloc(s, HSeq('list', (), Tup([k, x]))))]
        if name == 'keys':
            return [(st, st.alloc(s, HSeq('list', (), k)))]
        if name == 'values':
            return [(st, st.alloc(s, HSeq('list', (), x)))]
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            out = []
            for s1, r in I.memo(st, ('I', args[0], v)):
                out.append((s1, mk(s1, 'item', (v, args[0])) if r else d))
            return out
        if name == 'copy':
            return [(st, st.alloc(s, HDict((), (k, x))))]
        if name in ('update', 'setdefault', 'pop', 'clear'):
            st.emit('sym-mutate', v, name, I.site(cx, node))
            return [(st, mk(st, 'm.' + name, [v] + args))]
    if v.typ == 'datetime':
        return [(st, mk(st, 'm.' + name, [v] + list(args), 'str' if name in (
            'strftime', 'isoformat', 'ctime', '__str__') else 'datetime'))]
    st.emit('callsym', Sym(('attr', v.id, name), None, v.labels),
            tuple(args), I.site(cx, node))
    return [(st, mk(st, 'm.' + name, [v] + list(args)))]


def index_of(I, st, items, rest, x, cx, node):
    cur, out = [st], []
    for i, it in enumerate(items):
        nxt = []
        for s in cur:
            for s1, r in I.eq(s, x, it, cx, node):
                if r is True:
                    out.append((s1, K(i)))
                else:
                    nxt.append(s1)
        cur = nxt
    for s in cur:
        if rest is not None:
            out.append((s.copy(), mk(s, 'index', (rest, x), 'int')))
        out.append((s, I.exc(s, 'ValueError', (), cx, node)))
    return out


def find_eq(I, st, items, x, cx, node):
    """-> [(state, index or None)] of the first element equal to x."""
    cur, out = [st], []
    for i, it in enumerate(items):
        nxt = []
        for s in cur:
            for s1, r in I.eq(s, x, it, cx, node):
                if r is True:
                    out.append((s1, i))
                else:
                    nxt.append(s1)
        cur = nxt
    return out + [(s, None) for s in cur]


def mark(st, o):
    if st.marks and not o.unord:
        return st.marks[-1][0]
    return o.unord


def list_meth(I, st, ref, o, name, args, kw, cx, node):
    a = args[0] if args else None
    mut = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
           'reverse', 'appendleft', 'popleft', 'extendleft', 'update')
    if name in mut:
        I.mutated(st, ref, o, cx, node, name)
        o = st.get(ref.a)
    if o.kind == 'iter' and name in ('__next__', 'close', 'send'):
        if name == 'close':
            return [(st, NONE)]
        return next_of(I, st, ref, o, None, cx, node)
    if name == 'append':
        st.put(ref.a, o.upd(items=o.items + (a,), unord=mark(st, o)))
        if I.cfg.get('watch_append'):
            st.emit('append', ref.a, a, I.site(cx, node))
        return [(st, NONE)]
    if name == 'appendleft':
        st.put(ref.a, o.upd(items=(a,) + o.items, unord=mark(st, o)))
        return [(st, NONE)]
    if name in ('extend', 'update'):
        out = []
        for s, d in I.seq(st, a, cx, node):
            if isinstance(d, Exc):
                out.append((s, d))
                continue
            items, rest, m1, un = d
            o2 = s.get(ref.a)
            s.put(ref.a, o2.upd(
                items=o2.items + tuple(items),
                rest=o2.rest if o2.rest is not None else rest,
                min1=o2.min1 or m1, unord=o2.unord or un or mark(s, o2)))
            out.append((s, NONE))
        return out
    if name == 'insert':
        items = list(o.items)
        if isinstance(a, K) and isinstance(a.v, int):
            i = a.v
        else:
            i = len(items)
        items.insert(i, args[1])
        st.put(ref.a, o.upd(items=tuple(items), unord=mark(st, o)))
        return [(st, NONE)]
    if name in ('pop', 'popleft'):
        i = a.v if isinstance(a, K) else (0 if name == 'popleft' else -1)
        if a is not None and not isinstance(a, K):
            I.note('pop unknown index')
            return [(st, mk(st, 'pop', (ref, a)))]
        if o.rest is None:
            items = list(o.items)
            try:
                x = items.pop(i)
            except IndexError:
                return [(st, I.exc(st, 'IndexError', (), cx, node))]
            st.put(ref.a, o.upd(items=tuple(items)))
            return [(st, x)]
        if i == 0 and o.items:
            st.put(ref.a, o.upd(items=o.items[1:]))
            return [(st, o.items[0])]
        out = []
        for s, t in I.truth(st, ref, cx, node):
            if not t:
                out.append((s, I.exc(s, 'IndexError', (), cx, node)))
                continue
            o2 = s.get(ref.a)
            x = I.inst(o2.rest, 'pop%d' % len(s.facts))
            s.put(ref.a, o2.upd(min1=False))
            out.append((s, x))
        return out
    if name == 'remove':
        out = []
        for s, i in find_eq(I, st, o.items, a, cx, node):
            o2 = s.get(ref.a)
            if i is not None:
                s.put(ref.a, o2.upd(items=o2.items[:i] + o2.items[i + 1:]))
                out.append((s, NONE))
            elif o2.rest is not None:
                for s1, r in I.memo(s, ('I', a, o2.rest)):
                    out.append((s1, NONE if r else I.exc(
                        s1, 'ValueError', (), cx, node)))
            else:
                out.append((s, I.exc(s, 'ValueError', (), cx, node)))
        return out
    if name == 'clear':
        st.put(ref.a, o.upd(items=(), rest=None, unord=None))
        return [(st, NONE)]
    if name == 'index':
        return index_of(I, st, o.items, o.rest, a, cx, node)
    if name == 'count':
        return [(st, mk(st, 'count', (ref, a), 'int'))]
    if name == 'copy':
        return [(st, st.alloc(I.asite(cx, node), o.upd(owner=None)))]
    if name == 'reverse':
        st.put(ref.a, o.upd(items=tuple(reversed(o.items))))
        return [(st, NONE)]
    if name == 'sort':
        r = []
        for s, v in sorted_seq(I, st, o.items, o.rest, kw, cx, node):
            if isinstance(v, Exc):
                r.append((s, v))
                continue
            s.put(ref.a, s.get(ref.a).upd(items=v, unord=None))
            r.append((s, NONE))
        return r
    if name in ('__iter__',):
        return [(st, ref)]
    if name == '__len__':
        return length(I, st, ref, cx, node)
    if name == '__contains__':
        return [(s, x if isinstance(x, Exc) else kbool(x)) for s, x in
                contains(I, st, a, ref, cx, node)]
    return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]


def next_of(I, st, ref, o, default, cx, node):
    if o.items:
        st.put(ref.a, o.upd(items=o.items[1:]))
        return [(st, o.items[0])]
    stop = default if default is not None else None
    if o.rest is None:
        return [(st, stop if stop is not None else I.exc(
            st, 'StopIteration', (), cx, node))]
    s2 = st.copy()
    s2.put(ref.a, o.upd(rest=None))
    return [(st, I.inst(o.rest, 'next')),
            (s2, stop if stop is not None else I.exc(
                s2, 'StopIteration', (), cx, node))]


def sorted_seq(I, st, items, rest, kw, cx, node):
    """Deterministic order; -> [(state, items)]"""
    kd = dict(kw)
    key = kd.get('key', NONE)
    cur = [(st, [])]
    if key != NONE:
        for x in items:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s1, k in I.call(s, key, [x], [], cx, node):
                    nxt.append((s1, k if isinstance(k, Exc)
                                else acc + [k]))
            cur = nxt
    else:
        cur = [(st, list(items))]
    out = []
    rev = kd.get('reverse') == TRUE
    for s, ks in cur:
        if isinstance(ks, Exc):
            out.append((s, ks))
            continue
        try:
            if all(isinstance(k, K) for k in ks):
                idx = sorted(range(len(ks)), key=lambda i: ks[i].v,
                             reverse=rev)
            elif all(isinstance(k, Tup) and all(
                    isinstance(x, K) for x in k.items) for k in ks):
                idx = sorted(range(len(ks)), key=lambda i: tuple(
                    x.v for x in ks[i].items), reverse=rev)
            else:
                idx = sorted(range(len(ks)), key=lambda i: repr(ks[i]))
        except TypeError:
            out.append((s, I.exc(s, 'TypeError', (), cx, node)))
            continue
        out.append((s, tuple(items[i] for i in idx)))
    return out


def set_meth(I, st, ref, o, name, args, kw, cx, node):
    a = args[0] if args else None
    if name in ('add', 'discard', 'remove', 'update', 'pop', 'clear',
                'difference_update', 'intersection_update'):
        I.mutated(st, ref, o, cx, node, name)
    if name == 'add':
        out = []
        for s, r in any_eq(I, st, a, o.items, cx, node):
            if not r:
                o2 = s.get(ref.a)
                s.put(ref.a, o2.upd(items=o2.items + (a,)))
            out.append((s, NONE))
        return out
    if name in ('discard', 'remove'):
        out = []
        for s, i in find_eq(I, st, o.items, a, cx, node):
            o2 = s.get(ref.a)
            if i is not None:
                s.put(ref.a, o2.upd(items=o2.items[:i] + o2.items[i + 1:]))
                out.append((s, NONE))
            elif name == 'remove' and o2.rest is None:
                out.append((s, I.exc(s, 'KeyError', (a,), cx, node)))
            else:
                out.append((s, NONE))
        return out
    if name == 'clear':
        st.put(ref.a, o.upd(items=(), rest=None))
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.alloc(I.asite(cx, node), o.upd(owner=None)))]
    if name == 'pop':
        if o.items:
            if len(o.items) + (2 if o.rest is not None else 0) > 1:
                st.emit('unord-pop', I.site(cx, node))
            items = I.set_order(o.items)
            st.put(ref.a, o.upd(items=items[1:]))
            return [(st, items[0])]
        if o.rest is None:
            return [(st, I.exc(st, 'KeyError', (), cx, node))]
        return [(st, I.inst(o.rest, 'pop'))]
    if name in ('update', 'union', 'difference', 'intersection',
                'symmetric_difference', 'difference_update',
                'intersection_update'):
        op = {'update': ast.BitOr, 'union': ast.BitOr,
              'symmetric_difference': ast.BitXor}.get(
                  name, ast.Sub if name.startswith('diff') else ast.BitAnd)
        cur = [(st, o)]
        for x in args:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s1, d in I.seq(s, x, cx, node):
                    if isinstance(d, Exc):
                        nxt.append((s1, d))
                        continue
                    ob = HSeq('set', d[0], d[1])
                    for s2, r in set_op(I, s1, op, ref, acc, x, ob, cx,
                                        node):
                        nxt.append((s2, s2.get(r.a)))
            cur = nxt
        out = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                out.append((s, acc))
            elif name.endswith('update'):
                s.put(ref.a, acc.upd(owner=o.owner))
                out.append((s, NONE))
            else:
                out.append((s, s.alloc(I.asite(cx, node, 'u'), acc.upd(
                    owner=None))))
        return out
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        if o.rest is None and not o.items and name != 'issuperset':
            return [(st, TRUE)]
        return [(s, kbool(r)) for s, r in I.memo(
            st, ('P', name, ref, tuple(args)))]
    return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]


def dict_meth(I, st, ref, o, name, args, kw, cx, node):
    a = args[0] if args else None
    site = I.asite(cx, node)
    if name in ('pop', 'setdefault', 'update', 'clear', 'popitem'):
        I.mutated(st, ref, o, cx, node, name)
    if name == 'get':
        d = args[1] if len(args) > 1 else dict(kw).get('default', NONE)
        return [(s, d if v is None else v) for s, v in
                dict_lookup(I, st, ref, o, a, cx, node)]
    if name == '__getitem__':
        return I.getitem(st, ref, a, cx, node)
    if name == '__contains__':
        return [(s, x if isinstance(x, Exc) else kbool(x)) for s, x in
                contains(I, st, a, ref, cx, node)]
    if name == 'pop':
        out = []
        for s, v in dict_lookup(I, st, ref, o, a, cx, node):
            if v is not None:
                s.put(ref.a, dict_del(s.get(ref.a), a))
                out.append((s, v))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                out.append((s, I.exc(s, 'KeyError', (a,), cx, node)))
        return out
    if name == 'setdefault':
        out = []
        for s, v in dict_lookup(I, st, ref, o, a, cx, node):
            if v is None:
                v = args[1] if len(args) > 1 else NONE
                s.put(ref.a, dict_set(s.get(ref.a), a, v))
            out.append((s, v))
        return out
    if name == 'update':
        d = o
        for x in args:
            d = merge_dict(I, st, d, x)
        for k, x in kw:
            if k is not None:
                d = dict_set(d, K(k), x)
        if st.marks:
            d = d.upd(unord=d.unord or st.marks[-1][0])
        st.put(ref.a, d)
        return [(st, NONE)]
    if name in ('items', 'keys', 'values'):
        if o.reads is not None:
            st.put(ref.a, o.upd(reads=o.reads | {
                k.v for k, _ in o.items if isinstance(k, K)}))
        f = {'items': lambda k, v: Tup([k, v]), 'keys': lambda k, v: k,
             'values': lambda k, v: v}[name]
        # a view: a fresh sequence each time it is requested
        return [(st, st.alloc(site, HSeq(
            'list', [f(k, v) for k, v in o.items],
            f(*o.rest) if o.rest is not None else None, unord=o.unord)))]
    if name == 'copy':
        return [(st, st.alloc(site, o.upd(owner=None, reads=None)))]
    if name == 'clear':
        st.put(ref.a, o.upd(items=(), rest=None))
        return [(st, NONE)]
    if name == 'popitem':
        if o.items:
            st.put(ref.a, o.upd(items=o.items[:-1]))
            return [(st, Tup(o.items[-1]))]
        return [(st, I.exc(st, 'KeyError', (), cx, node))]
    if name == '__len__':
        return length(I, st, ref, cx, node)
    return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]


def length(I, st, v, cx, node):
    if isinstance(v, Sym) and ('C', v) in st.facts:
        v = st.facts[('C', v)]
    if isinstance(v, K):
        try:
            return [(st, K(len(v.v)))]
        except TypeError:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(v, Tup):
        return [(st, K(len(v.items)))]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            lst = o.attrs.get('$list')
            if lst is not None:
                return length(I, st, lst, cx, node)
            if isinstance(o.cls, Ref):
                r = I.class_attr(st, o.cls, '__len__')
                if r is not None:
                    return I.call(st, Bound(r[0], v), [], [], cx, node)
        if isinstance(o, (HSeq, HDict)):
            if o.rest is None:
                return [(st, K(len(o.items)))]
            return [(st, Sym(('len', len(o.items), v), 'int'))]
    if isinstance(v, Sym) and I.fact_none(st, v) is True:
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(v, Sym) and I.fact_truth(st, v) is False:
        return [(st, K(0))]
    return [(st, Sym(('len', 's', v), 'int', labels_of(v, st)))]
