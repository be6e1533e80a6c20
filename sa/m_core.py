"""Operators, comparison, subscripting on abstract values."""
import ast
import builtins
import hashlib
import operator
import os
import re

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HEnv, HMod,
    HObj, HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool,
    labels_of,
)
from .interp import concat, SuperV

SLICE = Ext('builtins.slice')


# ------------------------------------------------------------ structural syms
def freeze(st, v, depth=0):
    """Value with mutable containers replaced by their current contents."""
    if depth > 4:
        return v
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HSeq):
            return Tup([Ext('seq')] + [freeze(st, x, depth + 1)
                                       for x in o.items]
                       + ([o.rest] if o.rest is not None else []))
        if isinstance(o, HDict):
            return Tup([Ext('dict')] + [freeze(st, x, depth + 1)
                                        for kv in o.items for x in kv])
    if isinstance(v, Tup):
        return Tup(freeze(st, x, depth + 1) for x in v.items)
    return v


def size(i):
    if isinstance(i, tuple):
        return sum(size(x) for x in i) + 1
    if isinstance(i, Sym):
        return size(i.id)
    if isinstance(i, Str):
        return size(i.parts)
    if isinstance(i, Tup):
        return size(i.items)
    return 1


def mk(st, name, args, typ=None, extra=EMPTY, truthy=None):
    fr = tuple(freeze(st, a) if isinstance(a, Value) else a for a in args)
    lab = set(extra)
    for a in args:
        if isinstance(a, Value):
            lab |= labels_of(a, st)
    i = (name,) + fr
    if size(i) > 60:
        i = (name, 'h' + hashlib.md5(repr(i).encode()).hexdigest()[:12])
    return Sym(i, typ, lab, truthy=truthy)


def is_strish(v):
    return isinstance(v, Str) or (isinstance(v, K) and isinstance(v.v, str)) \
        or (isinstance(v, Sym) and v.typ == 'str')


def typename(I, st, v):
    """Concrete builtin type name of a value when known."""
    if isinstance(v, K):
        return type(v.v).__name__
    if isinstance(v, Str):
        return 'str'
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, Sym):
        return v.typ.rstrip('!') if v.typ else None
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HSeq):
            return {'iter': 'generator'}.get(o.kind, o.kind)
        if isinstance(o, HDict):
            return 'dict'
        if isinstance(o, HClass):
            return 'type'
        if isinstance(o, HMod):
            return 'module'
        if isinstance(o, HObj):
            return '$obj'
    if isinstance(v, (Fn, Bound, Nat, Meth, Partial)):
        return 'function'
    return None


# -------------------------------------------------------------------- equality
def str_pattern(v):
    out = ''
    for p in v.parts:
        out += re.escape(p) if isinstance(p, str) else '(?s:.*)'
    return out


def eq(I, st, a, b, cx=None, node=None):
    """-> [(state, bool)]"""
    if isinstance(a, Value) and a == b and not (
            isinstance(a, K) and a.v != a.v):
        return [(st, True)]
    if isinstance(a, K) and isinstance(b, K):
        try:
            return [(st, bool(a.v == b.v))]
        except Exception:
            return [(st, False)]
    if isinstance(b, Sym) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(a, Sym):
        ca = st.facts.get(('C', a))
        if ca is not None and ca != b:
            if isinstance(b, K):
                return [(st, ca.v == b.v)]
            return eq(I, st, ca, b, cx, node)
        if isinstance(b, Sym):
            cb = st.facts.get(('C', b))
            if cb is not None:
                return eq(I, st, a, cb, cx, node)
            if a.generic and b.generic:
                return [(st, False)]
            if a.id[0] == b.id[0] == 'abspath':
                r = same_place(a.id[1], b.id[1])
                if r is not None:
                    return [(st, r)]
            if a.typ and b.typ and a.typ != b.typ and \
                    not {a.typ, b.typ} <= {'int', 'float', 'bool'}:
                if I.fact_none(st, a) is False or \
                        I.fact_none(st, b) is False:
                    return [(st, False)]
            x, y = sorted((a, b), key=repr)
            return I.memo(st, ('E', x, y))
        if isinstance(b, K):
            if a.generic:
                return [(st, False)]
            if b.v is None:
                return I.is_(st, a, b, cx, node)
            if a.typ in ('list', 'dict', 'callable'):
                return [(st, False)]
            tn = type(b.v).__name__
            if a.typ == 'bool' and isinstance(b.v, (bool, int)):
                return [(s, t == bool(b.v)) for s, t in
                        I.truth(st, a, cx, node)]
            if a.typ and a.typ != tn and not (
                    a.typ in ('int', 'float') and tn in (
                        'int', 'float', 'bool')):
                return [(st, False)]
            if isinstance(a.id, tuple) and a.id[0] == 'len' and b.v == 0:
                return [(s, not t) for s, t in I.truth(
                    st, a.id[2], cx, node)] if len(a.id) > 2 else \
                    I.memo(st, ('E', a, b))
            t = I.fact_truth(st, a)
            if t is not None and t != bool(b.v):
                return [(st, False)]
            if t is False and isinstance(b.v, str) and b.v == '' and \
                    a.typ == 'str' and I.fact_none(st, a) is False:
                return [(st, True)]
            key = ('E', a, b)
            if key in st.facts:
                return [(st, st.facts[key])]
            # at most one constant
            for k, f in st.facts.items():
                if k[0] == 'E' and k[1] == a and f and \
                        isinstance(k[2], K):
                    return [(st, k[2] == b)]
            # consistency with remembered predicates (startswith, in ...)
            if not const_consistent(st, a, b):
                return [(st, False)]
            s2 = st.copy()
            st.facts[key] = True
            st.facts[('C', a)] = b
            s2.facts[key] = False
            if not b.v and a.typ == 'str':
                s2.facts.setdefault(('T', a), True)
            return [(st, True), (s2, False)]
        if isinstance(b, Str):
            if a.generic:
                return I.memo(st, ('E', a, b)) if a in b.parts and False \
                    else [(st, False)]
            if a.typ and a.typ != 'str':
                return [(st, False)]
            if a in b.parts and any(
                    isinstance(p, str) and p for p in b.parts):
                return [(st, False)]
            return I.memo(st, ('E', a, b))
        if isinstance(b, (Ref, Tup)):
            tn = typename(I, st, b)
            if a.typ and tn and a.typ != tn:
                return [(st, False)]
            if a.generic:
                return [(st, False)]
            return I.memo(st, ('E', a, freeze(st, b)))
        if isinstance(b, Ext):
            return I.memo(st, ('E', a, b))
        return [(st, False)]
    if isinstance(b, Str) and not isinstance(a, Str):
        a, b = b, a
    if isinstance(a, Str):
        if isinstance(b, K):
            if not isinstance(b.v, str):
                return [(st, False)]
            if not re.fullmatch(str_pattern(a), b.v):
                return [(st, False)]
            if any(isinstance(p, Sym) and p.generic for p in a.parts):
                return [(st, False)]
            if len(a.parts) == 1:
                return eq(I, st, a.parts[0], b, cx, node)
            return I.memo(st, ('E', a, b))
        if isinstance(b, Str):
            # strip common prefix / suffix
            x, y = list(a.parts), list(b.parts)
            while x and y and x[0] == y[0]:
                x.pop(0)
                y.pop(0)
            while x and y and x[-1] == y[-1]:
                x.pop()
                y.pop()
            if not x and not y:
                return [(st, True)]
            if x and y and isinstance(x[0], str) and isinstance(y[0], str):
                n = min(len(x[0]), len(y[0]))
                if x[0][:n] != y[0][:n]:
                    return [(st, False)]
            if x and y and isinstance(x[-1], str) and isinstance(y[-1], str):
                n = min(len(x[-1]), len(y[-1]))
                if x[-1][-n:] != y[-1][-n:]:
                    return [(st, False)]
            if not x or not y:
                z = x or y
                if any(isinstance(p, str) or p.truthy for p in z):
                    return [(st, False)]
            gx = [p for p in x if isinstance(p, Sym)]
            gy = [p for p in y if isinstance(p, Sym)]
            if all(p.generic for p in gx + gy) and (gx or gy):
                return [(st, False)]
            p, q = sorted((a, b), key=repr)
            return I.memo(st, ('E', p, q))
        return [(st, False)]
    if isinstance(a, Tup) and isinstance(b, Tup):
        return eq_seq(I, st, a.items, b.items, cx, node)
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = st.get(a.a), st.get(b.a)
        if isinstance(oa, HObj):
            r = obj_eq(I, st, a, oa, b, ob, cx, node)
            if r is not None:
                return r
            return [(st, a.a == b.a)]
        if isinstance(oa, HSeq) and isinstance(ob, HSeq):
            sets = ('set', 'frozenset')
            if (oa.kind in sets) != (ob.kind in sets):
                return [(st, False)]
            if oa.rest is None and ob.rest is None:
                if oa.kind in sets:
                    if all(isinstance(x, K) for x in oa.items + ob.items):
                        return [(st, set(oa.items) == set(ob.items))]
                    return I.memo(st, ('E', freeze(st, a), freeze(st, b)))
                return eq_seq(I, st, oa.items, ob.items, cx, node)
            if oa == ob:
                return [(st, True)]
            if oa.rest is None and len(ob.items) > len(oa.items):
                return [(st, False)]
            if not oa.items and oa.rest is None:
                return [(s, not t) for s, t in I.truth(st, b, cx, node)]
            if not ob.items and ob.rest is None:
                return [(s, not t) for s, t in I.truth(st, a, cx, node)]
            return I.memo(st, ('E', freeze(st, a), freeze(st, b)))
        if isinstance(oa, HDict) and isinstance(ob, HDict):
            if oa.rest is None and ob.rest is None:
                da, db = dict(oa.items), dict(ob.items)
                if da == db:
                    return [(st, True)]
                if set(da) != set(db):
                    return [(st, False)]
            return I.memo(st, ('E', freeze(st, a), freeze(st, b)))
        return [(st, a.a == b.a)]
    if isinstance(a, Ref):
        o = st.get(a.a)
        if isinstance(o, HObj):
            r = obj_eq(I, st, a, o, b, None, cx, node)
            if r is not None:
                return r
        return [(st, False)]
    if isinstance(b, Ref):
        return eq(I, st, b, a, cx, node) if isinstance(
            st.get(b.a), HObj) else [(st, False)]
    if isinstance(a, Ext) and isinstance(b, Ext):
        return [(st, a.path == b.path)]
    return [(st, False)]


def const_consistent(st, a, c):
    """Could Sym `a` be constant `c` given remembered predicate facts?"""
    for k, f in st.facts.items():
        if k[0] != 'P' or len(k) < 4 or k[2] != a:
            continue
        name, args = k[1], k[3]
        if not all(isinstance(x, K) for x in args):
            continue
        try:
            r = getattr(c.v, name)(*[x.v for x in args])
        except Exception:
            continue
        if bool(r) != f:
            return False
    return True


def same_place(x, y):
    """Are the absolute forms of two known paths equal? None: unknown"""
    if not (isinstance(x, K) and isinstance(y, K) and
            isinstance(x.v, str) and isinstance(y.v, str)):
        return None
    p, q = os.path.normpath(x.v), os.path.normpath(y.v)
    if p == q:
        return True
    for a, b in ((p, q), (q, p)):
        if a.startswith('/') != b.startswith('/') or a.startswith('..'):
            return None
    return False


def eq_seq(I, st, xs, ys, cx, node):
    if len(xs) != len(ys):
        return [(st, False)]
    cur, out = [st], []
    for x, y in zip(xs, ys):
        nxt = []
        for s in cur:
            for s1, r in eq(I, s, x, y, cx, node):
                if r:
                    nxt.append(s1)
                else:
                    out.append((s1, False))
        cur = nxt
    return out + [(s, True) for s in cur]


def obj_eq(I, st, a, oa, b, ob, cx, node):
    if isinstance(oa.cls, Ref):
        r = I.class_attr(st, oa.cls, '__eq__')
        if r is not None:
            out = []
            for s, v in I.call(st, Bound(r[0], a), [b], [], cx, node):
                if isinstance(v, Exc):
                    out.append((s, v))
                else:
                    out.extend(I.truth(s, v, cx, node))
            return out
        c = st.get(oa.cls.a)
        fields = c.attrs.get('$dataclass') or c.attrs.get('$namedtuple')
        if fields is not None and isinstance(ob, HObj) and ob.cls == oa.cls:
            names = [f.items[0].v if isinstance(f, Tup) else f.v
                     for f in fields.items]
            return eq_seq(I, st, [oa.attrs.get(n, NONE) for n in names],
                          [ob.attrs.get(n, NONE) for n in names], cx, node)
        return None
    if isinstance(oa.cls, Ext) and oa.cls.path == 'polib.POEntry' and \
            isinstance(ob, HObj) and ob.cls == oa.cls:
        if a.a == b.a:
            return [(st, True)]
        xs, ys = [], []
        for f in ('obsolete', 'msgctxt', 'msgid_plural', 'msgid', 'msgstr',
                  'occurrences'):
            x, y = oa.attrs[f], ob.attrs[f]
            if f in ('msgctxt', 'msgid_plural'):
                x = K('0') if x in (NONE, K('')) else x
                y = K('0') if y in (NONE, K('')) else y
            xs.append(x)
            ys.append(y)
        return eq_seq(I, st, xs, ys, cx, node)
    if isinstance(oa.cls, Ext) and oa.cls.path == 'pathlib.Path' and \
            isinstance(ob, HObj) and ob.cls == oa.cls:
        return eq(I, st, oa.attrs['p'], ob.attrs['p'], cx, node)
    return None


# -------------------------------------------------------------------- ordering
def order(I, t, a, b, st, cx, node):
    fn = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
          ast.GtE: operator.ge}.get(t)
    if fn is None:
        I.note('comparison ' + t.__name__)
        return I.memo(st, ('cmp', t.__name__, a, b))
    if isinstance(a, K) and isinstance(b, K):
        try:
            return [(st, bool(fn(a.v, b.v)))]
        except TypeError:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(a, Sym) and ('C', a) in st.facts:
        return order(I, t, st.facts[('C', a)], b, st, cx, node)
    if isinstance(b, Sym) and ('C', b) in st.facts:
        return order(I, t, a, st.facts[('C', b)], st, cx, node)
    # constants on the right
    flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt,
            ast.GtE: ast.LtE}
    if isinstance(a, K) and not isinstance(b, K):
        return order(I, flip[t], b, a, st, cx, node)
    if isinstance(a, Tup) and isinstance(b, Tup) and all(
            isinstance(x, K) for x in a.items + b.items):
        try:
            return [(st, bool(fn(tuple(x.v for x in a.items),
                                 tuple(x.v for x in b.items))))]
        except TypeError:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(a, (Tup,)) and isinstance(b, Tup):
        return I.memo(st, ('O', t.__name__, a, b))
    none_a = I.fact_none(st, a)
    if none_a is True or (isinstance(b, K) and b.v is None):
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = st.get(a.a), st.get(b.a)
        if isinstance(oa, HObj) and isinstance(oa.cls, Ref):
            nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
                  ast.GtE: '__ge__'}[t]
            r = I.class_attr(st, oa.cls, nm)
            if r is not None:
                out = []
                for s, v in I.call(st, Bound(r[0], a), [b], [], cx, node):
                    out.extend([(s, v)] if isinstance(v, Exc)
                               else I.truth(s, v, cx, node))
                return out
        if isinstance(oa, HSeq) and isinstance(ob, HSeq):
            if oa.rest is None and ob.rest is None:
                if all(isinstance(x, K) for x in oa.items + ob.items):
                    xs = [x.v for x in oa.items]
                    ys = [x.v for x in ob.items]
                    if oa.kind in ('set', 'frozenset'):
                        xs, ys = set(xs), set(ys)
                    return [(st, bool(fn(xs, ys)))]
                if not oa.items and not ob.items:
                    return [(st, bool(fn(0, 0)))]
            if oa.items == ob.items and oa.rest == ob.rest:
                return [(st, bool(fn(0, 0)))]
    if a == b:
        return [(st, bool(fn(0, 0)))]
    # x </> y consistent with x == y and with the flipped comparison
    fa, fb = freeze(st, a), freeze(st, b)
    if isinstance(a, Sym) and isinstance(a.id, tuple) and \
            a.id[0] == 'len' and isinstance(b, K) and len(a.id) > 2:
        n = b.v
        obj = a.id[2]
        if (t is ast.Gt and n == 0) or (t is ast.GtE and n == 1):
            return I.truth(st, obj, cx, node)
        if (t is ast.Lt and n == 1) or (t is ast.LtE and n == 0):
            return [(s, not r) for s, r in I.truth(st, obj, cx, node)]
        if (t is ast.GtE and n <= 0) or (t is ast.Gt and n < 0):
            return [(st, True)]
        if (t is ast.Lt and n <= 0) or (t is ast.LtE and n < 0):
            return [(st, False)]
        # interval reasoning over remembered bounds
        r = interval(st, a, t, n)
        if r is not None:
            return [(st, r)]
        tr = I.fact_truth(st, obj) if isinstance(obj, Sym) else None
        if tr is False:
            return [(st, bool(fn(0, n)))]
        out = []
        for s, v in I.memo(st, ('O', norm_op(t, n)[0], a,
                                norm_op(t, n)[1])):
            out.append((s, v if norm_op(t, n)[2] else not v))
        return out
    if isinstance(a, Sym) and isinstance(b, K) and \
            isinstance(b.v, (int, float)):
        r = interval(st, a, t, b.v)
        if r is not None:
            return [(st, r)]
        o, n, pos = norm_op(t, b.v)
        return [(s, v if pos else not v)
                for s, v in I.memo(st, ('O', o, a, n))]
    if not isinstance(b, K) and repr(fa) > repr(fb):
        return order(I, flip[t], b, a, st, cx, node)
    known = {}
    for nm, f in (('E', None), ('lt', None)):
        known[nm] = None
    x, y = fa, fb
    kk = ('ORD', x, y)
    c = st.facts.get(kk)
    if c is None:
        e = None
        sa = sorted((a, b), key=repr)
        if isinstance(a, Value) and isinstance(b, Value):
            e = st.facts.get(('E', sa[0], sa[1]))
        opts = ['=', '<', '>']
        if e is True:
            opts = ['=']
        elif e is False:
            opts = ['<', '>']
        if isinstance(a, Sym) and isinstance(b, Sym) and a.generic and \
                b.generic and a != b:
            # ordinary texts: one fixed but arbitrary order is enough
            opts = ['<', '>'] if I.cfg.get('generic_unordered') else [
                '<' if repr(x) < repr(y) else '>']
        out = []
        for i, o in enumerate(opts):
            s = st if i == len(opts) - 1 else st.copy()
            s.facts[kk] = o
            if e is None:
                s.facts[('E', sa[0], sa[1])] = o == '='
            out.append((s, fn({'<': -1, '=': 0, '>': 1}[o], 0)))
        return out
    return [(st, fn({'<': -1, '=': 0, '>': 1}[c], 0))]


def norm_op(t, n):
    """a<op>n over integers as (a > m) or its negation."""
    if t is ast.Gt:
        return 'gt', n, True
    if t is ast.LtE:
        return 'gt', n, False
    if isinstance(n, int):
        if t is ast.GtE:
            return 'gt', n - 1, True
        return 'gt', n - 1, False
    return ('ge', n, True) if t is ast.GtE else ('ge', n, False)


def interval(st, a, t, n):
    """Decide a <op> n from remembered 'a > m' facts."""
    lo, hi = float('-inf'), float('inf')
    for k, f in st.facts.items():
        if k[0] == 'O' and len(k) == 4 and k[2] == a and \
                isinstance(k[3], (int, float)):
            if k[1] == 'gt':
                if f:
                    lo = max(lo, k[3] + 1 if isinstance(k[3], int)
                             else k[3])
                else:
                    hi = min(hi, k[3])
    if t is ast.Gt:
        return True if lo > n else False if hi <= n else None
    if t is ast.GtE:
        return True if lo >= n else False if hi < n else None
    if t is ast.Lt:
        return True if hi < n else False if lo >= n else None
    return True if hi <= n else False if lo > n else None


# ------------------------------------------------------------------ membership
def contains(I, st, x, c, cx, node):
    """x in c"""
    if isinstance(c, Tup):
        return any_eq(I, st, x, c.items, cx, node)
    if isinstance(c, Ref):
        o = st.get(c.a)
        if isinstance(o, HSeq):
            if isinstance(x, Ref) and o.kind in ('set', 'frozenset') and \
                    isinstance(st.get(x.a), (HSeq, HDict)):
                return [(st, I.exc(st, 'TypeError', (), cx, node))]
            if o.rest is None:
                return any_eq(I, st, x, o.items, cx, node)
            out = []
            for s, r in any_eq(I, st, x, o.items, cx, node):
                if r:
                    out.append((s, True))
                elif isinstance(x, Sym) and x.generic and \
                        not (x.labels & labels_of(o.rest)):
                    out.extend(I.memo(s, ('I', x, o.rest)))
                else:
                    out.extend(I.memo(s, ('I', freeze(s, x), o.rest)))
            return out
        if isinstance(o, HDict):
            if o.reads is not None and isinstance(x, K):
                o = o.upd(reads=o.reads | {x.v})
                st.put(c.a, o)
            out = []
            for s, r in any_eq(I, st, x, [k for k, _ in o.items], cx, node):
                if r or o.rest is None:
                    out.append((s, r))
                else:
                    out.extend(I.memo(s, ('I', x, o.rest[0])))
            return out
        if isinstance(o, HObj):
            from . import m_ext
            r = m_ext.obj_contains(I, st, x, c, o, cx, node)
            if r is not None:
                return r
            if isinstance(o.cls, Ref):
                m = I.class_attr(st, o.cls, '__contains__')
                if m is not None:
                    out = []
                    for s, v in I.call(st, Bound(m[0], c), [x], [], cx,
                                       node):
                        out.extend([(s, v)] if isinstance(v, Exc)
                                   else I.truth(s, v, cx, node))
                    return out
            I.note('contains on object')
            return I.memo(st, ('I', x, c))
        if isinstance(o, HClass):
            return I.memo(st, ('I', x, c))
    if isinstance(c, K):
        if isinstance(c.v, (str, bytes)):
            if isinstance(x, K):
                try:
                    return [(st, x.v in c.v)]
                except TypeError:
                    return [(st, I.exc(st, 'TypeError', (), cx, node))]
            if isinstance(x, Sym) and x.generic:
                return [(st, False)]
            if isinstance(x, Sym) and ('C', x) in st.facts:
                return contains(I, st, st.facts[('C', x)], c, cx, node)
            return I.memo(st, ('I', x, c))
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(c, Str):
        if isinstance(x, K) and isinstance(x.v, str):
            if any(isinstance(p, str) and x.v in p for p in c.parts):
                return [(st, True)]
            if all(isinstance(p, str) or p.generic for p in c.parts) and \
                    I.cfg.get('generic_no_substr', True):
                return [(st, False)]
        if isinstance(x, Sym) and x in c.parts:
            return [(st, True)]
        return I.memo(st, ('I', x, c))
    if isinstance(c, Sym):
        if I.fact_none(st, c) is True or c.typ in ('int', 'bool'):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if ('C', c) in st.facts:
            return contains(I, st, x, st.facts[('C', c)], cx, node)
        if I.fact_truth(st, c) is False:
            return [(st, isinstance(x, K) and x.v == '' and
                     c.typ == 'str')]
        if c.generic and isinstance(x, K) and c.typ == 'str':
            return [(st, False)]
        if isinstance(x, Sym) and x.id == ('in', c.id):
            return [(st, True)]
        return I.memo(st, ('I', freeze(st, x), c))
    if isinstance(c, Ext):
        from . import m_ext
        return m_ext.ext_contains(I, st, x, c, cx, node)
    I.note('contains')
    return I.memo(st, ('I', x, c))


def any_eq(I, st, x, items, cx, node):
    cur, out = [st], []
    for it in items:
        nxt = []
        for s in cur:
            if x == it:
                out.append((s, True))
                continue
            for s1, r in I.eq(s, x, it, cx, node):
                if r is True:
                    out.append((s1, True))
                elif isinstance(r, Exc):
                    out.append((s1, r))
                else:
                    nxt.append(s1)
        cur = nxt
    return out + [(s, False) for s in cur]


# ------------------------------------------------------------------- operators
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
       ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor,
       ast.BitAnd: operator.and_}


def binop(I, op, a, b, st, cx, n):
    t = type(op)
    if isinstance(a, Sym) and ('C', a) in st.facts:
        a = st.facts[('C', a)]
    if isinstance(b, Sym) and ('C', b) in st.facts:
        b = st.facts[('C', b)]
    if isinstance(a, K) and isinstance(b, K):
        if t is ast.Mult and (isinstance(a.v, int) and a.v > 10000 or
                              isinstance(b.v, int) and b.v > 10000):
            return [(st, mk(st, 'mul', (a, b)))]
        try:
            return [(st, K(OPS[t](a.v, b.v)))]
        except KeyError:
            pass
        except ZeroDivisionError:
            return [(st, I.exc(st, 'ZeroDivisionError', (), cx, n))]
        except Exception:
            return [(st, I.exc(st, 'TypeError', (), cx, n))]
    if t in (ast.Add, ast.Sub) and is_length(a) and isinstance(b, K) and \
            type(b.v) is int:
        return [(st, position(a, b.v if t is ast.Add else -b.v))]
    if t is ast.Add and is_length(b) and isinstance(a, K) and \
            type(a.v) is int:
        return [(st, position(b, a.v))]
    oa = st.get(a.a) if isinstance(a, Ref) else None
    ob = st.get(b.a) if isinstance(b, Ref) else None
    if isinstance(oa, HObj) and oa.attrs.get('$list') is not None:
        oa = st.get(oa.attrs['$list'].a)
    if isinstance(ob, HObj) and ob.attrs.get('$list') is not None:
        ob = st.get(ob.attrs['$list'].a)
    if isinstance(oa, HObj) and isinstance(oa.cls, Ref):
        nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
              ast.Div: '__truediv__', ast.BitOr: '__or__'}.get(t)
        r = nm and I.class_attr(st, oa.cls, nm)
        if r:
            return I.call(st, Bound(r[0], a), [b], [], cx, n)
    if isinstance(oa, HObj) and isinstance(oa.cls, Ext):
        from . import m_ext
        r = m_ext.obj_binop(I, st, t, a, oa, b, cx, n)
        if r is not None:
            return r
    if t is ast.Add:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and x.v is None:
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
            if isinstance(x, Sym) and I.fact_none(st, x) is True:
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
        if is_strish(a) or is_strish(b):
            bad = {'list', 'int', 'bool', 'dict', 'tuple', 'set',
                   'frozenset', 'float', 'function', '$obj', 'generator'}
            if typename(I, st, a) in bad or typename(I, st, b) in bad:
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
            return [(st, concat([strsym(a), strsym(b)]))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if isinstance(oa, HSeq) and isinstance(ob, HSeq):
            if oa.rest is None:
                r = st.alloc(I.asite(cx, n), HSeq(
                    'list', oa.items + ob.items, ob.rest, ob.min1,
                    unord=oa.unord or ob.unord))
            else:
                r = st.alloc(I.asite(cx, n), HSeq(
                    'list', oa.items, oa.rest, oa.min1,
                    unord=oa.unord or ob.unord))
                if ob.items:
                    I.note('list + list after unknown part')
            return [(st, r)]
        if isinstance(oa, HSeq) and isinstance(b, Sym):
            return [(st, st.alloc(I.asite(cx, n), HSeq(
                'list', oa.items, oa.rest or Sym(
                    ('in', b.id), None, b.labels))))]
        if oa is not None or ob is not None:
            if isinstance(oa, HSeq) or isinstance(ob, HSeq):
                if not isinstance(a, Sym) and not isinstance(b, Sym):
                    return [(st, I.exc(st, 'TypeError', (), cx, n))]
        ta, tb = typename(I, st, a), typename(I, st, b)
        num = ('int', 'float', 'bool')
        typ = None
        if ta in num and tb in num:
            typ = 'int' if 'float' not in (ta, tb) else 'float'
        elif ta in num or tb in num:
            typ = 'int'
        return [(st, mk(st, 'add', (a, b), typ))]
    if t is ast.Mult:
        x, y = (a, b) if is_strish(a) else (b, a)
        if is_strish(x):
            if isinstance(y, K) and isinstance(y.v, (int, bool)):
                if y.v <= 0:
                    return [(st, K(''))]
                if y.v <= 8:
                    return [(st, concat([x] * int(y.v)))]
            if typename(I, st, y) in ('str', 'NoneType', 'list', 'dict'):
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
            if I.fact_none(st, y) is True:
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
            return [(st, mk(st, 'mul', (x, y), 'str'))]
        if isinstance(oa, HSeq) and isinstance(b, K) and oa.rest is None:
            return [(st, st.alloc(I.asite(cx, n), HSeq(
                'list', oa.items * b.v)))]
        if isinstance(a, K) and a.v is None or isinstance(b, K) and \
                b.v is None:
            return [(st, I.exc(st, 'TypeError', (), cx, n))]
        return [(st, mk(st, 'mul', (a, b), 'int'))]
    if t is ast.Mod and is_strish(a):
        return percent_format(I, st, a, b, cx, n)
    if t is ast.BitOr and (isinstance(oa, HDict) or isinstance(ob, HDict)):
        d = oa if isinstance(oa, HDict) else HDict()
        return [(st, st.alloc(I.asite(cx, n), merge_dict(I, st, d, b).upd(
            owner=None, reads=None)))]
    if isinstance(oa, HSeq) and isinstance(ob, HSeq) and t in (
            ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
        return set_op(I, st, t, a, oa, b, ob, cx, n)
    if isinstance(a, K) and a.v is None or isinstance(b, K) and b.v is None:
        return [(st, I.exc(st, 'TypeError', (), cx, n))]
    return [(st, mk(st, t.__name__, (a, b), 'int'))]


def strsym(v):
    if isinstance(v, Sym) and v.typ is None:
        return Sym(v.id, 'str', v.labels, v.generic, v.truthy)
    return v


def set_op(I, st, t, a, oa, b, ob, cx, n):
    kind = oa.kind if oa.kind in ('set', 'frozenset') else 'set'
    if t is ast.BitOr:
        items = list(oa.items) + [x for x in ob.items if x not in oa.items]
        return [(st, st.alloc(I.asite(cx, n), HSeq(
            kind, items, oa.rest if oa.rest is not None else ob.rest)))]
    if oa.rest is None and ob.rest is None:
        cur = [(st, [])]
        for x in oa.items:
            nxt = []
            for s, acc in cur:
                for s1, r in any_eq(I, s, x, ob.items, cx, n):
                    keep = (not r) if t is ast.Sub else r
                    nxt.append((s1, acc + [x] if keep else acc))
            cur = nxt
        return [(s, s.alloc(I.asite(cx, n), HSeq(kind, acc)))
                for s, acc in cur]
    return [(st, st.alloc(I.asite(cx, n), HSeq(
        kind, (), mk(st, 'setop' + t.__name__, (a, b)))))]


def percent_format(I, st, a, b, cx, n):
    args = list(b.items) if isinstance(b, Tup) else [b]
    if isinstance(a, K):
        parts = re.split(r'%([sdr%])', a.v)
        out, i = [], 0
        for j, p in enumerate(parts):
            if j % 2 == 0:
                out.append(K(p))
            elif p == '%':
                out.append(K('%'))
            else:
                if i >= len(args):
                    return [(st, I.exc(st, 'TypeError', (), cx, n))]
                out.append(args[i])
                i += 1
        if '%(' not in a.v:
            if i < len(args):
                return [(st, I.exc(st, 'TypeError', (), cx, n))]
            cur = [(st, [])]
            for x in out:
                nxt = []
                for s, acc in cur:
                    for s1, v in str_of(I, s, x, cx, n):
                        nxt.append((s1, acc + [v]))
                cur = nxt
            return [(s, concat(acc)) for s, acc in cur]
    return [(st, mk(st, 'percent', [a] + args, 'str'))]


def str_of(I, st, v, cx, node):
    """str(v): -> [(state, value)]"""
    if isinstance(v, K):
        return [(st, v if isinstance(v.v, str) else K(str(v.v)))]
    if isinstance(v, Str):
        return [(st, v)]
    if isinstance(v, Sym):
        c = st.facts.get(('C', v))
        if c is not None and isinstance(c.v, str) and \
                not I.cfg.get('keep_syms', True):
            return [(st, c)]
        if v.typ == 'str':
            return [(st, v)]
        if v.typ is None:
            return [(st, strsym(v))]
        return [(st, Sym(('str', v), 'str', v.labels, v.generic,
                         True if v.typ in ('int', 'float', 'bool')
                         else None))]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            if isinstance(o.cls, Ref):
                for nm in ('__str__', '__repr__'):
                    r = I.class_attr(st, o.cls, nm)
                    if r is not None:
                        return I.call(st, Bound(r[0], v), [], [], cx, node)
            from . import m_ext
            r = m_ext.obj_str(I, st, v, o, cx, node)
            if r is not None:
                return r
        if isinstance(o, (HSeq, HDict)):
            return [(st, mk(st, 'strof', (v,), 'str', truthy=True))]
    return [(st, mk(st, 'strof', (v,), 'str'))]


def repr_of(I, st, v):
    if isinstance(v, K):
        return K(repr(v.v))
    return mk(st, 'repr', (v,), 'str', truthy=True)


# ----------------------------------------------------------------- subscripts
def dict_set(d, k, v):
    items = []
    done = False
    for a, b in d.items:
        if a == k:
            items.append((a, v))
            done = True
        else:
            items.append((a, b))
    if not done:
        items.append((k, v))
    return d.upd(items=tuple(items))


def dict_del(d, k):
    return d.upd(items=tuple(x for x in d.items if x[0] != k))


def merge_dict(I, st, d, m):
    o = st.get(m.a) if isinstance(m, Ref) else None
    if isinstance(o, HDict):
        for k, v in o.items:
            d = dict_set(d, k, v)
        if o.rest is not None:
            d = d.upd(rest=o.rest)
        if o.reads is not None:
            st.put(m.a, o.upd(reads=o.reads | {
                k.v for k, _ in o.items if isinstance(k, K)}))
        return d
    if isinstance(m, Sym):
        return d.upd(rest=(Sym(('key', m.id), 'str', m.labels),
                           Sym(('val', m.id), None, m.labels)))
    if isinstance(m, Tup) or isinstance(o, HSeq):
        items = m.items if isinstance(m, Tup) else o.items
        for p in items:
            q = p
            if isinstance(p, Ref):
                po = st.get(p.a)
                if isinstance(po, HSeq) and len(po.items) == 2:
                    q = Tup(po.items)
            if isinstance(q, Tup) and len(q.items) == 2:
                d = dict_set(d, q.items[0], q.items[1])
        if o is not None and o.rest is not None:
            r = o.rest
            if isinstance(r, Tup) and len(r.items) == 2:
                d = d.upd(rest=(r.items[0], r.items[1]))
            elif isinstance(r, Sym):
                d = d.upd(rest=(Sym(('key', r.id), None, r.labels),
                                Sym(('val', r.id), None, r.labels)))
        return d
    I.note('merge of unknown mapping')
    return d


def dict_val(rest, key):
    """Value stored under `key` in the unknown part of a dict."""
    v = rest[1]
    if isinstance(v, Sym):
        return Sym(('dv', v.id, key), v.typ, v.labels, False, v.truthy)
    return v


def dict_lookup(I, st, ref, d, key, cx, node):
    """-> [(state, value or None if absent)]"""
    if d.reads is not None and isinstance(key, K):
        d = d.upd(reads=d.reads | {key.v})
        st.put(ref.a, d)
    if isinstance(key, Sym) and ('C', key) in st.facts:
        key = st.facts[('C', key)]
    cur, out = [st], []
    for k, v in d.items:
        nxt = []
        for s in cur:
            for s1, r in I.eq(s, key, k, cx, node):
                if r is True:
                    out.append((s1, v))
                else:
                    nxt.append(s1)
        cur = nxt
    for s in cur:
        if d.rest is None:
            out.append((s, None))
            continue
        for s1, r in I.memo(s, ('I', key, d.rest[0])):
            out.append((s1, dict_val(d.rest, key) if r else None))
    return out


def getitem(I, st, b, i, cx, node):
    if isinstance(i, Tup) and i.items and i.items[0] == SLICE:
        return getslice(I, st, b, i.items[1:], cx, node)
    if isinstance(b, Sym) and ('C', b) in st.facts:
        b = st.facts[('C', b)]
    if isinstance(i, Sym) and ('C', i) in st.facts:
        i = st.facts[('C', i)]
    if isinstance(b, Ref):
        o = st.get(b.a)
        if isinstance(o, HDict):
            out = []
            for s, v in dict_lookup(I, st, b, o, i, cx, node):
                if v is not None:
                    out.append((s, v))
                elif o.default is not None:
                    for s1, x in I.call(s, o.default, [], [], cx, node):
                        if not isinstance(x, Exc):
                            s1.put(b.a, dict_set(s1.get(b.a), i, x))
                        out.append((s1, x))
                else:
                    out.append((s, I.exc(s, 'KeyError', (i,), cx, node)))
            return out
        if isinstance(o, HSeq):
            if isinstance(i, K) and isinstance(i.v, int):
                n = i.v
                if o.rest is None:
                    if -len(o.items) <= n < len(o.items):
                        return [(st, o.items[n])]
                    return [(st, I.exc(st, 'IndexError', (), cx, node))]
                if n < 0:
                    if o.items and not o.min1:
                        pass
                    x = I.inst(o.rest, 'last')
                    if o.min1 or o.items:
                        return [(st, x)]
                    out = []
                    for s, t in I.truth(st, b, cx, node):
                        out.append((s, x if t else I.exc(
                            s, 'IndexError', (), cx, node)))
                    return out
                if n < len(o.items):
                    return [(st, o.items[n])]
                x = I.inst(o.rest, n - len(o.items))
                if n == len(o.items) and o.min1:
                    return [(st, x)]
                if n == 0:
                    out = []
                    for s, t in I.truth(st, b, cx, node):
                        out.append((s, x if t else I.exc(
                            s, 'IndexError', (), cx, node)))
                    return out
                return [(st, x)]
            if isinstance(i, K):
                return [(st, I.exc(st, 'TypeError', (), cx, node))]
            if o.items and o.rest is None and len(set(o.items)) == 1:
                return [(st, o.items[0])]
            return [(st, mk(st, 'item', (b, i)))]
        if isinstance(o, HObj):
            lst = o.attrs.get('$list')
            if lst is not None:
                return getitem(I, st, lst, i, cx, node)
            if isinstance(o.cls, Ref):
                r = I.class_attr(st, o.cls, '__getitem__')
                if r is not None:
                    return I.call(st, Bound(r[0], b), [i], [], cx, node)
                c = st.get(o.cls.a)
                f = c.attrs.get('$namedtuple')
                if f is not None and isinstance(i, K):
                    try:
                        return [(st, o.attrs[f.items[i.v].v])]
                    except IndexError:
                        return [(st, I.exc(st, 'IndexError', (), cx,
                                           node))]
            from . import m_ext
            return m_ext.obj_getitem(I, st, b, o, i, cx, node)
    if isinstance(b, Tup):
        if isinstance(i, K) and isinstance(i.v, int):
            try:
                return [(st, b.items[i.v])]
            except IndexError:
                return [(st, I.exc(st, 'IndexError', (), cx, node))]
        # unknown boolean index into a pair, etc.
        if isinstance(i, Sym):
            out = []
            if i.typ == 'bool' and len(b.items) == 2:
                for s, t in I.truth(st, i, cx, node):
                    out.append((s, b.items[1 if t else 0]))
                return out
            return [(st, mk(st, 'item', (b, i)))]
    if isinstance(b, K):
        if isinstance(i, K):
            try:
                return [(st, K(b.v[i.v]))]
            except IndexError:
                return [(st, I.exc(st, 'IndexError', (), cx, node))]
            except Exception:
                return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if isinstance(b.v, str):
            return [(st, mk(st, 'item', (b, i), 'str'))]
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(b, Str):
        atoms = text_atoms(b)
        n = text_position(atoms, i, None)
        if n is not None and n < len(atoms) and isinstance(atoms[n], str):
            return [(st, K(atoms[n]))]
        return [(st, mk(st, 'item', (b, i), 'str', truthy=True))]
    if isinstance(b, Sym):
        if I.fact_none(st, b) is True or b.typ in ('int', 'bool'):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        if b.typ == 'str':
            x = mk(st, 'item', (b, i), 'str', truthy=True)
            if I.fact_truth(st, b) is False:
                return [(st, I.exc(st, 'IndexError', (), cx, node))]
            return [(st, x)]
        h = I.cfg.get('sym_getitem')
        if h is not None:
            r = h(I, st, b, i, cx, node)
            if r is not None:
                return r
        if b.typ == 'list' and isinstance(i, K) and \
                I.fact_truth(st, b) is False:
            return [(st, I.exc(st, 'IndexError', (), cx, node))]
        return [(st, mk(st, 'item', (b, i), b.id[0] == 'x' and None))]
    if isinstance(b, Ext):
        from . import m_ext
        return m_ext.ext_getitem(I, st, b, i, cx, node)
    return [(st, mk(st, 'item', (b, i)))]


def text_atoms(v):
    """The characters and the unknown texts of a string, in order."""
    if isinstance(v, K):
        return list(v.v) if isinstance(v.v, str) else [v]
    if not isinstance(v, Str):
        return [v]
    out = []
    for p in v.parts:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def text_position(atoms, i, default):
    """Where index ``i`` of a string falls among its atoms; None: unknown.

    Constants count from an end across known characters only, and the
    recorded length of a text falls right after it where the string still
    starts with that text."""
    if isinstance(i, K):
        if i.v is None:
            return default
        if isinstance(i.v, bool) or not isinstance(i.v, int):
            return None
        at, off = (0, i.v) if i.v >= 0 else (len(atoms), i.v)
    elif isinstance(i, Sym) and isinstance(i.id, tuple) and i.id[0] in (
            'len', 'pos'):
        base, off = (i, 0) if i.id[0] == 'len' else i.id[1:]
        if base.id[1] != 's':
            return None
        prefix = text_atoms(base.id[2])
        at = len(prefix)
        if atoms[:at] != prefix:
            return None
    else:
        return None
    to = at + off
    if not 0 <= to <= len(atoms):
        return None
    if any(not isinstance(x, str) for x in atoms[min(at, to):max(at, to)]):
        return None
    return to


def position(a, off):
    """The Sym of a recorded length moved by a constant."""
    base = a
    if a.id[0] == 'pos':
        base, off = a.id[1], a.id[2] + off
    if off == 0:
        return base
    return Sym(('pos', base, off), 'int', a.labels)


def is_length(v):
    return isinstance(v, Sym) and isinstance(v.id, tuple) and (
        v.id[0] == 'pos' or v.id[0] == 'len' and len(v.id) == 3 and
        v.id[1] == 's')


def getslice(I, st, b, bounds, cx, node):
    lo, hi, step = bounds
    if isinstance(b, Sym) and ('C', b) in st.facts:
        b = st.facts[('C', b)]
    const = all(isinstance(x, K) for x in bounds)
    sl = slice(*[x.v for x in bounds]) if const else None
    if isinstance(b, K) and const:
        try:
            return [(st, K(b.v[sl]))]
        except Exception:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(b, Tup) and const:
        return [(st, Tup(b.items[sl]))]
    o = st.get(b.a) if isinstance(b, Ref) else None
    if isinstance(o, HObj) and o.attrs.get('$list') is not None:
        o = st.get(o.attrs['$list'].a)
    if isinstance(o, HSeq):
        if sl == slice(None, None, None):
            return [(st, st.alloc(I.asite(cx, node, 'sl'),
                                  o.upd(kind='list', owner=None)))]
        if o.rest is None and const:
            return [(st, st.alloc(I.asite(cx, node, 'sl'), HSeq(
                'list', o.items[sl], unord=o.unord)))]
        if const and lo.v is None and hi.v is not None and hi.v >= 0 and \
                hi.v <= len(o.items) and step.v is None:
            return [(st, st.alloc(I.asite(cx, node, 'sl'), HSeq(
                'list', o.items[sl], unord=o.unord)))]
        if const and hi.v is None and step.v is None and lo.v is not None \
                and 0 <= lo.v <= len(o.items):
            return [(st, st.alloc(I.asite(cx, node, 'sl'), HSeq(
                'list', o.items[lo.v:], o.rest, o.min1, unord=o.unord)))]
        return [(st, st.alloc(I.asite(cx, node, 'sl'), HSeq(
            'list', (), o.rest if o.rest is not None
            else mk(st, 'slel', (b,)), unord=o.unord)))]
    if isinstance(b, Str) or is_strish(b):
        if const and lo.v is None and hi.v is None and step.v is None:
            return [(st, b)]
        if isinstance(step, K) and step.v is None:
            atoms = text_atoms(b)
            i = text_position(atoms, lo, 0)
            j = text_position(atoms, hi, len(atoms))
            if i is not None and j is not None:
                return [(st, concat([K(p) if isinstance(p, str) else p
                                     for p in atoms[i:j]]))]
        return [(st, mk(st, 'slice', (b,) + tuple(bounds), 'str'))]
    if isinstance(b, K):
        if isinstance(b.v, str):
            return [(st, mk(st, 'slice', (b,) + tuple(bounds), 'str'))]
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    typ = b.typ if isinstance(b, Sym) else None
    return [(st, mk(st, 'slice', (b,) + tuple(bounds), typ))]


def setitem(I, st, b, i, v, cx, node):
    if isinstance(b, Ref):
        o = st.get(b.a)
        I.mutated(st, b, o, cx, node, 'item')
        if isinstance(o, HDict):
            if isinstance(i, Sym) and ('C', i) in st.facts:
                i = st.facts[('C', i)]
            d = dict_set(o, i, v)
            if st.marks:
                d = d.upd(unord=d.unord or st.marks[-1][0])
            st.put(b.a, d)
            return [(st, NONE)]
        if isinstance(o, HSeq):
            if isinstance(i, Tup) and i.items and i.items[0] == SLICE:
                out = []
                for s, d in I.seq(st, v, cx, node):
                    if isinstance(d, Exc):
                        out.append((s, d))
                        continue
                    items, rest, m1, un = d
                    bs = i.items[1:]
                    if all(isinstance(x, K) for x in bs) and \
                            o.rest is None and rest is None:
                        lst = list(o.items)
                        lst[slice(*[x.v for x in bs])] = list(items)
                        s.put(b.a, o.upd(items=tuple(lst),
                                         unord=o.unord or un))
                    else:
                        s.put(b.a, o.upd(items=tuple(items), rest=rest,
                                         min1=m1, unord=un))
                    out.append((s, NONE))
                return out
            if isinstance(i, K) and isinstance(i.v, int):
                n = i.v
                items = list(o.items)
                if -len(items) <= n < len(items) and (
                        n >= 0 or o.rest is None):
                    items[n] = v
                    st.put(b.a, o.upd(items=tuple(items)))
                    return [(st, NONE)]
                if o.rest is None:
                    return [(st, I.exc(st, 'IndexError', (), cx, node))]
                return [(st, NONE)]
            return [(st, NONE)]
        if isinstance(o, HObj):
            if isinstance(o.cls, Ref):
                r = I.class_attr(st, o.cls, '__setitem__')
                if r is not None:
                    return I.call(st, Bound(r[0], b), [i, v], [], cx, node)
            from . import m_ext
            return m_ext.obj_setitem(I, st, b, o, i, v, cx, node)
    if isinstance(b, Ext):
        from . import m_ext
        return m_ext.ext_setitem(I, st, b, i, v, cx, node)
    if isinstance(b, (K, Str, Tup)):
        return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if isinstance(b, Sym):
        st.emit('sym-setitem', b, i, I.site(cx, node))
        return [(st, NONE)]
    I.note('setitem')
    return [(st, NONE)]


def delitem(I, st, b, i, cx, node):
    if isinstance(b, Ref):
        o = st.get(b.a)
        I.mutated(st, b, o, cx, node, 'del')
        if isinstance(o, HDict):
            out = []
            for s, v in dict_lookup(I, st, b, o, i, cx, node):
                if v is None:
                    out.append((s, I.exc(s, 'KeyError', (i,), cx, node)))
                else:
                    s.put(b.a, dict_del(s.get(b.a), i))
                    out.append((s, NONE))
            return out
        lst = o.attrs.get('$list') if isinstance(o, HObj) else None
        if lst is not None:
            b, o = lst, st.get(lst.a)
        if isinstance(o, HSeq):
            if isinstance(i, K) and o.rest is None:
                items = list(o.items)
                try:
                    del items[i.v]
                except IndexError:
                    return [(st, I.exc(st, 'IndexError', (), cx, node))]
                st.put(b.a, o.upd(items=tuple(items)))
                return [(st, NONE)]
            if isinstance(i, Tup) and i.items and i.items[0] == SLICE and \
                    all(isinstance(x, K) for x in i.items[1:]):
                sl = slice(*[x.v for x in i.items[1:]])
                if sl == slice(None) or o.rest is None:
                    items = list(o.items)
                    del items[sl]
                    st.put(b.a, o.upd(items=tuple(items), rest=None
                                      if sl == slice(None) else o.rest))
                    return [(st, NONE)]
            I.note('del from list')
            return [(st, NONE)]
    if isinstance(b, Ext):
        from . import m_ext
        return m_ext.ext_delitem(I, st, b, i, cx, node)
    I.note('delitem')
    return [(st, NONE)]


# ---------------------------------------------------------------------- truth
def obj_truth(I, st, v, o, cx, node):
    lst = o.attrs.get('$list')
    if lst is not None:
        return I.truth(st, lst, cx, node)
    if isinstance(o.cls, Ref):
        for nm in ('__bool__', '__len__'):
            r = I.class_attr(st, o.cls, nm)
            if r is not None:
                out = []
                for s, x in I.call(st, Bound(r[0], v), [], [], cx, node):
                    if isinstance(x, Exc):
                        out.append((s, x))
                    else:
                        out.extend(I.truth(s, x, cx, node))
                return out
    return [(st, True)]


def ext_truth(v):
    return True


def const_strings(I, st, v):
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, K) and isinstance(v.v, str):
        return frozenset([v.v])
    else:
        o = st.get(v.a) if isinstance(v, Ref) else None
        if isinstance(o, HSeq) and o.rest is None:
            items = o.items
        elif isinstance(o, HDict):
            items = [k for k, _ in o.items]
        else:
            return None
    if all(isinstance(x, K) for x in items):
        return frozenset(x.v for x in items)
    return None


def has_method(v, name):
    if isinstance(v, K):
        return hasattr(v.v, name)
    if isinstance(v, Str):
        return hasattr('', name)
    if isinstance(v, Tup):
        return hasattr((), name)
    return True


def is_subclass(I, st, cls, t):
    """True/False/None"""
    if cls == t:
        return True
    if isinstance(t, Tup):
        r = False
        for x in t.items:
            m = is_subclass(I, st, cls, x)
            if m:
                return True
            if m is None:
                r = None
        return r
    for c in I.mro(st, cls):
        if c == t:
            return True
        if isinstance(c, Ext) and isinstance(t, Ext):
            a, b = ext_pyclass(c.path), ext_pyclass(t.path)
            if a is not None and b is not None:
                if issubclass(a, b):
                    return True
            elif a is None and b is None:
                continue
            elif a is None and b in (BaseException, Exception) and \
                    c.path.split('.')[-1].endswith(('Error', 'Exception')):
                return True
    if isinstance(t, Sym):
        return None
    return False


def ext_pyclass(path):
    if path.startswith('builtins.'):
        x = getattr(builtins, path[9:], None)
        return x if isinstance(x, type) else None
    return {'re.error': re.error, 'json.JSONDecodeError': ValueError,
            'importlib.metadata.PackageNotFoundError':
            ModuleNotFoundError}.get(path)


def is_exception_class(I, st, cref):
    for c in I.mro(st, cref):
        if isinstance(c, Ext):
            p = ext_pyclass(c.path)
            if p is not None and issubclass(p, BaseException):
                return True
    return False
