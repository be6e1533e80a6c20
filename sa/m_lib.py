"""re, contextlib, functools, itertools, collections, importlib, argparse."""
import html
import itertools
import re

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HMod, HObj,
    HSeq, K, Meth, Nat, Partial, Ref, Str, Sym, Tup, Value, kbool, labels_of,
)
from .interp import concat
from .m_core import (const_strings, dict_set, is_strish, merge_dict, mk,
                     str_of, strsym)
from .m_builtins import FN, ext, mkcont
from .m_os import OA, OM, oa, om

# ------------------------------------------------------------------------- re


def known(st, v):
    if isinstance(v, Sym) and ('C', v) in st.facts:
        return st.facts[('C', v)]
    return v


def pattern_of(I, st, p):
    if isinstance(p, Ref):
        o = st.get(p.a)
        if isinstance(o, HObj) and 'pattern' in o.attrs:
            return o.attrs['pattern'], o.attrs['flags']
    return known(st, p), K(0)


def flagval(v):
    return v.v if isinstance(v, K) and isinstance(v.v, int) else 0


@ext('re.compile')
def _compile(I, st, args, kw, cx, node):
    fl = args[1] if len(args) > 1 else dict(kw).get('flags', K(0))
    p, _ = pattern_of(I, st, args[0])
    if isinstance(p, K):
        try:
            re.compile(p.v, flagval(fl))
        except re.error:
            return [(st, I.exc(st, 'error', (), cx, node, 're.error'))]
    return [(st, st.alloc(I.asite(cx, node, 're'), HObj(
        Ext('$pattern'), {'pattern': p, 'flags': fl})))]


# an ordinary word of unknown content stands in a concrete string as one
# letter of its own
PUA0, PUA = 0x13000, {}
PUAR = re.compile('[\U00013000-\U000133ff]')


def enc(v):
    """A concrete string standing for ordinary text, or None."""
    if isinstance(v, K):
        return v.v if isinstance(v.v, (str, bytes)) else None
    parts = v.parts if isinstance(v, Str) else [v]
    out = ''
    for p in parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, Sym) and p.generic and (
                p in PUA or len(PUA) < 1000):
            if p not in PUA:
                PUA[p] = chr(PUA0 + len(PUA))
                PUA[PUA[p]] = p
            out += PUA[p]
        else:
            return None
    return out


def dec(s):
    if not isinstance(s, str) or not PUAR.search(s):
        return K(s)
    parts, i = [], 0
    for m in PUAR.finditer(s):
        if m.start() > i:
            parts.append(s[i:m.start()])
        parts.append(PUA.get(m.group(0), m.group(0)))
        i = m.end()
    if i < len(s):
        parts.append(s[i:])
    if len(parts) == 1:
        return parts[0]
    return Str(parts)


def py_match(I, st, m, cx, node):
    if m is None:
        return NONE
    K = dec
    gs = [K(m.group(0))] + [K(g) for g in m.groups()]
    return st.alloc(I.asite(cx, node, 'm'), HObj(Ext('$match'), {
        '$groups': Tup(gs),
        'named': Tup(Tup([K(k), K(v)]) for k, v in m.groupdict().items()),
        'span': Tup([K(m.start()), K(m.end())]),
        'string': K(m.string), 'lastindex': K(m.lastindex)}))


def re_match(kind):
    def f(I, st, args, kw, cx, node):
        p, fl = pattern_of(I, st, args[0])
        if len(args) > 2:
            fl = args[2]
        s = known(st, args[1])
        if isinstance(s, K) and not isinstance(s.v, (str, bytes)) or \
                isinstance(s, Sym) and I.fact_none(st, s) is True:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        e = enc(s) if isinstance(p, K) else None
        if e is not None:
            m = getattr(re, kind)(p.v, e, flagval(fl))
            return [(st, py_match(I, st, m, cx, node))]
        out = []
        for s1, r in I.memo(st, ('P', 're.' + kind, args[1], (p,))):
            if not r:
                out.append((s1, NONE))
                continue
            out.append((s1, s1.alloc(I.asite(cx, node, 'm'), HObj(
                Ext('$match'), {'pat': p, 'string': strsym(args[1])}))))
        return out
    return f


for _k in ('search', 'match', 'fullmatch'):
    FN['re.' + _k] = re_match(_k)


def mgroup(I, st, o, i, cx, node):
    g = o.attrs.get('$groups')
    if g is not None:
        if isinstance(i, K) and isinstance(i.v, int):
            if i.v < len(g.items):
                return g.items[i.v]
            return I.exc(st, 'IndexError', (), cx, node)
        if isinstance(i, K):
            for t in o.attrs['named'].items:
                if t.items[0] == i:
                    return t.items[1]
        return I.exc(st, 'IndexError', (), cx, node)
    # an optional group may not take part in the match
    p = o.attrs['pat']
    must = isinstance(i, K) and i.v == 0
    if isinstance(p, K) and isinstance(i, K) and isinstance(i.v, int) and \
            not must:
        try:
            n = re.compile(p.v).groups
            if i.v > n:
                return I.exc(st, 'IndexError', (), cx, node)
        except re.error:
            pass
        must = group_mandatory(p.v, i.v)
    r = mk(st, 'group', (p, o.attrs['string'], i), 'str')
    if must:
        r = Sym(r.id, 'str', r.labels, False, None)
        st.facts.setdefault(('N', r), False)
    return r


def group_mandatory(pat, n):
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp

    def go(items):
        for op, av in items:
            o = str(op)
            if o == 'SUBPATTERN':
                if av[0] == n:
                    return True
                r = go(av[3])
                if r is not None:
                    return r
            elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
                r = go(av[2])
                if r is not None:
                    return r and av[0] > 0
            elif o == 'BRANCH':
                for b in av[1]:
                    if go(b) is not None:
                        return False
            elif o in ('ASSERT', 'ASSERT_NOT'):
                r = go(av[1])
                if r is not None:
                    return False
        return None
    try:
        return bool(go(sp.parse(pat)))
    except Exception:
        return False


@om('$match', 'group', '__getitem__')
def _group(I, st, ref, o, args, kw, cx, node):
    if not args:
        args = [K(0)]
    if len(args) == 1:
        return [(st, mgroup(I, st, o, args[0], cx, node))]
    return [(st, Tup(mgroup(I, st, o, a, cx, node) for a in args))]


@om('$match', 'groups')
def _groups(I, st, ref, o, args, kw, cx, node):
    g = o.attrs.get('$groups')
    if g is not None:
        return [(st, Tup(g.items[1:]))]
    p = o.attrs['pat']
    n = 1
    if isinstance(p, K):
        n = re.compile(p.v).groups
    return [(st, Tup(mgroup(I, st, o, K(i + 1), cx, node)
                     for i in range(n)))]


@om('$match', 'groupdict')
def _groupdict(I, st, ref, o, args, kw, cx, node):
    g = o.attrs.get('named')
    if g is not None:
        return [(st, st.alloc(I.asite(cx, node), HDict(
            tuple(t.items) for t in g.items)))]
    p = o.attrs['pat']
    names = re.compile(p.v).groupindex if isinstance(p, K) else {}
    return [(st, st.alloc(I.asite(cx, node), HDict(
        (K(k), mgroup(I, st, o, K(i), cx, node))
        for k, i in names.items())))]


@om('$match', 'start', 'end', 'span', 'expand')
def _mspan(I, st, ref, o, args, kw, cx, node):
    return [(st, mk(st, 'mspan', (o.attrs['string'],), 'int'))]


@ext('re.findall')
def _findall(I, st, args, kw, cx, node):
    p, fl = pattern_of(I, st, args[0])
    if len(args) > 2:
        fl = args[2]
    s = known(st, args[1])
    site = I.asite(cx, node)
    e = enc(s) if isinstance(p, K) else None
    if e is not None:
        r = re.findall(p.v, e, flagval(fl))
        return [(st, st.alloc(site, HSeq('list', [
            Tup(dec(y) for y in x) if isinstance(x, tuple) else dec(x)
            for x in r])))]
    n = re.compile(p.v).groups if isinstance(p, K) else 0
    if n > 1:
        el = Tup(mk(st, 'fa%d' % i, (p, args[1]), 'str') for i in range(n))
    else:
        el = mk(st, 'fa', (p, args[1]), 'str')
    return [(st, st.alloc(site, HSeq('list', (), el)))]


@ext('re.finditer')
def _finditer(I, st, args, kw, cx, node):
    p, fl = pattern_of(I, st, args[0])
    s = known(st, args[1])
    e = enc(s) if isinstance(p, K) else None
    if e is not None:
        return [(st, st.alloc(I.asite(cx, node), HSeq('iter', [
            py_match(I, st, m, cx, node)
            for m in re.finditer(p.v, e, flagval(fl))])))]
    m = st.alloc(I.asite(cx, node, 'm'), HObj(Ext('$match'), {
        'pat': p, 'string': mk(st, 'fi', (args[1],), 'str')}))
    return [(st, st.alloc(I.asite(cx, node), HSeq('iter', (m,)))),
            (lambda s2: (s2, s2.alloc(I.asite(cx, node), HSeq(
                'iter', ()))))(st.copy())]


@ext('re.sub')
def _sub(I, st, args, kw, cx, node):
    p, fl = pattern_of(I, st, args[0])
    rep, s = known(st, args[1]), known(st, args[2])
    kd = dict(kw)
    cnt = args[3] if len(args) > 3 else kd.get('count', K(0))
    if len(args) > 4:
        fl = args[4]
    fl = kd.get('flags', fl)
    e, r = enc(s), enc(rep)
    if e is not None and r is not None and isinstance(p, K) and \
            isinstance(cnt, K):
        return [(st, dec(re.sub(p.v, r, e, cnt.v, flagval(fl))))]
    if e is not None and isinstance(p, K) and isinstance(cnt, K) and \
            isinstance(rep, (Fn, Bound, Partial, Nat)):
        return sub_calls(I, st, list(re.finditer(p.v, e, flagval(fl)))[
            :cnt.v or None], rep, e, cx, node)
    return [(st, mk(st, 'resub', (p, args[1], args[2], cnt), 'str'))]


def sub_calls(I, st, matches, rep, e, cx, node):
    """The text with each match replaced by what a function returns."""
    cur, at, out = [(st, [])], 0, []
    for m in matches:
        nxt = []
        for s, parts in cur:
            for s2, v in I.call(s, rep, [py_match(I, s, m, cx, node)], [],
                                cx, node):
                if isinstance(v, Exc):
                    out.append((s2, v))
                else:
                    nxt.append((s2, parts + [dec(e[at:m.start()]), v]))
        cur, at = nxt, m.end()
    return out + [(s, concat(parts + [dec(e[at:])])) for s, parts in cur]


@ext('re.split')
def _split(I, st, args, kw, cx, node):
    p, fl = pattern_of(I, st, args[0])
    s = known(st, args[1])
    site = I.asite(cx, node)
    e = enc(s) if isinstance(p, K) else None
    if e is not None:
        return [(st, st.alloc(site, HSeq('list', [
            dec(x) for x in re.split(p.v, e, flags=flagval(fl))])))]
    return [(st, st.alloc(site, HSeq('list', (), mk(
        st, 'resplit', (p, args[1]), 'str'), min1=True)))]


@ext('re.escape')
def _reescape(I, st, args, kw, cx, node):
    s = known(st, args[0])
    if isinstance(s, K):
        return [(st, K(re.escape(s.v)))]
    return [(st, mk(st, 're.escape', (args[0],), 'str'))]


def pattern_method(name):
    def f(I, st, ref, o, args, kw, cx, node):
        if name == 'sub':
            return FN['re.sub'](I, st, [ref] + list(args), kw, cx, node)
        return FN['re.' + name](I, st, [ref] + list(args[:1]), kw, cx, node)
    return f


for _k in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'sub',
           'split'):
    OM[('$pattern', _k)] = pattern_method(_k)

# ----------------------------------------------------------------- contextlib


@ext('contextlib.suppress')
def _suppress(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$suppress'), {'types': Tup(args)})))]


@ext('contextlib.nullcontext')
def _nullctx(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$null'), {'$enter': args[0] if args else NONE})))]


@ext('contextlib.closing')
def _closing(I, st, args, kw, cx, node):
    return [(st, args[0])]


@ext('contextlib.redirect_stdout', 'contextlib.redirect_stderr')
def _redirect(I, st, args, kw, cx, node):
    st.emit('redirect', I.site(cx, node))
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$null'), {'$enter': args[0]})))]


@ext('contextlib.ExitStack')
def _exitstack(I, st, args, kw, cx, node):
    l = st.alloc(I.asite(cx, node, 'l'), HSeq('list', ()))
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('$exitstack'), {'cbs': l})))]


@om('$exitstack', 'callback')
def _escb(I, st, ref, o, args, kw, cx, node):
    l = o.attrs['cbs']
    st.put(l.a, st.get(l.a).upd(items=st.get(l.a).items + (
        Partial(args[0], args[1:], kw),)))
    return [(st, args[0])]


def enter_with(I, st, m, body, cx, node):
    o = st.get(m.a) if isinstance(m, Ref) else None
    if isinstance(o, HObj) and isinstance(o.cls, Ext):
        p = o.cls.path
        if p == '$suppress':
            out = []
            for s, sig in body(st, NONE):
                if isinstance(sig, Exc):
                    k = I.exc_match(s, sig.val, o.attrs['types'])
                    if k is None:
                        out.append((s.copy(), sig))
                        out.append((s, None))
                        continue
                    if k:
                        sig = None
                out.append((s, sig))
            return out
        if p == '$ctxgen':
            return enter_gen(I, st, o, body, cx, node)
        if p == '$exitstack':
            out = []
            for s, sig in body(st, m):
                cur = [(s, sig)]
                for cb in reversed(s.get(o.attrs['cbs'].a).items):
                    nxt = []
                    for s1, sg in cur:
                        for s2, v in I.call(s1, cb, [], [], cx, node):
                            nxt.append((s2, v if isinstance(v, Exc)
                                        else sg))
                    cur = nxt
                out.extend(cur)
            return out
        val = o.attrs.get('$enter', m)
        out = []
        for s, sig in body(st, val):
            if p == '$file':
                s.emit('close', o.attrs['path'], I.site(cx, node))
            out.append((s, sig))
        return out
    if isinstance(o, HObj):
        en = I.class_attr(st, o.cls, '__enter__')
        ex = I.class_attr(st, o.cls, '__exit__')
        if en is None or ex is None:
            return [(st, I.exc(st, 'AttributeError', (K('__enter__'),), cx,
                               node))]
        out = []
        for s, v in I.call(st, Bound(en[0], m), [], [], cx, node):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s1, sig in body(s, v):
                if isinstance(sig, Exc):
                    a = [s1.get(sig.val.a).cls if isinstance(
                        sig.val, Ref) else NONE, sig.val, NONE]
                else:
                    a = [NONE, NONE, NONE]
                for s2, r in I.call(s1, Bound(ex[0], m), a, [], cx, node):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    elif isinstance(sig, Exc):
                        for s3, t in I.truth(s2, r, cx, node):
                            out.append((s3, None if t else sig))
                    else:
                        out.append((s2, sig))
        return out
    if isinstance(m, Ext) and m.path.startswith('warnings.'):
        return body(st, NONE)
    I.note('with %s' % type(m).__name__)
    return body(st, mk(st, 'enter', (m,)))


def enter_gen(I, st, o, body, cx, node):
    f = o.attrs['fn']
    bound = None
    if isinstance(f, Bound):
        bound, f = f.self_, f.fn
    f2 = Fn(f.info, f.env, f.defaults, f.kwdefaults,
            f.decos + ('$entered',))
    I.cm_uid = getattr(I, 'cm_uid', 0) + 1
    key = '$cm%d' % (cx.depth * 1000 + (getattr(node, 'lineno', 0)))

    def hook(s, v):
        res = []
        for s1, sig in body(s, v):
            if isinstance(sig, Exc):
                s1.ghost[key] = K(None)
                res.append((s1, sig))
            elif sig is None:
                s1.ghost[key] = K(None)
                res.append((s1, NONE))
            elif sig[0] == 'ret':
                s1.ghost[key] = Tup([K('ret'), sig[1]])
                res.append((s1, NONE))
            else:
                s1.ghost[key] = Tup([K(sig[0])])
                res.append((s1, NONE))
        return res
    args = list(o.attrs['args'].items)
    if bound is not None:
        args = [bound] + args
    kw = [(t.items[0].v, t.items[1]) for t in o.attrs['kw'].items]
    I.pending_hook = hook
    out = []
    for s, v in I.call_user(st, f2, args, kw, cx, node):
        sv = s.ghost.pop(key, None)
        if isinstance(v, Exc):
            out.append((s, v))
        elif isinstance(sv, Tup):
            if sv.items[0] == K('ret'):
                out.append((s, ('ret', sv.items[1])))
            else:
                out.append((s, (sv.items[0].v,)))
        else:
            out.append((s, None))
    return out


# ------------------------------------------------------------------ functools
@ext('functools.partial')
def _partial(I, st, args, kw, cx, node):
    return [(st, Partial(args[0], args[1:], kw))]


@ext('functools.lru_cache', 'functools.cache', 'functools.wraps')
def _lru(I, st, args, kw, cx, node):
    if node_leaf(node) != 'wraps':
        from .m_builtins import cached

        def deco(I, s, a, k, c, n):
            return [(s, cached(a[0]) if isinstance(a[0], Fn) else a[0])]
        if args and isinstance(args[0], (Fn, Bound)):
            return deco(I, st, args, (), cx, node)
        return [(st, Nat('$cached', deco))]
    return [(st, Nat('$identity', lambda I, s, a, k, c, n: [(s, a[0])]))]


def node_leaf(node):
    import ast
    f = getattr(node, 'func', node)
    if isinstance(f, ast.Attribute):
        return f.attr
    if isinstance(f, ast.Name):
        return f.id
    return ''


@ext('functools.reduce')
def _reduce(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[1], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        items = list(d[0])
        if len(args) > 2:
            items = [args[2]] + items
        if d[1] is not None or not items:
            out.append((s, mk(s, 'reduce', args)))
            continue
        cur = [(s, items[0])]
        for x in items[1:]:
            nxt = []
            for s1, acc in cur:
                nxt.extend([(s1, acc)] if isinstance(acc, Exc) else
                           I.call(s1, args[0], [acc, x], [], cx, node))
            cur = nxt
        out.extend(cur)
    return out


@ext('functools.cmp_to_key')
def _cmpkey(I, st, args, kw, cx, node):
    return [(st, Nat('$cmpkey', lambda I, s, a, k, c, n: [(s, a[0])]))]


# ------------------------------------------------------------------ itertools
@ext('itertools.chain')
def _chain(I, st, args, kw, cx, node):
    return chain(I, st, list(args), cx, node)


@ext('itertools.chain.from_iterable')
def _chainfi(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        xs = list(d[0])
        if d[1] is not None:
            xs.append(I.inst(d[1], 0))
        out.extend(chain(I, s, xs, cx, node, d[3]))
    return out


def chain(I, st, xs, cx, node, un0=None):
    cur = [(st, ((), None, un0))]
    for x in xs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                nxt.append((s, acc))
                continue
            for s1, d in I.seq(s, x, cx, node):
                if isinstance(d, Exc):
                    nxt.append((s1, d))
                    continue
                nxt.append((s1, (acc[0] + tuple(d[0]),
                                 acc[1] if acc[1] is not None else d[1],
                                 acc[2] or d[3])))
        cur = nxt
    return [(s, a if isinstance(a, Exc) else s.alloc(
        I.asite(cx, node), HSeq('iter', a[0], a[1], unord=a[2])))
        for s, a in cur]


@ext('itertools.zip_longest')
def _zipl(I, st, args, kw, cx, node):
    fill = dict(kw).get('fillvalue', NONE)
    cols = []
    for a in args:
        r = I.seq(st, a, cx, node)
        st, d = r[0]
        cols.append(d)
    n = max(len(d[0]) for d in cols)
    items = [Tup(d[0][i] if i < len(d[0]) else fill for d in cols)
             for i in range(n)]
    rest = None
    if any(d[1] is not None for d in cols):
        rest = Tup(d[1] if d[1] is not None else fill for d in cols)
    return [(st, st.alloc(I.asite(cx, node), HSeq('iter', items, rest)))]


@ext('itertools.islice')
def _islice(I, st, args, kw, cx, node):
    out = []
    for s, d in I.seq(st, args[0], cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        n = args[-1] if len(args) == 2 else args[2]
        lo = 0 if len(args) == 2 else (args[1].v or 0)
        items = d[0]
        if isinstance(n, K):
            items = items[lo:n.v]
        out.append((s, s.alloc(I.asite(cx, node), HSeq(
            'iter', items, d[1], unord=d[3]))))
    return out


@ext('itertools.product', 'itertools.combinations',
     'itertools.permutations', 'itertools.pairwise')
def _product(I, st, args, kw, cx, node):
    cols, rest = [], False
    for a in args:
        if isinstance(a, K):
            cols.append(a)
            continue
        st, d = I.seq(st, a, cx, node)[0]
        if d[1] is not None:
            rest = True
        cols.append(d[0])
    if rest:
        I.note('itertools on unknown')
        return [(st, st.alloc(I.asite(cx, node), HSeq(
            'iter', (), mk(st, 'prod', args))))]
    name = node_leaf(node)
    if name == 'product':
        r = itertools.product(*cols)
    else:
        r = getattr(itertools, name)(*[c.v if isinstance(c, K) else c
                                       for c in cols])
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'iter', [Tup(x) for x in r])))]


@ext('itertools.count', 'itertools.cycle', 'itertools.repeat')
def _count(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'iter', (), mk(st, 'count', args, 'int'), min1=True)))]


@ext('itertools.takewhile', 'itertools.dropwhile', 'itertools.filterfalse',
     'itertools.groupby', 'itertools.accumulate', 'itertools.starmap')
def _itmisc(I, st, args, kw, cx, node):
    I.note('itertools.' + node_leaf(node))
    return [(st, st.alloc(I.asite(cx, node), HSeq(
        'iter', (), mk(st, 'it', args))))]


@ext('operator.itemgetter')
def _itemgetter(I, st, args, kw, cx, node):
    k = tuple(args)

    def f(I2, s, a, kw2, c, n):
        if len(k) == 1:
            return I2.getitem(s, a[0], k[0], c, n)
        cur = [(s, [])]
        for i in k:
            nxt = []
            for s1, acc in cur:
                for s2, v in I2.getitem(s1, a[0], i, c, n):
                    nxt.append((s2, acc + [v]))
            cur = nxt
        return [(s1, Tup(acc)) for s1, acc in cur]
    return [(st, Nat(('itemgetter', k), f))]


@ext('operator.attrgetter')
def _attrgetter(I, st, args, kw, cx, node):
    n0 = args[0].v if isinstance(args[0], K) else '?'
    return [(st, Nat(('attrgetter', n0), lambda I2, s, a, k, c, n:
                     I2.getattr(s, a[0], n0, c, n)))]


# ---------------------------------------------------------------- collections
@ext('collections.defaultdict')
def _defaultdict(I, st, args, kw, cx, node):
    d = HDict(default=args[0] if args else None)
    if len(args) > 1:
        d = merge_dict(I, st, d, args[1])
    return [(st, st.alloc(I.asite(cx, node), d))]


FN['collections.deque'] = mkcont('list')


@ext('collections.Counter')
def _counter(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HDict(
        (), (mk(st, 'ck', args), mk(st, 'cv', args, 'int')))))]


@ext('collections.ChainMap')
def _chainmap(I, st, args, kw, cx, node):
    d = HDict()
    for a in reversed(args):
        d = merge_dict(I, st, d, a)
    return [(st, st.alloc(I.asite(cx, node), d))]


@ext('collections.namedtuple', 'typing.NamedTuple')
def _namedtuple(I, st, args, kw, cx, node):
    name = args[0].v if isinstance(args[0], K) else '?'
    f = args[1]
    if isinstance(f, K):
        names = [K(x) for x in f.v.replace(',', ' ').split()]
    else:
        names = list(I.seq(st, f, cx, node)[0][1][0])
        names = [n.items[0] if isinstance(n, Tup) else n for n in names]
    ca = ('class', 'namedtuple.' + name + str(getattr(node, 'lineno', 0)))
    st.put(ca, HClass(name, ca[1], (Ext('builtins.object'),), {
        '$namedtuple': Tup(names),
        '$dataclass': Tup(Tup([n, Ext('$nodefault')]) for n in names)},
        None, node))
    return [(st, Ref(ca))]


@ext('types.SimpleNamespace')
def _simplens(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('types.SimpleNamespace'), {k: v for k, v in kw if k})))]


@ext('copy.copy', 'copy.deepcopy')
def _copy(I, st, args, kw, cx, node):
    deep = node_leaf(node) == 'deepcopy'
    seen = {}

    def go(v, d):
        if isinstance(v, Tup):
            return Tup(go(x, d) for x in v.items)
        if not isinstance(v, Ref):
            return v
        if v.a in seen:
            return seen[v.a]
        o = st.get(v.a)
        if isinstance(o, HObj):
            r = st.alloc(I.asite(cx, node, 'cp'), HObj(o.cls, {}))
            seen[v.a] = r
            attrs = {k: go(x, True) if deep else x
                     for k, x in o.attrs.items()}
            st.put(r.a, HObj(o.cls, attrs))
            return r
        if isinstance(o, (HSeq, HDict)):
            r = st.alloc(I.asite(cx, node, 'cp'), o.upd(owner=None))
            seen[v.a] = r
            if deep and isinstance(o, HSeq):
                st.put(r.a, st.get(r.a).upd(items=tuple(
                    go(x, True) for x in o.items)))
            elif deep:
                st.put(r.a, st.get(r.a).upd(items=tuple(
                    (k, go(x, True)) for k, x in o.items)))
            return r
        return v
    return [(st, go(args[0], True))]


# -------------------------------------------------------------------- various
@ext('html.escape')
def _hesc(I, st, args, kw, cx, node):
    s = known(st, args[0])
    quote = dict(kw).get('quote', args[1] if len(args) > 1 else K(True))
    if isinstance(quote, K):
        if isinstance(s, K) and isinstance(s.v, str):
            return [(st, K(html.escape(s.v, quote.v)))]
        if isinstance(s, Sym) and s.generic:
            return [(st, s)]        # ordinary text: nothing to escape
        if isinstance(s, Str) and all(
                isinstance(p, str) or isinstance(p, Sym) and p.generic
                for p in s.parts):
            return [(st, concat([
                K(html.escape(p, quote.v)) if isinstance(p, str) else p
                for p in s.parts]))]
    return [(st, mk(st, 'html.escape', (args[0],), 'str'))]


@ext('html.unescape')
def _hunesc(I, st, args, kw, cx, node):
    s = known(st, args[0])
    if isinstance(s, K):
        return [(st, K(html.unescape(s.v)))]
    if isinstance(s, Sym) and s.generic:
        return [(st, s)]        # ordinary text: no character references
    if isinstance(s, Str) and all(
            '&' not in p if isinstance(p, str) else
            isinstance(p, Sym) and p.generic for p in s.parts):
        return [(st, s)]
    return [(st, mk(st, 'html.unescape', (args[0],), 'str'))]


@ext('math.floor', 'math.ceil')
def _floor(I, st, args, kw, cx, node):
    return FN['builtins.int'](I, st, args, kw, cx, node)


@ext('math.isinf', 'math.isnan', 'math.isfinite')
def _isinf(I, st, args, kw, cx, node):
    import math
    s = known(st, args[0])
    if isinstance(s, K):
        return [(st, kbool(getattr(math, node_leaf(node))(s.v)))]
    return [(st2, kbool(r)) for st2, r in I.memo(
        st, ('P', node_leaf(node), args[0], ()))]


@ext('warnings.warn')
def _warn(I, st, args, kw, cx, node):
    st.emit('out', 'stderr', strsym(args[0]), I.site(cx, node))
    return [(st, NONE)]


@ext('warnings.simplefilter', 'warnings.filterwarnings',
     'warnings.catch_warnings', 'random.seed', 'atexit.register',
     'typing.cast', 'gc.collect', 'sys.setrecursionlimit')
def _noop(I, st, args, kw, cx, node):
    if node_leaf(node) == 'cast':
        return [(st, args[1])]
    return [(st, NONE)]


@ext('datetime.datetime.now', 'datetime.datetime.utcnow',
     'datetime.datetime.today', 'datetime.date.today', 'time.strftime',
     'time.localtime', 'time.gmtime')
def _now(I, st, args, kw, cx, node):
    st.emit('clock', I.site(cx, node))
    return [(st, Sym(('now',), 'str' if node_leaf(node) == 'strftime' else
                     'datetime', {'clock'}, truthy=True))]


@ext('importlib.import_module')
def _import_module(I, st, args, kw, cx, node):
    n = known(st, args[0])
    if isinstance(n, K) and isinstance(n.v, str):
        m = I.import_(n.v)
        if m is None:
            return [(st, I.exc(st, 'ImportError', (n,), cx, node))]
        return [(st, m)]
    st.emit('import-module', args[0], I.site(cx, node))
    out = []
    for s, r in I.memo(st, ('P', 'importable', args[0], ())):
        out.append((s, mk(s, 'module', (args[0],)) if r else I.exc(
            s, 'ModuleNotFoundError', (), cx, node)))
    return out


@ext('importlib.metadata.version', 'importlib_metadata.version')
def _version(I, st, args, kw, cx, node):
    s2 = st.copy()
    return [(st, Sym(('version',), 'str', truthy=True)),
            (s2, I.exc(s2, 'PackageNotFoundError', (), cx, node,
                       'importlib.metadata.PackageNotFoundError'))]


@ext('importlib.util.spec_from_file_location')
def _spec(I, st, args, kw, cx, node):
    st.emit('spec-from-file', tuple(args), I.site(cx, node))
    sp = st.alloc(I.asite(cx, node), HObj(Ext('$spec'), {
        'name': strsym(args[0]), 'origin': args[1] if len(args) > 1
        else NONE,
        'loader': st.alloc(I.asite(cx, node, 'l'), HObj(
            Ext('$loader'), {}))}))
    return [(st, sp)]


@ext('importlib.util.module_from_spec')
def _mfs(I, st, args, kw, cx, node):
    o = st.get(args[0].a) if isinstance(args[0], Ref) else None
    if not isinstance(o, HObj):
        return [(st, mk(st, 'module', args))]
    return [(st, mk(st, 'module', (o.attrs['name'], o.attrs['origin'])))]


@om('$loader', 'exec_module')
def _execm(I, st, ref, o, args, kw, cx, node):
    st.emit('exec-module', args[0], I.site(cx, node))
    return [(st, NONE)]


@ext('json.dumps', 'textwrap.dedent', 'textwrap.fill', 'textwrap.indent',
     'json.dump')
def _json(I, st, args, kw, cx, node):
    return [(st, mk(st, node_leaf(node), args, 'str'))]


@ext('textwrap.wrap')
def _twrap(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', (), mk(
        st, 'wrapped', args, 'str'))))]


@ext('md_ulb_pwrap.ulb_wrap_paragraph')
def _ulb(I, st, args, kw, cx, node):
    st.emit('wrap', tuple(args), I.site(cx, node))
    if any(isinstance(a, K) and isinstance(a.v, int) and a.v < 0
           for a in args[1:]):
        return [(st, I.exc(st, 'OverflowError', (), cx, node))]
    h = I.cfg.get('wrap')
    if h is not None:
        return h(I, st, args, kw, cx, node)
    t = I.fact_truth(st, args[0])
    r = mk(st, 'wrapped', args, 'str', truthy=t or None)
    return [(st, r)]


# ------------------------------------------------------------------- argparse
@ext('argparse.ArgumentParser')
def _argparser(I, st, args, kw, cx, node):
    opts = st.alloc(I.asite(cx, node, 'o'), HSeq('list', ()))
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('argparse.ArgumentParser'), {
            '$opts': opts, 'prog': dict(kw).get('prog', K('prog')),
            'description': dict(kw).get('description', NONE)})))]


def AP(*names):
    return om('argparse.ArgumentParser', *names)


@AP('add_argument')
def _addarg(I, st, ref, o, args, kw, cx, node):
    kd = dict((k, v) for k, v in kw if k)
    flags = [a.v for a in args if isinstance(a, K)]
    dest = kd.get('dest')
    if dest is None:
        longs = [f for f in flags if f.startswith('--')]
        base = longs[0] if longs else (flags[0] if flags else '?')
        dest = K(base.lstrip('-').replace('-', '_'))
    spec = Tup([dest, Tup(K(f) for f in flags), Tup(
        Tup([K(k), v]) for k, v in sorted(kd.items())), K(
            getattr(node, 'lineno', 0))])
    l = o.attrs['$opts']
    lo = st.get(l.a)
    # a second add_argument for the same flag is an ArgumentError
    for s in lo.items:
        dup = [f for f in s.items[1].items if f in spec.items[1].items]
        if dup:
            return [(st, I.exc(st, 'ArgumentError', (), cx, node,
                               'argparse.ArgumentError'))]
    st.put(l.a, lo.upd(items=lo.items + (spec,)))
    st.emit('declare', spec, I.site(cx, node))
    return [(st, mk(st, 'action', (dest,)))]


@AP('add_argument_group', 'add_mutually_exclusive_group',
    'add_subparsers')
def _addgroup(I, st, ref, o, args, kw, cx, node):
    return [(st, ref)]


@AP('set_defaults', 'print_help', 'print_usage', 'format_help',
    'format_usage')
def _apmisc(I, st, ref, o, args, kw, cx, node):
    return [(st, mk(st, 'help', (), 'str'))]


@AP('error')
def _aperror(I, st, ref, o, args, kw, cx, node):
    st.emit('out', 'stderr', args[0] if args else K(''), I.site(cx, node))
    return [(st, I.exc(st, 'SystemExit', (K(2),), cx, node))]


@AP('exit')
def _apexit(I, st, ref, o, args, kw, cx, node):
    return [(st, I.exc(st, 'SystemExit', tuple(args[:1]) or (K(0),), cx,
                       node))]


def opt_value(I, st, dest, kd, flags, cx, node):
    """Abstract value an option can take."""
    over = I.cfg.get('optvals') or {}
    if dest in over:
        v = over[dest]
        return v(I, st, cx, node) if callable(v) else v
    act = kd.get('action', K('store'))
    act = act.v if isinstance(act, K) else 'custom'
    default = kd.get('default')
    nargs = kd.get('nargs')
    if over.get('*') == 'default':
        # the option is not given
        if act == 'store_true':
            return default or FALSE
        if act == 'store_false':
            return default or TRUE
        if act == 'count':
            return default or NONE
        if flags and not flags[0].startswith('-') and default is None and \
                isinstance(nargs, K) and nargs.v in ('*', '+'):
            return st.alloc(('optlist', dest), HSeq('list', ()))
        return NONE if default is None else default
    lab = {('opt', dest)}
    i = ('opt', dest)
    if act in ('store_true', 'store_false'):
        return Sym(i, 'bool', lab)
    if act == 'store_const':
        return Sym(i, None, lab)
    if act == 'count':
        return Sym(i, 'int', lab)
    if act in ('append', 'extend') or isinstance(nargs, K) and nargs.v in (
            '*', '+') or isinstance(nargs, K) and isinstance(nargs.v, int):
        nullable = default in (None, NONE) and nargs != K('+')
        positional = flags and not flags[0].startswith('-')
        rest = Sym(i + ('el',), 'str', lab)
        a = st.alloc(('optlist', dest), HSeq('list', (), rest))
        if nullable and not positional:
            return Sym(i, 'list', lab)
        return a
    typ = kd.get('type')
    t = 'str'
    if isinstance(typ, Ext) and typ.path in ('builtins.int',
                                             'builtins.float'):
        t = typ.path[9:]
    elif typ is not None and not isinstance(typ, Ext):
        t = None
    v = Sym(i, t, lab)
    positional = flags and not flags[0].startswith('-')
    if default not in (None, NONE) or positional and nargs is None or \
            kd.get('required') == TRUE:
        st.facts.setdefault(('N', v), False)
    elif positional and nargs is not None:
        pass
    return v


def argv_values(I, st, specs, argv):
    """The values of a command line, for the options declared: dict with the
    values by destination, or the error message."""
    import argparse

    class Parser(argparse.ArgumentParser):
        def error(self, message):
            raise ValueError(message)
    ap = Parser(add_help=False)
    defaults = {}
    for n, spec in enumerate(specs):
        dest, flags, kws, _ = spec.items
        kd = {t.items[0].v: t.items[1] for t in kws.items}
        act = kd.get('action', K('store'))
        if not isinstance(act, K) or act.v in ('help', 'version'):
            ap.add_argument(*[f.v for f in flags.items], dest='$help',
                            action='store_true')
            continue
        c = {k: kd[k].v for k in ('action', 'nargs', 'const', 'required')
             if isinstance(kd.get(k), K) and kd[k].v is not None}
        fl = [f.v for f in flags.items]
        if fl[0].startswith('-'):
            c['dest'] = dest.v
        else:
            fl = [dest.v]
        d = kd.get('default', NONE)
        if isinstance(d, Ref) and isinstance(st.get(d.a), HSeq):
            d = ('list', tuple(st.get(d.a).items))
        elif act.v == 'store_true' and d == NONE:
            d = FALSE
        elif act.v == 'store_false' and d == NONE:
            d = TRUE
        if dest.v not in defaults:
            defaults[dest.v] = (d, not fl[0].startswith('-') and kd.get(
                'nargs') in (K('*'), K('+')))
        typ = kd.get('type')
        if isinstance(typ, Ext) and typ.path in (
                'builtins.int', 'builtins.float', 'builtins.str'):
            c['type'] = {'int': int, 'float': float, 'str': str}[typ.path[9:]]
        elif typ is not None and typ != NONE:
            I.note('type of an option not modelled')
        ap.add_argument(*fl, default=argparse.SUPPRESS, **c)
    try:
        ns, _ = ap.parse_known_args(argv)
    except ValueError as e:
        return str(e)
    if getattr(ns, '$help'):
        return None
    out = {}
    for k, (d, positional) in defaults.items():
        if hasattr(ns, k):
            v = getattr(ns, k)
            if isinstance(d, tuple) and isinstance(v, list):
                # the values given are added to those by default
                v = [x for x in d[1]] + v if not positional else v
        else:
            v = d if not positional or d != NONE else []
            if isinstance(v, tuple):
                v = list(v[1])
        out[k] = model(st, v, ('optlist', k))
    return out


def model(st, v, tag):
    if isinstance(v, Value):
        return v
    if isinstance(v, list):
        return st.alloc(tag, HSeq('list', [
            model(st, x, tag + (i,)) for i, x in enumerate(v)]))
    return K(v)


@AP('parse_args', 'parse_known_args', 'parse_intermixed_args')
def _parse_args(I, st, ref, o, args, kw, cx, node):
    l = st.get(o.attrs['$opts'].a)
    attrs = {}
    if I.cfg.get('argv') is not None:
        got = argv_values(I, st, l.items, I.cfg['argv'])
        if got is None:
            st.emit('out', 'stdout', Sym(('help',), 'str'), I.site(cx, node))
            return [(st, I.exc(st, 'SystemExit', (K(0),), cx, node))]
        if isinstance(got, str):
            st.emit('out', 'stderr', K(got), I.site(cx, node))
            return [(st, I.exc(st, 'SystemExit', (K(2),), cx, node))]
        ns = st.alloc(I.asite(cx, node), HObj(Ext('argparse.Namespace'), got))
        st.emit('parse-args', node_leaf(node), I.site(cx, node))
        if node_leaf(node) == 'parse_known_args':
            un = st.alloc(I.asite(cx, node, 'u'), HSeq('list', ()))
            return [(st, Tup([ns, un]))]
        return [(st, ns)]
    for spec in l.items:
        dest, flags, kws, _ = spec.items
        kd = {t.items[0].v: t.items[1] for t in kws.items}
        act = kd.get('action')
        if isinstance(act, K) and act.v in ('help', 'version'):
            continue
        if kd.get('default') == K('==SUPPRESS=='):
            continue
        if act is not None and not isinstance(act, K):
            # custom action classes: only version actions are known
            if isinstance(act, Ext) and 'Version' in act.path:
                continue
        attrs[dest.v] = opt_value(I, st, dest.v, kd,
                                  [f.v for f in flags.items], cx, node)
    ns = st.alloc(I.asite(cx, node), HObj(Ext('argparse.Namespace'), attrs))
    st.emit('parse-args', node_leaf(node), I.site(cx, node))
    if node_leaf(node) == 'parse_known_args':
        un = st.alloc(I.asite(cx, node, 'u'), HSeq('list', (), Sym(
            ('unknown-arg',), 'str', {('opt', '$unknown')})))
        return [(st, Tup([ns, un]))]
    return [(st, ns)]


@ext('argparse.Namespace')
def _ns(I, st, args, kw, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HObj(
        Ext('argparse.Namespace'), {k: v for k, v in kw if k})))]
