"""Methods of str / bytes on abstract values."""
import re

from .values import (
    EMPTY, FALSE, NONE, TRUE, Exc, Ext, HObj, HSeq, HDict, K, Meth, Ref, Str,
    Sym, Tup, Value, kbool, labels_of,
)
from .interp import concat
from .m_core import is_strish, mk, str_of, strsym

PRED = {'startswith', 'endswith', 'isdigit', 'isspace', 'isalpha', 'isalnum',
        'isupper', 'islower', 'isidentifier', 'isnumeric', 'isdecimal',
        'isascii', 'isprintable', 'istitle'}
STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title',
       'capitalize', 'center', 'ljust', 'rjust', 'zfill', 'expandtabs',
       'translate', 'swapcase', 'removeprefix', 'removesuffix', 'casefold',
       'decode'}
INT = {'find', 'rfind', 'index', 'rindex', 'count'}
LIST = {'split', 'rsplit', 'splitlines'}
ALL = PRED | STR | INT | LIST | {'partition', 'rpartition', 'join', 'format',
                                 'encode', 'format_map'}
# method names that only strings have among the types the code base uses
STRONLY = ALL - {'index', 'count'}


def wrap(I, st, v, cx, node):
    """Python result -> abstract value."""
    if isinstance(v, list):
        return st.alloc(I.asite(cx, node, 'sl'),
                        HSeq('list', [K(x) for x in v]))
    if isinstance(v, tuple):
        return Tup(K(x) for x in v)
    return K(v)


def parts_of(v):
    return v.parts if isinstance(v, Str) else (v,)


def all_generic(v):
    return all(isinstance(p, str) or p.generic for p in parts_of(v))


def topart(p):
    return K(p) if isinstance(p, str) else p


def call(I, st, v, name, args, kw, cx, node):
    if isinstance(v, Sym) and ('C', v) in st.facts:
        c = st.facts[('C', v)]
        if isinstance(c.v, str):
            v = c
    args = [st.facts.get(('C', a), a) if isinstance(a, Sym) else a
            for a in args]
    if name == 'join':
        return join(I, st, v, args[0], cx, node)
    if name == 'format':
        return fmt(I, st, v, args, kw, cx, node)
    if name == 'encode':
        enc = args[0] if args else dict(kw).get('encoding', K('utf-8'))
        st.emit('encode', v, enc, I.site(cx, node))
        outs = [(st, mk(st, 'encode', (v, enc), 'bytes'))]
        if I.cfg.get('encode_fails'):
            s2 = st.copy()
            outs.append((s2, I.exc(s2, 'UnicodeEncodeError', (), cx, node)))
        return outs
    kd = dict(kw)
    if isinstance(v, K) and all(isinstance(a, K) for a in args) and \
            all(isinstance(x, K) for x in kd.values()):
        try:
            r = getattr(v.v, name)(*[a.v for a in args],
                                   **{k: x.v for k, x in kd.items()})
        except AttributeError:
            return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]
        except ValueError:
            return [(st, I.exc(st, 'ValueError', (), cx, node))]
        except Exception:
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
        return [(st, wrap(I, st, r, cx, node))]
    for a in args:
        if isinstance(a, K) and a.v is None and name in (
                'startswith', 'endswith', 'replace', 'find', 'index',
                'count'):
            return [(st, I.exc(st, 'TypeError', (), cx, node))]
    if name in PRED:
        return pred(I, st, v, name, args, cx, node)
    if name in ('strip', 'lstrip', 'rstrip'):
        return [(st, strip(I, st, v, name, args))]
    if name == 'replace' and len(args) >= 2 and isinstance(args[0], K) and \
            all_generic(v) and len(args) == 2 and isinstance(v, (Str, Sym)):
        pat = args[0].v
        if pat == '':
            return [(st, mk(st, 'replace', [v] + args, 'str'))]
        out = []
        for p in parts_of(v):
            if isinstance(p, str):
                chunks = p.split(pat)
                for i, c in enumerate(chunks):
                    if i:
                        out.append(strsym(args[1]))
                    out.append(K(c))
            else:
                out.append(p)
        return [(st, concat(out))]
    if name in ('replace',) and len(args) >= 2:
        return [(st, mk(st, 'replace', [v] + args, 'str'))]
    if name in LIST:
        return split(I, st, v, name, args, kd, cx, node)
    if name in ('partition', 'rpartition'):
        return partition(I, st, v, name, args, cx, node)
    if name in ('removeprefix', 'removesuffix') and isinstance(v, Str) and \
            isinstance(args[0], K):
        p = v.parts[0] if name == 'removeprefix' else v.parts[-1]
        a = args[0].v
        if isinstance(p, str) and name == 'removeprefix' and \
                p.startswith(a):
            return [(st, concat([K(p[len(a):])] + [
                topart(x) for x in v.parts[1:]]))]
        if isinstance(p, str) and name == 'removesuffix' and p.endswith(a):
            return [(st, concat([topart(x) for x in v.parts[:-1]] + [
                K(p[:len(p) - len(a)])]))]
    if name == 'count' and isinstance(args[0], K) and all_generic(v):
        return [(st, K(sum(p.count(args[0].v) for p in parts_of(v)
                           if isinstance(p, str))))]
    if name in ('find', 'rfind', 'index', 'rindex') and \
            isinstance(args[0], K) and all_generic(v) and not any(
                isinstance(p, str) and args[0].v in p for p in parts_of(v)):
        if name in ('find', 'rfind'):
            return [(st, K(-1))]
        return [(st, I.exc(st, 'ValueError', (), cx, node))]
    if name in STR:
        r = mk(st, name, [v] + args, 'str')
        if name in ('lower', 'upper', 'title', 'capitalize', 'casefold',
                    'swapcase', 'expandtabs'):
            t = I.fact_truth(st, v)
            if t is False:
                return [(st, K(''))]
            r = mk(st, name, [v] + args, 'str', truthy=t or None)
            if isinstance(v, Sym) and v.generic:
                r = Sym(r.id, 'str', r.labels, True)
        return [(st, r)]
    if name in INT:
        r = mk(st, name, [v] + args, 'int')
        if name in ('index', 'rindex'):
            s2 = st.copy()
            return [(st, r), (s2, I.exc(s2, 'ValueError', (), cx, node))]
        return [(st, r)]
    return [(st, I.exc(st, 'AttributeError', (K(name),), cx, node))]


def pred(I, st, v, name, args, cx, node):
    ks = []
    for a in args:
        if isinstance(a, Tup) and all(isinstance(x, K) for x in a.items):
            ks.append(K(tuple(x.v for x in a.items)))
        else:
            ks.append(a)
    if isinstance(v, K) and all(isinstance(a, K) for a in ks):
        return [(st, kbool(getattr(v.v, name)(*[a.v for a in ks])))]
    if name in ('startswith', 'endswith') and len(ks) == 1:
        ps = parts_of(v) if isinstance(v, (Str, Sym)) else ()
        a = ks[0]
        if ps and isinstance(a, K):
            pre = a.v if isinstance(a.v, tuple) else (a.v,)
            if '' in pre:
                return [(st, TRUE)]
            p = ps[0] if name == 'startswith' else ps[-1]
            if isinstance(p, Sym) and p.generic:
                return [(st, FALSE)]
            if isinstance(p, str):
                if getattr(p, name)(pre):
                    return [(st, TRUE)]
                if name == 'startswith':
                    ok = any(x.startswith(p) for x in pre)
                else:
                    ok = any(x.endswith(p) for x in pre)
                nx = ps[1] if name == 'startswith' else ps[-2]
                if not ok or (isinstance(nx, Sym) and nx.generic):
                    return [(st, FALSE)]
        elif ps and isinstance(a, (Sym, Str)):
            p = ps[0] if name == 'startswith' else ps[-1]
            if a == p:
                return [(st, TRUE)]
    elif not args:
        if isinstance(v, Sym) and v.generic:
            return [(st, FALSE)]
        if isinstance(v, Str) and name in ('isspace', 'isdigit') and any(
                (isinstance(p, str) and not getattr(p, name)())
                or (isinstance(p, Sym) and p.generic) for p in v.parts):
            return [(st, FALSE)]
        if I.fact_truth(st, v) is False and name != 'isascii':
            return [(st, FALSE)]
    return [(s, kbool(r)) for s, r in
            I.memo(st, ('P', name, v, tuple(ks)))]


def strip(I, st, v, name, args):
    chars = None
    if args and isinstance(args[0], K):
        chars = args[0].v
    elif args:
        return mk(st, name, [v] + list(args), 'str')
    if isinstance(v, K):
        return K(getattr(v.v, name)(chars))
    ps = list(parts_of(v))
    left = name in ('strip', 'lstrip')
    right = name in ('strip', 'rstrip')
    stuck = False
    if left:
        while ps and isinstance(ps[0], str):
            x = ps[0].lstrip(chars)
            if x:
                ps[0] = x
                break
            ps.pop(0)
        if ps and isinstance(ps[0], Sym) and not ps[0].generic:
            stuck = True
    if right:
        while ps and isinstance(ps[-1], str):
            x = ps[-1].rstrip(chars)
            if x:
                ps[-1] = x
                break
            ps.pop()
        if ps and isinstance(ps[-1], Sym) and not ps[-1].generic:
            stuck = True
    if stuck:
        if I.fact_truth(st, v) is False:
            return K('')
        if isinstance(v, Sym) and isinstance(v.id, tuple) and \
                v.id[0] == name and not args:
            return v
        return mk(st, name, [v] + list(args), 'str')
    return concat([topart(p) for p in ps])


def split(I, st, v, name, args, kd, cx, node):
    sep = args[0] if args else kd.get('sep', NONE)
    mx = args[1] if len(args) > 1 else kd.get('maxsplit', K(-1))
    site = I.asite(cx, node, 'split')
    if name == 'splitlines':
        sep, mx = K('\n'), K(-1)
    if isinstance(sep, K) and isinstance(mx, K) and isinstance(
            v, (Str, Sym)) and all_generic(v) and name != 'rsplit':
        groups, cur, n = [], [], 0
        for p in parts_of(v):
            if not isinstance(p, str):
                cur.append(p)
                continue
            left = -1 if mx.v < 0 else max(mx.v - n, 0)
            if sep.v is None:
                lead = p[:1].isspace()
                trail = p[-1:].isspace()
                ch = p.split()
                if lead and cur:
                    groups.append(cur)
                    cur = []
                for i, c in enumerate(ch):
                    if i:
                        groups.append(cur)
                        cur = []
                    cur.append(K(c))
                if trail and cur:
                    groups.append(cur)
                    cur = []
                continue
            ch = p.split(sep.v, left) if left else [p]
            for i, c in enumerate(ch):
                if i:
                    groups.append(cur)
                    cur = []
                    n += 1
                cur.append(K(c))
        if cur or sep.v is not None:
            groups.append(cur)
        items = [concat(g) for g in groups]
        if name == 'splitlines' and items and items[-1] == K(''):
            items.pop()
        return [(st, st.alloc(site, HSeq('list', items)))]
    if I.fact_truth(st, v) is False and isinstance(sep, K):
        return [(st, st.alloc(site, HSeq(
            'list', [] if sep.v is None or name == 'splitlines'
            else [K('')])))]
    el = mk(st, 'piece', [v, sep] + ([mx] if len(args) > 1 else []), 'str')
    if name == 'splitlines' or (isinstance(sep, K) and sep.v is None):
        return [(st, st.alloc(site, HSeq('list', (), el)))]
    if isinstance(mx, K) and mx.v == 1:
        has = I.memo(st, ('P', '__contains__', v, (sep,)))
        out = []
        for s, r in has:
            its = [I.inst(el, 0), I.inst(el, 1)] if r else [v]
            out.append((s, s.alloc(site, HSeq('list', its))))
        return out
    return [(st, st.alloc(site, HSeq('list', (), el, min1=True)))]


def partition(I, st, v, name, args, cx, node):
    sep = args[0]
    if isinstance(sep, K) and isinstance(v, (Str, Sym)) and all_generic(v):
        ps = list(parts_of(v))
        rng = range(len(ps)) if name == 'partition' else \
            range(len(ps) - 1, -1, -1)
        for i in rng:
            p = ps[i]
            if isinstance(p, str) and sep.v in p:
                a, m, b = getattr(p, name)(sep.v)
                return [(st, Tup([
                    concat([topart(x) for x in ps[:i]] + [K(a)]), K(m),
                    concat([K(b)] + [topart(x) for x in ps[i + 1:]])]))]
        t = [v, K(''), K('')] if name == 'partition' else \
            [K(''), K(''), v]
        return [(st, Tup(t))]
    return [(s, Tup([mk(s, 'part0', (v, sep), 'str'), sep,
                     mk(s, 'part2', (v, sep), 'str')]) if r else
             Tup([v, K(''), K('')] if name == 'partition'
                 else [K(''), K(''), v]))
            for s, r in I.memo(st, ('P', '__contains__', v, (sep,)))]


def join(I, st, sep, it, cx, node):
    out = []
    for s, d in I.seq(st, it, cx, node):
        if isinstance(d, Exc):
            out.append((s, d))
            continue
        items, rest, m1, un = d
        if un:
            s.emit('unord-join', un, I.site(cx, node))
        if rest is None:
            vals, bad = [], False
            for i, x in enumerate(items):
                if i:
                    vals.append(sep)
                if isinstance(x, K) and not isinstance(x.v, (str, bytes)):
                    bad = True
                if isinstance(x, (Tup, Ref)):
                    bad = True
                vals.append(strsym(x))
            if bad:
                out.append((s, I.exc(s, 'TypeError', (), cx, node)))
            else:
                r = concat(vals)
                if un:
                    lab = labels_of(r) | {('unord', un)}
                    r = Sym(('ujoin', r), 'str', lab)
                out.append((s, r))
            continue
        extra = {('unord', un)} if un else EMPTY
        t = None
        if items and any(I.static_truth(x) for x in items):
            t = True
        r = mk(s, 'join', (sep,) + tuple(items) + (rest,), 'str', extra, t)
        out.append((s, r))
    return out


def fmt(I, st, v, args, kw, cx, node):
    kd = dict((k, x) for k, x in kw if k is not None)
    if isinstance(v, K) and isinstance(v.v, str):
        import string
        try:
            toks = list(string.Formatter().parse(v.v))
        except ValueError:
            return [(st, I.exc(st, 'ValueError', (), cx, node))]
        cur, auto = [(st, [])], 0
        for lit, field, spec, conv in toks:
            val = None
            if field is not None:
                m = re.match(r'[^.\[]*', field).group()
                if m == '':
                    m = str(auto)
                    auto += 1
                if m.isdigit():
                    if int(m) >= len(args):
                        return [(st, I.exc(st, 'IndexError', (), cx,
                                           node))]
                    val = args[int(m)]
                elif m in kd:
                    val = kd[m]
                else:
                    return [(st, I.exc(st, 'KeyError', (K(m),), cx, node))]
                if len(m) < len(field.strip()) and m != field:
                    val = mk(st, 'fmtfield', (val, K(field)), 'str')
            nxt = []
            for s, acc in cur:
                acc = acc + [K(lit)]
                if val is None:
                    nxt.append((s, acc))
                    continue
                for s1, x in str_of(I, s, val, cx, node):
                    nxt.append((s1, x if isinstance(x, Exc)
                                else acc + [x]))
            cur = nxt
        return [(s, x if isinstance(x, Exc) else concat(x))
                for s, x in cur]
    r = mk(st, 'format', [v] + list(args) + list(kd.values()), 'str')
    out = [(st, r)]
    if I.cfg.get('format_fails') and isinstance(v, Sym):
        s2 = st.copy()
        out.append((s2, I.exc(s2, 'KeyError', (), cx, node)))
    return out
