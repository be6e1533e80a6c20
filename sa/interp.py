"""Abstract interpreter over the syntax trees of /repo/src.

A disjunctive (set-of-states) forward dataflow analysis: every statement maps a
set of abstract states to a set of abstract states, states that agree are
merged, branches on unknown values take both sides and remember the fact they
assumed.  Loops over collections of unknown length are analysed for 0..K
arbitrary elements.  Nothing of the analysed program is imported or executed.
"""
import sys
import ast
import os

from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HEnv, HMod,
    HObj, HSeq, K, Meth, Nat, Partial, Ref, State, Str, Sym, Tup, Value,
    kbool, labels_of, refs_of_value,
)


class Budget(Exception):
    pass


class SuperV(Value):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj
        Value.__init__(self, cls, obj)


class StarArgs(Value):
    """Unknown number of further positional arguments."""
    __slots__ = ('elem',)

    def __init__(self, elem):
        self.elem = elem
        Value.__init__(self, elem)


class FnInfo:
    """Static facts about one function definition."""

    def __init__(self, node, module, qualname, file):
        self.node, self.module, self.qualname = node, module, qualname
        self.file = file
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.class_addr = None
        self.locals = set(self.pos) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.globals_, self.nonlocals = set(), set()
        self.is_gen = False
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self._scan(s)
        self.locals -= self.globals_ | self.nonlocals
        self.locals = frozenset(self.locals)

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            self._scan(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        elif isinstance(n, ast.Global):
            self.globals_ |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            self.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            self._scan(c)


class Cx:
    """Static context of an activation."""
    __slots__ = ('fn', 'module', 'file', 'env', 'entry', 'depth', 'hook',
                 'call_site', 'pins')

    def __init__(self, fn, module, file, env, entry, depth, hook=None,
                 call_site=None):
        self.fn, self.module, self.file = fn, module, file
        self.env, self.entry, self.depth = env, entry, depth
        self.hook = hook
        self.call_site = call_site
        self.pins = []      # values held by running statements

    def child(self, env):
        c = Cx(self.fn, self.module, self.file, env, self.entry,
               self.depth, self.hook, self.call_site)
        c.pins = self.pins
        return c


MAXDEPTH = 40
# typed unknowns that may also be None
NULLABLE = frozenset(['opt', 'param', 'group', 'nullable'])


class Interp:
    def __init__(self, root, pkg='mdpo', loop_k=2, max_states=6000):
        self.root, self.pkg = root, pkg
        self.loop_k = loop_k
        self.max_states = max_states
        self.base = {}
        self.modules = {}
        self.files = {}
        self.fninfo = {}
        self.undecided = {}     # reason -> count
        self.cuts = {}
        self.functions_seen = set()
        self.nodes = 0
        self.steps = 0
        self.max_steps = 40_000_000
        self.cfg = {}           # scenario configuration for the models
        self.loading = []
        self.cm_pins = ()
        self.snapshots = {}     # digest of a catalogue's text -> snapshot
        self.pending_hook = None
        self.read_attrs = None  # when a set: (address, attribute) reads
        self.touched = set()    # (file, line) of analysed statements
        from . import models
        self.models = models

    # ------------------------------------------------------------ utilities
    def cut(self, reason):
        """Behaviours left out (never a source of alarms)."""
        self.cuts[reason] = self.cuts.get(reason, 0) + 1

    def note(self, reason):
        self.undecided[reason] = self.undecided.get(reason, 0) + 1

    def site(self, cx, node):
        fn = cx.fn.qualname if cx.fn is not None else '<module>'
        return (cx.file, fn, getattr(node, 'lineno', 0))

    def state(self):
        return State(self.base)

    def asite(self, cx, node, tag=''):
        return (cx.module, getattr(node, 'lineno', 0),
                getattr(node, 'col_offset', 0), type(node).__name__ + tag)

    def exc(self, st, name, args=(), cx=None, node=None, path=None):
        site = self.site(cx, node) if cx is not None else None
        r = st.alloc(('exc', name, site),
                     HObj(Ext(path or 'builtins.' + name),
                          {'args': Tup(args)}))
        return Exc(r, site)

    def fresh(self, st, tag, typ=None, labels=EMPTY):
        return Sym((tag, '#%d' % len(st.trace)), typ, labels)

    # -------------------------------------------------------------- modules
    def module_file(self, name):
        rel = name.split('.')
        base = os.path.join(self.root, *rel)
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def is_repo(self, name):
        return name == self.pkg or name.startswith(self.pkg + '.')

    def load(self, name):
        """Abstractly execute a repository module once; -> Ref or None."""
        if name in self.modules:
            return self.modules[name]
        f = self.module_file(name)
        if f is None:
            return None
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        rel = os.path.relpath(f, os.path.dirname(self.root))
        self.files[rel] = src
        self.nodes += sum(1 for _ in ast.walk(tree))
        st = State(self.base)
        env = ('modenv', name)
        self.base[env] = HEnv({'__name__': K(name), '__file__': K(f)}, None)
        ref = Ref(('mod', name))
        self.base[ref.a] = HMod(name, env, rel)
        self.modules[name] = ref
        self.loading.append(name)
        cx = Cx(None, name, rel, env, {}, 0)
        outs = self.block(tree.body, [st], cx)
        self.loading.pop()
        ok = [s for s, sig in outs if sig is None]
        if not ok:
            self.note('module %s does not load' % name)
            return ref
        if len(ok) > 1:
            self.note('module %s loads in %d ways' % (name, len(ok)))
        s = ok[0]
        for a, o in s.heap.items():
            self.base[a] = o
        par, _, leaf = name.rpartition('.')
        if par and par in self.modules:
            pe = self.base[('modenv', par)]
            if leaf not in pe.vars:
                self.base[('modenv', par)] = pe.set(leaf, ref)
        return ref

    def import_(self, name):
        if self.is_repo(name):
            parts = name.split('.')
            for i in range(1, len(parts)):
                self.load('.'.join(parts[:i]))
            r = self.load(name)
            if r is not None:
                return r
            return None
        return Ext(name)

    # ---------------------------------------------------------------- states
    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        res, buckets = [], {}
        for s, sig in outs:
            key = (len(s.trace), len(s.heap), len(s.facts),
                   sig if not isinstance(sig, tuple) else sig[0])
            try:
                b = buckets.setdefault(key, [])
            except TypeError:
                b = buckets.setdefault(None, [])
            for s2, sig2 in b:
                if sig == sig2 and s.same(s2):
                    break
            else:
                b.append((s, sig))
                res.append((s, sig))
        if len(res) > self.max_states:
            raise Budget('too many abstract states')
        return res

    def gc(self, st, cx, extra=()):
        if cx.fn is None:
            return
        entry = cx.entry
        if len(st.heap) <= len(entry):
            return
        roots = []
        if cx.env is not None:
            roots.append(cx.env)
        for v in extra:
            refs_of_value(v, roots)
        for v in cx.pins:
            refs_of_value(v, roots)
        roots.extend(self.cm_pins)
        st.sweep(entry, roots)

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, cx):
        """-> list of (state, signal); signal None = fell through."""
        cur = [(s, None) for s in states]
        done = []
        for stmt in stmts:
            if not cur:
                break
            self.touched.add((cx.file, stmt.lineno))
            nxt = []
            for s, _ in cur:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget exhausted')
                nxt.extend(self.stmt(stmt, s, cx))
            if len(nxt) > 1:
                for s, sig in nxt:
                    ex = ()
                    if isinstance(sig, Exc):
                        ex = (sig.val,)
                    elif isinstance(sig, tuple) and len(sig) > 1:
                        ex = (sig[1],)
                    self.gc(s, cx, ex)
                nxt = self.dedupe(nxt)
            cur = [x for x in nxt if x[1] is None]
            done.extend(x for x in nxt if x[1] is not None)
        return done + cur

    def stmt(self, n, st, cx):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note('statement ' + type(n).__name__)
            return [(st, None)]
        return m(n, st, cx)

    def s_Expr(self, n, st, cx):
        return [(s, v if isinstance(v, Exc) else None)
                for s, v in self.ev(n.value, st, cx)]

    def s_Pass(self, n, st, cx):
        return [(st, None)]

    def s_Break(self, n, st, cx):
        return [(st, ('brk',))]

    def s_Continue(self, n, st, cx):
        return [(st, ('cont',))]

    def s_Return(self, n, st, cx):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, v if isinstance(v, Exc) else ('ret', v))
                for s, v in self.ev(n.value, st, cx)]

    def s_Global(self, n, st, cx):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, n, st, cx):
        out = []
        for s, v in self.ev(n.value, st, cx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, sig in cur:
                    if sig is not None:
                        nxt.append((s2, sig))
                    else:
                        nxt.extend(self.assign(t, v, s2, cx))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, cx):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st, cx):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.assign(n.target, v, s, cx))
        return out

    def s_AugAssign(self, n, st, cx):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            reads = self.ev(ast.copy_location(
                ast.Name(t.id, ast.Load()), t), st, cx)
            for s, cur in reads:
                if isinstance(cur, Exc):
                    out.append((s, cur))
                    continue
                for s2, v in self.ev(n.value, s, cx):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                        continue
                    for s3, r in self.inplace(n.op, cur, v, s2, cx, n):
                        out.extend([(s3, r)] if isinstance(r, Exc) else
                                   self.assign(t, r, s3, cx))
            return out
        if isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, cx):
                if isinstance(b, Exc):
                    out.append((s, b))
                    continue
                for s1, cur in self.getattr(s, b, t.attr, cx, t):
                    if isinstance(cur, Exc):
                        out.append((s1, cur))
                        continue
                    for s2, v in self.ev(n.value, s1, cx):
                        if isinstance(v, Exc):
                            out.append((s2, v))
                            continue
                        for s3, r in self.inplace(n.op, cur, v, s2, cx, n):
                            if isinstance(r, Exc):
                                out.append((s3, r))
                            else:
                                out.extend(
                                    self.setattr(s3, b, t.attr, r, cx, n))
            return out
        # subscript
        for s, b, i in self.ev2(t.value, t.slice, st, cx):
            if isinstance(i, Exc):
                out.append((s, i))
                continue
            for s1, cur in self.getitem(s, b, i, cx, t):
                if isinstance(cur, Exc):
                    out.append((s1, cur))
                    continue
                for s2, v in self.ev(n.value, s1, cx):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                        continue
                    for s3, r in self.inplace(n.op, cur, v, s2, cx, n):
                        if isinstance(r, Exc):
                            out.append((s3, r))
                        else:
                            out.extend(self.setitem(s3, b, i, r, cx, n))
        return out

    def inplace(self, op, a, b, st, cx, node):
        if isinstance(a, Ref):
            o = st.get(a.a)
            if isinstance(o, HSeq) and o.kind == 'list' \
                    and isinstance(op, ast.Add):
                return [(s, v if isinstance(v, Exc) else a) for s, v in
                        self.call(st, Meth(a, 'extend'), [b], [], cx, node)]
            if isinstance(op, ast.BitOr) and isinstance(o, (HSeq, HDict)):
                return [(s, v if isinstance(v, Exc) else a) for s, v in
                        self.call(st, Meth(a, 'update'), [b], [], cx, node)]
        return self.binop(op, a, b, st, cx, node)

    def s_Delete(self, n, st, cx):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                if isinstance(t, ast.Name):
                    e = s.get(cx.env)
                    s.put(cx.env, e.delete(t.id))
                    nxt.append((s, None))
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, s, cx):
                        if isinstance(b, Exc):
                            nxt.append((s1, b))
                            continue
                        o = s1.get(b.a) if isinstance(b, Ref) else None
                        if isinstance(o, HObj):
                            self.mutated(s1, b, o, cx, n)
                            s1.put(b.a, o.delete(t.attr))
                        nxt.append((s1, None))
                elif isinstance(t, ast.Subscript):
                    for s1, b, i in self.ev2(t.value, t.slice, s, cx):
                        if isinstance(i, Exc):
                            nxt.append((s1, i))
                            continue
                        nxt.extend(
                            (s2, v if isinstance(v, Exc) else None)
                            for s2, v in self.models.delitem(
                                self, s1, b, i, cx, n))
                else:
                    nxt.append((s, None))
            cur = nxt
        return cur

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v, cx)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, cx):
                if isinstance(b, Exc):
                    out.append((s, b))
                else:
                    out.extend(self.setattr(s, b, t.attr, v, cx, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b, i in self.ev2(t.value, t.slice, st, cx):
                if isinstance(i, Exc):
                    out.append((s, i))
                else:
                    out.extend(self.setitem(s, b, i, v, cx, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, cx)
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            for s, items in self.unpack(st, v, len(t.elts),
                                        star[0] if star else None, cx, t):
                if isinstance(items, Exc):
                    out.append((s, items))
                    continue
                cur = [(s, None)]
                for e, x in zip(t.elts, items):
                    nxt = []
                    for s2, sig in cur:
                        nxt.extend([(s2, sig)] if sig is not None else
                                   self.assign(e, x, s2, cx))
                    cur = nxt
                out.extend(cur)
            return out
        self.note('assignment target ' + type(t).__name__)
        return [(st, None)]

    def unpack(self, st, v, n, star, cx, node):
        o = st.get(v.a) if isinstance(v, Ref) else None
        items = rest = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(o, HSeq):
            items, rest = o.items, o.rest
            if o.unord and st.marks == ():
                pass
        elif isinstance(o, HDict):
            items = tuple(k for k, _ in o.items)
            rest = o.rest[0] if o.rest else None
        elif isinstance(v, K) and isinstance(v.v, str):
            items = tuple(K(c) for c in v.v)
        elif isinstance(v, Sym):
            if star is not None:
                res = []
                for i in range(n):
                    if i == star:
                        res.append(st.alloc(self.asite(cx, node, 'star'), HSeq(
                            'list', (), Sym(('rest', v.id), None, v.labels))))
                    else:
                        res.append(Sym(('item', v.id, i), None, v.labels))
                return [(st, res)]
            out = [(st, [Sym(('item', v.id, i), None, v.labels)
                         for i in range(n)])]
            if v.typ == 'list' and self.cfg.get('unpack_fails', True):
                bad = st.copy()
                out.append((bad, self.exc(
                    bad, 'ValueError', (K('unpack'),), cx, node)))
            return out
        if items is None:
            self.note('unpack %r' % (v,))
            return [(st, [Sym(('item', repr(v), i)) for i in range(n)])]
        if rest is not None:
            # unknown length: the analysed case is that it fits
            k = n - len(items)
            items = list(items) + [self.inst(rest, i)
                                   for i in range(max(k, 0))]
            if star is None:
                return [(st, items[:n])]
        items = list(items)
        if star is None:
            if len(items) != n:
                return [(st, self.exc(st, 'ValueError', (K('unpack'),), cx,
                                      node))]
            return [(st, items)]
        after = n - star - 1
        if len(items) < n - 1:
            return [(st, self.exc(st, 'ValueError', (K('unpack'),), cx,
                                  node))]
        mid = items[star:len(items) - after]
        lst = st.alloc(self.asite(cx, node, 'star'), HSeq('list', mid))
        return [(st, items[:star] + [lst] + items[len(items) - after:])]

    def s_If(self, n, st, cx):
        out = []
        for s, b in self.cond(n.test, st, cx):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                body = n.body if b else n.orelse
                out.extend(self.block(body, [s], cx) if body
                           else [(s, None)])
        return out

    def s_Assert(self, n, st, cx):
        out = []
        for s, b in self.cond(n.test, st, cx):
            if isinstance(b, Exc):
                out.append((s, b))
            elif b:
                out.append((s, None))
            else:
                out.append((s, self.exc(s, 'AssertionError', (), cx, n)))
        return out

    def s_While(self, n, st, cx):
        out, work, seen, it = [], [(st, 0)], [], 0
        while work:
            it += 1
            if it > 200:
                self.cut('while bound')
                break
            nxt = []
            for s, forks in work:
                conds = self.cond(n.test, s, cx)
                if len({bool(b) for _, b in conds
                        if not isinstance(b, Exc)}) == 2:
                    forks += 1      # the condition is unknown here
                for s1, b in conds:
                    if isinstance(b, Exc):
                        out.append((s1, b))
                    elif not b:
                        out.extend(self.block(n.orelse, [s1], cx)
                                   if n.orelse else [(s1, None)])
                    else:
                        for s2, sig in self.block(n.body, [s1], cx):
                            if sig is None or sig == ('cont',):
                                nxt.append((s2, ('w', forks)))
                            elif sig == ('brk',):
                                out.append((s2, None))
                            else:
                                out.append((s2, sig))
            for s, _ in nxt:
                self.gc(s, cx)
            nxt = self.dedupe(nxt)
            work = []
            for s, (_, forks) in nxt:
                if any(s.same(x) for x in seen):
                    continue
                if forks > self.loop_k:
                    self.cut('while with unknown bound')
                    continue
                seen.append(s.copy())
                work.append((s, forks))
        return self.dedupe(out)

    def s_For(self, n, st, cx):
        out = []
        for s, it in self.ev(n.iter, st, cx):
            if isinstance(it, Exc):
                out.append((s, it))
                continue

            def body(s2, elem):
                res = []
                for s3, sig in self.assign(n.target, elem, s2, cx):
                    if sig is not None:
                        res.append((s3, sig))
                    else:
                        res.extend(self.block(n.body, [s3], cx))
                return res
            for s4, sig in self.loop(s, it, body, cx, n):
                if sig is None and n.orelse:
                    out.extend(self.block(n.orelse, [s4], cx))
                elif sig == ('brk',):
                    out.append((s4, None))
                else:
                    out.append((s4, sig))
        return self.dedupe(out)

    s_AsyncFor = s_For

    def inst(self, v, n):
        """Instance number n of a summary element."""
        if isinstance(v, Sym):
            return Sym(('el', v.id, n), v.typ, v.labels, v.generic, v.truthy)
        if isinstance(v, Tup):
            return Tup(self.inst(x, n) for x in v.items)
        if isinstance(v, Str):
            return Str(p if isinstance(p, str) else self.inst(p, n)
                       for p in v.parts)
        return v

    def loop(self, st, it, body, cx, node):
        cx.pins.append(it)
        try:
            return self.loop1(st, it, body, cx, node)
        finally:
            cx.pins.pop()

    def loop1(self, st, it, body, cx, node):
        """Drive `body(state, element)` over an abstract iterable.

        Lists are iterated by live index, so a body that edits the list it
        iterates is analysed with Python's real semantics.  Signals: None
        (exhausted), ('brk',), ('ret', v), Exc.
        """
        out = []
        o = st.get(it.a) if isinstance(it, Ref) else None
        if isinstance(o, HObj):
            lst = o.attrs.get('$list')
            if lst is not None:
                return self.loop(st, lst, body, cx, node)
            r = self.models.iter_object(self, st, it, o, cx, node)
            if r is None:
                self.note('iteration over object')
                return [(st, None)]
            for s, seq in r:
                if isinstance(seq, Exc):
                    out.append((s, seq))
                else:
                    out.extend(self.loop(s, seq, body, cx, node))
            return out
        live = isinstance(o, HSeq) and o.kind == 'list'
        unord = None
        rest, items, min1 = None, (), False
        if isinstance(o, HSeq):
            items, rest, min1 = o.items, o.rest, o.min1
            unord = o.unord
            if o.kind in ('set', 'frozenset') and (
                    len(items) + (2 if rest is not None else 0)) > 1:
                unord = unord or 'set'
                items = self.set_order(items)
            if o.kind == 'iter':
                st.put(it.a, o.upd(items=(), rest=None))
        elif isinstance(o, HDict):
            items = tuple(k for k, _ in o.items)
            rest = o.rest[0] if o.rest else None
            unord = o.unord
        elif isinstance(it, Tup):
            items = it.items
        elif isinstance(it, K) and isinstance(it.v, (str, bytes)):
            items = tuple(K(c) for c in it.v)
        elif isinstance(it, K) and isinstance(it.v, range):
            items = tuple(K(c) for c in it.v)
        elif isinstance(it, Str) and all(
                isinstance(p, str) or isinstance(p, Sym) and p.generic
                for p in it.parts):
            items = []
            for p in it.parts:
                items += [K(c) for c in p] if isinstance(p, str) else [
                    Sym(('in', p.id), 'str', p.labels, generic=True)]
            items = tuple(items)
        elif isinstance(it, Str):
            rest = Sym(('ch', it), 'str', labels_of(it))
            min1 = self.static_truth(it) is True
        elif isinstance(it, Sym) and it.generic and it.typ == 'str':
            # an ordinary word behaves like one ordinary character
            items = (Sym(('in', it.id), 'str', it.labels, generic=True),)
        elif isinstance(it, Sym):
            if it.typ == 'bool' or it.typ == 'int':
                return [(st, self.exc(st, 'TypeError', (), cx, node))]
            f = self.fact_none(st, it)
            if f is True:
                return [(st, self.exc(st, 'TypeError', (), cx, node))]
            rest = Sym(('in', it.id), 'str' if it.typ == 'str' else None,
                       it.labels)
            t = self.fact_truth(st, it)
            if t is False:
                rest = None
            min1 = t is True
        elif isinstance(it, K) and it.v is None or isinstance(it, K):
            return [(st, self.exc(
                st, 'TypeError', (K('not iterable'),), cx, node))]
        elif isinstance(it, Ext):
            vals = self.models.iter_ext(self, it)
            if vals is None:
                self.note('iteration over %s' % it.path)
                rest = Sym(('in', it.path))
            else:
                items = vals
        else:
            self.note('iteration over %r' % type(it).__name__)
            return [(st, None)]
        old_marks = st.marks
        if unord:
            st.marks = st.marks + ((unord, self.site(cx, node)),)
        work = [st]
        i = 0
        while work:
            nxt = []
            for s in work:
                if live:
                    lo = s.get(it.a)
                    items, rest, min1 = lo.items, lo.rest, lo.min1
                if i < len(items):
                    branches = [(s, items[i])]
                elif rest is not None and i - len(items) < self.loop_k:
                    j = i - len(items)
                    branches = []
                    known = s.facts.get(('more', node_key(node), j, rest))
                    if j == 0 and min1:
                        known = True
                    if known is not False:
                        a = s.copy() if known is None else s
                        branches.append((a, self.inst(rest, j)))
                    if known is not True:
                        out.append((s, None))
                else:
                    out.append((s, None))
                    continue
                for s1, e in branches:
                    for s2, sig in body(s1, e):
                        if sig is None or sig == ('cont',):
                            nxt.append((s2, None))
                        else:
                            out.append((s2, sig))
            for s, _ in nxt:
                self.gc_loop(s, cx)
            nxt = self.dedupe(nxt)
            work = [s for s, _ in nxt]
            i += 1
            if i > 400:
                self.cut('for bound')
                out.extend((s, None) for s in work)
                break
        for s, _ in out:
            s.marks = old_marks
        return self.dedupe(out)

    def gc_loop(self, s, cx):
        return

    def s_Try(self, n, st, cx):
        out = []
        for s, sig in self.block(n.body, [st], cx):
            if isinstance(sig, Exc) and n.handlers:
                out.extend(self.handle(n.handlers, s, sig, cx))
            elif sig is None and n.orelse:
                out.extend(self.block(n.orelse, [s], cx))
            else:
                out.append((s, sig))
        out = self.dedupe(out)
        if not n.finalbody:
            return out
        res = []
        for s, sig in out:
            for s2, sig2 in self.block(n.finalbody, [s], cx):
                res.append((s2, sig if sig2 is None else sig2))
        return self.dedupe(res)

    s_TryStar = s_Try

    def handle(self, handlers, st, exc, cx):
        states = [st]
        out = []
        for h in handlers:
            nxt = []
            for s in states:
                if h.type is None:
                    types = [(s, None)]
                else:
                    types = self.ev(h.type, s, cx)
                for s1, t in types:
                    if isinstance(t, Exc):
                        out.append((s1, t))
                        continue
                    m = True if t is None else self.exc_match(
                        s1, exc.val, t)
                    for flag in ((True, False) if m is None else (m,)):
                        s2 = s1.copy() if m is None else s1
                        if not flag:
                            nxt.append(s2)
                            continue
                        if h.name:
                            self.setname(s2, h.name, exc.val, cx)
                        prev = s2.ghost.get('$exc')
                        s2.ghost['$exc'] = exc.val
                        for s3, sig in self.block(h.body, [s2], cx):
                            if prev is None:
                                s3.ghost.pop('$exc', None)
                            else:
                                s3.ghost['$exc'] = prev
                            if h.name:
                                e = s3.get(cx.env)
                                if h.name in e.vars:
                                    s3.put(cx.env, e.delete(h.name))
                            out.append((s3, sig))
            states = nxt
        out.extend((s, exc) for s in states)
        return out

    def exc_match(self, st, val, t):
        """True/False/None(unknown): does exception `val` match type `t`?"""
        if isinstance(t, Tup):
            r = False
            for x in t.items:
                m = self.exc_match(st, val, x)
                if m is True:
                    return True
                if m is None:
                    r = None
            return r
        o = st.get(val.a) if isinstance(val, Ref) else None
        if isinstance(o, HObj):
            return self.models.is_subclass(self, st, o.cls, t)
        return None

    def s_Raise(self, n, st, cx):
        if n.exc is None:
            v = st.ghost.get('$exc')
            if v is None:
                return [(st, self.exc(st, 'RuntimeError', (), cx, n))]
            return [(st, Exc(v, self.site(cx, n)))]
        out = []
        for s, v in self.ev(n.exc, st, cx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if isinstance(v, Ext) or (isinstance(v, Ref) and isinstance(
                    s.get(v.a), HClass)):
                for s1, v1 in self.call(s, v, [], [], cx, n):
                    out.append((s1, v1 if isinstance(v1, Exc) else
                                Exc(v1, self.site(cx, n))))
            else:
                if n.cause is not None:
                    for s1, c in self.ev(n.cause, s, cx):
                        out.append((s1, c if isinstance(c, Exc) else
                                    Exc(v, self.site(cx, n))))
                else:
                    out.append((s, Exc(v, self.site(cx, n))))
        return out

    def s_With(self, n, st, cx):
        def go(i, s):
            if i == len(n.items):
                return self.block(n.body, [s], cx)
            item = n.items[i]
            out = []
            for s1, m in self.ev(item.context_expr, s, cx):
                if isinstance(m, Exc):
                    out.append((s1, m))
                    continue

                def body(s2, val):
                    if item.optional_vars is not None:
                        res = []
                        for s3, sig in self.assign(
                                item.optional_vars, val, s2, cx):
                            res.extend([(s3, sig)] if sig is not None
                                       else go(i + 1, s3))
                        return res
                    return go(i + 1, s2)
                cx.pins.append(m)
                try:
                    out.extend(self.models.enter_with(
                        self, s1, m, body, cx, item.context_expr))
                finally:
                    cx.pins.pop()
            return self.dedupe(out)
        return go(0, st)

    s_AsyncWith = s_With

    def s_Import(self, n, st, cx):
        for al in n.names:
            m = self.import_(al.name)
            if m is None:
                return [(st, self.exc(st, 'ImportError', (K(al.name),), cx,
                                      n))]
            if al.asname:
                self.setname(st, al.asname, m, cx)
            else:
                top = al.name.split('.')[0]
                v = self.import_(top)
                self.setname(st, top, v, cx)
        return [(st, None)]

    def s_ImportFrom(self, n, st, cx):
        mod = n.module or ''
        if n.level:
            parts = cx.module.split('.')
            isfile = self.module_file(cx.module)
            if not (isfile and isfile.endswith('__init__.py')):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        m = self.import_(mod)
        if m is None:
            return [(st, self.exc(st, 'ImportError', (K(mod),), cx, n))]
        cur = [(st, None)]
        for al in n.names:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                if al.name == '*':
                    if isinstance(m, Ref):
                        e = s.get(s.get(m.a).env)
                        for k, v in e.vars.items():
                            if not k.startswith('_'):
                                self.setname(s, k, v, cx)
                    nxt.append((s, None))
                    continue
                if isinstance(m, Ext):
                    vals = self.getattr(s, m, al.name, cx, n)
                else:
                    e = s.get(s.get(m.a).env)
                    if al.name in e.vars:
                        vals = [(s, e.vars[al.name])]
                    else:
                        sub = self.import_(mod + '.' + al.name)
                        if sub is not None:
                            vals = [(s, sub)]
                        elif '__getattr__' in e.vars:
                            vals = self.call(s, e.vars['__getattr__'],
                                             [K(al.name)], [], cx, n)
                        else:
                            vals = [(s, self.exc(
                                s, 'ImportError', (K(al.name),), cx, n))]
                for s1, v in vals:
                    if isinstance(v, Exc):
                        nxt.append((s1, v))
                    else:
                        self.setname(s1, al.asname or al.name, v, cx)
                        nxt.append((s1, None))
            cur = nxt
        return cur

    def fn_info(self, node, cx):
        key = id(node)
        i = self.fninfo.get(key)
        if i is None:
            q = (cx.fn.qualname + '.' if cx.fn is not None else '')
            name = getattr(node, 'name', '<lambda>')
            cls = getattr(cx, 'hook', None)
            i = FnInfo(node, cx.module, q + name, cx.file)
            self.fninfo[key] = i
        return i

    def s_FunctionDef(self, n, st, cx, class_addr=None, class_name=None):
        out = []
        info = self.fn_info(n, cx)
        if class_name and info.class_addr is None:
            info.qualname = class_name + '.' + n.name
            info.class_addr = class_addr
        nd = len(n.args.defaults)
        kwd = [d for d in n.args.kw_defaults]
        nodes = list(n.args.defaults) + [d for d in kwd if d is not None]
        for s, vals in self.ev_many(nodes, st, cx):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            defaults = vals[:nd]
            kwdef, j = [], nd
            for name, d in zip(info.kwonly, kwd):
                if d is not None:
                    kwdef.append((name, vals[j]))
                    j += 1
            for s2, decos in self.ev_many(
                    getattr(n, 'decorator_list', []), s, cx):
                if isinstance(decos, Exc):
                    out.append((s2, decos))
                    continue
                env = cx.env
                e = s2.get(env)
                if class_addr is not None:
                    env = e.parent
                f = Fn(info, env, defaults, kwdef)
                cur = [(s2, f)]
                for d in reversed(decos):
                    nxt = []
                    for s3, g in cur:
                        nxt.extend(self.models.decorate(
                            self, s3, d, g, cx, n))
                    cur = nxt
                for s3, g in cur:
                    if isinstance(g, Exc):
                        out.append((s3, g))
                    else:
                        self.setname(s3, n.name, g, cx)
                        out.append((s3, None))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, cx):
        out = []
        q = cx.fn.qualname + '.' if cx.fn is not None else ''
        qual = '%s.%s%s' % (cx.module, q, n.name)
        for s, bases in self.ev_many(n.bases, st, cx):
            if isinstance(bases, Exc):
                out.append((s, bases))
                continue
            ca = ('class', qual)
            env = s.alloc(('classenv', qual), HEnv({}, cx.env)).a
            ccx = Cx(cx.fn, cx.module, cx.file, env, cx.entry, cx.depth)
            cur = [(s, None)]
            for stt in n.body:
                nxt = []
                for s1, sig in cur:
                    if sig is not None:
                        nxt.append((s1, sig))
                    elif isinstance(stt, (ast.FunctionDef,
                                          ast.AsyncFunctionDef)):
                        nxt.extend(self.s_FunctionDef(
                            stt, s1, ccx, ca, q + n.name))
                    else:
                        nxt.extend(self.stmt(stt, s1, ccx))
                cur = nxt
            for s1, sig in cur:
                if isinstance(sig, Exc):
                    out.append((s1, sig))
                    continue
                attrs = dict(s1.get(env).vars)
                slots = None
                if '__slots__' in attrs:
                    slots = self.models.const_strings(
                        self, s1, attrs['__slots__'])
                s1.put(ca, HClass(n.name, qual, tuple(bases), attrs, slots,
                                  n))
                s1.heap.pop(env, None)
                cur2 = [(s1, Ref(ca))]
                for d in reversed(n.decorator_list):
                    nxt2 = []
                    for s2, g in cur2:
                        for s3, dv in self.ev(d, s2, cx):
                            nxt2.extend([(s3, dv)] if isinstance(dv, Exc)
                                        else self.models.decorate(
                                            self, s3, dv, g, cx, n))
                    cur2 = nxt2
                for s2, g in cur2:
                    if isinstance(g, Exc):
                        out.append((s2, g))
                    else:
                        self.setname(s2, n.name, g, cx)
                        out.append((s2, None))
        return out

    # ------------------------------------------------------------------ match
    def s_Match(self, n, st, cx):
        out = []
        for s, subj in self.ev(n.subject, st, cx):
            if isinstance(subj, Exc):
                out.append((s, subj))
                continue
            pend = [s]
            for case in n.cases:
                nxt = []
                for s1 in pend:
                    for s2, ok in self.pat(case.pattern, subj, s1, cx):
                        if ok and case.guard is not None:
                            for s3, b in self.cond(case.guard, s2, cx):
                                if isinstance(b, Exc):
                                    out.append((s3, b))
                                elif b:
                                    out.extend(self.block(case.body, [s3],
                                                          cx))
                                else:
                                    nxt.append(s3)
                        elif ok:
                            out.extend(self.block(case.body, [s2], cx))
                        else:
                            nxt.append(s2)
                pend = nxt
            out.extend((s1, None) for s1 in pend)
        return self.dedupe(out)

    def pat(self, p, v, st, cx):
        """-> [(state, matched)]"""
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.ev(p.value, st, cx):
                if isinstance(c, Exc):
                    out.append((s, False))
                else:
                    out.extend(self.eq(s, v, c, cx, p))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, K(p.value), cx, p)
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for s1, ok in self.pat(q, v, s, cx):
                        (out if ok else nxt).append((s1, ok))
                pend = [s for s, _ in nxt]
            return out + [(s, False) for s in pend]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(st, p.name, v, cx)
                return [(st, True)]
            out = []
            for s, ok in self.pat(p.pattern, v, st, cx):
                if ok and p.name:
                    self.setname(s, p.name, v, cx)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchSequence):
            items = None
            if isinstance(v, Tup):
                items = v.items
            elif isinstance(v, Ref) and isinstance(st.get(v.a), HSeq) \
                    and st.get(v.a).rest is None:
                items = st.get(v.a).items
            if items is not None and not any(
                    isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(items) != len(p.patterns):
                    return [(st, False)]
                cur, out = [st], []
                for q, x in zip(p.patterns, items):
                    nxt = []
                    for s in cur:
                        for s1, ok in self.pat(q, x, s, cx):
                            if ok:
                                nxt.append(s1)
                            else:
                                out.append((s1, False))
                    cur = nxt
                return out + [(s, True) for s in cur]
        self.note('match pattern ' + type(p).__name__)
        s2 = st.copy()
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, cx):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('expression ' + type(n).__name__)
            return [(st, Sym(('expr', cx.file, n.lineno, n.col_offset)))]
        return m(n, st, cx)

    def ev_many(self, nodes, st, cx):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                for s1, v in self.ev(n, s, cx):
                    nxt.append((s1, v if isinstance(v, Exc) else vs + [v]))
            cur = nxt
        return cur

    def ev2(self, a, b, st, cx):
        out = []
        for s, x in self.ev(a, st, cx):
            if isinstance(x, Exc):
                out.append((s, None, x))
                continue
            for s1, y in self.ev(b, s, cx):
                out.append((s1, x, y))
        return out

    def e_Constant(self, n, st, cx):
        if n.value is Ellipsis:
            return [(st, Ext('builtins.Ellipsis'))]
        return [(st, K(n.value))]

    def e_Name(self, n, st, cx):
        v = self.lookup(st, n.id, cx)
        if v is None:
            return [(st, self.exc(st, 'UnboundLocalError' if (
                cx.fn is not None and n.id in cx.fn.locals) else 'NameError',
                (K(n.id),), cx, n))]
        return [(st, v)]

    def lookup(self, st, name, cx):
        a = cx.env
        first = True
        while a is not None:
            e = st.get(a)
            if e is None:
                break
            if name in e.globals_ and e.parent is not None:
                while st.get(a).parent is not None:
                    a = st.get(a).parent
                continue
            if name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals:
                return None
            a = e.parent
            first = False
        return self.models.builtin(name)

    def setname(self, st, name, v, cx):
        a = cx.env
        e = st.get(a)
        if e.locals is not None and name not in e.locals:
            if name in e.globals_:
                while st.get(a).parent is not None:
                    a = st.get(a).parent
                st.emit('global-write', name, (cx.file, cx.fn.qualname
                                               if cx.fn else '', 0))
                e = st.get(a)
            else:
                # nonlocal, or a walrus inside a comprehension
                b = e.parent
                while b is not None:
                    eb = st.get(b)
                    if eb.locals is not None and name in eb.locals:
                        a, e = b, eb
                        break
                    if name in eb.vars and eb.parent is not None:
                        a, e = b, eb
                        break
                    b = eb.parent
        st.put(a, e.set(name, v))

    def e_NamedExpr(self, n, st, cx):
        out = []
        for s, v in self.ev(n.value, st, cx):
            if not isinstance(v, Exc):
                self.setname(s, n.target.id, v, cx)
            out.append((s, v))
        return out

    def e_Attribute(self, n, st, cx):
        out = []
        for s, b in self.ev(n.value, st, cx):
            out.extend([(s, b)] if isinstance(b, Exc) else
                       self.getattr(s, b, n.attr, cx, n))
        return out

    def e_Subscript(self, n, st, cx):
        out = []
        for s, b, i in self.ev2(n.value, n.slice, st, cx):
            out.extend([(s, i)] if isinstance(i, Exc) else
                       self.getitem(s, b, i, cx, n))
        return out

    def e_Slice(self, n, st, cx):
        nodes = [x if x is not None else ast.Constant(None)
                 for x in (n.lower, n.upper, n.step)]
        out = []
        for s, vs in self.ev_many(nodes, st, cx):
            if isinstance(vs, Exc):
                out.append((s, vs))
            elif all(isinstance(v, K) for v in vs):
                out.append((s, Tup([Ext('builtins.slice')] + vs)))
            else:
                out.append((s, Tup([Ext('builtins.slice')] + vs)))
        return out

    def e_Tuple(self, n, st, cx):
        return [(s, v if isinstance(v, Exc) else self.mkseq(
            s, 'tuple', v, cx, n)) for s, v in self.elements(n.elts, st, cx)]

    def mkseq(self, s, kind, v, cx, n):
        items, rest, unord = v
        if kind == 'tuple' and rest is None:
            return Tup(items)
        if kind == 'set':
            uniq = []
            for x in items:
                if x not in uniq:
                    uniq.append(x)
            items = uniq
        return s.alloc(self.asite(cx, n), HSeq(
            'list' if kind == 'tuple' else kind, items, rest, unord=unord))

    def elements(self, elts, st, cx):
        """Evaluate display elements; -> (state, (items, rest, unord))."""
        cur = [(st, ((), None, None))]
        for e in elts:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                items, rest, un = acc
                star = isinstance(e, ast.Starred)
                for s1, v in self.ev(e.value if star else e, s, cx):
                    if isinstance(v, Exc):
                        nxt.append((s1, v))
                    elif not star:
                        if rest is not None:
                            nxt.append((s1, (items, rest, un)))
                            self.note('element after unknown star')
                        else:
                            nxt.append((s1, (items + (v,), None, un)))
                    else:
                        for s2, d in self.seq(s1, v, cx, e):
                            if isinstance(d, Exc):
                                nxt.append((s2, d))
                            else:
                                it2, r2, m2, u2 = d
                                nxt.append((s2, (
                                    items + tuple(it2), r2 if rest is None
                                    else rest, un or u2)))
            cur = nxt
        return cur

    def set_order(self, items):
        """The items of a set, in one of the orders they may come."""
        return tuple(reversed(items)) if self.cfg.get(
            'set_order') == 'reversed' else items

    def seq(self, st, v, cx, node):
        """Materialise an iterable: -> [(state, (items, rest, min1, unord))]"""
        o = st.get(v.a) if isinstance(v, Ref) else None
        if isinstance(o, HSeq):
            un = o.unord
            if o.kind in ('set', 'frozenset') and (
                    len(o.items) + (2 if o.rest is not None else 0)) > 1:
                un = un or 'set'
                if o.items:
                    return [(st, (self.set_order(o.items), o.rest, o.min1,
                                  un))]
            if o.kind == 'iter':
                st.put(v.a, o.upd(items=(), rest=None))
            return [(st, (o.items, o.rest, o.min1, un))]
        if isinstance(o, HDict):
            return [(st, (tuple(k for k, _ in o.items),
                          o.rest[0] if o.rest else None, False, o.unord))]
        if isinstance(v, Tup):
            return [(st, (v.items, None, False, None))]
        if isinstance(v, K) and isinstance(v.v, (str, bytes, range)):
            return [(st, (tuple(K(c) for c in v.v), None, False, None))]
        if isinstance(v, Str):
            return [(st, ((), Sym(('ch', v), 'str', labels_of(v)), False,
                          None))]
        if isinstance(v, Sym):
            if v.typ in ('int', 'bool') or self.fact_none(st, v) is True:
                return [(st, self.exc(st, 'TypeError', (), cx, node))]
            return [(st, ((), Sym(('in', v.id),
                                  'str' if v.typ == 'str' else None,
                                  v.labels), False, None))]
        if isinstance(o, HObj):
            lst = o.attrs.get('$list')
            if lst is not None:
                return self.seq(st, lst, cx, node)
            r = self.models.iter_object(self, st, v, o, cx, node)
            if r is not None:
                out = []
                for s, q in r:
                    out.extend([(s, q)] if isinstance(q, Exc) else
                               self.seq(s, q, cx, node))
                return out
        if isinstance(v, K):
            return [(st, self.exc(st, 'TypeError', (K('not iterable'),), cx,
                                  node))]
        if isinstance(v, Ext):
            vals = self.models.iter_ext(self, v)
            if vals is not None:
                return [(st, (vals, None, False, None))]
        self.note('materialise %s' % type(v).__name__)
        return [(st, ((), Sym(('in', repr(v))), False, None))]

    def e_List(self, n, st, cx):
        return [(s, v if isinstance(v, Exc) else self.mkseq(
            s, 'list', v, cx, n)) for s, v in self.elements(n.elts, st, cx)]

    def e_Set(self, n, st, cx):
        return [(s, v if isinstance(v, Exc) else self.mkseq(
            s, 'set', v, cx, n)) for s, v in self.elements(n.elts, st, cx)]

    def e_Dict(self, n, st, cx):
        cur = [(st, HDict())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, d in cur:
                if isinstance(d, Exc):
                    nxt.append((s, d))
                    continue
                if k is None:
                    for s1, m in self.ev(v, s, cx):
                        if isinstance(m, Exc):
                            nxt.append((s1, m))
                        else:
                            nxt.append((s1, self.models.merge_dict(
                                self, s1, d, m)))
                    continue
                for s1, a, b in self.ev2(k, v, s, cx):
                    nxt.append((s1, b if isinstance(b, Exc) else
                                self.models.dict_set(d, a, b)))
            cur = nxt
        return [(s, d if isinstance(d, Exc) else s.alloc(
            self.asite(cx, n), d)) for s, d in cur]

    def comp(self, gens, st, cx, leaf, node):
        """Drive comprehension generators; leaf(state, cx) -> [(st, sig)]."""
        env = st.alloc(self.asite(cx, node, 'env'), HEnv(
            {}, cx.env, frozenset(
                x.id for g in gens for x in ast.walk(g.target)
                if isinstance(x, ast.Name)))).a
        ccx = cx.child(env)

        def go(i, s):
            if i == len(gens):
                return leaf(s, ccx)
            g = gens[i]
            out = []
            for s1, it in self.ev(g.iter, s, ccx if i else cx):
                if isinstance(it, Exc):
                    out.append((s1, it))
                    continue

                def body(s2, elem):
                    res = []
                    for s3, sig in self.assign(g.target, elem, s2, ccx):
                        if sig is not None:
                            res.append((s3, sig))
                            continue
                        cur = [(s3, None)]
                        for c in g.ifs:
                            nxt = []
                            for s4, sg in cur:
                                if sg is not None:
                                    nxt.append((s4, sg))
                                    continue
                                for s5, b in self.cond(c, s4, ccx):
                                    if isinstance(b, Exc):
                                        nxt.append((s5, b))
                                    elif b:
                                        nxt.append((s5, None))
                                    else:
                                        res.append((s5, None))
                            cur = nxt
                        for s4, sg in cur:
                            res.extend([(s4, sg)] if sg is not None
                                       else go(i + 1, s4))
                    return res
                out.extend(self.loop(s1, it, body, cx, g.iter))
            return out
        return go(0, st)

    def comp_seq(self, n, st, cx, kind):
        # the first iterable's order taint and summary carry over
        acc = st.alloc(self.asite(cx, n, 'acc'), HSeq(kind, ()))

        def leaf(s, ccx):
            res = []
            for s1, v in self.ev(n.elt, s, ccx):
                if isinstance(v, Exc):
                    res.append((s1, v))
                    continue
                o = s1.get(acc.a)
                un = o.unord
                if s1.marks and s1.marks != st_marks:
                    un = un or s1.marks[-1][0]
                if kind == 'set' and v in o.items:
                    res.append((s1, None))
                    continue
                s1.put(acc.a, o.upd(items=o.items + (v,), unord=un))
                res.append((s1, None))
            return res
        st_marks = st.marks
        out = []
        for s, sig in self.comp(n.generators, st, cx, leaf, n):
            out.append((s, sig if isinstance(sig, Exc) else acc))
        return out

    def summarise_comp(self, n, st, cx):
        return None

    def e_ListComp(self, n, st, cx):
        return self.comp_seq(n, st, cx, 'list')

    def e_SetComp(self, n, st, cx):
        return self.comp_seq(n, st, cx, 'set')

    def e_GeneratorExp(self, n, st, cx):
        return self.comp_seq(n, st, cx, 'iter')

    def e_DictComp(self, n, st, cx):
        acc = st.alloc(self.asite(cx, n, 'acc'), HDict())
        st_marks = st.marks

        def leaf(s, ccx):
            res = []
            for s1, k, v in self.ev2(n.key, n.value, s, ccx):
                if isinstance(v, Exc):
                    res.append((s1, v))
                    continue
                d = self.models.dict_set(s1.get(acc.a), k, v)
                if s1.marks and s1.marks != st_marks:
                    d = d.upd(unord=s1.marks[-1][0])
                s1.put(acc.a, d)
                res.append((s1, None))
            return res
        return [(s, sig if isinstance(sig, Exc) else acc) for s, sig in
                self.comp(n.generators, st, cx, leaf, n)]

    def e_Lambda(self, n, st, cx):
        info = self.fn_info(n, cx)
        out = []
        for s, vals in self.ev_many(list(n.args.defaults), st, cx):
            out.append((s, vals if isinstance(vals, Exc) else
                        Fn(info, cx.env, vals)))
        return out

    def e_IfExp(self, n, st, cx):
        out = []
        for s, b in self.cond(n.test, st, cx):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, cx))
        return out

    def e_BoolOp(self, n, st, cx):
        is_and = isinstance(n.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(n.values):
            nxt = []
            for s in cur:
                for s1, v in self.ev(x, s, cx):
                    if isinstance(v, Exc) or i == len(n.values) - 1:
                        out.append((s1, v))
                        continue
                    for s2, b in self.truth(s1, v, cx, x):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, v))
            cur = nxt
        return out

    def cond(self, n, st, cx):
        """Evaluate for truth: -> [(state, bool | Exc)]"""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            cur, out = [st], []
            for x in n.values:
                nxt = []
                for s in cur:
                    for s1, b in self.cond(x, s, cx):
                        if isinstance(b, Exc):
                            out.append((s1, b))
                        elif b == is_and:
                            nxt.append(s1)
                        else:
                            out.append((s1, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else not b)
                    for s, b in self.cond(n.operand, st, cx)]
        out = []
        for s, v in self.ev(n, st, cx):
            out.extend([(s, v)] if isinstance(v, Exc) else
                       self.truth(s, v, cx, n))
        return out

    def e_UnaryOp(self, n, st, cx):
        if isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else kbool(not b))
                    for s, b in self.cond(n.operand, st, cx)]
        out = []
        for s, v in self.ev(n.operand, st, cx):
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                x = v.v
                out.append((s, K(-x if isinstance(n.op, ast.USub) else
                                 +x if isinstance(n.op, ast.UAdd) else
                                 ~x)))
            elif isinstance(v, Exc):
                out.append((s, v))
            else:
                out.append((s, Sym(('un', type(n.op).__name__, v), 'int',
                                   labels_of(v))))
        return out

    def e_BinOp(self, n, st, cx):
        out = []
        for s, a, b in self.ev2(n.left, n.right, st, cx):
            out.extend([(s, b)] if isinstance(b, Exc) else
                       self.binop(n.op, a, b, s, cx, n))
        return out

    def binop(self, op, a, b, st, cx, n):
        return self.models.binop(self, op, a, b, st, cx, n)

    def e_Compare(self, n, st, cx):
        out = []
        for s, l in self.ev(n.left, st, cx):
            if isinstance(l, Exc):
                out.append((s, l))
                continue
            cur = [(s, l)]
            for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
                nxt = []
                last = i == len(n.ops) - 1
                for s1, lv in cur:
                    for s2, rv in self.ev(r, s1, cx):
                        if isinstance(rv, Exc):
                            out.append((s2, rv))
                            continue
                        for s3, b in self.compare(op, lv, rv, s2, cx, n):
                            if isinstance(b, Exc):
                                out.append((s3, b))
                            elif last or not b:
                                out.append((s3, kbool(b)))
                            else:
                                nxt.append((s3, rv))
                cur = nxt
        return out

    def compare(self, op, a, b, st, cx, n):
        t = type(op)
        if t is ast.Eq:
            return self.eq(st, a, b, cx, n)
        if t is ast.NotEq:
            return [(s, r if isinstance(r, Exc) else not r)
                    for s, r in self.eq(st, a, b, cx, n)]
        if t is ast.Is:
            return self.is_(st, a, b, cx, n)
        if t is ast.IsNot:
            return [(s, r if isinstance(r, Exc) else not r)
                    for s, r in self.is_(st, a, b, cx, n)]
        if t is ast.In:
            return self.models.contains(self, st, a, b, cx, n)
        if t is ast.NotIn:
            return [(s, r if isinstance(r, Exc) else not r)
                    for s, r in self.models.contains(self, st, a, b, cx, n)]
        return self.models.order(self, t, a, b, st, cx, n)

    def e_JoinedStr(self, n, st, cx):
        cur = [(st, [])]
        for p in n.values:
            nxt = []
            for s, parts in cur:
                if isinstance(parts, Exc):
                    nxt.append((s, parts))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((s, parts + [K(p.value)]))
                    continue
                for s1, v in self.ev(p.value, s, cx):
                    if isinstance(v, Exc):
                        nxt.append((s1, v))
                        continue
                    spec = None
                    if p.format_spec is not None:
                        spec = p.format_spec
                    if p.conversion == 114:
                        nxt.append((s1, parts + [self.models.repr_of(
                            self, s1, v)]))
                    elif spec is not None and spec.values:
                        if isinstance(v, K) and len(spec.values) == 1 and \
                                isinstance(spec.values[0], ast.Constant):
                            try:
                                nxt.append((s1, parts + [K(format(
                                    v.v, spec.values[0].value))]))
                                continue
                            except Exception:
                                pass
                        nxt.append((s1, parts + [Sym(
                            ('fmt', v), 'str', labels_of(v, s1))]))
                    else:
                        for s2, sv in self.models.str_of(
                                self, s1, v, cx, p):
                            nxt.append((s2, sv if isinstance(sv, Exc)
                                        else parts + [sv]))
            cur = nxt
        return [(s, v if isinstance(v, Exc) else concat(v)) for s, v in cur]

    def e_FormattedValue(self, n, st, cx):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st, cx)

    def e_Starred(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_Await(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_Yield(self, n, st, cx):
        if n.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(n.value, st, cx)
        out = []
        for s, v in vals:
            if isinstance(v, Exc):
                out.append((s, v))
            elif cx.hook is not None:
                out.extend(cx.hook(s, v))
            else:
                acc = s.get(cx.env).vars['$yield']
                o = s.get(acc.a)
                un = o.unord
                if s.marks:
                    un = un or s.marks[-1][0]
                s.put(acc.a, o.upd(items=o.items + (v,), unord=un))
                out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, cx):
        out = []
        for s, v in self.ev(n.value, st, cx):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s1, d in self.seq(s, v, cx, n):
                if isinstance(d, Exc):
                    out.append((s1, d))
                    continue
                items, rest, m1, un = d
                acc = s1.get(cx.env).vars.get('$yield')
                if acc is not None:
                    o = s1.get(acc.a)
                    if o.rest is None:
                        o = o.upd(items=o.items + tuple(items), rest=rest,
                                  min1=m1, unord=o.unord or un)
                    s1.put(acc.a, o)
                out.append((s1, NONE))
        return out

    # ----------------------------------------------------------------- truth
    def fact_none(self, st, v):
        """Known 'v is None'?"""
        if isinstance(v, K):
            return v.v is None
        if not isinstance(v, Sym):
            return False
        if v.generic or v.truthy is True:
            return False
        f = st.facts.get(('N', v))
        if f is not None:
            return f
        if st.facts.get(('T', v)) is True:
            return False
        if v.typ is not None and not (
                isinstance(v.id, tuple) and v.id[0] in NULLABLE):
            return False
        return None

    def static_truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Str):
            for p in v.parts:
                if isinstance(p, str) and p:
                    return True
                if isinstance(p, Sym) and p.truthy:
                    return True
            return None
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Sym):
            return v.truthy
        return None

    def fact_truth(self, st, v):
        t = self.static_truth(v)
        if t is not None:
            return t
        if isinstance(v, Sym):
            f = st.facts.get(('T', v))
            if f is not None:
                return f
            if st.facts.get(('N', v)) is True:
                return False
            c = st.facts.get(('C', v))
            if c is not None:
                return bool(c.v)
        return None

    def truth(self, st, v, cx=None, node=None):
        t = self.fact_truth(st, v)
        if t is not None:
            return [(st, t)]
        if isinstance(v, Sym):
            s2 = st.copy()
            st.facts[('T', v)] = True
            s2.facts[('T', v)] = False
            return [(st, True), (s2, False)]
        if isinstance(v, Str):
            cur, out = [st], []
            for p in v.parts:
                if isinstance(p, str):
                    continue
                nxt = []
                for s in cur:
                    for s1, b in self.truth(s, p, cx, node):
                        if b:
                            out.append((s1, True))
                        else:
                            nxt.append(s1)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, HSeq):
                if o.items or (o.rest is not None and o.min1):
                    return [(st, True)]
                if o.kind == 'iter':
                    return [(st, True)]
                if o.rest is None:
                    return [(st, False)]
                s2 = st.copy()
                st.put(v.a, o.upd(min1=True))
                s2.put(v.a, o.upd(rest=None))
                return [(st, True), (s2, False)]
            if isinstance(o, HDict):
                if o.items:
                    return [(st, True)]
                if o.rest is None:
                    return [(st, False)]
                k = ('T', v)
                if k in st.facts:
                    return [(st, st.facts[k])]
                s2 = st.copy()
                st.facts[k] = True
                s2.put(v.a, o.upd(rest=None))
                return [(st, True), (s2, False)]
            if isinstance(o, HObj):
                return self.models.obj_truth(self, st, v, o, cx, node)
            return [(st, True)]
        if isinstance(v, Ext):
            return [(st, self.models.ext_truth(v))]
        return [(st, True)]

    def is_(self, st, a, b, cx=None, node=None):
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if a == b:
                return [(st, True)]
            if isinstance(b, K) and b.v is None:
                f = self.fact_none(st, a)
                if f is not None:
                    return [(st, f)]
                if ('C', a) in st.facts:
                    return [(st, False)]
                s2 = st.copy()
                st.facts[('N', a)] = True
                s2.facts[('N', a)] = False
                return [(st, True), (s2, False)]
            if isinstance(b, K) and isinstance(b.v, bool):
                if a.typ not in (None, 'bool'):
                    return [(st, False)]
                if self.fact_none(st, a) is True:
                    return [(st, False)]
                if a.typ == 'bool':
                    return [(s, t == b.v)
                            for s, t in self.truth(st, a, cx, node)]
                c = st.facts.get(('C', a))
                if c is not None:
                    return [(st, c == b)]
                t = self.fact_truth(st, a)
                if t is not None and t != b.v:
                    return [(st, False)]
                key = ('IS', a, b)
                if key in st.facts:
                    return [(st, st.facts[key])]
                s2 = st.copy()
                st.facts[key] = True
                st.facts[('C', a)] = b
                s2.facts[key] = False
                return [(st, True), (s2, False)]
            if isinstance(b, (Ref, Fn, Bound)):
                return [(st, False)]
            return self.memo(st, ('IS', a, b))
        if isinstance(a, K) and isinstance(b, K):
            return [(st, a == b)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(st, a.a == b.a)]
        if isinstance(a, Ext) and isinstance(b, Ext):
            return [(st, a.path == b.path)]
        return [(st, a == b)]

    def memo(self, st, key):
        f = st.facts.get(key)
        if f is not None:
            return [(st, f)]
        s2 = st.copy()
        st.facts[key] = True
        s2.facts[key] = False
        return [(st, True), (s2, False)]

    def eq(self, st, a, b, cx=None, node=None):
        return self.models.eq(self, st, a, b, cx, node)

    # ------------------------------------------------------------ attributes
    def mro(self, st, ca):
        out, todo = [], [ca]
        while todo:
            a = todo.pop(0)
            if a in out:
                continue
            out.append(a)
            if isinstance(a, Ref):
                o = st.get(a.a)
                if isinstance(o, HClass):
                    todo = list(o.bases) + todo
        return out

    def class_attr(self, st, cls, name, after=None):
        """Look `name` up along the MRO: (value, owner) or None."""
        skip = after is not None
        for c in self.mro(st, cls):
            if skip:
                if c == after:
                    skip = False
                continue
            if isinstance(c, Ref):
                o = st.get(c.a)
                if isinstance(o, HClass) and name in o.attrs:
                    return o.attrs[name], c
        return None

    def ext_bases(self, st, cls):
        return [c for c in self.mro(st, cls) if isinstance(c, Ext)]

    def bind(self, st, v, obj, cls, cx, node):
        if isinstance(v, Fn):
            for d in v.decos:
                if d == 'staticmethod':
                    return [(st, v)]
                if d == 'classmethod':
                    return [(st, Bound(v, cls))]
                if d == 'property' and obj is not None:
                    return self.call(st, Bound(v, obj), [], [], cx, node)
            if obj is not None:
                return [(st, Bound(v, obj))]
            return [(st, v)]
        if isinstance(v, Nat) and obj is not None:
            return [(st, Bound(v, obj))]
        return [(st, v)]

    def getattr(self, st, v, name, cx, node):
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, HObj):
                if self.read_attrs is not None:
                    self.read_attrs.add((v.a, name))
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                if name == '__class__':
                    return [(st, o.cls)]
                if name == '__dict__':
                    d = st.alloc(self.asite(cx, node, 'dict'), HDict(
                        (K(k), x) for k, x in o.attrs.items()))
                    return [(st, d)]
                if isinstance(o.cls, Ref):
                    r = self.class_attr(st, o.cls, name)
                    if r is not None:
                        return self.bind(st, r[0], v, o.cls, cx, node)
                    exts = self.ext_bases(st, o.cls)
                    if exts:
                        m = self.models.ext_instance_attr(
                            self, st, v, o, exts, name, cx, node)
                        if m is not None:
                            return m
                    r = self.class_attr(st, o.cls, '__getattr__')
                    if r is not None:
                        return self.call(st, Bound(r[0], v), [K(name)], [],
                                         cx, node)
                    if name == '__class__':
                        return [(st, o.cls)]
                    return [(st, self.exc(
                        st, 'AttributeError', (K(name),), cx, node))]
                return self.models.ext_obj_attr(
                    self, st, v, o, name, cx, node)
            if isinstance(o, (HSeq, HDict)):
                return [(st, Meth(v, name))]
            if isinstance(o, HMod):
                e = st.get(o.env)
                if name in e.vars:
                    return [(st, e.vars[name])]
                sub = self.import_(o.name + '.' + name) \
                    if self.module_file(o.name + '.' + name) else None
                if sub is not None:
                    return [(st, sub)]
                if '__getattr__' in e.vars:
                    return self.call(st, e.vars['__getattr__'], [K(name)],
                                     [], cx, node)
                return [(st, self.exc(st, 'AttributeError', (K(name),), cx,
                                      node))]
            if isinstance(o, HClass):
                r = self.class_attr(st, v, name)
                if r is not None:
                    return self.bind(st, r[0], None, v, cx, node)
                if name in ('__name__', '__qualname__'):
                    return [(st, K(o.name))]
                if name == '__doc__':
                    return [(st, K(ast.get_docstring(o.node) or ''))]
                if name == '__mro__':
                    return [(st, Tup(self.mro(st, v)))]
                exts = self.ext_bases(st, v)
                if exts:
                    return [(st, Ext(exts[0].path + '.' + name))]
                return [(st, self.exc(st, 'AttributeError', (K(name),), cx,
                                      node))]
            self.note('attribute of %r' % (o,))
            return [(st, Sym(('attr', v, name)))]
        if isinstance(v, SuperV):
            o = st.get(v.obj.a) if isinstance(v.obj, Ref) else None
            cls = o.cls if isinstance(o, HObj) else v.cls
            r = self.class_attr(st, cls, name, after=v.cls)
            if r is not None:
                return self.bind(st, r[0], v.obj, cls, cx, node)
            exts = self.ext_bases(st, v.cls)
            return [(st, Nat(
                'super.' + name,
                lambda I, s, a, k, c, nd: self.models.ext_super(
                    I, s, exts, name, v.obj, a, k, c, nd)))]
        if isinstance(v, Ext):
            return self.models.ext_attr(self, st, v, name, cx, node)
        if isinstance(v, Fn):
            if name in ('__name__', '__qualname__'):
                return [(st, K(v.info.qualname.split('.')[-1]))]
            if name == '__doc__':
                return [(st, K(ast.get_docstring(v.info.node) or ''))]
            return [(st, Meth(v, name))]
        if isinstance(v, Bound):
            if name == '__self__':
                return [(st, v.self_)]
            if name == '__func__':
                return [(st, v.fn)]
            return self.getattr(st, v.fn, name, cx, node)
        if isinstance(v, Sym):
            if self.fact_none(st, v) is True:
                return [(st, self.exc(st, 'AttributeError', (K(name),), cx,
                                      node))]
            r = self.models.sym_attr(self, st, v, name, cx, node)
            if r is not None:
                return r
            if v.typ in ('str', 'bytes', 'list', 'dict', 'int', 'float'):
                return [(st, Meth(v, name))]
            return [(st, Sym(('attr', v.id, name), None, v.labels))]
        if isinstance(v, K) and v.v is None:
            return [(st, self.exc(st, 'AttributeError', (K(name),), cx,
                                  node))]
        if isinstance(v, (K, Str, Tup)):
            if not self.models.has_method(v, name):
                if isinstance(v, K) and name in ('real', 'imag'):
                    return [(st, v)]
                return [(st, self.exc(st, 'AttributeError', (K(name),), cx,
                                      node))]
            return [(st, Meth(v, name))]
        return [(st, Meth(v, name))]

    def mutated(self, st, ref, o, cx, node, what=''):
        """Record a write to an object the current entry point was given or
        that belongs to a module."""
        owner = getattr(o, 'owner', None)
        if owner:
            st.emit('mutate', owner, what, self.site(cx, node))
        elif ref.a not in st.heap and ref.a in st.base and not self.loading:
            st.emit('mutate', 'module:%s' % (ref.a[0],), what,
                    self.site(cx, node))

    def setattr(self, st, b, name, v, cx, node):
        """-> [(state, signal)]"""
        if isinstance(b, Ref):
            o = st.get(b.a)
            if isinstance(o, HObj):
                if isinstance(o.cls, Ref):
                    r = self.class_attr(st, o.cls, name)
                    if r is not None and isinstance(r[0], Fn) and \
                            'property' in r[0].decos:
                        setter = self.class_attr(
                            st, o.cls, name + '$setter')
                        if setter is not None:
                            return [(s, x if isinstance(x, Exc) else None)
                                    for s, x in self.call(
                                        st, Bound(setter[0], b), [v], [],
                                        cx, node)]
                    c = st.get(o.cls.a)
                    if c.slots is not None and name not in c.slots and \
                            not self.slot_free(st, o.cls, name):
                        return [(st, self.exc(st, 'AttributeError',
                                              (K(name),), cx, node))]
                self.mutated(st, b, o, cx, node, name)
                w = self.cfg.get('watch')
                if w and name in w:
                    st.emit('set', name, v, self.site(cx, node))
                st.put(b.a, o.set(name, v))
                return [(st, None)]
            if isinstance(o, HMod):
                st.emit('mutate', 'module:' + o.name, name,
                        self.site(cx, node))
                st.put(o.env, st.get(o.env).set(name, v))
                return [(st, None)]
            if isinstance(o, HClass):
                st.emit('mutate', 'class:' + o.name, name,
                        self.site(cx, node))
                st.put(b.a, o.set(name, v))
                return [(st, None)]
        if isinstance(b, Ext):
            st.emit('ext-setattr', b.path, name, self.site(cx, node))
            return [(st, None)]
        if isinstance(b, Sym):
            st.emit('sym-setattr', b, name, self.site(cx, node))
            return [(st, None)]
        self.note('setattr on %s' % type(b).__name__)
        return [(st, None)]

    def slot_free(self, st, cls, name):
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                o = st.get(c.a)
                if o.slots is None or name in o.slots or \
                        '__dict__' in (o.slots or ()):
                    return True
            elif c.path != 'builtins.object':
                return True
        return False

    def getitem(self, st, b, i, cx, node):
        return self.models.getitem(self, st, b, i, cx, node)

    def setitem(self, st, b, i, v, cx, node):
        return [(s, x if isinstance(x, Exc) else None) for s, x in
                self.models.setitem(self, st, b, i, v, cx, node)]

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, st, cx):
        out = []
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args and cx.fn is not None and cx.fn.class_addr:
            me = st.get(cx.env).vars.get(cx.fn.pos[0])
            return [(st, SuperV(Ref(cx.fn.class_addr), me))]
        for s, f in self.ev(n.func, st, cx):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            for s1, ak in self.args(n, s, cx):
                if isinstance(ak, Exc):
                    out.append((s1, ak))
                else:
                    out.extend(self.call(s1, f, ak[0], ak[1], cx, n))
        if len(out) > 1:
            out = self.dedupe_vals(out)
        return out

    def dedupe_vals(self, outs):
        if len(outs) < 4:
            return outs
        return self.dedupe(outs)

    def args(self, n, st, cx):
        cur = [(st, ([], []))]
        for a in n.args:
            nxt = []
            for s, ak in cur:
                if isinstance(ak, Exc):
                    nxt.append((s, ak))
                    continue
                if isinstance(a, ast.Starred):
                    for s1, v in self.ev(a.value, s, cx):
                        if isinstance(v, Exc):
                            nxt.append((s1, v))
                            continue
                        for s2, d in self.seq(s1, v, cx, a):
                            if isinstance(d, Exc):
                                nxt.append((s2, d))
                                continue
                            items, rest, m1, un = d
                            new = ak[0] + list(items)
                            if rest is not None:
                                new = new + [StarArgs(rest)]
                            nxt.append((s2, (new, ak[1])))
                    continue
                for s1, v in self.ev(a, s, cx):
                    nxt.append((s1, v if isinstance(v, Exc) else
                                (ak[0] + [v], ak[1])))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for s, ak in cur:
                if isinstance(ak, Exc):
                    nxt.append((s, ak))
                    continue
                for s1, v in self.ev(k.value, s, cx):
                    if isinstance(v, Exc):
                        nxt.append((s1, v))
                    elif k.arg is not None:
                        nxt.append((s1, (ak[0], ak[1] + [(k.arg, v)])))
                    else:
                        o = s1.get(v.a) if isinstance(v, Ref) else None
                        if isinstance(o, HDict):
                            kw = [(x.v, y) for x, y in o.items
                                  if isinstance(x, K)]
                            if o.reads is not None:
                                s1.put(v.a, o.upd(reads=o.reads | {
                                    x for x, _ in kw}))
                            if o.rest is not None:
                                kw.append((None, o.rest))
                            nxt.append((s1, (ak[0], ak[1] + kw)))
                        elif isinstance(v, Sym):
                            nxt.append((s1, (ak[0], ak[1] + [(None, (
                                Sym(('key', v.id), 'str', v.labels),
                                Sym(('val', v.id), None, v.labels)))])))
                        else:
                            nxt.append((s1, self.exc(
                                s1, 'TypeError', (), cx, n)))
            cur = nxt
        return cur

    def call(self, st, f, args, kw, cx, node):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exhausted')
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self_] + list(args), kw, cx, node)
        if isinstance(f, Fn):
            return self.call_user(st, f, args, kw, cx, node)
        if isinstance(f, Nat):
            return f.f(self, st, args, kw, cx, node)
        if isinstance(f, Partial):
            names = {k for k, _ in kw}
            return self.call(st, f.fn, list(f.args) + list(args),
                             [x for x in f.kw if x[0] not in names]
                             + list(kw), cx, node)
        if isinstance(f, Ref):
            o = st.get(f.a)
            if isinstance(o, HClass):
                return self.instantiate(st, f, o, args, kw, cx, node)
            if isinstance(o, HObj):
                if isinstance(o.cls, Ref):
                    r = self.class_attr(st, o.cls, '__call__')
                    if r is not None:
                        return self.call(st, Bound(r[0], f), args, kw, cx,
                                         node)
                return self.models.call_object(self, st, f, o, args, kw, cx,
                                               node)
            return [(st, self.exc(st, 'TypeError', (K('not callable'),), cx,
                                  node))]
        if isinstance(f, Ext):
            return self.models.call_ext(self, st, f, args, kw, cx, node)
        if isinstance(f, Meth):
            return self.models.call_meth(self, st, f, args, kw, cx, node)
        if isinstance(f, Sym):
            h = self.cfg.get('callsym')
            st.emit('callsym', f, tuple(args), self.site(cx, node))
            if h is not None:
                r = h(self, st, f, args, kw, cx, node)
                if r is not None:
                    return r
            lab = set(f.labels)
            return [(st, Sym(('ret', f.id, len(st.trace)), None, lab))]
        if isinstance(f, K):
            return [(st, self.exc(st, 'TypeError', (K('not callable'),), cx,
                                  node))]
        self.note('call of %s' % type(f).__name__)
        return [(st, Sym(('ret', repr(f), len(st.trace))))]

    def instantiate(self, st, cref, c, args, kw, cx, node):
        h = self.cfg.get('stubs', {}).get(c.qual)
        if h is not None:
            return h(self, st, cref, args, kw, cx, node)
        if self.models.is_exception_class(self, st, cref):
            obj = st.alloc(self.asite(cx, node, 'obj'),
                           HObj(cref, {'args': Tup(args)}))
        else:
            obj = st.alloc(self.asite(cx, node, 'obj'), HObj(cref, {}))
        dc = c.attrs.get('$dataclass')
        r = self.class_attr(st, cref, '__init__')
        if r is None:
            if dc is not None:
                return self.models.dataclass_init(
                    self, st, obj, cref, c, args, kw, cx, node)
            exts = self.ext_bases(st, cref)
            if exts:
                return [(s, v if isinstance(v, Exc) else obj)
                        for s, v in self.models.ext_super(
                            self, st, exts, '__init__', obj, args, kw, cx,
                            node)]
            if (args or kw) and c.attrs.get('__new__') is None:
                return [(st, self.exc(st, 'TypeError', (), cx, node))]
            return [(st, obj)]
        out = []
        for s, v in self.call(st, Bound(r[0], obj), args, kw, cx, node):
            out.append((s, v if isinstance(v, Exc) else obj))
        return out

    def bind_args(self, st, f, args, kw, cx, node):
        """-> (vars, None) or (None, error message)"""
        info = f.info
        vars_ = {}
        pos = list(info.pos)
        star = None
        args = list(args)
        if args and isinstance(args[-1], StarArgs):
            star = args.pop().elem
        extra = []
        for i, a in enumerate(args):
            if isinstance(a, StarArgs):
                star = a.elem
                continue
            if i < len(pos):
                vars_[pos[i]] = a
            else:
                extra.append(a)
        n = len(args)
        if star is not None:
            # positions not given by keyword are filled from the unknown rest
            names = {k for k, _ in kw}
            j = 0
            for p in pos[n:]:
                if p in names:
                    break
                nd = len(pos) - len(f.defaults)
                if pos.index(p) >= nd and self.cfg.get(
                        'star_stops_at_default', True):
                    break
                vars_[p] = self.inst(star, j)
                j += 1
        if extra and info.vararg is None:
            return None, 'takes %d positional arguments' % len(pos)
        extra_kw, restkw = [], None
        for k, v in kw:
            if k is None:
                restkw = v
                continue
            if k in info.pos[len(info.posonly):] or k in info.kwonly:
                if k in vars_:
                    return None, "multiple values for argument '%s'" % k
                vars_[k] = v
            elif info.kwarg is not None:
                extra_kw.append((K(k), v))
            else:
                return None, "unexpected keyword argument '%s'" % k
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vars_:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[p] = f.defaults[j]
                elif restkw is not None:
                    vars_[p] = Sym(('kwval', p), None, EMPTY)
                else:
                    return None, "missing argument '%s'" % p
        kd = dict(f.kwdefaults)
        for p in info.kwonly:
            if p not in vars_:
                if p in kd:
                    vars_[p] = kd[p]
                else:
                    return None, "missing keyword argument '%s'" % p
        if info.vararg is not None:
            if star is not None:
                vars_[info.vararg] = st.alloc(
                    ('varargs', info.qualname), HSeq('list', extra, star))
            else:
                vars_[info.vararg] = Tup(extra)
        if info.kwarg is not None:
            if restkw is not None and not isinstance(restkw, tuple):
                restkw = None
            vars_[info.kwarg] = st.alloc(
                ('kwargs', info.qualname),
                HDict(extra_kw, restkw, reads=frozenset()))
        return vars_, None

    def call_cached(self, st, f, args, kw, cx, node):
        """functools.cache: calls without effects that give a value that can
        not be modified are just made again."""
        for a in list(args) + [v for _, v in kw]:
            o = st.get(a.a) if isinstance(a, Ref) else None
            if isinstance(o, HDict) or isinstance(o, HSeq) and \
                    o.kind in ('list', 'set'):
                return [(st, self.exc(st, 'TypeError', (K(
                    'unhashable type'),), cx, node))]
        key = ('cached', f, tuple(args), tuple(kw))
        hit = st.ghost.get(key)
        if hit is not None and not (isinstance(hit, Ref)
                                    and st.get(hit.a) is None):
            return [(st, hit)]
        out = []
        g = Fn(f.info, f.env, f.defaults, f.kwdefaults,
               [d for d in f.decos if d != 'cached'])
        n = len(st.trace)
        for s, v in self.call_user(st, g, args, kw, cx, node):
            if not isinstance(v, Exc) and (
                    isinstance(v, Ref) or len(s.trace) > n):
                s.ghost[key] = v
            out.append((s, v))
        return out

    def call_user(self, st, f, args, kw, cx, node):
        info = f.info
        h = self.cfg.get('fnstubs', {}).get(info.module + '.' + info.qualname)
        if h is not None:
            return h(self, st, f, args, kw, cx, node)
        if cx is not None and cx.depth > MAXDEPTH:
            self.note('call depth')
            return [(st, Sym(('deep', info.qualname)))]
        if 'cached' in f.decos:
            return self.call_cached(st, f, args, kw, cx, node)
        if 'contextmanager' in f.decos and '$entered' not in f.decos:
            return [(st, st.alloc(self.asite(cx, node, 'cm'), HObj(
                Ext('$ctxgen'), {'fn': f, 'args': Tup(args),
                                 'kw': Tup([Tup([K(k), v])
                                            for k, v in kw])})))]
        self.functions_seen.add((info.module, info.qualname))
        entry = dict(st.heap)
        vars_, err = self.bind_args(st, f, args, kw, cx, node)
        if err is not None:
            st.emit('bad-call', info.qualname, err, self.site(cx, node))
            return [(st, self.exc(st, 'TypeError', (K(err),), cx, node))]
        env = st.alloc(('env', info.module, info.qualname), HEnv(
            vars_, f.env, info.locals, frozenset(info.globals_),
            frozenset(info.nonlocals)))
        ncx = Cx(info, info.module, info.file, env.a,
                 {**entry, env.a: None}, (cx.depth if cx else 0) + 1,
                 call_site=self.site(cx, node) if cx else None)
        if '$entered' in f.decos:
            ncx.hook, self.pending_hook = self.pending_hook, None
            # the frame outlives the suspended generator
            self.cm_pins = self.cm_pins + (env.a,)
        if info.is_gen:
            acc = st.alloc(('gen', info.qualname), HSeq('iter', ()))
            e = st.get(env.a)
            vd = dict(e.vars)
            vd['$yield'] = acc
            st.put(env.a, HEnv(vd, e.parent, e.locals, e.globals_,
                               e.nonlocals))
        if isinstance(info.node, ast.Lambda):
            res = [(s, v if isinstance(v, Exc) else ('ret', v))
                   for s, v in self.ev(info.node.body, st, ncx)]
        else:
            res = self.block(info.node.body, [st], ncx)
        if '$entered' in f.decos:
            self.cm_pins = self.cm_pins[:-1]
        out = []
        track = self.cfg.get('track_kwargs')
        for s, sig in res:
            if isinstance(sig, Exc):
                v = sig
            elif info.is_gen:
                v = acc
            elif sig is None:
                v = NONE
            elif sig[0] == 'ret':
                v = sig[1]
            else:
                v = NONE
            if info.is_gen and '$entered' in f.decos and \
                    not isinstance(v, Exc):
                v = NONE
            if track and info.kwarg is not None and not isinstance(v, Exc):
                self.unused_kwargs(s, info, vars_[info.kwarg], env, v, cx,
                                   node)
            self.leave(s, env, entry, v)
            out.append((s, v))
        return self.dedupe(out) if len(out) > 1 else out

    def unused_kwargs(self, s, info, ref, env, v, cx, node):
        d = s.get(ref.a)
        if d is None or d.reads is None:
            return
        unused = [k.v for k, _ in d.items if k.v not in d.reads]
        if unused:
            s.emit('kw-unused', info.qualname, tuple(unused),
                   self.site(cx, node))

    def leave(self, s, env, entry, v):
        """Drop what the finished activation allocated and nobody keeps."""
        roots = []
        refs_of_value(v.val if isinstance(v, Exc) else v, roots)
        roots.extend(self.cm_pins)
        s.sweep(entry, roots)


def node_key(n):
    return (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))


def concat(vals):
    """Concatenate abstract strings into a normalised K / Sym / Str."""
    parts = []
    for v in vals:
        if isinstance(v, K):
            if isinstance(v.v, bytes):
                parts.append(v.v.decode('latin-1'))
            else:
                parts.append(v.v if isinstance(v.v, str) else str(v.v))
        elif isinstance(v, Str):
            parts.extend(v.parts)
        elif isinstance(v, Sym):
            parts.append(v)
        else:
            parts.append(Sym(('str', v), 'str', labels_of(v)))
    norm = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if norm and isinstance(norm[-1], str):
                norm[-1] += p
                continue
        norm.append(p)
    if not norm:
        return K('')
    if len(norm) == 1:
        if isinstance(norm[0], str):
            return K(norm[0])
        if norm[0].typ == 'str':
            return norm[0]
    return Str(norm)
