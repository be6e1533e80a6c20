"""Most-general client: closure of the abstract states a parser object can be
in at document-item boundaries, with a specification automaton in product.

From every reachable boundary state every item of the alphabet is analysed
once; boundary states are abstracted (output already produced is summarised,
counters are widened) so that the closure is finite.  A document is any
sequence of items, of any length.
"""
import time

from .interp import Budget
from .values import (
    Bound, Exc, Ext, Fn, HClass, HDict, HEnv, HObj, HSeq, K, Meth, NONE, Nat,
    Partial, Ref, Str, Sym, Tup, Value, labels_of,
)
from .harness import kinds, mentions

DOC = {'msg', 'link', 'old', 'tr'}      # label kinds that come from the document


def is_text(v):
    return isinstance(v, (Sym, Str)) and bool(kinds(labels_of(v)) & DOC)


def widen_text(v, name):
    truthy = True if (isinstance(v, Str) or isinstance(v, Sym)
                      and v.truthy) else None
    return Sym(('old', name), 'str', {('old', name)}, generic=bool(truthy))


def is_entry(st, v):
    if not isinstance(v, Ref):
        return False
    o = st.get(v.a)
    return isinstance(o, HObj) and o.cls == Ext('polib.POEntry')


def abstract(st, roots, keep_addr, counters=0):
    """Boundary abstraction, in place."""
    for a in list(st.reach(roots)):
        o = st.get(a)
        if isinstance(o, HSeq):
            it = o.items
            if any(is_entry(st, x) for x in it):
                it = tuple(x for x in it if not is_entry(st, x))
            if any(is_text(x) or isinstance(x, Tup) and
                   any(is_text(y) for y in x.items) for x in it) or \
                    len(it) > 3:
                it = tuple(widen_text(x, 'el') if is_text(x) else x
                           for x in it)
                if len(it) > 3 and all(
                        isinstance(x, (Sym, Str)) or isinstance(x, K)
                        and isinstance(x.v, str) for x in it):
                    it = (widen_text(Str(['x']), 'el'),) + it[-2:]
                elif len(it) > 3:
                    it = it[-3:]
            if it != o.items:
                st.put(a, o.upd(items=it))
        elif isinstance(o, HDict):
            its = tuple((k, widen_text(v, 'dv') if is_text(v) and not
                         is_text(k) else v)
                        for k, v in o.items)
            if its != o.items:
                st.put(a, o.upd(items=its))
        elif isinstance(o, HObj):
            new = None
            for n, v in o.attrs.items():
                w = v
                if is_text(v):
                    w = widen_text(v, n)
                elif isinstance(v, K) and type(v.v) is int and \
                        abs(v.v) > counters:
                    w = Sym(('count', n), 'int')
                elif isinstance(v, Sym) and v.typ == 'int' and \
                        v.id[0] not in ('opt', 'param', 'count'):
                    w = Sym(('count', n), 'int')
                elif isinstance(v, K) and isinstance(v.v, str) and \
                        len(v.v) > 60:
                    w = Sym(('old', n), 'str', {('old', n)}, generic=True)
                if w is not v:
                    new = dict(new or o.attrs)
                    new[n] = w
            if new is not None:
                st.put(a, HObj(o.cls, new, o.owner))
    st.facts = {k: v for k, v in st.facts.items()
                if not mentions(k, DOC | {'count'})}
    live = st.reach(set(keep_addr) | set(roots))
    for m in st.ghost.values():
        pass
    st.heap = {a: o for a, o in st.heap.items() if a in live}


def freeze(st, root, read=None):
    """Structure reachable from root, independent of addresses; attributes of
    root outside `read` are ignored."""
    num = {}

    def val(v):
        if isinstance(v, Ref):
            return ('r', addr(v.a))
        if isinstance(v, Tup):
            return ('t',) + tuple(val(x) for x in v.items)
        if isinstance(v, (Bound, Fn, Partial, Meth)):
            return ('f', type(v).__name__, v if not isinstance(
                v, (Bound, Meth)) else repr(v))
        return v

    def addr(a):
        if a in num:
            return num[a]
        o = st.heap.get(a)
        if o is None:
            return ('base', a)
        num[a] = n = len(num)
        if isinstance(o, HSeq):
            d = ('seq', o.kind, tuple(val(x) for x in o.items),
                 o.rest and val(o.rest), o.min1, o.unord)
        elif isinstance(o, HDict):
            d = ('dict', tuple((val(k), val(v)) for k, v in o.items),
                 o.rest and tuple(val(x) for x in o.rest))
        elif isinstance(o, HObj):
            d = ('obj', val(o.cls), tuple(
                (k, val(o.attrs[k])) for k in sorted(o.attrs)
                if read is None or a != root or (a, k) in read
                or (a, '__dict__') in read))
        elif isinstance(o, HEnv):
            d = ('env',)
        else:
            d = ('o', id(o))
        out.append((n, d))
        return n
    out = []
    addr(root)
    return tuple(sorted(out, key=lambda x: x[0])), frozenset(
        st.facts.items())


class Closure:
    """spec: object with
         init() -> hashable
         step(spec_state, item, obs) -> (new spec_state, None | message)
       observe(st_before, st_after, exc, item) -> obs"""

    def __init__(self, ctx, client, alphabet, spec, observe, root, keep,
                 limit=4000):
        self.ctx, self.client = ctx, client
        self.alphabet, self.spec, self.observe = alphabet, spec, observe
        self.root, self.keep = root, keep
        self.limit = limit
        self.transitions = 0
        self.states = {}
        self.bad = []
        self.wide = set()      # attributes of the root widened to any text
        self.forms = {}
        self.max_forms = 4
        self.badkeys = set()

    def widen(self, st):
        """Attributes of the root object holding text (or a list of texts)
        that takes many forms: any text.  True when the set grew."""
        o = st.get(self.root)
        new, grew = None, False
        for n, v in o.attrs.items():
            if isinstance(v, (Str, Sym)) or isinstance(v, K) and \
                    isinstance(v.v, str):
                if isinstance(v, Sym) and v.typ != 'str':
                    continue
                f = v
            elif isinstance(v, Ref) and isinstance(st.get(v.a), HSeq) and \
                    st.get(v.a).kind == 'list':
                q = st.get(v.a)
                if not all(isinstance(x, (Str, Sym)) or isinstance(x, K) and
                           isinstance(x.v, str) for x in q.items):
                    continue
                f = (q.items, q.rest)
            else:
                continue
            if n not in self.wide:
                s = self.forms.setdefault(n, set())
                s.add(f)
                if len(s) > self.max_forms:
                    self.wide.add(n)
                    grew = True
            if n in self.wide:
                w = Sym(('old', n), 'str', {('old', n)})
                if isinstance(v, Ref):
                    q = st.get(v.a)
                    st.put(v.a, q.upd(items=(), rest=w, min1=False))
                else:
                    new = dict(new or o.attrs)
                    new[n] = w
        if new is not None:
            st.put(self.root, HObj(o.cls, new, o.owner))
        return grew

    def run(self, st0):
        """Explore; returns the boundary states [(state, spec, path)].

        Attributes of the parser object that no analysed transition reads are
        dead and do not distinguish states; when a later transition reads one
        after all, the exploration starts over."""
        I = self.client.I
        outer, I.read_attrs = I.read_attrs, set()
        try:
            while True:
                self.read = set(I.read_attrs)
                self.states, self.bad, self.transitions = {}, [], 0
                self.badkeys = set()
                self.restart = False
                if self.explore(I, st0) and not self.restart:
                    return list(self.states.values())
        finally:
            if outer is not None:
                outer |= I.read_attrs
            I.read_attrs = outer

    def key(self, s, sp):
        return (freeze(s, self.root, self.read), sp)

    def explore(self, I, st0):
        s = st0.copy()
        s.trace = ()
        abstract(s, [self.root], self.keep)
        todo = [(s, self.spec.init(), ())]
        self.states[self.key(s, todo[0][1])] = todo[0]
        while todo:
            nxt = []
            for s, sp, path in todo:
                for item in self.alphabet:
                    nxt += self.step(I, s, sp, path, item)
                    if self.restart:
                        return False
                    if len(self.states) > self.limit:
                        I.cut('boundary states')
                        return True
                    if len(self.badkeys) > 40:
                        return True
                    if time.time() > self.ctx.deadline:
                        I.cut('time')
                        return True
                if not I.read_attrs <= self.read:
                    # only the attributes of the parser object matter
                    if {x for x in I.read_attrs if x[0] == self.root} - \
                            self.read:
                        return False
                    self.read |= I.read_attrs
            todo = nxt
        return True

    def step(self, I, s, sp, path, item):
        out = []
        self.transitions += 1
        p2 = path + (item[0],)
        b = s.copy()
        b.trace = ()
        seen = I.functions_seen
        I.functions_seen = set()
        try:
            res = self.client.run(b, item[1])
        except Budget as e:
            I.cut(str(e))
            res = []
        used = I.functions_seen
        I.functions_seen = seen | used
        for s2, e in res:
            obs = self.observe(s, s2, e, item)
            sp2, err = self.spec.step(sp, item, obs)
            self.ctx.ok()
            if err is not None:
                if (item[0], err) not in self.badkeys:
                    self.badkeys.add((item[0], err))
                    self.bad.append((p2, err, s2, sorted(used), obs))
                continue
            if e is not None or sp2 is None:
                continue
            s2.trace = ()
            if self.widen(s2):
                self.restart = True
            abstract(s2, [self.root], self.keep)
            key = self.key(s2, sp2)
            if key not in self.states:
                self.states[key] = (s2, sp2, p2)
                out.append((s2, sp2, p2))
        return out
