"""Abstract values, heap objects and states of the abstract interpreter.

Domain: flat constants, named unknowns (``Sym``) carrying provenance labels,
string templates, tuples, references into an abstract heap, and callables.
Everything here is immutable; a heap write replaces the object at an address.
"""

EMPTY = frozenset()


class Value:
    __slots__ = ('k', 'h')

    def __init__(self, *k):
        self.k = k
        self.h = hash((type(self).__name__, k))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.h == o.h
                             and self.k == o.k)

    def __ne__(self, o):
        return not self.__eq__(o)


class K(Value):
    """A constant (typed equality: K(1) != K(True))."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        Value.__init__(self, type(v).__name__, v)

    def __repr__(self):
        return repr(self.v)


class Sym(Value):
    """A named unknown.

    id      structural name: equal ids denote the same runtime value
    typ     'str' 'int' 'bool' 'list' 'dict' 'bytes' 'float' 'callable' or None
    labels  provenance (which inputs it was computed from)
    generic str that equals no constant and no other value (an arbitrary
            "ordinary" text; used when a rule wants the ordinary case)
    """
    __slots__ = ('id', 'typ', 'labels', 'generic', 'truthy')

    def __init__(self, id, typ=None, labels=EMPTY, generic=False,
                 truthy=None):
        self.id, self.typ, self.labels = id, typ, frozenset(labels)
        self.generic = generic
        self.truthy = True if generic else truthy
        Value.__init__(self, id)

    def __repr__(self):
        return '<%s>' % short_id(self.id)


def short_id(i, depth=0):
    if isinstance(i, tuple):
        if depth > 3:
            return '..'
        return '.'.join(short_id(x, depth + 1) for x in i)
    return str(i) if not isinstance(i, Value) else repr(i)


class Str(Value):
    """Concatenation template: parts are str and Sym."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)
        Value.__init__(self, self.parts)

    def __repr__(self):
        return 'f"' + ''.join(
            p if isinstance(p, str) else '{%r}' % p for p in self.parts) + '"'


class Tup(Value):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)
        Value.__init__(self, self.items)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Ref(Value):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a
        Value.__init__(self, a)

    def __repr__(self):
        return '&%s' % short_id(self.a)


class Fn(Value):
    """User function closure."""
    __slots__ = ('info', 'env', 'defaults', 'kwdefaults', 'decos')

    def __init__(self, info, env, defaults=(), kwdefaults=(), decos=()):
        self.info, self.env = info, env
        self.defaults, self.kwdefaults = tuple(defaults), tuple(kwdefaults)
        self.decos = tuple(decos)
        Value.__init__(self, id(info), env, self.defaults, self.kwdefaults,
                       self.decos)

    def __repr__(self):
        return '<fn %s>' % self.info.qualname


class Bound(Value):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_
        Value.__init__(self, fn, self_)

    def __repr__(self):
        return '<bound %r %r>' % (self.self_, self.fn)


class Meth(Value):
    """Method `name` of a builtin/external/unknown value `obj`."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        Value.__init__(self, obj, name)

    def __repr__(self):
        return '<meth %r.%s>' % (self.obj, self.name)


class Ext(Value):
    """External (non-repository) module, class, function or constant."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path
        Value.__init__(self, path)

    def __repr__(self):
        return '<%s>' % self.path


class Nat(Value):
    """Callable implemented by the analyser: f(interp, st, args, kw, cx, node)
    -> list of (state, value)."""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f
        Value.__init__(self, name)

    def __repr__(self):
        return '<nat %s>' % self.name


class Partial(Value):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(kw)
        Value.__init__(self, fn, self.args, self.kw)


class Exc:
    """Result of an evaluation that raises."""
    __slots__ = ('val', 'site', 'cause')

    def __init__(self, val, site=None, cause=None):
        self.val, self.site, self.cause = val, site, cause

    def __repr__(self):
        return 'Exc(%r @%s)' % (self.val, self.site)

    def __eq__(self, o):
        return isinstance(o, Exc) and self.val == o.val and \
            self.site == o.site

    def __hash__(self):
        return hash((self.val, self.site))


NONE, TRUE, FALSE = K(None), K(True), K(False)


def kbool(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- heap objects
class HObj:
    """Instance (of a user class Ref or an Ext class)."""
    __slots__ = ('cls', 'attrs', 'owner', '_refs')
    kind = 'obj'

    def __init__(self, cls, attrs, owner=None):
        self.cls, self.attrs, self.owner = cls, attrs, owner

    def set(self, name, v):
        d = dict(self.attrs)
        d[name] = v
        return HObj(self.cls, d, self.owner)

    def delete(self, name):
        d = dict(self.attrs)
        d.pop(name, None)
        return HObj(self.cls, d, self.owner)

    def __eq__(self, o):
        return self is o or (type(o) is HObj and self.cls == o.cls
                             and self.attrs == o.attrs)

    def vals(self):
        yield self.cls
        yield from self.attrs.values()


class HSeq:
    """list / set / frozenset / deque / iterator.

    items   known leading elements
    rest    None, or a Sym standing for any number (>=0) of further elements
    min1    with rest: at least one further element exists
    unord   iteration order is not determined by the inputs
    """
    __slots__ = ('kind', 'items', 'rest', 'min1', 'unord', 'owner',
                 '_refs')

    def __init__(self, kind, items=(), rest=None, min1=False, unord=None,
                 owner=None):
        self.kind, self.items, self.rest = kind, tuple(items), rest
        self.min1, self.unord, self.owner = min1, unord, owner

    def upd(self, **kw):
        d = dict(kind=self.kind, items=self.items, rest=self.rest,
                 min1=self.min1, unord=self.unord, owner=self.owner)
        d.update(kw)
        return HSeq(**d)

    def __eq__(self, o):
        return self is o or (
            type(o) is HSeq and self.kind == o.kind and self.items == o.items
            and self.rest == o.rest and self.min1 == o.min1
            and self.unord == o.unord)

    def vals(self):
        yield from self.items
        if self.rest is not None:
            yield self.rest


class HDict:
    """dict; items is an ordered tuple of (key, value)."""
    __slots__ = ('items', 'rest', 'owner', 'reads', 'unord', 'default',
                 '_refs')
    kind = 'dict'

    def __init__(self, items=(), rest=None, owner=None, reads=None,
                 unord=None, default=None):
        self.items, self.rest, self.owner = tuple(items), rest, owner
        self.reads = reads      # keys looked up (tracked for **kwargs)
        self.unord = unord
        self.default = default  # defaultdict factory

    def upd(self, **kw):
        d = dict(items=self.items, rest=self.rest, owner=self.owner,
                 reads=self.reads, unord=self.unord, default=self.default)
        d.update(kw)
        return HDict(**d)

    def __eq__(self, o):
        return self is o or (
            type(o) is HDict and self.items == o.items and self.rest == o.rest
            and self.reads == o.reads and self.unord == o.unord)

    def vals(self):
        for k, v in self.items:
            yield k
            yield v
        if self.rest is not None:
            yield from self.rest


class HEnv:
    __slots__ = ('vars', 'parent', 'locals', 'globals_', 'nonlocals',
                 '_refs')
    kind = 'env'

    def __init__(self, vars, parent, locals_=None, globals_=EMPTY,
                 nonlocals=EMPTY):
        self.vars, self.parent, self.locals = vars, parent, locals_
        self.globals_, self.nonlocals = globals_, nonlocals

    def set(self, n, v):
        d = dict(self.vars)
        d[n] = v
        return HEnv(d, self.parent, self.locals, self.globals_,
                    self.nonlocals)

    def delete(self, n):
        d = dict(self.vars)
        d.pop(n, None)
        return HEnv(d, self.parent, self.locals, self.globals_,
                    self.nonlocals)

    def __eq__(self, o):
        return self is o or (type(o) is HEnv and self.parent == o.parent
                             and self.vars == o.vars)

    def vals(self):
        yield from self.vars.values()
        if self.parent is not None:
            yield Ref(self.parent)


class HClass:
    __slots__ = ('name', 'qual', 'bases', 'attrs', 'slots', 'node', '_refs')
    kind = 'class'

    def __init__(self, name, qual, bases, attrs, slots=None, node=None):
        self.name, self.qual, self.bases = name, qual, bases
        self.attrs, self.slots, self.node = attrs, slots, node

    def set(self, n, v):
        d = dict(self.attrs)
        d[n] = v
        return HClass(self.name, self.qual, self.bases, d, self.slots,
                      self.node)

    def __eq__(self, o):
        return self is o or (type(o) is HClass and self.qual == o.qual
                             and self.attrs == o.attrs)

    def vals(self):
        yield from self.attrs.values()
        yield from self.bases


class HMod:
    __slots__ = ('name', 'env', 'file', '_refs')
    kind = 'module'

    def __init__(self, name, env, file):
        self.name, self.env, self.file = name, env, file

    def __eq__(self, o):
        return type(o) is HMod and self.name == o.name

    def vals(self):
        yield Ref(self.env)


def refs_of_value(v, out):
    if isinstance(v, Ref):
        out.append(v.a)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_of_value(x, out)
    elif isinstance(v, Bound):
        refs_of_value(v.fn, out)
        refs_of_value(v.self_, out)
    elif isinstance(v, Meth):
        refs_of_value(v.obj, out)
    elif isinstance(v, Fn):
        if v.env is not None:
            out.append(v.env)
        for x in v.defaults:
            refs_of_value(x, out)
        for _, x in v.kwdefaults:
            refs_of_value(x, out)
    elif isinstance(v, Partial):
        refs_of_value(v.fn, out)
        for x in v.args:
            refs_of_value(x, out)
        for _, x in v.kw:
            refs_of_value(x, out)
    elif isinstance(v, Exc):
        refs_of_value(v.val, out)


class State:
    __slots__ = ('heap', 'base', 'facts', 'trace', 'marks', 'ghost')

    def __init__(self, base):
        self.base = base        # shared, read-only heap (loaded modules)
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.marks = ()         # enclosing unordered loops
        self.ghost = {}         # rule-private specification state

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.marks = self.marks
        s.ghost = dict(self.ghost)
        return s

    def get(self, a):
        o = self.heap.get(a)
        if o is None:
            o = self.base.get(a)
        return o

    def put(self, a, o):
        self.heap[a] = o

    def alloc(self, site, o):
        k = 0
        h, b = self.heap, self.base
        while (site, k) in h or (site, k) in b:
            k += 1
        a = (site, k)
        h[a] = o
        return Ref(a)

    def emit(self, *ev):
        self.trace = self.trace + (ev,)

    def same(self, o):
        return (self.trace == o.trace and self.marks == o.marks
                and self.facts == o.facts and self.heap == o.heap
                and self.ghost == o.ghost)

    def reach(self, roots):
        seen, todo, heap = set(), list(roots), self.heap
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            o = heap.get(a)
            if o is None:
                continue
            seen.add(a)
            todo.extend(obj_refs(o))
        return seen

    def sweep(self, entry, extra=()):
        """Drop what was allocated since the snapshot `entry` and is no longer
        referenced (only changed older objects can refer to newer ones)."""
        heap = self.heap
        base = self.base
        new = [a for a in heap if a not in entry and a not in base]
        if not new:
            return
        todo = list(extra)
        for m in self.ghost.values():
            if isinstance(m, Value):
                refs_of_value(m, todo)
        for a, o in heap.items():
            if a in base if a not in entry else entry[a] is not o:
                todo.extend(obj_refs(o))
        live = set()
        while todo:
            a = todo.pop()
            if a in live or a in entry or a in base:
                continue
            o = heap.get(a)
            if o is None:
                continue
            live.add(a)
            todo.extend(obj_refs(o))
        if len(live) < len(new):
            for a in new:
                if a not in live:
                    del heap[a]


def obj_refs(o):
    """Addresses an object refers to (objects are immutable: cached)."""
    try:
        return o._refs
    except AttributeError:
        r = []
        for v in o.vals():
            refs_of_value(v, r)
        o._refs = r = tuple(r)
        return r


def labels_of(v, st=None, depth=0):
    """Provenance labels of a value (through the heap when st is given)."""
    if isinstance(v, Sym):
        return v.labels
    if isinstance(v, Str):
        r = set()
        for p in v.parts:
            if isinstance(p, Sym):
                r |= p.labels
        return frozenset(r)
    if isinstance(v, Tup):
        r = set()
        for p in v.items:
            r |= labels_of(p, st, depth + 1)
        return frozenset(r)
    if isinstance(v, Ref) and st is not None and depth < 6:
        o = st.get(v.a)
        r = set()
        if o is not None and o.kind not in ('env', 'module', 'class'):
            for x in o.vals():
                r |= labels_of(x, st, depth + 1)
        return frozenset(r)
    if isinstance(v, (Bound,)):
        return labels_of(v.self_, st, depth + 1)
    if isinstance(v, Meth):
        return labels_of(v.obj, st, depth + 1)
    return EMPTY
