"""Driving the interpreter: entry points, scenario configuration, findings."""
import os
import time

from .interp import Budget, Cx, Interp
from .values import (
    EMPTY, FALSE, NONE, TRUE, Bound, Exc, Ext, Fn, HClass, HDict, HEnv, HMod,
    HObj, HSeq, K, Meth, Nat, Partial, Ref, State, Str, Sym, Tup, Value,
    kbool, labels_of, refs_of_value,
)

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Anchor(Exception):
    """A public anchor (module, class, function) does not exist."""


DCX = Cx(None, 'driver', 'driver', None, {}, 0)


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier='quick', root=None):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.root = root or SRC
        self.findings = {}      # key -> dict
        self.obligations = 0
        self.sites = {}         # kind -> set
        self.scenarios = []
        self.rules = []
        self.notes = {}
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if self.thorough else 300)
        self._I = None

    # ------------------------------------------------------------- interpreter
    @property
    def I(self):
        if self._I is None:
            self._I = Interp(self.root)
        return self._I

    def mod(self, name):
        r = self.I.load(name)
        if r is None:
            raise Anchor('module %s' % name)
        return r

    def attr(self, mod, name):
        self.mod(mod)
        env = self.I.base[('modenv', mod)]
        v = env.vars.get(name)
        if v is None:
            raise Anchor('%s.%s' % (mod, name))
        return v

    def state(self):
        return self.I.state()

    def call(self, st, f, args=(), kw=(), **cfg):
        if cfg:
            self.I.cfg = dict(cfg)
        return self.I.call(st, f, list(args), list(kw), DCX, None)

    def getattr(self, st, v, name):
        return self.I.getattr(st, v, name, DCX, None)

    def budget(self, steps):
        """Abandon the current scenario after that many more steps."""
        self.I.max_steps = self.I.steps + steps

    # ---------------------------------------------------------------- findings
    def finding(self, rule, construct, what, **detail):
        """rule+construct identify the finding (no line numbers in either)."""
        key = '%s|%s' % (rule, construct)
        f = self.findings.setdefault(key, {
            'rule': rule, 'construct': construct, 'what': what,
            'detail': detail, 'count': 0, 'imprecise': True})
        f['count'] += 1
        if not self.imprecise():
            f['imprecise'] = False

    def imprecise(self):
        """Did the interpreter lose precision in the current scenario?"""
        return bool(self._I is not None and self._I.undecided)

    def begin(self, name=None):
        """A new scenario: earlier losses of precision do not affect it."""
        if self._I is not None:
            for k, v in self._I.undecided.items():
                self.notes[k] = self.notes.get(k, 0) + v
            self._I.undecided.clear()
        if name:
            self.scenarios.append(name)

    def ok(self, n=1):
        self.obligations += n

    def note_site(self, kind, site):
        self.sites.setdefault(kind, set()).add(site)

    def scenario(self, name):
        self.scenarios.append(name)


def sitestr(s):
    if s is None:
        return '?'
    return '%s:%s:%s' % s


def construct_of(site):
    """Line-number-free name of a site."""
    if site is None:
        return '?'
    return '%s:%s' % (site[0], site[1])


def exc_name(st, e):
    """Class name of a raised exception."""
    v = e.val
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            if isinstance(o.cls, Ext):
                return o.cls.path.rpartition('.')[2]
            c = st.get(o.cls.a)
            return getattr(c, 'name', '?')
    if isinstance(v, Ext):
        return v.path.rpartition('.')[2]
    return repr(v)


def exc_msg(st, e):
    v = e.val
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, HObj):
            a = o.attrs.get('args')
            if isinstance(a, Tup) and a.items:
                return a.items[0]
    return None


def mdict(st, d, tag):
    return st.alloc(('drv', tag), HDict([(K(k), v) for k, v in d.items()]))


def mlist(st, items, tag, kind='list', **kw):
    return st.alloc(('drv', tag), HSeq(kind, items, **kw))


def mentions(key, labs, depth=0):
    """Does a fact key mention a Sym carrying one of the label kinds?"""
    if isinstance(key, Sym):
        return any(l[0] in labs if isinstance(l, tuple) else l in labs
                   for l in key.labels) or mentions(key.id, labs, depth + 1)
    if isinstance(key, Str):
        return any(mentions(p, labs, depth + 1) for p in key.parts)
    if isinstance(key, (tuple, frozenset)):
        return any(mentions(x, labs, depth + 1) for x in key)
    if isinstance(key, Value):
        return any(mentions(x, labs, depth + 1) for x in key.k)
    return False


def kinds(labels):
    """Label kinds: ('msg', 3) -> 'msg'."""
    return {l[0] if isinstance(l, tuple) else l for l in labels}
