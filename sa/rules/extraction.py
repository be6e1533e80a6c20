"""Drivers and observations shared by the rules about Md2Po / Po2Md."""
from ..harness import *
from ..mdevents import *
from ..explore import Closure, abstract, freeze

CONTENT = Sym(('content',), 'str', {'content'})


def no_glob(I, st, p, cx, node):
    """Content input: the argument matches no file."""
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', ())))]


def md2po(ctx, st, kwargs, files=None, **cfg):
    """Construct Md2Po; -> [(state, Ref)]"""
    cls = ctx.attr('mdpo.md2po', 'Md2Po')
    if files is None:
        cfg.setdefault('glob', no_glob)
        a = CONTENT
    else:
        a = files
    outs = ctx.call(st, cls, [a], list(kwargs.items()), **cfg)
    return [(s, v) for s, v in outs if not isinstance(v, Exc)]


def extract(ctx, st, obj, kwargs=()):
    out = []
    for s, m in ctx.getattr(st, obj, 'extract'):
        if isinstance(m, Exc):
            continue
        out += ctx.I.call(s, m, [], list(dict(kwargs).items()), DCX, None)
    return out


def po_items(st, obj):
    """Entries of the catalogue under construction."""
    o = st.get(obj.a)
    po = o.attrs.get('pofile')
    if not isinstance(po, Ref):
        return ()
    p = st.get(po.a)
    if not isinstance(p, HObj) or '$list' not in p.attrs:
        return ()
    return st.get(p.attrs['$list'].a).items


def attr_items(st, obj, name):
    v = st.get(obj.a).attrs.get(name)
    o = st.get(v.a) if isinstance(v, Ref) else None
    return o.items if isinstance(o, HSeq) else ()


def entry(st, ref):
    o = st.get(ref.a) if isinstance(ref, Ref) else None
    return o.attrs if isinstance(o, HObj) else {}


def msg_labels(v, st=None):
    return {l for l in labels_of(v, st) if isinstance(l, tuple)
            and l[0] == 'msg'}


def cmd(name, arg=None):
    return '<!-- %s -->' % (name if arg is None else '%s %s' % (name, arg))
