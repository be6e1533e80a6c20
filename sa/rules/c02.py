"""C02: po2md honours the disable / enable commands.

Rule: as for C01, over the po2md parser callbacks, with a catalogue that
translates every text; text reaching the output must be the translation
exactly for the messages the reference automaton says are enabled."""
from .extraction import *
from .docitems import *
from .c01 import Spec
from .structures import structures
from ..m_polib import new_entry, new_pofile


def trans(i):
    return Sym(('tr', i), 'str', {('tr', i)}, generic=True)


def catalogue(entries):
    """cfg 'pofile' handler: a catalogue with those entries."""
    def f(I, st, src, kd, cx, node):
        refs = []
        for n, e in enumerate(entries):
            refs.append(new_entry(st, ('cat', n), dict(e)))
        r = new_pofile(st, ('cat',), refs, None, src, K('utf-8'))
        return [(st, r)]
    return f


def one_file(I, st, p, cx, node):
    return [(st, st.alloc(I.asite(cx, node), HSeq('list', (p,))))]


def po2md(ctx, st, kwargs, entries, **cfg):
    cls = ctx.attr('mdpo.po2md', 'Po2Md')
    cfg.setdefault('glob', one_file)
    cfg.setdefault('pofile', catalogue(entries))
    cfg.setdefault('wrap', no_wrap)
    cfg.setdefault('fs', lambda I, st, n, p: False)
    outs = ctx.call(st, cls, [K('cat.po')], list(kwargs.items()), **cfg)
    return [(s, v) for s, v in outs if not isinstance(v, Exc)]


def no_wrap(I, st, args, kw, cx, node):
    return [(st, args[0])]


def translate(ctx, st, obj, **kw):
    out = []
    for s, m in ctx.getattr(st, obj, 'translate'):
        if not isinstance(m, Exc):
            out += ctx.I.call(s, m, [CONTENT], list(kw.items()), DCX, None)
    return out


def output_labels(st, obj):
    """Labels of everything written to the output so far."""
    labs = []
    o = st.get(obj.a)
    for n in ('outputlines', 'output', 'current_line'):
        v = o.attrs.get(n)
        if v is None:
            continue
        q = st.get(v.a) if isinstance(v, Ref) else None
        for x in (q.items if isinstance(q, HSeq) else [v]):
            labs.append(labels_of(x, st))
    return labs


class Obs:
    pass


def observe_po2md(obj):
    def f(before, after, exc, item):
        o = Obs()
        o.exc = exc and exc_name(after, exc)
        ls = set()
        for l in output_labels(after, obj):
            ls |= {x for x in l if isinstance(x, tuple)}
        o.shown = {x[1] for x in ls if x[0] == 'msg'}
        o.trans = {x[1] for x in ls if x[0] == 'tr'}
        o.disabled = [ident(entry(after, r).get('msgid', K('')))
                      for r in attr_items(after, obj, 'disabled_entries')]
        o.translated = [ident(entry(after, r).get('msgid', K('')))
                        for r in attr_items(after, obj,
                                            'translated_entries')]
        return o
    return f


def cmp_translated(s, exp, obs):
    for i, on, _, _ in exp:
        if on and i not in obs.trans:
            return ('message %s is not replaced by its translation although '
                    'translation is enabled for it' % (i,))
        if on and i in obs.shown:
            return ('message %s is written untranslated as well although '
                    'translation is enabled for it' % (i,))
        if not on and i in obs.trans:
            return ('message %s is replaced by its translation although '
                    'translation is disabled for it' % (i,))
        if not on and i not in obs.shown:
            return ('message %s is lost from the output although '
                    'translation is disabled for it' % (i,))
    dis = [i for i, on, _, _ in exp if not on]
    got = [i for i in obs.disabled if i != ('k', '')]
    if dis != got:
        return ('messages skipped by a command are %s but %s are recorded as '
                'disabled' % (dis, got))
    return None


def drive(ctx, rule, kwargs, alphabet, spec, entries, observe=observe_po2md,
          **cfg):
    hold = {}

    def parse(I, st, ref, args, kw, cx, node):
        cl = Client(I, args, kw)
        obj = st.ghost['root']
        c = Closure(ctx, cl, alphabet, spec, observe(obj), obj.a,
                    list(st.heap))
        hold['c'] = c
        c.run(st)
        return []
    for s, obj in po2md(ctx, ctx.state(), kwargs, entries, parse=parse,
                        **cfg):
        s.ghost['root'] = obj
        translate(ctx, s, obj)
    c = hold.get('c')
    if c is None:
        ctx.I.note('parser never invoked')
        return None
    from .c01 import report
    report(ctx, rule, c, 'src/mdpo/po2md/__init__.py')
    return c


def entries_for(n=6):
    return [{'msgid': txt(i), 'msgstr': trans(i)} for i in range(n)] \
        + [{'msgid': Str([txt(0), ' ', txt(1)]), 'msgstr': trans(0)}]


def check(ctx):
    al = [item_cmd(n) for n in DIS] + BLOCKS + CODE + \
        IN_CONTAINER + MULTI
    drive(ctx, 'translation-commands', {}, al,
          Spec(Cmds(translate=True), cmp_translated), entries_for())
    ctx.begin()
    some = [item_cmd(n) for n in (DIS if ctx.thorough else DIS[:3])
            if n != 'mdpo-enable' or ctx.thorough]
    drive(ctx, 'translation-commands', {}, some + BLOCKS[:1] + structures(
        ctx.thorough), Spec(Cmds(translate=True), cmp_translated),
        entries_for(16))
