"""C04: the command vocabulary and its aliases.

Rule: for md2po, po2md and mdpo2html and for every documented command, the
command under its own name and under aliases resolved with and without the
mdpo- prefix, and with arguments of any text, must drive the tool exactly as
the reference automaton says; comments that are not commands (unknown names,
command names without the mdpo- prefix) must have no effect.  Most-general
client over those comments and the blocks they influence."""
from .extraction import *
from .docitems import *
from .c01 import Spec, cmp_saved
from . import c01, c02, c03
from .c05 import cmp_attach, cmp_lookup, ctx_trans

ARGS = ('Some text', 'menu: File (main), "quoted"!', 'a-b <c> & d. 100%',
        '-*some*- "text-')
CODE_CMDS = ('mdpo-include-codeblock', 'mdpo-include-codeblocks',
             'mdpo-disable-codeblock', 'mdpo-disable-codeblocks')
# command -> commands that make its effect visible
VISIBLE = {
    'mdpo-enable': ['mdpo-disable'],
    'mdpo-enable-next-block': ['mdpo-disable'],
    'mdpo-enable-next-line': ['mdpo-disable'],
    'mdpo-disable-codeblock': ['mdpo-include-codeblocks'],
    'mdpo-disable-codeblocks': ['mdpo-include-codeblocks'],
}
WITH_ARG = ('mdpo-context', 'mdpo-translator', 'mdpo-include')
ALL = DIS + CODE_CMDS + WITH_ARG
HTML_CMDS = DIS + ('mdpo-context',)
PO2MD_CMDS = DIS + ('mdpo-context',)
NOT_COMMANDS = ('mdpo-disabled', 'disable', 'mdpo', 'md-disable',
                'mdpo_disable', 'enable', 'mdpo-enable-next')


def aliases(cmd):
    """Alias table: one resolved with, one without the prefix."""
    return {'other-name': cmd, 'mdpo-custom': cmd[len('mdpo-'):],
            shadow(cmd): cmd, 'unrelated': 'mdpo-translator'}


def shadow(cmd):
    """The name of another command, redefined by the alias table."""
    return 'mdpo-include-codeblock' if cmd == 'mdpo-enable-next-line' \
        else 'mdpo-enable-next-line'


def forms(cmd):
    out = []
    for nm in (cmd, 'other-name', 'mdpo-custom', shadow(cmd)):
        for a in (ARGS if cmd in WITH_ARG else (None,)):
            out.append((nm, a))
    return out


def both(s, exp, obs):
    return cmp_saved(s, exp, obs) or cmp_attach(s, exp, obs)


def short(name, arg):
    return '<!--%s%s-->' % (name, '' if arg is None else ' ' + arg)


def items(cmd, html=False):
    al = []
    todo = [(nm, a, cmd) for nm, a in forms(cmd)] + [
        (v, None, v) for v in VISIBLE.get(cmd, ())]
    todo += [(n, None, None) for n in NOT_COMMANDS]
    for nm, arg, canon in todo:
        act = [('cmd', canon, arg)] if canon else []
        if html:
            al.append((short(nm, arg), [('comment', K(' %s ' % (
                nm if arg is None else nm + ' ' + arg)), {}), c03.NL], act))
        else:
            n, ev, _ = item_cmd(nm, arg)
            al.append((short(nm, arg), ev, act))
    # the compact spelling without blanks around the command
    if not html:
        nm, arg = forms(cmd)[0]
        al.append(('compact ' + short(nm, arg), HTML(short(nm, arg)),
                   [('cmd', cmd, arg)]))
    return al


class HtmlObs:
    pass


def check(ctx):
    for cmd in ALL:
        ctx.begin('md2po ' + cmd)
        st = ctx.state()
        kw = {'include_codeblocks': FALSE, 'location': FALSE,
              'command_aliases': mdict(st, {
                  k: K(v) for k, v in aliases(cmd).items()}, 'al')}
        drive_md2po(ctx, st, kw, items(cmd) + [BLOCKS[0], CODE[0]],
                    Spec(Cmds(code=False), both))
    for cmd in PO2MD_CMDS:
        ctx.begin('po2md ' + cmd)
        st = ctx.state()
        kw = {'command_aliases': mdict(st, {
            k: K(v) for k, v in aliases(cmd).items()}, 'al')}
        drive_po2md(ctx, st, kw, items(cmd) + [BLOCKS[0]])
    for cmd in HTML_CMDS:
        ctx.begin('mdpo2html ' + cmd)
        st = ctx.state()
        kw = {'command_aliases': mdict(st, {
            k: K(v) for k, v in aliases(cmd).items()}, 'al')}
        drive_html(ctx, st, kw, items(cmd, True) + [c03.ITEMS[0]])


def entries():
    ents = [{'msgid': txt(0), 'msgstr': ctx_trans(None, 0)}]
    for a in ARGS:
        ents.append({'msgid': txt(0), 'msgctxt': K(a),
                     'msgstr': ctx_trans(a, 0)})
    return ents


def cmp_both(s, exp, obs):
    for i, on, cx, tc in exp:
        if not on and obs.trans:
            return ('message %s is replaced by its translation although '
                    'translation is disabled for it' % (i,))
        if not on and i not in obs.shown:
            return ('message %s is lost from the output although '
                    'translation is disabled for it' % (i,))
    return cmp_lookup(s, exp, obs)


def hold(ctx, rule, file, client, alphabet, spec, observe, obj, st):
    c = Closure(ctx, client, alphabet, spec, observe(obj), obj.a,
                list(st.heap))
    c.run(st)
    for path, err, s2, used, obs in c.bad:
        ctx.finding(rule, '%s [%s]' % (
            next((p for p in reversed(path) if p.startswith((
                '<!--', 'compact'))), path[-1]),
            err.split(' although')[0].split(' but')[0]),
            err, document=' ; '.join(path),
            functions=['%s:%s' % u for u in used], file=file)
    return []


def drive_md2po(ctx, st, kw, alphabet, spec):
    def parse(I, s, ref, args, k, cx, node):
        return hold(ctx, 'md2po-vocabulary', 'src/mdpo/md2po/__init__.py',
                    Client(I, args, k), alphabet, spec,
                    c01.observe_md2po, s.ghost['root'], s)
    for s, obj in md2po(ctx, st, kw, parse=parse):
        s.ghost['root'] = obj
        extract(ctx, s, obj)


def drive_po2md(ctx, st, kw, alphabet):
    def parse(I, s, ref, args, k, cx, node):
        return hold(ctx, 'po2md-vocabulary', 'src/mdpo/po2md/__init__.py',
                    Client(I, args, k), alphabet,
                    Spec(Cmds(translate=True), cmp_both),
                    c02.observe_po2md, s.ghost['root'], s)
    for s, obj in c02.po2md(ctx, st, kw, entries(), parse=parse):
        s.ghost['root'] = obj
        c02.translate(ctx, s, obj)


def drive_html(ctx, st, kw, alphabet):
    def feed(I, s, obj, args, k, cx, node):
        root = s.ghost['root']
        return hold(ctx, 'mdpo2html-vocabulary',
                    'src/mdpo/mdpo2html/__init__.py',
                    c03.HtmlClient(ctx, root), alphabet,
                    Spec(Cmds(translate=True), cmp_both), c03.observe,
                    root, s)
    for s, obj in c03.html(ctx, st, entries(), feed=feed, kwargs=kw):
        s.ghost['root'] = obj
        for s2, mt in ctx.getattr(s, obj, 'translate'):
            ctx.I.call(s2, mt, [CONTENT], [], DCX, None)
