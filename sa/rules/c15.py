"""C15: every text file is read and written in the encoding chosen for it.

Rule: every program is interpreted abstractly, with each combination of the
encoding options given and not given; every call that opens a text file must
do it with the encoding of that kind of file (Markdown and HTML files: the
option, UTF-8 by default; PO files: the option or the encoding declared by the
file), never with the default of the platform, and every catalogue must be
loaded with the encoding option given."""
from .programs import *

GIVEN = {'md': K('md-enc'), 'po': K('po-enc'), 'html': K('html-enc')}


def family(p):
    n = p.v if isinstance(p, K) and isinstance(p.v, str) else None
    while n is None and isinstance(p, Sym) and len(p.id) > 1 and \
            isinstance(p.id[1], (K, Sym)):
        p = p.id[1]
        n = p.v if isinstance(p, K) else None
    if n is None:
        return None
    for x in ('md', 'po', 'html', 'txt'):
        if n.endswith('.' + x):
            return x
    return None if '.' in n else 'md'


def options_of(tool):
    return {'md2po': ('md', 'po'), 'po2md': ('md', 'po'),
            'md2po2md': ('md', 'po'), 'mdpo2html': ('html', 'po')}[tool]


def judge(ctx, r, s, v, given):
    for e in s.trace:
        if e[0] == 'open':
            if isinstance(e[2], K) and 'b' in e[2].v:
                continue
            f = family(e[1])
            what = 'writes' if writes(e[2]) else 'reads'
            site, enc = e[4], e[3]
            if f in ('po', 'txt'):
                good = enc == GIVEN['po'] if 'po' in given else (
                    is_utf8(enc) if f == 'txt' else is_detected(enc, e[1], s))
            elif f in ('md', 'html'):
                good = enc == GIVEN[f] if f in given else is_utf8(enc)
            else:
                continue
            if not good:
                ctx.finding('encoding', '%s %s %s a %s file [%s]' % (
                    r.kind, r.tool, what, f, construct_of(site)),
                    '%s %r in the encoding %s (%s)' % (
                        what, e[1], 'of the platform' if enc == NONE
                        else enc, r.name), site=sitestr(site))
            ctx.note_site('open', sitestr(site))
        elif e[0] == 'pofile':
            kd = dict(e[2])
            if 'po' in given and kd.get('encoding') != GIVEN['po']:
                ctx.finding('encoding', '%s %s loads a catalogue [%s]' % (
                    r.kind, r.tool, construct_of(e[3])),
                    'the catalogue %r is not loaded in the encoding given '
                    '(%s)' % (e[1], r.name), site=sitestr(e[3]))
            enc = kd.get('encoding', NONE)
            if 'po' not in given and family(e[1]) == 'po' and \
                    enc not in (NONE, K('')) and not is_detected(
                        enc, e[1], s):
                ctx.finding('encoding', '%s %s loads a catalogue [%s]' % (
                    r.kind, r.tool, construct_of(e[3])),
                    'the catalogue %r is loaded in the encoding %s instead '
                    'of the one that the file declares (%s)' % (
                        e[1], enc, r.name), site=sitestr(e[3]))


def is_utf8(enc):
    return isinstance(enc, K) and isinstance(enc.v, str) and \
        enc.v.lower().replace('_', '-') in ('utf-8', 'utf8')


def is_detected(enc, p, s):
    return isinstance(enc, Sym) and 'detected' in kinds(enc.labels)


def light(o):
    return 'mo_filepath' not in o and 'quiet' not in o


def check(ctx):
    deep = ctx.tier == 'thorough'
    for r in runs(deep=deep, keep=None if deep else light):
        o0 = r.opts
        opts = options_of(r.tool)
        for n in range(len(opts) + 1):
            for given in itertools.combinations(opts, n):
                add = {g + '_encoding': GIVEN[g] for g in given}
                if r.kind == 'cli':
                    r.opts = dict(o0, **add)
                    if r.tool == 'md2po':
                        r.opts['ignore_msgids'] = 'ignored.txt'
                        r.world.files['ignored.txt'] = None
                else:
                    r.opts = (o0[0], dict(o0[1], **add))
                for s, v in r.go(ctx):
                    ctx.ok()
                    judge(ctx, r, s, v, given)
        r.opts = o0
