"""C13: a run that fails leaves the files it would have overwritten intact.

Rule: every program is interpreted abstractly with every fault of the modelled
environment: a content that can not be encoded, and a failure anywhere in the
parsing. On every path a file is opened for writing only when what will be
written is known to be encodable (it has been encoded in the same encoding
before, or the file is opened in binary mode and the bytes exist), and no path
raises an exception between opening a file for writing and writing its
content; writing a temporary file that is then renamed is accepted too."""
from .programs import *


def final_name(st, p):
    """Path that ends up holding what is written to p."""
    for e in st.trace:
        if e[0] == 'rename' and e[1] == p:
            return e[2]
    return p


def is_text(mode):
    return not (isinstance(mode, K) and 'b' in mode.v)


def judge(ctx, r, s, v, fault):
    tr = s.trace
    for i, e in enumerate(tr):
        if e[0] != 'open' or not writes(e[2]):
            continue
        p, enc, site = e[1], e[3], e[4]
        if final_name(s, p) != p:
            continue
        ctx.note_site('open for writing', sitestr(site))
        where = '%s %s [%s]' % (r.kind, r.tool, construct_of(site))
        w = [(j, x) for j, x in enumerate(tr) if j > i and
             x[0] == 'write' and x[1] == p]
        if not w:
            if isinstance(v, Exc):
                ctx.finding('truncated', where, '%r is opened for writing '
                            'and then %s is raised (%s)' % (
                                p, exc_name(s, v), r.name),
                            site=sitestr(site))
            continue
        j, x = w[0]
        if is_text(e[2]):
            if not any(y[0] == 'encode' and y[1] == x[2] and same_enc(
                    y[2], enc) for y in tr[:i]):
                ctx.finding('truncated', where, '%r is opened for writing '
                            'before knowing that the content can be encoded '
                            '(%s)' % (p, r.name), site=sitestr(site))
        elif any(y[0] == 'encode' for y in tr[i:j]):
            ctx.finding('truncated', where, 'the content of %r is encoded '
                        'after opening the file (%s)' % (p, r.name),
                        site=sitestr(site))


def same_enc(a, b):
    return a == b


def failing(evs):
    def parse(I, st, ref, args, kw, cx, node):
        s2 = st.copy()
        return doc_parse(*evs)(I, st, ref, args, kw, cx, node) + [
            (s2, I.exc(s2, 'RuntimeError', (), cx, node))]
    return parse


def check(ctx):
    for r in runs(deep=ctx.tier == 'thorough',
                  keep=lambda o: o.get('save') or o.get('mo_filepath')
                  or 'langs' in o):
        for s, v in r.go(ctx, encode_fails=True, parse=failing(PLAIN)):
            ctx.ok()
            judge(ctx, r, s, v, None)
