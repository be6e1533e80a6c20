"""C30: the header of the catalogues keeps its fields but for those given.

Rule: md2po and md2po2md are interpreted abstractly on catalogues with and
without a header, in every mode and with every way of giving metadata; the
fields of every catalogue saved, compiled or returned must be those it had,
then updated with those given."""
from ..m_polib import snapshot
from .programs import *
from . import c02

HEAD = [('Project-Id-Version', 'the project'), ('Language', 'es'),
        ('X-Custom', 'kept')]
GIVEN = [('nothing', {}), ('new field', {'Key': 'value'}),
         ('field it has', {'Language': 'fr'}),
         ('both', {'Content-Type': 'text/plain; charset=utf-8',
                   'Language': 'fr', 'X-Custom': 'other'})]
GENERATOR = 'X-Generator'


class Headed(World):
    head = ()

    def pofile(self, I, st, src, kd, cx, node):
        outs = super().pofile(I, st, src, kd, cx, node)
        for s, r in outs:
            if isinstance(r, Ref) and isinstance(src, K) and \
                    src.v in self.head and not written(s, src):
                o = s.get(r.a)
                m = o.attrs['metadata']
                s.put(m.a, s.get(m.a).upd(items=tuple(
                    (K(k), K(v)) for k, v in self.head[src.v])))
        return outs


def world(head, new=()):
    f = files()
    f.update(new)
    w = Headed(f, DIRS + ('loc', 'loc/es', 'loc/fr'))
    w.head = head
    return w


MODES = [{}, {'plaintext': True}, {'merge_pofiles': True},
         {'mark_not_found_as_obsolete': False}, {'preserve_not_found': False},
         {'msgstr': 'todo'}, {'location': False}, {'wrapwidth': 'inf'},
         {'po_encoding': 'latin-1'}, {'ignore_msgids': ['known']},
         {'extensions': []}]


def expected(had, given, xheader):
    r = dict(had)
    r.update(given)
    if xheader:
        r[GENERATOR] = None
    return r


def fields(m):
    """of the frozen dictionary"""
    xs = m.items[1:]
    return [(xs[i], xs[i + 1]) for i in range(0, len(xs), 2)]


def wrong(ctx, I, m, want):
    try:
        got = fields(m)
    except AttributeError:
        I.note('unknown metadata')
        return None
    seen = {}
    for k, v in got:
        if not isinstance(k, K):
            I.note('unknown field')
            return None
        if k.v in seen:
            return 'repeats %s' % k.v
        seen[k.v] = v
    for k in want:
        if k not in seen:
            return 'lacks the field %s' % k
        if k == GENERATOR and want[k] is None:
            if not generator(seen[k]):
                return 'has another generator, %r' % (seen[k],)
        elif seen[k] != K(want[k]):
            return 'has another %s, %r' % (k, seen[k])
    for k in seen:
        if k not in want:
            return 'has a field %s' % k
    return None


def generator(v):
    return isinstance(v, Str) and len(v.parts) == 2 and \
        'mdpo' in str(getattr(v.parts[0], 'v', v.parts[0])) and \
        isinstance(v.parts[1], Sym) and v.parts[1].id == ('version',)


def catalogues(I, s, v):
    """(what, metadata, path or None) of every one that comes out"""
    for e in s.trace:
        if e[0] == 'po-save':
            yield 'saved', e[4][0] if isinstance(e[4], tuple) else None, e[2]
        elif e[0] == 'write' and isinstance(e[2], Sym) and \
                e[2].id[0] in ('postr', 'mostr'):
            sn = I.snapshots.get(e[2].id[1])
            yield ('written' if e[2].id[0] == 'postr' else 'compiled',
                   sn and sn[0], e[1])
        elif e[0] == 'out' and isinstance(e[2], (Sym, Str)):
            for p in e[2].parts if isinstance(e[2], Str) else (e[2],):
                if isinstance(p, Sym) and p.id[0] == 'postr':
                    sn = I.snapshots.get(p.id[1])
                    yield 'printed', sn and sn[0], None
    if isinstance(v, Ref) and isinstance(s.get(v.a), HObj) and \
            'metadata' in s.get(v.a).attrs:
        yield 'returned', snapshot(s, v)[0], None


def cases(deep):
    """name, tool, how, args, keywords, world, path -> fields expected"""
    n = 0
    heads = [('no header', {}), ('header', {'cat.po': HEAD})]
    for h, head in heads:
        for g, given in GIVEN:
            for x in (False, True):
                for mode in MODES:
                    for src, po in itertools.product(
                            (['doc.md'], 'Some text'),
                            (None, 'cat.po', 'new.po')):
                        if h == 'header' and po != 'cat.po':
                            continue
                        n += 1
                        if not deep and mode and n % 3:
                            continue
                        kw = dict(mode)
                        if given:
                            kw['metadata'] = given
                        if x:
                            kw['xheader'] = True
                        if po:
                            kw['po_filepath'] = po
                            kw['save'] = True
                            if n % 2:
                                kw['mo_filepath'] = 'new.mo'
                        want = expected(head.get(po, ()), given, x)
                        yield ('md2po %s, %s %s' % (h, src, shown(kw)),
                               'md2po', 'api', [src], kw, world(head),
                               lambda p, want=want: want)
                        if mode in ({}, {'plaintext': True}) and \
                                isinstance(src, list):
                            ws = list(src)
                            for k, v in given.items():
                                ws += ['-d', '%s: %s' % (k, v)]
                            if x:
                                ws.append('-a')
                            if mode:
                                ws.append('--plaintext')
                            if po:
                                ws += ['-s', '--po-filepath', po]
                            yield ('md2po %s, %s' % (h, ' '.join(ws)),
                                   'md2po', 'cli', ws, {}, world(head),
                                   lambda p, want=want: want)
    heads = [('no header', {}), ('headers', {
        'loc/es/doc.md.po': HEAD, 'loc/fr/doc.md.po': HEAD[1:]})]
    for h, head in heads:
        new = {p: PO for p in head}
        for g, given in GIVEN:
            for x in (False, True):
                k = {}
                if given:
                    k['metadata'] = given
                if x:
                    k['xheader'] = True
                kw = {'md2po_kwargs': k} if k else {}
                yield ('md2po2md %s, %s' % (h, shown(kw)), 'md2po2md', 'api',
                       [['es', 'fr'], 'doc.md', 'loc/{lang}'], kw,
                       world(head, new),
                       lambda p, head=head, given=given, x=x: expected(
                           head.get(p, ()), given, x))


def documents(deep):
    for n, c in enumerate(cases(deep)):
        yield (PLAIN,) + c
        if deep or not n % 4:
            yield ([], c[0] + ', no messages') + c[1:]


def check(ctx):
    I = ctx.I
    for doc, name, tool, how, args, kw, w, want in documents(
            ctx.tier == 'thorough'):
        ctx.begin(name)
        c = dict(parse=doc_parse(*doc), encode_fails=False,
                 io_faults=False, wrap=c02.no_wrap)
        outs = cli(ctx, tool, args, w, st=ctx.state(), **c) if how == 'cli' \
            else api(ctx, tool, args, kw, w, st=ctx.state(), **c)
        n = 0
        for s, v in outs:
            if isinstance(v, Exc) and exc_name(s, v) != 'SystemExit':
                if exc_name(s, v) not in ('PackageNotFoundError',
                                          'UnicodeEncodeError'):
                    ctx.finding('raises', name, 'raises %s' % exc_name(s, v))
                continue
            for what, m, p in catalogues(I, s, v):
                n += 1
                if m is None:
                    I.note('catalogue not known')
                    continue
                bad = wrong(ctx, I, m, want(p.v if isinstance(p, K) else p))
                if bad:
                    ctx.finding('header', name,
                                'the catalogue %s %s' % (what, bad))
                else:
                    ctx.ok()
        if not n:
            ctx.finding('lost', name, 'no catalogue comes out')
