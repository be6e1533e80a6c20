"""C32: md2po2md is md2po followed by po2md.

Rule: md2po2md is interpreted abstractly with every option, schema, number of
files and languages and state of the outputs; the files it leaves must be
those left by the abstract runs, for each file and language, of md2po saving
the catalogue and of po2md saving the translation, with the same options."""
import os

from .programs import *
from .c23 import DOC, STALE, REFS, words, com
from .c25 import NOREF, OTHERS, ONE, TWO
from . import c02, c25
from .c26 import spelled

EXT = ['tables', 'strikethrough', 'wikilinks', 'latex_math_spans',
       'underline', 'tasklists']
MARKUP = words(
    P(span('STRONG', T(0)), t(' '), span('EM', t('beta'))) +
    P(span('DEL', t('gamma')), t(' '), span('CODE', t('delta', 'CODE'))) +
    P(t('a word and another one')) +
    com('alias') + P(t('alfa')) + com('mdpo-enable') +
    FENCED(t('code\n')) + P(t('omega'))) 
DOCS = {REFS: DOC, NOREF: STALE, 'ccc': OTHERS, 'mmm': MARKUP}


def settings():
    """keywords of md2po2md, of md2po, of Md2Po.extract, of po2md, of its
    translate"""
    yield 'default', {}, {}, {}
    for n, v in (('extensions', list(EXT)), ('extensions', ['underline']),
                 ('extensions', []),
                 ('command_aliases', {'alias': 'mdpo-disable'}),
                 ('debug', True)):
        yield '%s=%s' % (n, v), {n: v}, {n: v}, {n: v}
    yield 'no location', {'location': False}, {'location': False}, {}
    yield ('code blocks', {'include_codeblocks': True},
           {'include_codeblocks': True}, {})
    for w in (20, 0, 'inf'):
        yield 'PO width %s' % w, {'po_wrapwidth': w}, {'wrapwidth': w}, {}
        yield 'width %s' % w, {'md_wrapwidth': w}, {}, {'wrapwidth': w}
    for n in ('po', 'md'):
        k = {n + '_encoding': 'latin-1'}
        yield n + ' encoding', k, k, k
    for k in ({'ignore_msgids': ['alfa']}, {'msgstr': 'todo'},
              {'mark_not_found_as_obsolete': False},
              {'preserve_not_found': False}, {'metadata': {'Key': 'value'}},
              {'bold_start_string': '__', 'bold_end_string': '__'},
              {'plaintext': True}, {'xheader': True}):
        yield 'md2po_kwargs=%s' % k, {'md2po_kwargs': k}, k, {}
    for k in ({'bold_start_string': '__', 'bold_end_string': '__'},
              {'code_start_string': '^', 'code_end_string': '^'},
              {'extensions': ['underline']}):
        yield 'po2md_kwargs=%s' % k, {'po2md_kwargs': k}, {}, k
    a, b = {'ignore_msgids': ['beta']}, {'italic_start_string': '_',
                                         'italic_end_string': '_'}
    yield ('all', {'md2po_kwargs': a, 'po2md_kwargs': b, 'po_wrapwidth': 30,
                   'md_wrapwidth': 40, 'extensions': list(EXT),
                   'command_aliases': {'alias': 'mdpo-disable'},
                   'location': False, 'include_codeblocks': True,
                   'po_encoding': 'latin-1', 'md_encoding': 'utf-16'},
           dict(a, extensions=list(EXT), location=False, wrapwidth=30,
                command_aliases={'alias': 'mdpo-disable'},
                include_codeblocks=True, po_encoding='latin-1',
                md_encoding='utf-16'),
           dict(b, extensions=list(EXT), wrapwidth=40,
                command_aliases={'alias': 'mdpo-disable'},
                po_encoding='latin-1', md_encoding='utf-16'))


SOURCES = {'doc.md': 'mmm', 'dir/a.md': REFS, 'dir/b.md': NOREF,
           'dir/c.markdown': 'ccc', 'none': 'mmm'}
# schema -> (catalogue, translation), of a name (base, ext) and language
SCHEMAS = {
    'loc/{lang}': ('loc/{lang}/{base}{ext}.po', 'loc/{lang}/{base}{ext}'),
    'loc/{lang}/': ('loc/{lang}/{base}{ext}.po', 'loc/{lang}/{base}{ext}'),
    'loc/{lang}/{basename}': ('loc/{lang}/{base}.po', 'loc/{lang}/{base}'),
    'loc/{lang}.md': ('loc/{lang}.md.po', 'loc/{lang}.md'),
    '{basename}-{lang}.md': ('{base}-{lang}.md.po', '{base}-{lang}.md'),
}


def outputs_of(schema, path, lang):
    """Where the documentation says that the results go."""
    base, ext = os.path.splitext(os.path.basename(path))
    return tuple(x.format(lang=lang, base=base, ext=ext)
                 for x in SCHEMAS[schema])


def worlds():
    old = {}
    for sch in ('loc/{lang}', 'loc/{lang}.md', '{basename}-{lang}.md',
                'loc/{lang}/{basename}'):
        for p in SOURCES:
            for n, l in enumerate(('es', 'fr')):
                po, md = outputs_of(sch, p, l)
                old.setdefault(po, TWO if n else ONE)
                old.setdefault(md, 'previous')
    yield 'no outputs', {}
    yield 'outputs', old


def cfg(ctx):
    def parse(I, s, ref, args, k, cx, node):
        evs = DOCS.get(args[0].v) if isinstance(args[0], K) else None
        if evs is None:
            I.note('the content parsed is not that of a file')
            return []
        return [(s2, e if isinstance(e, Exc) else NONE)
                for s2, e in Client(I, args, k).run(s, flat(evs))]
    return dict(parse=parse, wrap=c02.no_wrap, encode_fails=False,
                io_faults=False)


def world(more):
    return World(dict(SOURCES, **more), ['dir', 'loc', '.'] + [
        d for d in ('loc/es', 'loc/fr') if more])


def files_left(ctx, s, start=0):
    """path -> (content, encoding) of the files written"""
    res = {}
    for e in s.trace[start:]:
        if e[0] == 'write':
            res[e[1]] = (repr(e[2]), repr(e[3]))
        elif e[0] == 'po-save':
            res[e[2]] = (repr(e[4]), '')
    return tuple(sorted((repr(k), spelled(ctx, v[0]))
                        for k, v in res.items()))


def md2po2md(ctx, langs, path, schema, kw, more):
    res = set()
    for s, v in api(ctx, 'md2po2md', [langs, path, schema], kw, world(more),
                    st=ctx.state(), **cfg(ctx)):
        res.add('raises ' + exc_name(s, v) if isinstance(v, Exc)
                else files_left(ctx, s) + settings_of(s))
    return res


def settings_of(s):
    """Widths, encodings and extensions used."""
    res = set()
    for e in s.trace:
        if e[0] == 'pofile':
            res.add((e[0], repr(e[1]), repr(sorted(map(repr, e[2])))))
        elif e[0] == 'wrap':
            res.add((e[0], repr(e[1])))
        elif e[0] == 'md-parser':
            res.add((e[0], repr(sorted(map(repr, e[2])))))
        elif e[0] == 'open':
            res.add((e[0], repr(e[1]), repr(e[3])))
    return tuple(sorted(res))


def composed(ctx, langs, paths, schema, one, two, more):
    c, w = cfg(ctx), world(more)
    cur, res = [ctx.state()], set()
    for p in paths:
        for l in langs:
            po, md = outputs_of(schema, p, l)
            nxt = []
            for s in cur:
                for s1, v in api(ctx, 'md2po', [p], dict(
                        one, po_filepath=po, save=True), w, st=s, **c):
                    if isinstance(v, Exc):
                        res.add('raises ' + exc_name(s1, v))
                        continue
                    for s2, v in api(ctx, 'po2md', [p, [po]], dict(
                            two, save=md), w, st=s1, **c):
                        if isinstance(v, Exc):
                            res.add('raises ' + exc_name(s2, v))
                            continue
                        nxt.append(s2)
            cur = nxt
    return res | {files_left(ctx, s) + settings_of(s) for s in cur}


def inputs(deep):
    yield 'doc.md', ['doc.md']
    yield 'dir/*.md', ['dir/a.md', 'dir/b.md']
    if deep:
        yield 'none', ['none']
        yield 'dir/*', ['dir/a.md', 'dir/b.md', 'dir/c.markdown']


def check(ctx):
    deep = ctx.tier == 'thorough'
    for wn, more in worlds():
        for g, paths in inputs(deep):
            for langs in (['es'], ['fr', 'es']):
                for sch in SCHEMAS:
                    if sch == 'loc/{lang}.md' and \
                            len(paths) > 1:
                        continue
                    judge(ctx, '%s to %s, %s, %s' % (
                        g, sch, ' '.join(langs), wn), langs, g, paths, sch,
                        {}, {}, {}, more)
            for n, kw, one, two in settings():
                if n != 'default' and (deep or g == 'doc.md'):
                    judge(ctx, '%s, %s, %s' % (g, n, wn), ['es'], g, paths,
                          'loc/{lang}', kw, one, two, more)


def judge(ctx, name, langs, g, paths, sch, kw, one, two, more):
    ctx.begin(name)
    ctx.ok()
    got = md2po2md(ctx, langs, g, sch, kw, more)
    want = composed(ctx, langs, paths, sch, one, two, more)
    if not got or not want:
        ctx.I.note('no outcome')
    if got != want:
        ctx.finding('composition', name, c25.difference(
            {(x,) if isinstance(x, str) else x for x in want},
            {(x,) if isinstance(x, str) else x for x in got}).replace(
                'depending on an order: ', 'separate or joint runs: '))
