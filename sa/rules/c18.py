"""C18: the checks of obsolete, fuzzy and empty entries give their exit code.

Rule: each command line program is interpreted abstractly for every subset of
the checks, with catalogues holding each combination of kinds of entries in
each of the files used; the exit code must be the one of the last requested
check that some entry fails (obsolete 3, fuzzy 4, empty 5), 0 if there is
none, and STDERR must then name each file that has such an entry."""
from .programs import *
from . import c02

DOC = [P(t('known'))]
PAGE = [c03.tag('p', ('data', K('known'), {}))]
KINDS = {
    'translated': {'msgid': K('known'), 'msgstr': K('conocido')},
    'long': {'msgid': K('known'), 'msgstr': K('muy largo'), 'multi': 1},
    'obsolete': {'msgid': K('old'), 'msgstr': K('viejo'), 'obsolete': TRUE},
    'fuzzy': {'msgid': K('known'), 'msgstr': K('duda'), 'fuzzy': True},
    'empty': {'msgid': K('known'), 'msgstr': K('')},
    'context': {'msgid': K('known'), 'msgstr': K(''), 'msgctxt': K('c')},
}
CODES = (('no_obsolete', 3), ('no_fuzzy', 4), ('no_empty_msgstr', 5))
WORDS = {3: 'obsolete', 4: 'fuzzy', 5: 'empty'}


def fails(code, e):
    def is_(n):
        v = e.get(n)
        return v == TRUE or v is True
    if code == 3:
        return is_('obsolete')
    if code == 4:
        fl = e.get('flags')
        return bool(e.get('fuzzy')) or isinstance(fl, Tup) and \
            K('fuzzy') in fl.items
    return e.get('msgstr') in (None, K(''))


def final_entries(I, w, s, p):
    v = w.last(s, K(p))
    if isinstance(v, Sym) and v.id[0] == 'postr':
        return [dict(e) for e in I.snapshots[v.id[1]][2]]
    return w.files.get(p) or []


def worlds(deep):
    names = list(KINDS)
    one = [(n,) for n in names] + [(), ('translated', 'obsolete'),
                                   ('obsolete', 'fuzzy'), ('empty', 'obsolete'),
                                   ('obsolete', 'fuzzy', 'context')]
    if deep:
        one = [c for n in range(4) for c in itertools.combinations(names, n)
               if not {'translated', 'long', 'fuzzy', 'empty'} <= set(c)
               and sum(x in c for x in ('translated', 'long', 'fuzzy',
                                        'empty')) <= 1]
    return one


def scenarios(deep):
    for c in worlds(deep):
        es = [KINDS[n] for n in c]
        other = [KINDS['translated']]
        nm = '+'.join(c) or 'no'
        f = files(**{'cat.po': es})
        yield 'md2po', dict(files_or_content=['doc.md'],
                            po_filepath='cat.po'), f, ['cat.po'], nm
        yield 'md2po', dict(files_or_content=['doc.md'], save=True,
                            po_filepath='cat.po'), f, ['cat.po'], nm
        yield 'md2po', dict(files_or_content=['doc.md'], save=True,
                            remove=1, po_filepath='new.po'), f, [
            'new.po'], nm
        yield 'md2po', dict(files_or_content=['doc.md']), f, [], nm
        g = files(**{'cat.po': other, 'cat2.po': es})
        for tool, d in (('po2md', 'doc.md'), ('mdpo2html', 'page.html')):
            yield tool, dict(filepath_or_content=[d],
                             pofiles=[['cat.po']]), f, ['cat.po'], nm
            for p in ([['cat*.po']], [['cat.po', 'cat2.po']],
                      [['cat.po'], ['cat2.po']]):
                yield tool, dict(filepath_or_content=[d], pofiles=p), g, [
                    'cat.po', 'cat2.po'], nm
            yield tool, dict(filepath_or_content=[d], pofiles=[['cat*.po']],
                             ignore=['cat2.po']), g, ['cat.po'], nm
        h = files(**{'es.po': other, 'fr.po': es})
        h['loc/es/doc.md.po'] = other
        h['loc/fr/doc.md.po'] = es
        yield 'md2po2md', dict(
            input_paths_glob=['doc.md'], langs=[['es', 'fr']],
            output_paths_schema='loc/{lang}'), h, [
            'loc/es/doc.md.po', 'loc/fr/doc.md.po'], nm
        yield 'md2po2md', dict(
            input_paths_glob=['doc.md'], langs=[['fr'], ['es']],
            output_paths_schema='loc/{lang}'), h, [
            'loc/fr/doc.md.po', 'loc/es/doc.md.po'], nm
        if c:
            for x, y in (('a', 'b'), ('b', 'a')):
                h = files(**{'loc/es/%s.md.po' % x: other,
                             'loc/es/%s.md.po' % y: es})
                yield 'md2po2md', dict(
                    input_paths_glob=['dir/*.md'], langs=[['es']],
                    output_paths_schema='loc/{lang}'), h, [
                    'loc/es/a.md.po', 'loc/es/b.md.po'], nm


def check(ctx):
    deep = ctx.tier == 'thorough'
    for tool, opts, f, pos, nm in scenarios(deep):
        opts = dict(opts)
        opts.pop('remove', None)
        for n in range(4):
            for sub in itertools.combinations(CODES, n):
                o = dict(opts, **{k: True for k, _ in sub})
                name = '%s %s with %s entries' % (tool, shown(o), nm)
                ctx.begin(name)
                w = World(f, DIRS + ('loc/es', 'loc/fr'))
                for s, v in main(ctx, tool, o, w, parse=doc_parse(*DOC),
                                 feed=html_feed(ctx, *PAGE),
                                 wrap=c02.no_wrap):
                    ctx.ok()
                    judge(ctx, tool, w, s, v, sub, pos, name)


def judge(ctx, tool, w, s, v, sub, pos, name):
    how, x = exit_of(s, v)
    want, bad = 0, []
    for _, code in sub:
        fs = [p for p in pos if any(fails(code, e) for e in final_entries(
            ctx.I, w, s, p))]
        if fs:
            want = code
            bad += [(code, p) for p in fs]
    if how != 'return':
        ctx.finding('exit-code', '%s fails' % tool, '%s is raised (%s)' % (
            x, name))
        return
    got = v.items[-1] if isinstance(v, Tup) else v
    if got != K(want):
        ctx.finding('exit-code', '%s [%d instead of %d]' % (
            tool, got.v if isinstance(got, K) and isinstance(got.v, int)
            else -1, want), 'the exit code is %s instead of %d (%s)' % (
            got, want, name))
        return
    err = [repr(e[2]) for e in s.trace if e[0] == 'out' and e[1] == 'stderr']
    for code, p in bad:
        if not any(p + ':' in e for e in err):
            ctx.finding('exit-code', '%s [message for %s entries]' % (
                tool, WORDS[code]), 'STDERR does not say that %s has %s '
                'entries (%s)' % (p, WORDS[code], name))
    for e in s.trace:
        if e[0] == 'out' and e[1] == 'stderr' and not bad:
            ctx.finding('exit-code', '%s [unexpected message]' % tool,
                        '%s is written to STDERR (%s)' % (e[2], name),
                        site=sitestr(e[3]))
