"""C17: every option of the command lines does what it says.

Rule: the four programs are interpreted abstractly with command lines (words,
parsed with the options the source declares) that give each documented option
in each of its spellings, and the API functions with the corresponding
argument. The effects of a command line must be those of the API call with
the same settings, those of a command line without options must be those of
the API defaults, and in a world where an option matters its effects must
differ from those of the default."""
from .programs import *
from ..m_polib import snapshot

ALIAS = '<!-- alias -->'
DOC = [P(span('STRONG', t('strong'))), FENCED(t('code')), HTML(ALIAS),
       P(t('after'))]
STALE = [{'msgid': K('**strong**'), 'msgstr': K('fuerte')},
         {'msgid': K('stale'), 'msgstr': K('rancio')},
         {'msgid': K('after'), 'msgstr': K('tras')}]
HTML_DOC = [c03.comment('alias')[1], c03.tag('p', ('data', K('after'), {}))]


class Opt:
    """spellings: the words; kw: the API arguments; base: more words and
    arguments that both runs have."""

    def __init__(self, name, spellings, kw=None, base=(), basekw=None,
                 same=False, expect=None):
        self.name, self.spellings, self.kw = name, spellings, kw
        self.base, self.basekw = list(base), basekw or {}
        self.same, self.expect = same, expect


def both(flags, v):
    out = []
    for f in flags:
        out.append([f, v])
        out.append([f + '=' + v] if f.startswith('--') else [f + v])
    return out


def flag(*flags):
    return [[f] for f in flags]


EXT = dict(extensions=['strikethrough'])
IN = {'md2po': (['doc.md'], ['doc.md'], {}),
      'po2md': (['doc.md', '-p', 'cat.po'], ['doc.md', ['cat.po']], {}),
      'mdpo2html': (['page.html', '-p', 'cat.po'], ['page.html', ['cat.po']],
                    {}),
      'md2po2md': (['doc.md', '-l', 'es', '-o', 'loc/{lang}'],
                   [['es'], 'doc.md', 'loc/{lang}'], {})}


def common(tool):
    yield Opt('command alias', both(['--command-alias'], 'alias:disable'),
              dict(command_aliases={'alias': 'mdpo-disable'}))
    yield Opt('command aliases', [['--command-alias', 'alias:mdpo-disable',
                                   '--command-alias', 'b:enable']],
              dict(command_aliases={'alias': 'mdpo-disable',
                                    'b': 'mdpo-enable'}))
    yield Opt('PO encoding', both(['--po-encoding'], 'latin-1'),
              dict(po_encoding='latin-1'))
    if tool == 'mdpo2html':
        yield Opt('HTML encoding', both(['--html-encoding'], 'latin-1'),
                  dict(html_encoding='latin-1'))
    else:
        yield Opt('Markdown encoding', both(['--md-encoding'], 'latin-1'),
                  dict(md_encoding='latin-1'))
        yield Opt('debug', flag('-D', '--debug'), dict(debug=True))
    if tool != 'md2po':
        pass


def options_of(tool):
    yield from common(tool)
    po = ['-p', 'cat.po', '-s']
    pokw = dict(po_filepath='cat.po', save=True)
    if tool == 'md2po':
        yield Opt('ignore', both(['-i', '--ignore'], 'dir/a.md'),
                  dict(ignore=['dir/a.md']), ['dir/b.md', 'dir/a.md'],
                  dict(files_or_content=['doc.md', 'dir/b.md', 'dir/a.md']))
        yield Opt('ignore twice', [['-i', 'dir/a.md', '-i', 'dir/b.md']],
                  dict(ignore=['dir/a.md', 'dir/b.md']),
                  ['dir/b.md', 'dir/a.md'],
                  dict(files_or_content=['doc.md', 'dir/b.md', 'dir/a.md']))
        yield Opt('PO file', both(['-p', '--po-filepath', '--pofilepath'],
                                  'cat.po'), dict(po_filepath='cat.po'))
        yield Opt('save', flag('-s', '--save'), dict(save=True),
                  ['-p', 'cat.po'], dict(po_filepath='cat.po'))
        yield Opt('MO file', both(['--mo-filepath', '--mofilepath'],
                                  'new.mo'), dict(mo_filepath='new.mo'))
        yield Opt('plaintext', flag('--plaintext'), dict(plaintext=True))
        yield Opt('wrap width', both(['-w', '--wrapwidth'], '20'),
                  dict(wrapwidth=20), po, pokw)
        yield Opt('no wrap', both(['-w', '--wrapwidth'], '0'),
                  dict(wrapwidth=0), po, pokw)
        yield Opt('merge', flag('-m', '--merge-po-files', '--merge-pofiles'),
                  dict(mark_not_found_as_obsolete=False), po, pokw)
        yield Opt('remove', flag('-r', '--remove-not-found'),
                  dict(preserve_not_found=False), po, pokw)
        yield Opt('location', flag('--no-location', '--nolocation'),
                  dict(location=False))
        yield Opt('extension', both(['-x', '--extension', '--ext'],
                                    'strikethrough'), EXT)
        yield Opt('extensions', [['-x', 'tables', '-x', 'wikilinks']],
                  dict(extensions=['tables', 'wikilinks']))
        yield Opt('X-Header', flag('-a', '--xheader'), dict(xheader=True))
        yield Opt('code blocks', flag('-c', '--include-codeblocks'),
                  dict(include_codeblocks=True))
        yield Opt('ignored messages', both(['--ignore-msgids'], 'ign.txt'),
                  dict(ignore_msgids=['**strong**', 'after']))
        yield Opt('metadata', both(['-d', '--metadata'], 'Language: es'),
                  dict(metadata={'Language': 'es'}))
        yield Opt('metadata twice', [['-d', 'A: b', '--metadata', 'C: d']],
                  dict(metadata={'A': 'b', 'C': 'd'}))
    elif tool == 'po2md':
        yield Opt('wrap width', both(['-w', '--wrapwidth'], '20'),
                  dict(wrapwidth=20))
        yield Opt('no wrap', both(['-w', '--wrapwidth'], 'inf'),
                  dict(wrapwidth=float('inf')))
    elif tool == 'md2po2md':
        yield Opt('PO wrap width', both(['--po-wrapwidth'], '20'),
                  dict(po_wrapwidth=20))
        yield Opt('Markdown wrap width', both(['--md-wrapwidth'], '20'),
                  dict(md_wrapwidth=20))
        yield Opt('location', flag('--no-location', '--nolocation'),
                  dict(location=False))
        yield Opt('extension', both(['-x', '--extension', '--ext'],
                                    'strikethrough'), EXT)
        yield Opt('code blocks', flag('-c', '--include-codeblocks'),
                  dict(include_codeblocks=True))
        yield Opt('languages', [['-l', 'fr'], ['--lang', 'fr']],
                  dict(langs=['es', 'fr']))
    if tool in ('po2md', 'mdpo2html'):
        out = 'out.md' if tool == 'po2md' else 'out.html'
        yield Opt('save', both(['-s', '--save'], out), dict(save=out))
        yield Opt('ignore', both(['-i', '--ignore'], 'cat2.po'),
                  dict(ignore=['cat2.po']), ['-p', 'cat2.po'],
                  dict(pofiles=['cat.po', 'cat2.po']))
        yield Opt('PO files', [['-p', 'cat2.po'], ['--po-files', 'cat2.po'],
                               ['--pofiles', 'cat2.po']],
                  dict(pofiles=['cat.po', 'cat2.po']))
    if tool in ('md2po', 'po2md'):
        yield Opt('event', both(['-e', '--event'], 'text: ev.py::func'),
                  dict(events={'text': 'ev.py::func'}))
        yield Opt('events', [['-e', 'text: ev.py::func', '--event',
                              'text: ev.py::func2'],
                             ['-e', 'text:ev.py::func', '-e',
                              'text:ev.py::func2']],
                  dict(events={'text': ['ev.py::func', 'ev.py::func2']}))
        yield Opt('events of several names',
                  [['-e', 'text: ev.py::func', '--event',
                    'msgid: ev.py::func2']],
                  dict(events={'text': 'ev.py::func',
                               'msgid': 'ev.py::func2'}))


NAMES = {'md2po': ['files_or_content'],
         'po2md': ['filepath_or_content', 'pofiles'],
         'mdpo2html': ['filepath_or_content', 'pofiles'],
         'md2po2md': ['langs', 'input_paths_glob', 'output_paths_schema']}


def world_of(tool):
    f = files(**{
        'cat.po': STALE, 'ev.py': K(''),
        'cat2.po': [{'msgid': K('after'), 'msgstr': K('detras')}],
        'ign.txt': '**strong**\nafter\n'})
    return World({k: v for k, v in f.items() if not k.startswith('out.')},
                 DIRS)


CFG = dict(io_faults=False)


def outcome(ctx, s, v, cli):
    how, r = exit_of(s, v)
    if how == 'return':
        if isinstance(r, Tup) and cli:
            r = r.items[0]
        if isinstance(r, Ref) and isinstance(s.get(r.a), HObj):
            r = ('catalogue', snapshot(s, r))
        elif isinstance(r, Tup) or isinstance(r, Ref) or \
                isinstance(r, K) and not isinstance(r.v, str):
            r = None
    effects = []
    for e in s.trace:
        k = e[0]
        if k == 'po-save':
            effects.append((k, e[2], e[4]))
        elif k == 'mo-save':
            effects.append((k, e[2]))
        elif k == 'write':
            effects.append((k, e[1], e[2], e[3]))
        elif k == 'pofile':
            effects.append((k, e[1], e[2]))
        elif k == 'md-parser':
            effects.append((k, frozenset(p for p in e[2] if p)))
        elif k == 'open' and e[1] in DOCS:
            effects.append((k, e[1], e[2], e[3]))
        elif k == 'wrap':
            effects.append((k, e[1][1:]))
        elif k == 'callsym':
            effects.append((k, e[1]))
        elif k == 'clock':
            effects.append((k,))
    return how, r, tuple(effects)


DOCS = [K(x) for x in ('doc.md', 'dir/a.md', 'dir/b.md', 'page.html')]


def outs(ctx, tool, run, is_cli):
    st = ctx.state()
    ds = [DOC] if tool != 'mdpo2html' else HTML_DOC
    return {outcome(ctx, s, v, is_cli) for s, v in run(
        st, parse=doc_parse(*ds[0]) if tool != 'mdpo2html' else None,
        feed=html_feed(ctx, HTML_DOC), callsym=lambda I, s, f, a, k, c, n: [
            (s, NONE)])}


def run_cli(ctx, tool, words):
    return outs(ctx, tool, lambda st, **c: cli(
        ctx, tool, words, world_of(tool), st=st, **c), True)


def run_api(ctx, tool, pos, kw):
    names = NAMES[tool]
    kw = dict(kw)
    pos = [kw.pop(n, p) for n, p in zip(names, pos)]
    return outs(ctx, tool, lambda st, **c: api(
        ctx, tool, pos, kw, world_of(tool), st=st, **c), False)


def summary(o):
    return str(sorted(map(str, o)))[:200]


def difference(a, b):
    a, b = sorted(a, key=str), sorted(b, key=str)
    for x, y in zip(a, b):
        for p, q in zip(x[:2] + x[2], y[:2] + y[2]):
            if p != q:
                return '%.300s / %.300s' % (p, q)
    return '%d / %d ways to end' % (len(a), len(b))


def check(ctx):
    for tool in IN:
        words, pos, kw = IN[tool]
        ctx.begin(tool + ' without options')
        default = run_cli(ctx, tool, words)
        ctx.ok()
        plain = run_api(ctx, tool, pos, kw)
        if default != plain:
            ctx.finding('options', '%s without options' % tool,
                        'the command line has other defaults than the API: '
                        + difference(default, plain))
        for o in options_of(tool):
            ctx.begin('%s, %s' % (tool, o.name))
            basekw = dict(kw, **o.basekw)
            base = run_api(ctx, tool, pos, basekw)
            want = run_api(ctx, tool, pos, dict(basekw, **o.kw))
            ctx.ok()
            if want == base and not o.same:
                ctx.finding('options', '%s, %s' % (tool, o.name),
                            'the argument %s of the API has no effect' %
                            ', '.join(o.kw))
            for sp in o.spellings:
                got = run_cli(ctx, tool, words + o.base + sp)
                ctx.ok()
                if got == want:
                    continue
                ctx.finding(
                    'options', '%s %s' % (tool, sp[0].split('=')[0]),
                    '%s %s %s the API with %s: %s' % (
                        tool, ' '.join(sp), 'has no effect, unlike'
                        if got == base else 'is not like', o.kw,
                        difference(got, want)))
        settings(ctx, tool)


def settings(ctx, tool):
    """Options of the command line only."""
    words = IN[tool][0]
    out = {'md2po': ['-p', 'cat.po', '-s'], 'po2md': ['-s', 'out.md'],
           'mdpo2html': ['-s', 'out.html'], 'md2po2md': []}[tool]
    bad = [dict(STALE[0], fuzzy=True), {'msgid': K('z'), 'msgstr': K('')},
           {'msgid': K('o'), 'msgstr': K('p'), 'obsolete': TRUE}]
    rules = [('--check', 2), ('--no-obsolete', 3), ('--no-fuzzy', 4),
             ('--no-empty-msgstr', 5)]
    p = 'loc/es/doc.md.po'

    def run(ws, entries):
        w = world_of(tool)
        for n in ('cat.po', p) if tool == 'md2po2md' else ('cat.po',):
            w.files[n] = entries
        res = []
        for s, v in cli(ctx, tool, ws, w, st=ctx.state(),
                        parse=doc_parse(*DOC), feed=html_feed(
                            ctx, HTML_DOC)):
            how, r = exit_of(s, v)
            code = r.items[1] if isinstance(r, Tup) else r
            outs = [e for e in s.trace if e[0] == 'out' and
                    e[1] == 'stdout']
            res.append((how, code, bool(outs)))
        return res
    for f, code in rules:
        ctx.begin('%s %s' % (tool, f))
        res = run(words + out + [f], bad)
        ctx.ok()
        if not any(c == K(code) for _, c, _ in res):
            ctx.finding('options', '%s %s' % (tool, f), 'the exit code is '
                        'never %d: %s' % (code, sorted(map(str, res))))
    if tool != 'md2po2md':
        for f in ('-q', '--quiet'):
            ctx.begin('%s %s' % (tool, f))
            ctx.ok()
            if any(o for _, _, o in run(words + [f], bad)):
                ctx.finding('options', '%s %s' % (tool, f),
                            'something is printed')
    for f in ('-h', '--help', '-v', '--version'):
        ctx.begin('%s %s' % (tool, f))
        ctx.ok()
        res = run(words + [f], bad)
        if any(h != 'exit' for h, _, _ in res):
            ctx.finding('options', '%s %s' % (tool, f), 'it does not end '
                        'the program')
