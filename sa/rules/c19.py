"""C19: invalid command line values end with a message and code 1.

Rule: each command line program is interpreted abstractly with each option
that has a syntax (wrap widths, command aliases, metadata, events) given valid
and invalid values, and without input; for invalid values every path must end
with exit code 1 after writing to STDERR a message that quotes the value,
without printing on STDOUT nor touching any file; valid values must be
accepted. Arguments the program can not work without must be declared as
required."""
from .programs import *

BAD_WIDTH = ['foo', 'nan', 'NaN', '', '8o', '80,5', '0x50']
GOOD_WIDTH = ['80', '0', '-1', 'inf', '78.5', ' 80 ', '1e3']
BAD_PAIR = [['foo'], ['good:enable', 'foo'], ['foo\\:enable']]
TWICE = [['foo:enable', 'foo:disable'], ['foo:enable', 'foo:enable']]
GOOD_PAIR = [[], ['foo:enable'], ['a:enable', 'b:mdpo-disable'],
             ['foo\\:bar:enable']]
GOOD_META = [[], ['Language: es'], ['A:b', 'B:c:d'], ['a\\:b:c']]
BAD_META = [['foo'], ['A:b', 'foo']]
TWICE_META = [['A:b', 'A:c'], ['A:', 'A:c'], ['A:b', 'A:'], ['A:b', 'A: b'],
              ['A:b', 'B:c', 'A:b']]
BAD_EVENT = [['text'], ['good:e.py::f', 'text']]

BASE = {
    'md2po': dict(files_or_content=['doc.md'], po_filepath='cat.po',
                  save=True, mo_filepath='cat.mo'),
    'po2md': dict(filepath_or_content=['doc.md'], pofiles=[['cat.po']],
                  save='out.md'),
    'mdpo2html': dict(filepath_or_content=['page.html'],
                      pofiles=[['cat.po']], save='out.html'),
    'md2po2md': dict(input_paths_glob=['doc.md'], langs=[['es']],
                     output_paths_schema='loc/{lang}'),
}
WIDTHS = {'md2po': ['wrapwidth'], 'po2md': ['wrapwidth'], 'mdpo2html': [],
          'md2po2md': ['po_wrapwidth', 'md_wrapwidth']}
REQUIRED = {'po2md': ['pofiles'], 'mdpo2html': ['pofiles'],
            'md2po2md': ['langs', 'output_paths_schema'], 'md2po': []}


def cases_of(tool):
    for d in WIDTHS[tool]:
        for v in BAD_WIDTH:
            yield d, v, v
        for v in GOOD_WIDTH:
            yield d, v, None
    for v in BAD_PAIR:
        yield 'command_aliases', v, v[-1]
    for v in TWICE:
        yield 'command_aliases', v, 'foo'
    for v in GOOD_PAIR:
        yield 'command_aliases', v, None
    if tool == 'md2po':
        for v in BAD_META:
            yield 'metadata', v, v[-1]
        for v in TWICE_META:
            yield 'metadata', v, 'A'
        for v in GOOD_META:
            yield 'metadata', v, None
    if tool in ('md2po', 'po2md'):
        for v in BAD_EVENT:
            yield 'events', v, 'text'


def text_of(v):
    if isinstance(v, K):
        return v.v if isinstance(v.v, str) else ''
    if isinstance(v, Str):
        return ''.join(text_of(p) if isinstance(p, Value) else str(p)
                       for p in v.parts)
    return ''


def rejected(ctx, tool, what, s, v, quoted, name, since=0):
    how, x = exit_of(s, v)
    if how != 'exit' or x != K(1):
        ctx.finding('invalid-value', '%s: %s' % (tool, what),
                    'the invalid value does not end with code 1 but with %s '
                    '%s (%s)' % (how, x if how != 'return' else v, name))
        return
    err = ''.join(text_of(e[2]) for e in s.trace
                  if e[0] == 'out' and e[1] == 'stderr')
    if not err.strip() or quoted and quoted not in err:
        ctx.finding('invalid-value', '%s: %s [message]' % (tool, what),
                    'STDERR is %r (%s)' % (err, name))
    for e in s.trace:
        if e[0] == 'out' and e[1] == 'stdout' or e[0] in (
                'mkdir', 'remove', 'rename') or e[0] == 'open' and writes(
                e[2]):
            if tool == 'md2po2md' and e[0] != 'out':
                continue    # the values are checked while processing files
            ctx.finding('invalid-value', '%s: %s [effects]' % (tool, what),
                        '%s before rejecting the value (%s)' % (
                            e[0], name), site=sitestr(e[-1]))


def check(ctx):
    for tool, base in BASE.items():
        for d, v, bad in cases_of(tool):
            name = '%s %s=%r' % (tool, d, v)
            ctx.begin(name)
            w = World(files(), DIRS)
            for s, x in main(ctx, tool, dict(base, **{d: v}), w,
                             parse=doc_parse(*PLAIN), feed=html_feed(
                                 ctx, *EVENTS['html'])):
                ctx.ok()
                if bad is not None:
                    rejected(ctx, tool, d, s, x, bad, name)
                elif exit_of(s, x)[0] != 'return':
                    ctx.finding('valid-value', '%s: %s' % (tool, d),
                                'a valid value ends with %s %s (%s)' % (
                                    exit_of(s, x) + (name,)))
        a = ARGS[tool][-1] if tool != 'md2po2md' else 'input_paths_glob'
        for stdin in (None, '', '\n'):
            o = dict(base, **{a: []})
            name = '%s without input, STDIN %r' % (tool, stdin)
            ctx.begin(name)
            w = World(files(), DIRS, stdin=stdin)
            for s, x in main(ctx, tool, o, w):
                ctx.ok()
                rejected(ctx, tool, 'no input', s, x, None, name)
                required(ctx, tool, s)


def required(ctx, tool, s):
    specs = {}
    for e in s.trace:
        if e[0] == 'declare':
            dest, flags, kw = e[1].items[:3]
            specs[dest.v if isinstance(dest, K) else dest] = kw
    for d in REQUIRED[tool]:
        ctx.ok()
        if d not in specs or 'required' not in repr(specs[d]) or (
                'True' not in repr(specs[d])):
            ctx.finding('required', '%s: %s' % (tool, d), 'the argument '
                        'that sets %r is not declared as required' % d)
