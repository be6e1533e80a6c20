"""C42: the checks of entries find every entry, in every layout of the file.

Rule: the command line programs are interpreted abstractly with the three
checks on catalogues in every layout that the PO format allows: with and
without header, comments, references, flags, contexts and lines between
entries, with texts in one line or several, and any end of line. The locations
written to STDERR must be those of the entries that fail, and the exit code
the one of the last check that some entry fails."""
import itertools
import re

from .programs import *
from . import c02

CODES = (('no_obsolete', 3, 'obsolete entry'), ('no_fuzzy', 4, 'fuzzy entry'),
         ('no_empty_msgstr', 5, 'empty msgstr'))
DOC = [P(t('known'))]
PAGE = [c03.tag('p', ('data', K('known'), {}))]

# (name, lines, checks that the entry fails)
ENTRIES = [
    ('translated', ['msgid "a"', 'msgstr "b"'], ''),
    ('untranslated', ['msgid "a"', 'msgstr ""'], 'e'),
    ('fuzzy', ['#, fuzzy', 'msgid "a"', 'msgstr "b"'], 'f'),
    ('fuzzy of more flags', ['#, c-format, fuzzy', 'msgid "a"',
                             'msgstr "b"'], 'f'),
    ('other flags', ['#, c-format', 'msgid "a"', 'msgstr "b"'], ''),
    ('obsolete', ['#~ msgid "a"', '#~ msgstr "b"'], 'o'),
    ('obsolete in lines', ['#~ msgid ""', '#~ "a"', '#~ "b"', '#~ msgstr ""',
                           '#~ "c"', '#~ "d"'], 'o'),
    ('obsolete with context', ['#~ msgctxt "c"', '#~ msgid "a"',
                               '#~ msgstr "b"'], 'o'),
    ('obsolete with comment', ['# note', '#~ msgid "a"', '#~ msgstr "b"'],
     'o'),
    ('obsolete and untranslated', ['#~ msgid "a"', '#~ msgstr ""'], 'oe'),
    ('untranslated in lines', ['msgid ""', '"a"', '"b"', 'msgstr ""'], 'e'),
    ('untranslated in a line below', ['msgid ""', '"a"', 'msgstr ""'], 'e'),
    ('untranslated word below', ['msgctxt "c"', 'msgid ""', '"a\\n"',
                                 'msgstr ""'], 'e'),
    ('translated in lines', ['msgid ""', '"a"', '"b"', 'msgstr ""', '"c"',
                             '"d"'], ''),
    ('translated in a line below', ['msgid "a"', 'msgstr ""', '"b"'], ''),
    ('untranslated with context', ['msgctxt "c"', 'msgid "a"', 'msgstr ""'],
     'e'),
    ('translated with context', ['msgctxt ""', '"c"', 'msgid "a"',
                                 'msgstr "b"'], ''),
    ('untranslated and fuzzy', ['#, fuzzy', 'msgid "a"', 'msgstr ""'], 'fe'),
    ('comments like marks', ['# fuzzy', '# msgstr ""', '# #~ msgid "x"',
                             '#. extracted fuzzy', '#: fuzzy.md:1',
                             'msgid "a"', 'msgstr "b"'], ''),
    ('texts like marks', ['msgid "msgstr \\"\\""', 'msgstr "#, fuzzy"'], ''),
    ('texts in lines like marks', [
        'msgid ""', '"#~ x\\n"', '"#, fuzzy\\n"', 'msgstr ""',
        '"msgstr \\"\\"\\n"', '"#~ y"'], ''),
    ('translated by a word starting with a quote', [
        'msgid "a"', 'msgstr "\\"b"'], ''),
    ('empty lines in texts', ['msgid ""', '"a\\n"', '"\\n"', '"b"',
                              'msgstr ""', '"\\n"', '"b"'], ''),
    ('previous text', ['#, fuzzy', '#| msgid "x"', 'msgid "a"',
                       'msgstr "b"'], 'f'),
    ('untranslated with comments', ['# note', '#. note', '#: a.md:1',
                                    'msgid "a"', 'msgstr ""'], 'e'),
]
HEADERS = {
    'no header': [],
    'an empty header': ['#', 'msgid ""', 'msgstr ""'],
    'a header': ['# note', '#', 'msgid ""', 'msgstr ""',
                 '"Content-Type: text/plain; charset=UTF-8\\n"',
                 '"Language: es\\n"'],
}


def layout(header, entries, blank, eol, last):
    """(text, [(check, first line, last line)])"""
    lines, marks = list(HEADERS[header]), []
    for n, ls, fails in entries:
        if lines and blank is not None:
            lines.append(blank)
        for k in fails:
            marks.append((k, len(lines) + 1, len(lines) + len(ls)))
        lines += ls
    return eol.join(lines) + (eol if last else ''), marks


class Lines(World):
    def __init__(self, text, *a):
        World.__init__(self, *a)
        self.raw = text

    def lines(self, I, st, p, mode):
        if p == K('cat.po'):
            b = isinstance(mode, K) and 'b' in mode.v
            return [K(x.encode() if b else x)
                    for x in self.raw.splitlines(keepends=True)]
        return World.lines(self, I, st, p, mode)

    def content(self, I, st, p, cx, node):
        if p == K('cat.po') and self.last(st, p) is None:
            return [(st, K(self.raw))]
        return World.content(self, I, st, p, cx, node)


def catalogues(deep):
    simple = ENTRIES[:2] + ENTRIES[2:3] + ENTRIES[5:6] + ENTRIES[9:11]
    for h in HEADERS:
        for e in ENTRIES:
            yield h, [e]
        yield h, []
    for a in ENTRIES if deep else simple:
        for b in ENTRIES:
            yield 'a header', [a, b]
    if deep:
        for c in itertools.product(simple, repeat=3):
            yield 'an empty header', list(c)


LAYOUTS = [('', '\n', True), ('', '\n', False), (None, '\n', True),
           ('', '\r\n', True), (' ', '\n', True), (None, '\r\n', False)]


def check(ctx):
    deep = ctx.tier == 'thorough'
    for h, es in catalogues(deep):
        for blank, eol, last in LAYOUTS if deep and len(es) < 3 or \
                len(es) < 2 else (LAYOUTS[0], LAYOUTS[2]):
            if blank is None and h == 'an empty header' and es:
                continue
            text, marks = layout(h, es, blank, eol, last)
            name = '%s, %s%s%s%s' % (
                h, ' then '.join(e[0] for e in es) or 'no entries',
                '' if blank == '' else ', no lines between'
                if blank is None else ', spaces between',
                ', CRLF' if eol != '\n' else '',
                '' if last else ', unfinished')
            judge(ctx, 'po2md', name, text, marks, dict(
                filepath_or_content=['doc.md'], pofiles=[['cat.po']]))
            if len(es) == 1 and blank == '' and eol == '\n' and last:
                judge(ctx, 'mdpo2html', name, text, marks, dict(
                    filepath_or_content=['page.html'],
                    pofiles=[['cat.po']]))
                judge(ctx, 'md2po', name, text, marks, dict(
                    files_or_content=['doc.md'], po_filepath='cat.po'))


def places(s):
    out = []
    for e in s.trace:
        if e[0] == 'out' and e[1] == 'stderr':
            out.append(e[2])
    return out


def judge(ctx, tool, name, text, marks, opts):
    for key, code, what in CODES:
        o = dict(opts, **{key: True})
        k = what[0]
        want = [m for m in marks if m[0] == k]
        case = '%s: %s of %s' % (tool, key, name)
        ctx.begin(case)
        w = Lines(text, files(**{'cat.po': [{'msgid': K('a'),
                                             'msgstr': K('b')}]}), DIRS)
        for s, v in main(ctx, tool, o, w, parse=doc_parse(*DOC),
                         feed=html_feed(ctx, *PAGE), wrap=c02.no_wrap):
            ctx.ok()
            how, x = exit_of(s, v)
            if how != 'return':
                ctx.finding('entries-found', case, '%s is raised' % x)
                continue
            got = v.items[-1] if isinstance(v, Tup) else v
            n = 0
            if got != K(code if want else 0):
                ctx.finding('entries-found', case,
                            'the exit code is %s instead of %d' % (
                                got, code if want else 0))
                continue
            said, known = [], True
            for e in places(s):
                if not isinstance(e, K):
                    ctx.I.note('message not known: %s' % e)
                    known = False
                    continue
                said += [int(x) for x in re.findall(r'cat\.po:(\d+)', e.v)]
            if not known:
                continue
            for _, a, b in want:
                if sum(a <= x <= b for x in said) != 1:
                    ctx.finding('entries-found', case, 'the entry in lines '
                                '%d-%d is reported %d times' % (
                                    a, b, sum(a <= x <= b for x in said)))
            for x in said:
                if not any(a <= x <= b for _, a, b in want):
                    ctx.finding('entries-found', case,
                                'line %d is reported' % x)
