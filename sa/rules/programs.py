"""Runs of the whole programs (command lines and API functions) in small
worlds, shared by the rules about files, streams and exit codes."""
import itertools

from .world import *

PLAIN = [P(T(0))]
EVENTS = {'html': [c03.tag('p', c03.D(0))]}


class Run:
    def __init__(self, name, tool, kind, opts, world, targets=(), dirs=()):
        self.name, self.tool, self.kind = name, tool, kind
        self.opts, self.world = opts, world
        self.targets = set(targets)
        self.dirs = set(dirs)

    def go(self, ctx, st=None, **cfg):
        ctx.begin(self.name)
        c = dict(parse=doc_parse(*PLAIN), feed=html_feed(
            ctx, *EVENTS['html']))
        c.update(cfg)
        if self.kind == 'cli':
            return main(ctx, self.tool, self.opts, self.world, st=st, **c)
        return api(ctx, self.tool, self.opts[0], self.opts[1], self.world,
                   st=st, **c)


ARGS = {'md2po': ['files_or_content'],
        'po2md': ['pofiles', 'filepath_or_content'],
        'mdpo2html': ['pofiles', 'filepath_or_content'],
        'md2po2md': ['langs', 'input_paths_glob', 'output_paths_schema']}
CHECK = {'check_saved_files_changed': '_check_saved_files_changed'}


def as_api(tool, o):
    """CLI option values -> (positional, keyword) arguments of the API."""
    o = dict(o)
    o.pop('quiet', None)
    pos = []
    for a in ARGS[tool]:
        v = o.pop(a)
        if a in ('files_or_content', 'filepath_or_content',
                 'input_paths_glob') and isinstance(v, list) and \
                len(v) == 1:
            v = v[0]
        if a in ('pofiles', 'langs'):
            v = [x for y in v for x in y]
        pos.append(v)
    return pos, {CHECK.get(k, k): v for k, v in o.items()}


PO = [{'msgid': K('known'), 'msgstr': K('conocido')},
      {'msgid': K('old'), 'msgstr': K('viejo'), 'obsolete': TRUE},
      {'msgid': K('doubt'), 'msgstr': K('duda'), 'fuzzy': True}]


def files(**more):
    return {'doc.md': None, 'dir/a.md': None, 'dir/b.md': None,
            'page.html': None, 'cat.po': PO, 'cat2.po': PO[:1], 'out.md': None,
            'out.html': None, 'cat.mo': None, **more}


DIRS = ('dir', '.')


def cases(tool, deep=False):
    """(name, options, files written)"""
    flags = [{}, {'check_saved_files_changed': True}]
    if tool != 'md2po2md':
        flags.append({'quiet': True})
    if deep:
        flags.append({'no_obsolete': True, 'no_fuzzy': True,
                      'no_empty_msgstr': True})
        if tool in ('md2po', 'po2md', 'md2po2md'):
            flags.append({'debug': True})
    if tool == 'md2po':
        ins = [['doc.md'], ['dir/*.md'], ['Some text']]
        if deep:
            ins.append(['dir/a.md', 'dir/b.md'])
        for i, po, save, mo, f in itertools.product(
                ins, (None, 'cat.po', 'new.po'), (False, True),
                (None, 'new.mo') + (('cat.mo',) if deep else ()), flags):
            if save and not po:
                continue
            o = dict(files_or_content=i, **f)
            t = []
            if po:
                o['po_filepath'] = po
            if save:
                o['save'] = True
                t.append(po)
            if mo:
                o['mo_filepath'] = mo
                t.append(mo)
            yield o, t, ()
    elif tool in ('po2md', 'mdpo2html'):
        ext = 'md' if tool == 'po2md' else 'html'
        ins = [['doc.md'], ['Some text']] if ext == 'md' else [
            ['page.html'], ['<p>Some text</p>']]
        pos = [[['cat.po']], [['cat*.po']]]
        if deep:
            pos += [[['cat.po', 'cat2.po']], [['cat.po'], ['cat2.po']]]
        for i, p, s, f in itertools.product(
                ins, pos, (None, 'out.' + ext, 'new.' + ext), flags):
            o = dict(filepath_or_content=i, pofiles=p, **f)
            if s:
                o['save'] = s
            yield o, [s] if s else [], ()
    else:
        for i, l, sch, f in itertools.product(
                ['doc.md', 'dir/*.md'], [[['es']], [['es', 'fr']]],
                ['loc/{lang}', 'loc/{lang}/{basename}.md',
                 'loc/{lang}/{basename}'],
                flags):
            o = dict(input_paths_glob=[i], langs=l, output_paths_schema=sch,
                     **f)
            t, d = [], []
            for b in ['doc'] if i == 'doc.md' else ['a', 'b']:
                for g in l[0]:
                    if sch == 'loc/{lang}':
                        t += ['loc/%s/%s.md' % (g, b),
                              'loc/%s/%s.md.po' % (g, b)]
                        d.append('loc/' + g)
                    elif sch == 'loc/{lang}/{basename}':
                        t += ['loc/%s/%s' % (g, b), 'loc/%s/%s.po' % (g, b)]
                        d.append('loc/' + g)
                    else:
                        t += ['loc/%s/%s.md' % (g, b),
                              'loc/%s/%s.md.po' % (g, b)]
                        d.append('loc/' + g)
            yield o, t, d


def runs(tools=('md2po', 'po2md', 'mdpo2html', 'md2po2md'), deep=False,
         kinds=('cli', 'api'), keep=None):
    for tool in tools:
        for o, t, d in cases(tool, deep):
            if keep and not keep(o):
                continue
            for kind in kinds:
                if kind == 'api' and (
                        'quiet' in o or ('no_obsolete' in o
                                         and tool != 'md2po2md')):
                    continue
                yield Run('%s %s %s' % (kind, tool, shown(o)), tool, kind,
                          o if kind == 'cli' else as_api(tool, o),
                          World(files(), DIRS), t, d)


def shown(o):
    return ' '.join('%s=%s' % kv for kv in sorted(o.items()))
