"""A small abstract world (files, options) and drivers for whole programs."""
import fnmatch

from ..m_polib import new_entry, new_pofile
from .extraction import *
from .docitems import *
from . import c03

MAIN = {'md2po': 'mdpo.md2po.__main__', 'po2md': 'mdpo.po2md.__main__',
        'mdpo2html': 'mdpo.mdpo2html.__main__',
        'md2po2md': 'mdpo.md2po2md.__main__'}
API = {'md2po': ('mdpo.md2po', 'markdown_to_pofile'),
       'po2md': ('mdpo.po2md', 'pofile_to_markdown'),
       'mdpo2html': ('mdpo.mdpo2html', 'markdown_pofile_to_html'),
       'md2po2md': ('mdpo.md2po2md', 'markdown_to_pofile_to_markdown')}


def written(st, p, upto=None):
    """Was the path opened for writing on this trace?"""
    for ev in st.trace if upto is None else st.trace[:upto]:
        if ev[0] == 'open' and ev[1] == p and writes(ev[2]):
            return True
        if ev[0] == 'rename' and len(ev) > 3 and ev[2] == p:
            return True
    return False


def same_path(a, b):
    return a == b or isinstance(a, Sym) and a.id[:2] == ('abspath', b)


def writes(mode):
    return not isinstance(mode, K) or any(c in mode.v for c in 'wax+')


class World:
    """files: {path: entries of a PO file | text | None}"""

    def __init__(self, files=(), dirs=(), open_world=False, stdin=None):
        self.files = {p: None if isinstance(v, (str, Value)) else v
                      for p, v in dict(files).items()}
        self.text = {p: v for p, v in dict(files).items()
                     if isinstance(v, (str, Value))}
        self.stdin = stdin
        self.dirs = set(dirs)
        self.open_world = open_world

    def cfg(self, **over):
        c = dict(fs=self.fs, glob=self.glob, pofile=self.pofile,
                 missing=self.missing, isatty=self.stdin is None,
                 content=self.content, lines=self.lines)
        if self.stdin is not None:
            c['stdin'] = self.stdin
        c.update(over)
        return c

    def fs(self, I, st, name, p):
        if not isinstance(p, K) or not isinstance(p.v, str):
            return None
        if name not in ('isfile', 'isdir', 'exists'):
            return None
        f = p.v in self.files or written(st, p)
        d = p.v in self.dirs or any(e[0] == 'mkdir' and same_path(e[1], p)
                                    for e in st.trace)
        if self.open_world and not f and not d:
            return None
        return {'isfile': f, 'isdir': d, 'exists': f or d}[name]

    def glob(self, I, st, p, cx, node):
        a = I.asite(cx, node)
        if isinstance(p, K):
            names = list(self.files) + [
                e[1].v for e in st.trace if e[0] == 'open' and
                isinstance(e[1], K) and writes(e[2])]
            names = list(dict.fromkeys(names))
            if any(c in p.v for c in '*?['):
                hits = [n for n in names if globmatch(n, p.v)]
                if I.cfg.get('set_order') == 'reversed':
                    hits.reverse()
                return [(st, st.alloc(a, HSeq(
                    'list', [K(n) for n in hits],
                    unord='glob' if len(hits) > 1 else None)))]
            hits = [p] if p.v in names or p.v in self.dirs else []
            return [(st, st.alloc(a, HSeq('list', hits)))]
        if isinstance(p, Sym) and p.id[0] in ('globesc',):
            return None
        return [(st, st.alloc(a, HSeq('list', ())))]

    def pofile(self, I, st, src, kd, cx, node):
        es = self.files.get(src.v) if isinstance(src, K) else None
        refs = []
        w = self.last(st, src)
        sn = I.snapshots.get(w.id[1]) if isinstance(w, Sym) and \
            w.id[0] == 'postr' else None
        if sn is not None:
            return self.reopen(I, st, src, kd, sn, cx, node)
        enc = encoding_of(I, st, src, kd)
        for i, e in enumerate(es or ()):
            v = dict(e)
            v.pop('multi', None)
            if v.pop('fuzzy', None):
                v['flags'] = st.alloc(('wld', src, i, 'fl'),
                                      HSeq('list', (K('fuzzy'),)))
            refs.append(new_entry(st, ('wld', src, i), v))
        return [(st, new_pofile(st, ('wld', src, I.asite(cx, node)), refs,
                                None, src, enc,
                                kd.get('wrapwidth', K(78))))]

    def reopen(self, I, st, src, kd, sn, cx, node):
        tag = ('wld', src, I.asite(cx, node))
        refs = [new_entry(st, tag + (i,), {
            k: thaw(st, v, tag + (i, k)) for k, v in e})
            for i, e in enumerate(sn[2])]
        return [(st, new_pofile(
            st, tag, refs, None, src, encoding_of(I, st, src, kd),
            kd.get('wrapwidth', K(78)),
            metadata=pairs(sn[0])))]

    def last(self, st, p):
        for e in reversed(st.trace):
            if e[0] == 'write' and e[1] == p:
                return e[2]
        t = self.text.get(p.v) if isinstance(p, K) else None
        return K(t) if isinstance(t, str) else t

    def content(self, I, st, p, cx, node):
        v = self.last(st, p)
        return None if v is None else [(st, v)]

    def lines(self, I, st, p, mode):
        self.snapshots = I.snapshots
        v = self.last(st, p)
        if isinstance(v, Sym) and v.id[0] == 'postr' and \
                v.id[1] in self.snapshots:
            v = po_text([dict(e) for e in self.snapshots[v.id[1]][2]])
        elif v is None and isinstance(p, K) and \
                self.files.get(p.v) is not None:
            v = po_text(self.files[p.v])
        if not isinstance(v, K):
            return None
        b = isinstance(mode, K) and 'b' in mode.v
        return [K(x.encode() if b else x)
                for x in v.v.splitlines(keepends=True)]

    def missing(self, I, st, p, mode):
        if writes(mode):
            return False
        return self.fs(I, st, 'isfile', p) is False


def po_text(entries):
    """The text polib writes for entries of constants (short ones)."""
    out = ['#', 'msgid ""', 'msgstr ""', '']
    for e in entries:
        def f(n):
            v = e.get(n)
            return v.v if isinstance(v, K) else None if v is None else v
        fl = f('flags')
        fuzzy = e.get('fuzzy') or isinstance(fl, Tup) and \
            K('fuzzy') in fl.items
        if not isinstance(f('msgid'), str):
            return None
        if fuzzy:
            out.append('#, fuzzy')
        pre = '#~ ' if f('obsolete') else ''
        if isinstance(f('msgctxt'), str):
            out.append('%smsgctxt "%s"' % (pre, f('msgctxt')))
        out.append('%smsgid "%s"' % (pre, f('msgid')))
        s = f('msgstr')
        if s is None:
            s = ''
        if not isinstance(s, str):
            return None
        if 'multi' in e:
            out += [pre + 'msgstr ""', '%s"%s"' % (pre, s)]
        else:
            out.append('%smsgstr "%s"' % (pre, s))
        out.append('')
    return K('\n'.join(out))


def encoding_of(I, st, src, kd):
    enc = kd.get('encoding')
    if enc is None or I.fact_none(st, enc) is True:
        return Sym(('detect_encoding', src), 'str', {('detected',)},
                   truthy=True)
    return enc


def pairs(v):
    xs = v.items[1:]
    return [(xs[i], xs[i + 1]) for i in range(0, len(xs), 2)]


def thaw(st, v, tag):
    if isinstance(v, Tup) and v.items and isinstance(v.items[0], Ext):
        if v.items[0].path == 'seq':
            return st.alloc(('drv', tag), HSeq('list', [
                thaw(st, x, tag + (i,)) for i, x in enumerate(v.items[1:])]))
        if v.items[0].path == 'dict':
            xs = v.items[1:]
            return st.alloc(('drv', tag), HDict(
                [(xs[i], xs[i + 1]) for i in range(0, len(xs), 2)]))
    return v


def globmatch(name, pat):
    a, b = name.split('/'), pat.split('/')
    return len(a) == len(b) and all(
        fnmatch.fnmatchcase(x, y) for x, y in zip(a, b))


def val(st, v, tag):
    """A Python value as an abstract one."""
    if isinstance(v, (Value, type(NONE))):
        return v
    if isinstance(v, (list, tuple)):
        return mlist(st, [val(st, x, tag + (i,)) for i, x in enumerate(v)],
                     tag)
    if isinstance(v, dict):
        return st.alloc(('drv', tag), HDict(
            [(K(k), val(st, x, tag + (k,))) for k, x in v.items()]))
    return K(v)


def options(opts, rest='default'):
    o = {'*': rest}
    for k, v in opts.items():
        o[k] = (lambda I, st, cx, node, v=v, k=k: val(st, v, ('ov', k)))
    return o


def main(ctx, tool, opts, world, rest='default', st=None, run='run', **cfg):
    """Run the command line program -> [(state, value | Exc)]"""
    st = st or ctx.state()
    f = ctx.attr(MAIN[tool], run)
    c = world.cfg(**cfg)
    c['optvals'] = options(opts, rest)
    return ctx.call(st, f, [Tup(())], [], **c)


def cli(ctx, tool, argv, world, st=None, **cfg):
    """Run the command line program with those words."""
    st = st or ctx.state()
    return ctx.call(st, ctx.attr(MAIN[tool], 'run'),
                    [Tup([K(a) for a in argv])], [],
                    argv=list(argv), **world.cfg(**cfg))


def api(ctx, tool, args, kw, world, st=None, **cfg):
    st = st or ctx.state()
    f = ctx.attr(*API[tool])
    return ctx.call(st, f, [val(st, a, ('ap', i))
                            for i, a in enumerate(args)],
                    [(k, val(st, v, ('ap', k))) for k, v in kw.items()],
                    **world.cfg(**cfg))


def doc_parse(*evs):
    """'parse' handler: the parser meets these events."""
    evs = flat(evs)

    def parse(I, st, ref, args, kw, cx, node):
        return [(s, e if isinstance(e, Exc) else NONE)
                for s, e in Client(I, args, kw).run(st, evs)]
    return parse


def html_feed(ctx, *evs):
    evs = flat(evs)

    def feed(I, st, obj, args, kw, cx, node):
        return [(s, e if isinstance(e, Exc) else NONE)
                for s, e in c03.run_events(ctx, st, obj, evs)]
    return feed


def ev(st, *tags):
    return [e for e in st.trace if e[0] in tags]


def outputs(st, name):
    return [e[2] for e in st.trace if e[0] == 'out' and e[1] == name]


def exit_of(st, v):
    """('exit', code) | ('raise', class) | ('return', value)"""
    if isinstance(v, Exc):
        n = exc_name(st, v)
        if n == 'SystemExit':
            return 'exit', exc_msg(st, v)
        return 'raise', n
    return 'return', v
