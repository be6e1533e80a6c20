"""A reader of Markdown text (the CommonMark block and inline structure, plus
the extensions of md4c the tools use), for the texts that the analysis finds
written. Opaque pieces of text stand in them as private characters, which are
letters for the syntax.

Blocks:  ('P', inlines) ('H', level, inlines) ('CODE', info | None, text)
         ('HR',) ('HTML', text) ('QUOTE', blocks) ('UL' | 'OL', items)
         with items (task mark | None, blocks)
         ('TABLE', aligns, rows of inlines)
Inlines: str, ('BR',) ('EM', ..) ('STRONG', ..) ('DEL', ..) ('U', ..)
         ('ICODE', text) ('MATH', text) ('DISPLAY', text) ('RAW', text)
         ('A', href, title, ..) ('IMG', src, title, ..) ('WIKI', target, ..)
"""
import re

PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
ENT = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"',
       '&nbsp;': '\xa0', '&#39;': "'", '&copy;': '\xa9'}
BLOCKTAGS = ('address article aside blockquote body br button caption center '
             'col colgroup dd details dialog dir div dl dt fieldset '
             'figcaption figure footer form frame h1 h2 h3 h4 h5 h6 head '
             'header hr html iframe legend li link main menu nav ol '
             'optgroup option p param section source summary table tbody td '
             'tfoot th thead title tr track ul').replace(' br ', ' ').split()
TAG = (r'(?:<[A-Za-z][A-Za-z0-9-]*(?:\s+[A-Za-z_:][\w.:-]*(?:\s*=\s*'
       r'(?:[^\s"\'=<>`]+|\'[^\']*\'|"[^"]*"))?)*\s*/?>'
       r'|</[A-Za-z][A-Za-z0-9-]*\s*>)')


class Block:
    def __init__(self, kind, **kw):
        self.kind, self.kids, self.lines = kind, [], []
        self.open = True
        self.__dict__.update(kw)


class Reader:
    def __init__(self, ext=()):
        self.ext = set(ext)
        self.refs = {}

    # ------------------------------------------------------------- blocks
    def blocks(self, text):
        self.root = Block('doc')
        self.stack = [self.root]
        for line in text.split('\n'):
            self.line(line)
        self.close(1)
        self.root.open = False
        self.finish_leaf(self.root)
        self.definitions(self.root)
        return [x for x in (self.tree(b) for b in self.root.kids)
                if x is not None]

    def leaf(self, b=None):
        b = b or self.stack[-1]
        return b.kids[-1] if b.kids and b.kids[-1].open and b.kids[
            -1].kind in ('para', 'fence', 'html', 'icode') else None

    def finish_leaf(self, b):
        l = self.leaf(b)
        if l is not None:
            l.open = False

    def close(self, depth):
        while len(self.stack) > depth:
            b = self.stack.pop()
            self.finish_leaf(b)
            b.open = False

    def add(self, b, leaf=False):
        top = self.stack[-1]
        if top.kind == 'list' and b.kind != 'item':
            self.close(len(self.stack) - 1)
            top = self.stack[-1]
        self.finish_leaf(top)
        top.kids.append(b)
        if leaf is None:
            self.stack.append(b)
        return b

    def line(self, s):
        depth = 1
        while depth < len(self.stack):
            c = self.stack[depth]
            ind = len(s) - len(s.lstrip(' '))
            if c.kind == 'quote':
                if ind <= 3 and s[ind:ind + 1] == '>':
                    s = s[ind + 1:]
                    if s[:1] == ' ':
                        s = s[1:]
                else:
                    break
            elif c.kind == 'item':
                if not s.strip():
                    if not c.kids:
                        break
                    s = ''
                elif ind >= c.indent:
                    s = s[c.indent:]
                else:
                    break
            depth += 1
        matched = depth == len(self.stack)
        if not matched and self.stack[depth].kind == 'item' and depth > 1 \
                and self.stack[depth - 1].kind == 'list':
            pass
        tip = self.leaf()
        if matched and tip is not None and tip.kind in ('fence', 'html'):
            return self.more(tip, s)
        lazy = not matched and tip is not None and tip.kind == 'para'
        para = tip if matched and tip is not None and \
            tip.kind == 'para' else None
        fresh = True
        while True:
            ind = len(s) - len(s.lstrip(' '))
            body = s[ind:]
            if not body.strip() or ind >= 4:
                break
            interrupts = para is not None or lazy
            if body[0] == '>':
                self.begin(depth, fresh)
                fresh = False
                s = body[1:]
                if s[:1] == ' ':
                    s = s[1:]
                self.add(Block('quote'), None)
                depth = len(self.stack)
                para, lazy = None, False
                continue
            m = re.match(r'(#{1,6})(?:[ \t]+(.*?))?(?:[ \t]+#+)?[ \t]*$',
                         body)
            if m:
                self.begin(depth, fresh)
                self.add(Block('head', level=len(m.group(1)),
                               text=m.group(2) or '', ), True)
                return
            m = re.match(r'(`{3,})([^`]*)$|(~{3,})(.*)$', body)
            if m:
                self.begin(depth, fresh)
                self.add(Block('fence', fence=m.group(1) or m.group(3),
                               info=(m.group(2) or m.group(4) or ''
                                     ).strip(), indent=ind), True)
                return
            end = self.html_start(body, interrupts)
            if end:
                self.begin(depth, fresh)
                b = self.add(Block('html', end=end), True)
                return self.more(b, s)
            if para is not None and re.match(r'(=+|-+)[ \t]*$', body):
                b = self.leaf()
                b.kind, b.open = 'head', False
                b.level = 1 if body[0] == '=' else 2
                b.text = '\n'.join(b.lines)
                return
            if re.match(r'(?:(?:\*[ \t]*){3,}|(?:-[ \t]*){3,}|'
                        r'(?:_[ \t]*){3,})$', body):
                self.begin(depth, fresh)
                self.add(Block('hr'), True)
                return
            m = re.match(r'([-+*]|\d{1,9}[.)])(?: +|$)', body)
            if m and not (para is not None and not self.in_list(depth) and (
                    not body[m.end():].strip() or m.group(1)[-1] in '.)'
                    and m.group(1)[:-1] != '1')):
                mark = m.group(1)
                pad = len(m.group(0)) - len(mark)
                rest = body[m.end():]
                if not rest.strip():
                    pad, rest = 1, ''
                elif pad > 4:
                    rest = ' ' * (pad - 1) + rest
                    pad = 1
                self.begin(depth, fresh)
                fresh = False
                self.item(mark, ind + len(mark) + pad)
                s = rest
                depth = len(self.stack)
                para, lazy = None, False
                continue
            break
        if not fresh:
            self.text(s, None)
            return
        if lazy and s.strip():
            tip.lines.append(s.strip())
            return
        ind = len(s) - len(s.lstrip(' '))
        if s.strip() and ind >= 4 and para is None:
            self.begin(depth, True)
            self.text(s, None)
            return
        self.begin(depth, fresh)
        self.text(s, para)

    def in_list(self, depth):
        """An item of the list the line is in may begin here."""
        return depth < len(self.stack) and self.stack[depth].kind in (
            'list', 'item') or self.stack[depth - 1].kind == 'list'

    def begin(self, depth, first):
        if first:
            self.close(depth)

    def item(self, mark, indent):
        kind = ('OL', mark[-1]) if mark[-1] in '.)' else ('UL', mark)
        top = self.stack[-1]
        if top.kind == 'list' and top.mark != kind:
            self.close(len(self.stack) - 1)
            top = self.stack[-1]
        if top.kind != 'list':
            b = self.add(Block('list', mark=kind, start=mark[:-1]), None)
        self.add(Block('item', indent=indent), None)

    def text(self, s, para):
        tip = self.leaf()
        if not s.strip():
            if tip is not None and tip.kind == 'para':
                tip.open = False
            elif tip is not None:
                self.more(tip, s)
            return
        if tip is not None and tip.kind == 'para':
            tip.lines.append(s.lstrip(' '))
            return
        if len(s) - len(s.lstrip(' ')) >= 4:
            if tip is None or tip.kind != 'icode':
                tip = self.add(Block('icode'), True)
            tip.lines.append(s[4:])
            return
        b = self.add(Block('para'), True)
        b.lines.append(s.lstrip(' '))

    def more(self, b, s):
        if b.kind == 'fence':
            m = re.match(r' {0,3}(`{3,}|~{3,})[ \t]*$', s)
            if m and m.group(1)[0] == b.fence[0] and len(
                    m.group(1)) >= len(b.fence):
                b.open = False
                return
            n = 0
            while n < b.indent and s[n:n + 1] == ' ':
                n += 1
            b.lines.append(s[n:])
        elif b.kind == 'icode':
            b.lines.append(s[4:])
        elif b.kind == 'html':
            if b.end == 'blank':
                if not s.strip():
                    b.open = False
                    return
                b.lines.append(s)
            else:
                b.lines.append(s)
                if b.end in s:
                    b.open = False
        else:
            b.lines.append(s)

    def html_start(self, s, interrupts):
        if s[0] != '<':
            return None
        for a, e in (('<!--', '-->'), ('<?', '?>'), ('<![CDATA[', ']]>')):
            if s.startswith(a):
                return e
        m = re.match(r'</?([A-Za-z][A-Za-z0-9]*)(?:\s|/?>|$)', s)
        if m and m.group(1).lower() in BLOCKTAGS:
            return 'blank'
        if not interrupts and re.match(TAG + r'\s*$', s):
            return 'blank'
        return None

    def definitions(self, b):
        for k in b.kids:
            self.definitions(k)
            if k.kind == 'para':
                while k.lines:
                    m = re.match(
                        r'\[((?:[^\[\]\\]|\\.)+)\]:\s*(<[^<>\n]*>|\S+)'
                        r'(?:\s+("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\''
                        r'|\((?:[^()\\]|\\.)*\)))?\s*$', k.lines[0])
                    if not m:
                        break
                    d = m.group(2)
                    d = d[1:-1] if d[0] == '<' else d
                    t = m.group(3)
                    self.refs.setdefault(
                        ' '.join(m.group(1).lower().split()),
                        (unescape(d), None if t is None else unescape(
                            t[1:-1])))
                    del k.lines[0]

    def tree(self, b):
        k = b.kind
        sub = [x for x in (self.tree(c) for c in b.kids) if x is not None]
        if k == 'para':
            if not b.lines:
                return None
            t = self.table(b.lines)
            if t is not None:
                return t
            return ('P', self.inlines('\n'.join(b.lines)))
        if k == 'head':
            return ('H', b.level, self.inlines(b.text))
        if k == 'hr':
            return ('HR',)
        if k == 'fence':
            return ('CODE', b.info, '\n'.join(b.lines))
        if k == 'icode':
            while b.lines and not b.lines[-1].strip():
                b.lines.pop()
            return ('CODE', None, '\n'.join(b.lines))
        if k == 'html':
            return ('HTML', '\n'.join(b.lines))
        if k == 'quote':
            return ('QUOTE', tuple(sub))
        if k == 'item':
            task = None
            if 'tasklists' in self.ext and b.kids and \
                    b.kids[0].kind == 'para':
                m = re.match(r'\[([ xX])\] +', '\n'.join(b.kids[0].lines))
                if m:
                    task = m.group(1)
                    b.kids[0].lines[0] = b.kids[0].lines[0][m.end():]
                    sub = [x for x in (self.tree(c) for c in b.kids)
                           if x is not None]
            return (task, tuple(sub))
        if k == 'list':
            return (b.mark[0], tuple(sub))
        raise AssertionError(k)

    def cells(self, row):
        row = row.strip()
        if row.startswith('|'):
            row = row[1:]
        out, cur, i, tick = [], '', 0, None
        while i < len(row):
            c = row[i]
            if c == '\\' and i + 1 < len(row):
                cur += row[i:i + 2] if row[i + 1] != '|' else '|'
                i += 2
                continue
            if c == '`':
                m = re.match('`+', row[i:]).group(0)
                j = i + len(m)
                close = re.search(r'(?<!`)' + m + r'(?!`)', row[j:])
                if close and '|' not in row[j:j + close.start()]:
                    n = j + close.end()
                    cur += row[i:n]
                    i = n
                    continue
                cur += m
                i = j
                continue
            if c == '|':
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
            i += 1
        if cur.strip() or not row.endswith('|'):
            out.append(cur.strip())
        return out

    def table(self, lines):
        if 'tables' not in self.ext or len(lines) < 2 or '|' not in lines[0]:
            return None
        head, under = self.cells(lines[0]), self.cells(lines[1])
        if len(head) != len(under) or not all(
                re.match(r':?-+:?$', u) for u in under) or \
                '|' not in lines[1]:
            return None
        al = {(False, False): 'DEFAULT', (True, False): 'LEFT',
              (False, True): 'RIGHT', (True, True): 'CENTER'}
        aligns = tuple(al[(u[0] == ':', u[-1] == ':')] for u in under)
        rows = [head]
        for l in lines[2:]:
            c = self.cells(l)[:len(head)]
            rows.append(c + [''] * (len(head) - len(c)))
        return ('TABLE', aligns, tuple(
            tuple(self.inlines(c) for c in r) for r in rows))

    # ------------------------------------------------------------ inlines
    def inlines(self, s):
        out = self.scan(s.strip())
        return norm(out)

    def scan(self, s):
        nodes, delims, brackets = [], [], []
        i = 0

        def put(x):
            nodes.append(x)
        while i < len(s):
            c = s[i]
            if c == '\\' and i + 1 < len(s):
                if s[i + 1] in PUNCT:
                    put(s[i + 1])
                    i += 2
                    continue
                if s[i + 1] == '\n':
                    put(('BR',))
                    i += 2
                    continue
                put(c)
                i += 1
            elif c == '\n':
                if s[:i].endswith('  '):
                    put(('BR',))
                else:
                    put(' ')
                i += 1
            elif c == '`':
                m = re.match('`+', s[i:]).group(0)
                j = i + len(m)
                e = re.search(r'(?<!`)' + m + r'(?!`)', s[j:])
                if e and e.start() == 0 and not e.group(0):
                    e = None
                if e:
                    put(('ICODE', code(s[j:j + e.start()])))
                    i = j + e.end()
                else:
                    put(m)
                    i = j
            elif c == '$' and 'latex_math_spans' in self.ext:
                m = re.match(r'\$+', s[i:]).group(0)
                j = i + len(m)
                e = len(m) <= 2 and re.search(
                    r'(?<!\$)' + re.escape(m) + r'(?!\$)', s[j:])
                if e and e.start() > 0:
                    put(('MATH' if len(m) == 1 else 'DISPLAY',
                         s[j:j + e.start()].replace('\n', ' ')))
                    i = j + e.end()
                else:
                    put(m)
                    i = j
            elif c == '<':
                m = re.match(r'<([A-Za-z][A-Za-z0-9+.-]+:[^\s<>]*)>', s[i:]
                             ) or re.match(r'<([\w.+-]+@[\w.-]+)>', s[i:])
                r = re.match(TAG + r'|<!--(?:.|\n)*?-->', s[i:])
                if m:
                    h = m.group(1)
                    put(('A', h if ':' in h else 'mailto:' + h, None, h))
                    i += m.end()
                elif r:
                    put(('RAW', r.group(0)))
                    i += r.end()
                else:
                    put(c)
                    i += 1
            elif c == '&':
                m = re.match(r'&(?:#?\w+);', s[i:])
                if m and (m.group(0) in ENT or m.group(0)[1] == '#'):
                    put(ENT.get(m.group(0), m.group(0)))
                    i += m.end()
                else:
                    put(c)
                    i += 1
            elif c == '[' and 'wikilinks' in self.ext and re.match(
                    r'\[\[[^\[\]\n|]+(?:\|[^\[\]]+)?\]\]', s[i:]):
                m = re.match(r'\[\[([^\[\]\n|]+)(?:\|([^\[\]]+))?\]\]', s[i:])
                t = m.group(2) if m.group(2) is not None else m.group(1)
                put(('WIKI', m.group(1)) + self.inlines(t))
                i += m.end()
            elif c == '!' and s[i + 1:i + 2] == '[':
                brackets.append([len(nodes), i + 2, True, True, len(delims)])
                put('![')
                i += 2
            elif c == '[':
                brackets.append([len(nodes), i + 1, False, True, len(delims)])
                put('[')
                i += 1
            elif c == ']':
                if not brackets:
                    put(c)
                    i += 1
                    continue
                at, start, img, active, nd = brackets.pop()
                got = active and self.target(s, i, start)
                if not got:
                    put(c)
                    i += 1
                    continue
                (href, title), i = got
                inner = nodes[at + 1:]
                self.emphasis(nodes, delims, nd)
                inner = nodes[at + 1:]
                del nodes[at:]
                put((('IMG' if img else 'A'), href, title) + norm(inner))
                if not img:
                    for b in brackets:
                        if not b[2]:
                            b[3] = False
            elif c in '*_' or c == '~' and 'strikethrough' in self.ext:
                n = len(re.match(re.escape(c) + '+', s[i:]).group(0))
                before = s[i - 1] if i else ' '
                after = s[i + n] if i + n < len(s) else ' '

                def ws(x):
                    return x.isspace() or x == '\xa0'
                lf = not ws(after) and (after not in PUNCT or ws(before)
                                        or before in PUNCT)
                rf = not ws(before) and (before not in PUNCT or ws(after)
                                         or after in PUNCT)
                if c == '_':
                    o = lf and (not rf or before in PUNCT)
                    cl = rf and (not lf or after in PUNCT)
                else:
                    o, cl = lf, rf
                d = [len(nodes), c, n, o, cl, n]
                node = Delim(c, n)
                d.append(node)
                delims.append(d)
                put(node)
                i += n
            else:
                put(c)
                i += 1
        self.emphasis(nodes, delims, 0)
        return nodes

    def target(self, s, i, start):
        """After the bracket closed at i: ((href, title), position)."""
        m = re.match(
            r'\(\s*(?:(<(?:[^<>\n\\]|\\.)*>)|((?:[^\s()\\<]|\\.|\((?:[^\s()'
            r'\\]|\\.|\((?:[^\s()\\]|\\.)*\))*\))(?:[^\s()\\]|\\.|'
            r'\((?:[^\s()\\]|\\.|\((?:[^\s()\\]|\\.)*\))*\))*)?)'
            r'(?:\s+("(?:[^"\\]|\\(?:.|\n))*"|\'(?:[^\'\\]|\\(?:.|\n))*\'|'
            r'\((?:[^()\\]|\\(?:.|\n))*\)))?\s*\)', s[i + 1:])
        if m:
            h = m.group(1)[1:-1] if m.group(1) is not None else \
                m.group(2) or ''
            t = m.group(3)
            return (unescape(h), None if t is None else unescape(
                t[1:-1])), i + 1 + m.end()
        m = re.match(r'\[((?:[^\[\]\\]|\\.)*)\]', s[i + 1:])
        label = s[start:i]
        end = i + 1
        if m:
            if m.group(1).strip():
                label = m.group(1)
            end = i + 1 + m.end()
        r = self.refs.get(' '.join(label.lower().split()))
        if r is not None:
            return r, end
        return None

    def emphasis(self, nodes, delims, bottom):
        k = bottom
        while k < len(delims):
            cl = delims[k]
            if not cl[4] or not cl[6].n:
                k += 1
                continue
            c = cl[1]
            j = k - 1
            found = None
            while j >= bottom:
                op = delims[j]
                if op[1] == c and op[3] and op[6].n:
                    if c == '~':
                        ok = op[6].n == cl[6].n <= 2
                    else:
                        ok = not ((op[4] or cl[3]) and
                                  (op[5] + cl[5]) % 3 == 0 and
                                  (op[5] % 3 or cl[5] % 3))
                    if ok:
                        found = j
                        break
                j -= 1
            if found is None:
                k += 1
                continue
            op = delims[found]
            if c == '~':
                n, kind = cl[6].n, 'DEL'
            elif c == '_' and 'underline' in self.ext:
                n, kind = 1, 'U'
            elif op[6].n >= 2 and cl[6].n >= 2:
                n, kind = 2, 'STRONG'
            else:
                n, kind = 1, 'EM'
            a = index(nodes, op[6])
            b = index(nodes, cl[6])
            inner = nodes[a + 1:b]
            op[6].n -= n
            cl[6].n -= n
            nodes[a + 1:b] = [(kind,) + norm(inner)]
            for d in delims[found + 1:k]:
                d[6].n = 0
        del delims[bottom:]


class Delim:
    def __init__(self, c, n):
        self.c, self.n = c, n


def index(nodes, x):
    for i, n in enumerate(nodes):
        if n is x:
            return i
    raise ValueError


def unescape(s):
    s = re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', s)
    return re.sub(r'&\w+;', lambda m: ENT.get(m.group(0), m.group(0)), s)


def code(s):
    s = s.replace('\n', ' ')
    if len(s) > 1 and s[0] == s[-1] == ' ' and s.strip(' '):
        s = s[1:-1]
    return s


def norm(nodes):
    """Join the pieces of text; line breaks and spaces are one space."""
    out = []
    for n in nodes:
        if isinstance(n, Delim):
            n = n.c * n.n
        if isinstance(n, str):
            if out and isinstance(out[-1], str):
                out[-1] += n
            else:
                out.append(n)
        else:
            if n[0] == 'BR' and out and isinstance(out[-1], str):
                out[-1] = out[-1].rstrip(' ')
            out.append(n)
    res = []
    for n in out:
        if isinstance(n, str):
            n = re.sub('[ \n]+', ' ', n)
            if res and res[-1] == ('BR',):
                n = n.lstrip(' ')
            if not n:
                continue
        res.append(n)
    if res and isinstance(res[0], str):
        res[0] = res[0].lstrip(' ')
    if res and isinstance(res[-1], str):
        res[-1] = res[-1].rstrip(' ')
    return tuple(canonical(x) for x in res if x != '')


def canonical(n):
    """One form of what is shown alike: the blanks around a display formula
    are nothing, emphasis all over strong text is strong emphasis, and the
    text of an image is shown without its markup."""
    if n[0] == 'DISPLAY':
        return ('DISPLAY', re.sub('[ \n]+', ' ', n[1]).strip(' '))
    if n[0] == 'STRONG' and len(n) == 2 and n[1][0] == 'EM':
        return ('EM', ('STRONG',) + n[1][1:])
    if n[0] == 'IMG':
        # the alternative text is plain
        return n[:3] + ((alt(n[3:]),) if n[3:] else ())
    return n


def alt(nodes):
    return ''.join(
        x if isinstance(x, str) else ' ' if x[0] == 'BR' else
        alt(x[3:] if x[0] in ('A', 'IMG') else
            x[2:] if x[0] == 'WIKI' else x[1:]) for x in nodes)


# ------------------------------------------------- the tree of parser events
def from_events(evs, show):
    """evs: ('eb'|'lb', block, details), ('es'|'ls', span, details),
    ('t', type, text); show: the string of a text or attribute."""
    stack = [['doc', {}, []]]

    def attr(d, k):
        v = d.get(k)
        return None if v is None else show(v)
    for ev in evs:
        k = ev[0]
        if k in ('eb', 'es'):
            stack.append([ev[1], dict(ev[2]), []])
        elif k == 't':
            x = show(ev[2])
            if ev[1] == 'BR':
                x = ('BR',)
            elif ev[1] == 'SOFTBR':
                x = ' '
            elif ev[1] == 'ENTITY':
                x = ENT.get(x, x)
            elif ev[1] == 'HTML':
                x = ('RAW', x)
            stack[-1][2].append(x)
        else:
            name, d, kids = stack.pop()
            if k == 'lb':
                d.update(ev[2])
            out = node(name, d, kids, attr)
            if out is not None:
                stack[-1][2].append(out)
    return [x for x in blocks_of(stack[0][2])]


def blocks_of(kids):
    """Text directly in an item is a paragraph."""
    out, run = [], []
    for x in list(kids) + [None]:
        if x is not None and (isinstance(x, str) or x[0] in INLINE):
            run.append(x)
            continue
        if run:
            n = norm(run)
            if n:
                out.append(('P', n))
            run = []
        if x is not None:
            out.append(x)
    return tuple(out)


INLINE = {'BR', 'EM', 'STRONG', 'DEL', 'U', 'ICODE', 'MATH', 'DISPLAY',
          'RAW', 'A', 'IMG', 'WIKI'}


def flat_text(kids):
    return ''.join(x if isinstance(x, str) else x[1] if x[0] == 'RAW' else ''
                   for x in kids)


def node(name, d, kids, attr):
    if name == 'P':
        return ('P', norm(fix(kids)))
    if name == 'H':
        return ('H', d['level'], norm(fix(kids)))
    if name == 'CODE' and 'fence_char' in d:
        fenced = d.get('fence_char') not in (None, '', '\0')
        t = flat_text(kids)
        t = t[:-1] if t.endswith('\n') else t
        info = attr(d, 'info') or ''
        return ('CODE', info if fenced else None, t if fenced else
                t.rstrip('\n'))
    if name == 'DOC':
        return ('DOC',) + blocks_of(kids)
    if name == 'HR':
        return ('HR',)
    if name == 'HTML':
        return ('HTML', flat_text(kids).rstrip('\n'))
    if name == 'QUOTE':
        return ('QUOTE', blocks_of(kids))
    if name in ('UL', 'OL'):
        return (name, tuple(kids))
    if name == 'LI':
        return (d.get('task_mark') if d.get('is_task') else None,
                blocks_of(fix(kids)))
    if name == 'TABLE':
        rows = [r for part in kids for r in part[1]]
        return ('TABLE', tuple(c[1] for c in rows[0]),
                tuple(tuple(c[2] for c in r) for r in rows))
    if name in ('THEAD', 'TBODY'):
        return (name, kids)
    if name == 'TR':
        return tuple(kids)
    if name in ('TH', 'TD'):
        return ('cell', str(d.get('align')).split('.')[-1].strip('<>'),
                norm(fix(kids)))
    if name == 'CODE':
        return ('ICODE', flat_text(kids))
    kids = norm(fix(kids))
    if name == 'A':
        return ('A', attr(d, 'href') or '', attr(d, 'title') or None) + kids
    if name == 'IMG':
        return ('IMG', attr(d, 'src') or '', attr(d, 'title') or None) + kids
    if name == 'WIKILINK':
        return ('WIKI', attr(d, 'target')) + kids
    if name in ('LATEXMATH', 'LATEXMATH_DISPLAY'):
        return ('MATH' if name == 'LATEXMATH' else 'DISPLAY',
                flat_text(kids))
    return (name,) + kids


def fix(kids):
    return kids


def merged(blocks):
    """Adjacent blocks of HTML are one."""
    out = []
    for b in blocks:
        if b[0] == 'HTML':
            b = ('HTML', '\n'.join(l.strip() for l in b[1].split('\n')
                                   if l.strip()))
            if out and out[-1][0] == 'HTML':
                out[-1] = ('HTML', out[-1][1] + '\n' + b[1])
                continue
        elif b[0] == 'QUOTE':
            b = ('QUOTE', tuple(merged(b[1])))
        elif b[0] in ('UL', 'OL'):
            b = (b[0], tuple((t, tuple(merged(k))) for t, k in b[1]))
        elif b[0] == 'CODE':
            b = ('CODE', b[1], b[2].rstrip('\n'))
        out.append(b)
    return out
