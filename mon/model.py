"""Reference models, written from the documentation of md-toc, the CommonMark
0.30 / GFM 0.29 specifications and the redcarpet C sources quoted in the docs.

Nothing in this file imports or reads md_toc: it is the oracle side.
"""
from __future__ import annotations

import re
import string
import unicodedata

CMARK_LIKE = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark')
ALL_PARSERS = CMARK_LIKE + ('redcarpet',)
# GFM 0.29: spaces only. CommonMark 0.30: spaces and tabs.
SPACE_ONLY = ('github', 'commonmarker')
MAX_LABEL = 999
MAX_ORDERED = 999999999


def ws_for(parser: str) -> str:
    return ' ' if parser in SPACE_ONLY else ' \t'


# --------------------------------------------------------------------------
# Lines.
# --------------------------------------------------------------------------
def split_lines(text: str) -> list[str]:
    """Lines as the user sees them: LF, CR and CRLF end a line."""
    t = text.replace('\r\n', '\n').replace('\r', '\n')
    out = t.split('\n')
    if out and out[-1] == '':
        out.pop()
    return out


# --------------------------------------------------------------------------
# Fenced code blocks.
# --------------------------------------------------------------------------
_OPEN = re.compile(r' {0,3}(?:(`{3,})([^`]*)|(~{3,})(.*))\Z', re.DOTALL)


def fence_open(line: str):
    m = _OPEN.match(line)
    if m is None:
        return None
    run = m.group(1) or m.group(3)
    return run[0], len(run)


def fence_close(line: str, char: str, length: int, parser: str) -> bool:
    body = line.lstrip(' ')
    if len(line) - len(body) > 3:
        return False
    n = len(body) - len(body.lstrip(char))
    return n >= length and body[n:].strip(ws_for(parser)) == ''


def code_mask(lines: list[str], parser: str) -> list[bool]:
    """True for the lines that belong to a fenced code block."""
    if parser not in CMARK_LIKE:
        return [False] * len(lines)
    mask = []
    state = None
    for ln in lines:
        if state is None:
            state = fence_open(ln)
            mask.append(state is not None)
        else:
            mask.append(True)
            if fence_close(ln, state[0], state[1], parser):
                state = None
    return mask


# --------------------------------------------------------------------------
# ATX headings: (level, raw content) or None.
# --------------------------------------------------------------------------
def atx(line: str, parser: str):
    if parser == 'redcarpet':
        if not line.startswith('#'):
            return None
        lvl = 0
        while lvl < len(line) and lvl < 6 and line[lvl] == '#':
            lvl += 1
        if lvl < len(line) and line[lvl] != ' ':
            return None
        i = lvl
        while i < len(line) and line[i] == ' ':
            i += 1
        end = len(line)
        while end and line[end - 1] == '#':
            end -= 1
        while end and line[end - 1] == ' ':
            end -= 1
        return (lvl, line[i:end]) if end > i else None
    ws = ws_for(parser)
    body = line.lstrip(' ')
    if len(line) - len(body) > 3:
        return None
    lvl = len(body) - len(body.lstrip('#'))
    if not 1 <= lvl <= 6:
        return None
    rest = body[lvl:]
    if rest and rest[0] not in ws:
        return None
    rest = rest.strip(ws)
    stem = rest.rstrip('#')
    if stem != rest and (stem == '' or stem[-1] in ws):
        rest = stem.rstrip(ws)
    return lvl, rest


# --------------------------------------------------------------------------
# Link labels.
# --------------------------------------------------------------------------
def escape_brackets(s: str) -> str:
    out = []
    slashes = 0
    for c in s:
        if c in '[]' and slashes % 2 == 0:
            out.append('\\')
        out.append(c)
        slashes = slashes + 1 if c == '\\' else 0
    return ''.join(out)


def label(content: str, parser: str) -> str:
    """Text between the brackets of a TOC entry."""
    if content.endswith('\\'):
        content += ' '
    return content if parser == 'redcarpet' else escape_brackets(content)


def label_is_blank(content: str) -> bool:
    return content.strip(' \t\n\v\f\r') == ''


# --------------------------------------------------------------------------
# Emphasis: positions of the delimiter characters CommonMark consumes.
# --------------------------------------------------------------------------
ASCII_PUNCT = set(string.punctuation)
_SP = r'[ \t\n\r\f\v]'
_ATTR = (r'(?:' + _SP + r'+[a-zA-Z_:][a-zA-Z0-9:._-]*(?:' + _SP + r'*=' + _SP +
         r'*(?:[^ \t\r\n\v\f"\'=<>`\x00]+|\'[^\'\x00]*\'|"[^"\x00]*"))?)')
_TAG = re.compile(r'<[A-Za-z][A-Za-z0-9-]*' + _ATTR + r'*' + _SP + r'*/?>'
                  r'|</[A-Za-z][A-Za-z0-9-]*' + _SP + r'*>')
_COMMENT = re.compile(r'<!--(?!>|->)(?:(?!--).)*?(?<!-)-->', re.DOTALL)
_PI = re.compile(r'<\?.*?\?>', re.DOTALL)
# GFM 0.29 and cmark ask for an upper case name and a space, CommonMark 0.30
# for a letter.
_DECL = re.compile(r'<![A-Z]+' + _SP + r'+[^>\x00]*>', re.DOTALL)
DECL_WIDE = re.compile(r'<![A-Za-z][^>]*>', re.DOTALL)
_CDATA = re.compile(r'<!\[CDATA\[.*?\]\]>', re.DOTALL)
_URI = re.compile(r'<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^\x00-\x20<>]*>')
_MAIL = re.compile(
    r"<[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}"
    r'[a-zA-Z0-9])?(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*>')


def uspace(c: str) -> bool:
    return c in '\t\n\f\r' or unicodedata.category(c) == 'Zs'


def upunct(c: str) -> bool:
    return c in ASCII_PUNCT or unicodedata.category(c).startswith('P')


class _Delim:
    __slots__ = ('ch', 'lo', 'hi', 'orig', 'o', 'c')

    def __init__(self, ch, pos, n, o, c):
        # The characters of the run still unused are lo..hi (exclusive): a
        # closer is used up from the left, an opener from the right.
        self.ch, self.lo, self.hi, self.orig = ch, pos, pos + n, n
        self.o, self.c = o, c

    @property
    def n(self):
        return self.hi - self.lo


def emphasis_indices(s: str) -> set[int]:
    """Indices of ``s`` used up as emphasis delimiters.

    ``s`` must not contain active (unescaped) square brackets.
    """
    delims: list[_Delim] = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '\\' and i + 1 < n and s[i + 1] in ASCII_PUNCT:
            i += 2
        elif c == '`':
            j = i
            while j < n and s[j] == '`':
                j += 1
            k = j
            end = None
            while k < n:
                if s[k] != '`':
                    k += 1
                    continue
                e = k
                while e < n and s[e] == '`':
                    e += 1
                if e - k == j - i:
                    end = e
                    break
                k = e
            i = end if end is not None else j
        elif c == '<':
            m = None
            for r in (_URI, _MAIL, _TAG, _COMMENT, _PI, _CDATA, _DECL):
                m = r.match(s, i)
                if m:
                    break
            i = m.end() if m else i + 1
        elif c in '*_':
            j = i
            while j < n and s[j] == c:
                j += 1
            b = s[i - 1] if i else '\n'
            a = s[j] if j < n else '\n'
            left = not uspace(a) and (not upunct(a) or uspace(b) or upunct(b))
            right = not uspace(b) and (not upunct(b) or uspace(a)
                                       or upunct(a))
            if c == '_':
                o = left and (not right or upunct(b))
                cl = right and (not left or upunct(a))
            else:
                o, cl = left, right
            delims.append(_Delim(c, i, j - i, o, cl))
            i = j
        else:
            i += 1
    used: set[int] = set()
    ci = 0
    while ci < len(delims):
        cl = delims[ci]
        if not cl.c or cl.n == 0:
            ci += 1
            continue
        oi = ci - 1
        while oi >= 0:
            op = delims[oi]
            if op.o and op.ch == cl.ch and op.n > 0:
                odd = ((cl.o or op.c) and (op.orig + cl.orig) % 3 == 0
                       and not (op.orig % 3 == 0 and cl.orig % 3 == 0))
                if not odd:
                    break
            oi -= 1
        if oi < 0:
            ci += 1
            continue
        op = delims[oi]
        k = 2 if op.n >= 2 and cl.n >= 2 else 1
        used.update(range(op.hi - k, op.hi))
        used.update(range(cl.lo, cl.lo + k))
        op.hi -= k
        cl.lo += k
        # Delimiters between the two are no longer usable.
        del delims[oi + 1:ci]
        ci = oi + 1
        if op.n == 0:
            del delims[oi]
            ci -= 1
        if cl.n == 0:
            del delims[ci]
    return used


def strip_emphasis(s: str) -> str:
    s = s.replace('\x00', '')
    # Trailing white space takes no part in inline parsing.
    e = len(s)
    while e and uspace(s[e - 1]):
        e -= 1
    used = emphasis_indices(s[:e])
    return ''.join(ch for i, ch in enumerate(s) if i not in used)


# --------------------------------------------------------------------------
# Anchors.
# --------------------------------------------------------------------------
def slug_chars(text: str, parser: str) -> str:
    """Lower case, drop what is not a word character, hyphen or space, turn
    the spaces into hyphens (gitlab: squeeze the hyphens)."""
    out = ''.join('-' if c == ' ' else c for c in text.lower()
                  if c in ' -_' or c.isalnum())
    if parser == 'gitlab':
        out = re.sub('-{2,}', '-', out)
    return out


def slug(content: str, parser: str) -> str:
    """Base anchor of a heading without inline HTML."""
    if parser == 'redcarpet':
        return slug_redcarpet(content)
    return slug_chars(strip_emphasis(escape_brackets(content)), parser)


_RC_STRIPPED = set(" -&+$,/:;=?@\"#{}|^~[]`\\*()%.!'")


def slug_redcarpet(text: str) -> str:
    """rndr_header_anchor of redcarpet's html.c."""
    out: list[str] = []
    gap = False
    i = 0
    while i < len(text):
        c = text[i]
        if c in '<&':
            end = '>' if c == '<' else ';'
            k = text.find(end, i)
            i = len(text) if k < 0 else k
        elif ord(c) > 127 or c in _RC_STRIPPED:
            if out and not gap:
                out.append('-')
            gap = True
        else:
            out.append(c.lower())
            gap = False
        i += 1
    if out:
        # A dash is only there if something came before it.
        return ''.join(out[:-1] if gap else out)
    if not text:
        return ''
    h = 5381
    for b in text.encode('utf-8'):
        h = (h * 33 + b) % (1 << 64)
    return 'part-%x' % h


class Anchors:
    """Numbers repeated anchors: ``slug``, ``slug-1``, ``slug-2``..."""

    def __init__(self, parser: str):
        self.parser = parser
        self.seen: dict[str, int] = {}

    def __call__(self, base: str) -> str:
        if self.parser == 'redcarpet':
            return base
        n = self.seen.get(base, 0)
        self.seen[base] = n + 1
        return base if n == 0 else f'{base}-{n}'


# --------------------------------------------------------------------------
# Whole documents.
# --------------------------------------------------------------------------
class Opts:
    """Options of a table of contents, with the defaults of the API."""
    FIELDS = dict(ordered=False, no_links=False, no_indentation=False,
                  no_list_coherence=False, keep_header_levels=3,
                  parser='github', list_marker='-', skip_lines=0,
                  constant_ordered_list=False, newline_string='\n')

    def __init__(self, **kw):
        for k, v in self.FIELDS.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw

    def kwargs(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    @property
    def numbered(self):
        return self.ordered or self.constant_ordered_list

    @property
    def marker(self):
        """The marker in effect."""
        if not self.numbered:
            return self.list_marker
        ok = ('.', ) if self.parser == 'redcarpet' else ('.', ')')
        return self.list_marker if self.list_marker in ok else '.'


class Entry:
    __slots__ = ('line', 'level', 'content', 'anchor', 'base', 'index',
                 'indent', 'visible')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def headings(text: str, parser: str, skip: int = 0):
    """[(line number, level, content)], hidden ones included."""
    lines = split_lines(text)[skip:]
    mask = code_mask(lines, parser)
    out = []
    for i, ln in enumerate(lines):
        if mask[i]:
            continue
        h = atx(ln, parser)
        if h is not None:
            out.append((skip + i + 1, h[0], h[1]))
    return out


EMPTY = 'GithubEmptyLinkLabel'
OVERFLOW = 'GithubOverflowCharsLinkLabel'
INCOHERENT = 'TocDoesNotRenderAsCoherentList'


def toc_entries(text: str, o: Opts, slug_fn=slug):
    """(entries shown, exception name or None, exceptions of hidden ones)."""
    anchors = Anchors(o.parser)
    out: list[Entry] = []
    first = prev = 0
    counts: dict[int, int] = {}
    indents: dict[int, int] = {}
    for lineno, level, content in headings(text, o.parser, o.skip_lines):
        visible = level <= o.keep_header_levels
        if o.parser != 'redcarpet' and not o.no_links:
            err = None
            if label_is_blank(content):
                err = EMPTY
            elif len(content) + content.endswith('\\') > MAX_LABEL:
                err = OVERFLOW
            if err:
                return out, err
        base = slug_fn(content, o.parser)
        anchor = anchors(base)
        if not visible:
            continue
        if not o.no_indentation and not o.no_list_coherence and out:
            if level < first or level > prev + 1:
                return out, INCOHERENT
        if not out:
            first = level
        if o.constant_ordered_list or not o.ordered:
            index = 1
        else:
            if level > prev:
                counts[level] = 0
            counts[level] = counts.get(level, 0) + 1
            index = counts[level]
        if o.no_indentation:
            indent = 0
        elif o.parser == 'redcarpet':
            indent = 4 * (level - 1)
        elif not out:
            indent = 0
        elif level > prev:
            parent = out[-1]
            indent = parent.indent + len(o.marker) + 1
            if o.numbered:
                indent += len(str(parent.index))
        else:
            # Same column as the previous sibling.
            indent = indents.get(level, 0)
        indents[level] = indent
        for k in [k for k in indents if k > level]:
            del indents[k]
        out.append(Entry(line=lineno, level=level, content=content,
                         anchor=anchor, base=base, index=index,
                         indent=indent, visible=True))
        prev = level
    return out, None


def entry_text(e: Entry, o: Opts) -> str:
    num = str(e.index) if o.numbered else ''
    if o.no_links:
        body = e.content
    else:
        body = f'[{label(e.content, o.parser)}](#{e.anchor})'
    return ' ' * e.indent + num + o.marker + ' ' + body


def toc(text: str, o: Opts, slug_fn=slug):
    """('ok', text) or ('raise', exception name)."""
    entries, err = toc_entries(text, o, slug_fn)
    if err:
        return 'raise', err
    return 'ok', ''.join(entry_text(e, o) + o.newline_string for e in entries)


# --------------------------------------------------------------------------
# In place writing.  Lines are given without their terminators.
# --------------------------------------------------------------------------
_LIST = re.compile(r' {0,3}(?:[-+*]|[0-9]+[.)]) (?![ \t\v])')


def marker_lines(lines: list[str], marker: str) -> list[int]:
    m = marker.strip()
    return [i for i, ln in enumerate(lines) if ln.strip() == m]


def find_region(lines: list[str], marker: str):
    """(kind, start, end) with [start, end) the lines to be replaced.

    kind is one of none, single, region, fresh.
    """
    pos = marker_lines(lines, marker)
    if not pos:
        return 'none', 0, 0
    if len(pos) == 1:
        return 'single', pos[0], pos[0] + 1
    for a, b in zip(pos, pos[1:]):
        inner = lines[a + 1:b]
        if all(ln.strip(' \t\v') == '' for ln in inner):
            return 'region', a, b + 1
        if _LIST.match(''.join(lines[a + 2:b - 1])):
            return 'region', a, b + 1
    return 'fresh', pos[0], pos[0]


def region_toc(lines: list[str], marker: str) -> str | None:
    """The table of contents stored in the file, None if there is not one."""
    kind, a, b = find_region(lines, marker)
    if kind != 'region':
        return None
    return '\n'.join(lines[a + 1:b - 1]).strip()


def write_in_place(text: str, toc_text: str, marker: str, newline='\n'):
    """Content of the file after the TOC has been written."""
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    tail = lines.pop()
    kind, a, b = find_region(lines + [tail] if tail else lines, marker)
    if kind == 'none':
        return None
    if tail:
        lines.append(tail)
    t = toc_text.replace('\r\n', '\n').replace('\r', '\n').rstrip()
    block = [marker, ''] + t.split('\n') + ['', marker]
    after = lines[b:]
    body = '\n'.join(lines[:a] + block + after)
    if after and tail:
        pass
    else:
        body += '\n'
    return body.replace('\n', newline)
