"""Workload generators.  They never decide anything: every verdict comes from
a reference model or a relation between observations."""
from __future__ import annotations

import ast
import collections
import json
import os
import random
import unicodedata

from . import model as M

HERE = os.path.dirname(os.path.abspath(__file__))


def harvest(repo: str):
    """Constants of the sources as they are now: a fuzzing dictionary."""
    strs, ints = collections.Counter(), collections.Counter()
    root = os.path.join(repo, 'md_toc')
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, UnicodeDecodeError, OSError):
                continue
            docs = {id(n.value) for n in ast.walk(tree)
                    if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in docs:
                    continue
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 1 < abs(v) <= 100000:
                    ints[abs(v)] += 1
                elif isinstance(v, bytes) and len(v) <= 40:
                    strs[v.decode('utf-8', 'replace')] += 1
                elif isinstance(v, str) and 0 < len(v) <= 40:
                    strs[v] += 1
    return strs, ints


class Dictionary:
    def __init__(self, repo: str):
        self.strs, self.ints = harvest(repo)
        with open(os.path.join(HERE, 'baseline_constants.json'),
                  encoding='utf-8') as f:
            b = json.load(f)
        # Constants which appear more often than in the tree the machinery
        # was written for get a larger weight.
        bi = {int(k): v for k, v in b['ints'].items()}
        self.new_strs = sorted(k for k, v in self.strs.items()
                               if v > b['strs'].get(k, 0))
        self.new_ints = sorted(k for k, v in self.ints.items()
                               if v > bi.get(k, 0))

    def tokens(self):
        """Strings usable within one line of a document."""
        out = []
        for s in self.new_strs:
            t = ''.join(c for c in s if c not in '\r\n\x00<>\u03a3')
            t.encode('utf-8', 'replace')
            if t and not any(0xD800 <= ord(c) < 0xE000 for c in t):
                out.append(t)
        return out

    def sizes(self, lo=1, hi=3000):
        """Interesting sizes: around the new integer constants."""
        out = set()
        for n in self.new_ints:
            out |= {n - 1, n, n + 1, n + 2}
        return sorted(x for x in out if lo <= x <= hi)


ASCII_WORDS = ['a', 'A', 'foo', 'Bar', 'BAZ', 'x1', '42', '2nd', 'the', 'API',
               'set_up', 'snake_case_name', 'kebab-case', 'FAQ', 'TOC',
               'readme', 'v1.2.3', 'C++', 'C#', 'node.js', "don't", 'e.g.',
               '100%', 'a/b', 'TODO:', '(par)', 'q?', 'w!', 'x=y', 'a+b',
               '"quoted"', "'single'", '~til~', '^hat', '$var', '@user',
               'a,b;c', '{k}', '|pipe|', 'end.', '--flag', '-x', '...', 'a&b']
UNI_WORDS = ['é', 'É', 'ñandú', 'ÀÉÎ', 'straße', 'ẞ', 'İstanbul', 'ıi', 'ǅ',
             'Ωmega', 'ΑΒΓ', 'ЖЗ', 'мир', '日本語', '中文。', '한국어', 'שלום',
             'مرحبا', 'ไทย', 'हिन्दी', '🎉', '👨\u200d👩', '①②', '½', 'ª', 'ﬁ', 'Å',
             'e\u0301', 'a\u0308', '\u00a0', 'x\u00a0y', '\u2014', '–', '…',
             '«q»', '“q”', '€5', '×', '²', '\u200b', '\u3000', '𝔘', '٣', 'Ⅷ',
             '_é_', 'Ā', 'ÿ', '\u0080', '\u00bf', '\u0100', '￿', '\U0010ffff',
             '\u0345', '\u2028', '\x85', '\x1c', '\x0b', '\x0c', '\x7f', '\x01']
PUNCT = list('!"#$%&\'()*+,-./:;=?@[\\]^_`{|}~')
MARKUP = ['_x_', '*y*', '**b**', '__c__', '***d***', '_a_b_', '*a_b*', '`c`',
          '``d`e``', '[z]', '[t](u)', '![i](j)', '[', ']', '](', '\\', '\\\\',
          '\\[', '\\]', '\\_', '\\*', '\\`', '\\#', '`', '``', '_', '__', '*',
          '**', '#', '##', '&amp;', '~~s~~', '$m$', ':smile:', '[^1]', '[x]']
WS = [' ', '  ', '\t', ' \t', '\t ', '   ']

FILLER = ['', '', '', ' ', '\t', 'text', 'some *text* with [link](u) and `code`',
          '#hashtag', '#\u00a0nbsp', '####### seven', '\\# escaped',
          '    # indented code', '\t# tabbed', ' \t# mixed', '> # quoted',
          '- # item', '1. # item', '* item', '- [x](#y)', '===', '---', '***',
          'Setext', '| # a | b |', '|---|---|', '<!-- # comment -->',
          '<div>', '[ref]: # "t"', 'a # b', '.# c', '\u3000# wide',
          '\u00a0# nbsp', '\u200b# zwsp', '\ufeff# bom', '\x0c# ff', '\x0b# vt',
          '#\x0bvt', '#\x0cff', 'c#', '`` # ``', '`# a`', '~~', '``', '\\```',
          'a ```', '   ', '     ', '+ x', '10) y', '`', 'x' * 300]


class Gen:
    def __init__(self, rng: random.Random, d: Dictionary):
        self.r = rng
        self.d = d
        self.new = d.tokens()
        self.sizes = d.sizes()
        self.recent = []

    # -- pieces -----------------------------------------------------------
    def word(self):
        r = self.r
        k = r.random()
        if self.new and k < .25:
            return r.choice(self.new)
        if k < .6:
            return r.choice(ASCII_WORDS)
        if k < .8:
            return r.choice(UNI_WORDS)
        return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ0189')
                       for _ in range(r.randint(1, 8)))

    def plain(self, n=None):
        """Words of letters and digits: nothing for markdown to act upon."""
        r = self.r
        out = []
        for _ in range(n or r.randint(1, 4)):
            out.append(''.join(
                r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN0123456789')
                for _ in range(r.randint(1, 7))))
        return ' '.join(out)

    def codepoint(self):
        r = self.r
        while True:
            c = chr(r.choice([r.randint(0x20, 0x7e), r.randint(0xa0, 0x2ff),
                              r.randint(0x300, 0x2fff),
                              r.randint(0x3000, 0xffff),
                              r.randint(0x10000, 0x10ffff)]))
            # U+03A3: lower case depends on context.
            if c not in '<>\u03a3' and not 0xD800 <= ord(c) < 0xE000:
                return c

    def text(self, hostile=.5):
        """Heading text, hostile but for inline HTML."""
        r = self.r
        if r.random() < .06:
            return self.odd(hostile)
        if self.recent and r.random() < .04:
            return self.twin(r.choice(self.recent))
        s = self._text(hostile)
        if len(s) > 3:
            self.recent = self.recent[-7:] + [s]
        return s

    def twin(self, s):
        """A text of the same length which differs in one letter or digit."""
        r = self.r
        at = [i for i, c in enumerate(s) if c.isascii() and c.isalnum()]
        if not at:
            return s
        i = r.choice([at[0], at[-1], at[len(at) // 2], r.choice(at)])
        return s[:i] + r.choice(
            [c for c in ('qwxjk' if s[i].isalpha() else '34567')
             if c != s[i].lower()]) + s[i + 1:]

    def family(self, n):
        """Long texts which differ little from one another."""
        r = self.r
        size = r.choice([5, 10, 20, 33, 40, 64, 65, 80, 100, 127, 128, 129, 200,
                         255, 256, 257, 300, 400, 512, 513, 900] + self.sizes)
        size = min(size, 990)
        b = ''
        while len(b) < size:
            b += r.choice([self.plain(1), self.word()]) + ' '
        b = ''.join(c for c in b[:size] if c.isalnum() or c == ' ').strip()
        b = b or 'a'
        out = [b]
        for _ in range(n - 1):
            s = r.choice(out)
            k = r.random()
            out.append(self.twin(s) if k < .6 else s if k < .75 else
                       (s + r.choice('abc1'))[:990] if k < .85 else
                       s[:-1].strip() or 'b' if k < .95 else s[1:].strip()
                       or 'c')
        return out

    def _text(self, hostile):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        out = []
        for _ in range(n):
            k = r.random()
            if k < hostile * .5:
                out.append(r.choice(MARKUP))
            elif k < hostile * .6:
                out.append(r.choice(PUNCT))
            elif k < hostile * .65:
                out.append(self.codepoint())
            else:
                out.append(self.word())
            out.append(r.choice(['', ' ', ' ', ' '] if r.random() > .1 else WS))
        s = ''.join(out)
        if r.random() < .03:
            s = s + self.r.choice(['x', 'ab ', 'é']) * r.randint(20, 120)
        if self.sizes and r.random() < .05:
            s = (s + 'x' * 4000)[:min(r.choice(self.sizes), 999)]
        return s.replace('\n', '').replace('\r', '')

    def odd(self, hostile=.5):
        """Shapes rather than content: punctuation only, the same words with
        other blanks or case between them, one character many times."""
        r = self.r
        k = r.randrange(9)
        if k == 8 and hostile:
            # Long runs of what has a meaning.
            n = r.choice(self.sizes) if self.sizes and r.random() < .5 else \
                r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64])
            return r.choice(['', 'a', 'a ']) + r.choice(
                '\\\\`*_[]#-~!&;(') * min(n, 130) + r.choice(
                    ['', '[', ']', ' b', 'b', '_b_', '`c`', '\\', '[x]'])
        if k == 0 and hostile:
            return ''.join(r.choice('!?.,:;%&$@^~|(){}"\'=+/')
                           for _ in range(r.randint(1, 5)))
        if k == 1:
            return r.choice([' ', '  ', '   ', '-', ' - ', '--', '---', ' -- ',
                             '\u00a0', ' \u3000 ', '    ', '_']).join(
                r.choice(['a b', 'b', 'A', 'foo', '1']) for _ in range(
                    r.randint(2, 4)))
        if k == 2:
            return r.choice('aé1-!.?日') * r.randint(1, 12)
        if k == 3:
            return str(r.choice([0, 1, 2, 9, 10, 99, 100, 12345678901]))
        if k == 4:
            return r.choice(['a', 'A', 'a-1', 'a-2', 'a 1', 'A-1', 'a-1-1'])
        if k == 5 and hostile:
            return r.choice(['-', '+', '*', '1.', '1)', '>', '=', '|']).replace(
                '>', '~') + ' ' + self.plain(1)
        if k == 6:
            return self.plain(1) + r.choice(['-', '--', ' -', '!', ' !', '.',
                                             ' .', '...', '_', ':'])
        return r.choice(['-', '--', '!', '.', '(', ' - ']) + self.plain(1)

    def closing(self):
        r = self.r
        if r.random() < .6:
            return ''
        return r.choice([' #', ' ##', ' ######', '  #  ', ' ####### ', '#',
                         '##', ' # #', '  ', ' ', '\t', ' #\t', '\\', '\\#',
                         ' \\#', '\t#', ' ##\\', ' #\t ', '#  #', ' `#'])

    def heading(self, level, text, hostile=True):
        r = self.r
        if not hostile:
            return '#' * level + ' ' + text
        ind = ' ' * r.choice([0] * 8 + [1, 2, 3])
        sp = r.choice([' '] * 8 + ['  ', '   ', '\t', ' \t', '\t '])
        return ind + '#' * level + sp + text + self.closing()

    def fence_line(self):
        r = self.r
        ch = r.choice('`~')
        s = ' ' * r.choice([0] * 6 + [1, 2, 3, 4, 5]) + ch * r.choice(
            [3, 3, 3, 4, 5, 2, 1, 6, 8, 12])
        k = r.random()
        if k < .55:
            return s
        return s + r.choice([' ', '  ', '\t', 'py', ' py', ' a`b', ' a~b',
                             ' ```', '~', '`', ' x y=1', '\t\t', ' \t', '#',
                             ' # h', '\\', '\x0c', '\u00a0', ' {.c}'])

    def fenced(self, body):
        """A well formed fenced block around body lines."""
        r = self.r
        ch = r.choice('`~')
        n = r.choice([3, 3, 3, 4, 5, 7])
        ind = ' ' * r.choice([0, 0, 0, 1, 2, 3])
        info = r.choice(['', '', 'py', ' sh', ' # x'])
        inner = []
        for ln in body:
            inner.append(ln)
            if r.random() < .3:
                inner.append(r.choice([
                    ch * (n - 1), ('~' if ch == '`' else '`') * n,
                    '    ' + ch * n, ch * n + ' x', ch * (n - 1) + ' ',
                    ch * n + '\u00a0', 'x' + ch * n]))
        return [ind + ch * n + info] + inner + [
            ' ' * r.choice([0, 0, 1, 3]) + ch * (n + r.choice([0, 0, 0, 1, 4]))
            + r.choice(['', '', ' ', '   '])]

    def levels(self, n, coherent=True, first=None, top=6):
        r = self.r
        out = []
        f = first or r.choice([1, 1, 1, 2, 3])
        f = min(f, top)
        for i in range(n):
            if not out:
                out.append(f)
            elif coherent:
                out.append(r.choice([r.randint(f, out[-1]), out[-1],
                                     min(top, out[-1] + 1)]))
            else:
                out.append(r.randint(1, top))
        return out

    def eol(self, style):
        if style == 'mixed':
            return self.r.choice(['\n', '\r\n', '\r', '\n'])
        return style

    def join(self, lines, style=None, final=True):
        """Assemble lines.  Mixed styles keep a CR away from a following LF
        so that the number of lines is the same for everybody."""
        if style is None:
            style = self.r.choice(['\n'] * 8 + ['\r\n', '\r', 'mixed'])
        out = []
        prev_cr = False
        for i, ln in enumerate(lines):
            e = self.eol(style)
            if prev_cr and ln == '' and e == '\n':
                e = '\r\n'
            if i == len(lines) - 1 and not final:
                e = ''
            out.append(ln + e)
            prev_cr = e == '\r'
        return ''.join(out)

    def doc_lines(self, n=None, coherent=True, fences=True, hostile=.5,
                  texts=None, top=6, first=None, safe_label=True,
                  filler=True, level_list=None):
        """Lines of a document with n headings."""
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8, 13])
            if self.sizes and r.random() < .1:
                n = min(r.choice(self.sizes), 300)
        lv = level_list or self.levels(n, coherent, top=top, first=first)
        lines = []
        for i, level in enumerate(lv):
            if filler:
                for _ in range(r.choice([0, 0, 0, 1, 2])):
                    lines.append(r.choice(FILLER))
            if fences and r.random() < .15:
                lines += self.fenced(
                    [self.heading(r.randint(1, 6), self.text(hostile))
                     if r.random() < .7 else r.choice(FILLER)
                     for _ in range(r.randint(0, 3))])
            if fences == 'wild' and r.random() < .25:
                lines.append(self.fence_line())
            t = texts[i] if texts else self.text(hostile)
            ln = self.heading(level, t)
            if safe_label:
                tries = 0
                while self._bad_label(ln):
                    tries += 1
                    t = texts[i] if texts and tries < 5 else self.plain()
                    ln = self.heading(level, t, hostile=tries < 5)
            lines.append(ln)
        if filler:
            for _ in range(r.choice([0, 0, 1, 3])):
                lines.append(r.choice(FILLER))
        return lines

    @staticmethod
    def _bad_label(ln):
        for p in ('github', 'cmark'):
            h = M.atx(ln, p)
            if h is None or M.label_is_blank(h[1]) or len(h[1]) > 990:
                return True
        return False

    def options(self, parsers=M.ALL_PARSERS, coherent=False, **fixed):
        r = self.r
        p = fixed.pop('parser', None) or r.choice(parsers)
        ordered = r.random() < .35
        kw = dict(parser=p, ordered=ordered,
                  no_links=r.random() < .15,
                  no_indentation=r.random() < .15,
                  no_list_coherence=r.random() < .15,
                  keep_header_levels=r.choice(
                      [1, 2, 3, 4, 5, 6, 6, 6] if r.random() < .95 else
                      [7, 8, 9, 10, 12, 100]),
                  skip_lines=0,
                  constant_ordered_list=r.random() < .1,
                  newline_string='\n')
        if ordered:
            kw['list_marker'] = r.choice(
                ['.'] if p == 'redcarpet' else ['.', ')'])
        else:
            kw['list_marker'] = r.choice(['-', '+', '*'])
        kw.update(fixed)
        return M.Opts(**kw)


def category_samples(rng, per=6):
    """A few code points of every Unicode general category."""
    by: dict[str, list[str]] = {}
    for c in range(0x20, 0x110000):
        if 0xD800 <= c < 0xE000:
            continue
        by.setdefault(unicodedata.category(chr(c)), []).append(chr(c))
    out = []
    for k in sorted(by):
        out += rng.sample(by[k], min(per, len(by[k])))
    return out
