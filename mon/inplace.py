"""Workloads and observations around writing in place."""
from __future__ import annotations

import os

from . import model as M, rt
from .gen import FILLER

MARKERS = ['<!--TOC-->'] * 8 + ['[](TOC)', '<!-- toc -->', 'TOC HERE', '%%',
                                '.*', '[TOC]', '(((', '$^', 'é✓', '{{ toc }}',
                                '<!--  TOC  -->', '\\d+', 'x', '\\n',
                                'a\\tb', '%s', '$HOME', "it's", '&lt;', '\\']
# Short lines which are no part of a list: all of what the user wrote.
SHORT = ['---', '===', '***', '___', '.', '|', '| a | b |', '|---|---|', '0',
         '7', '2026', 'x', '\u00e9', '\U0001f389', '>', '> q', '#x', '`', '```',
         '~~~', '&nbsp;', '<br>', '<!-- -->', '<!-- TOC -->', '[](TOC)',
         '\\', '+++', '-', '*', '+', '1.', '1)', '-x', '*x*', '+x', '1.x',
         'a.', 'a) b', '(1) x', '\ufeff', '\u200b', '\x00', '\x0c.', '**b**',
         '_', '[a](#a)', '[x]: y', 'TOC', 'see - below', 'x - [a](#a)',
         '$', '^', '!', '?', '"', "'", ';', '=', '/', '{', '}', '@', '%', '~']
NEAR = ['x {m}', '{m} y', '`{m}`', '> {m}', '{m}{m}', '- {m}', '\\{m}',
        '{m}.', 'a{m}']
ODD = ['\x0c', 'a\x0cb', 'x\x85y', 'u\u2028v', 'w\u2029z', 'p\x1cq', 'r\x0bs',
       '\ufeffbom', 'tab\tx', 'trail   ', '   lead', 'nul\x00', '日本語', '🎉',
       '\u00a0', 'a\u00a0', '\x1d', '\x1e', '\\r\\n', '%s {} \\1 \\g<0> $1']

# Headings with something unusual inside.
INSIDE = ['a\x0cb', 'x\x85y', 'u\u2028v', 'w\u2029z', 'p\x1cq', 'r\x0bs',
          'b\ufeffom', 'tab\tx', 'nul\x00', '\u65e5\u672c\u8a9e', '\U0001f389',
          'a\u00a0b', 'q\x1d', '%s {} \\1 \\g<0> $1', '<!--TOC-->',
          'a <!--TOC--> b', '```', '~~~', '- x', '1. x', '> q', '---', '===',
          '| a | b |', '[a](b)', '![i](j)', '<b>x</b>', '&amp;', '*', 'a\\',
          '# x', 'a: b', '\u200b', 'x ' * 60, '\u0663. x', '(a) b']


def prose(ctx, n, marker, headings=True, coherent=True):
    """Lines without a marker line; level sequence is coherent."""
    g, r = ctx.gen, ctx.rng
    out = []
    for _ in range(n):
        k = r.random()
        if k < .12:
            out.append(r.choice(NEAR).format(m=marker.strip()))
        elif k < .25:
            out.append(r.choice(ODD))
        elif k < .5:
            out.append(r.choice(FILLER))
        elif k < .6:
            out += g.fenced([r.choice(FILLER), '# in code'])
        elif k < .7:
            out.append('')
        elif headings:
            out.append(f'{"#" * r.randint(1, 2)} {g.plain()}')
        else:
            out.append(g.plain())
    m = marker.strip()
    return ['.' + x if x.strip() == m else x for x in out]


def short(ctx, m):
    r = ctx.rng
    out = [r.choice(SHORT) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    out = ['.' + x if x.strip() == m else x for x in out]
    if r.random() < .4:
        out = [''] + out
    if r.random() < .4:
        out = out + ['']
    return out


def old_toc(ctx):
    """A table of contents of some other time."""
    g, r = ctx.gen, ctx.rng
    n = r.choice([1, 1, 2, 5, 12])
    if g.sizes and r.random() < .2:
        n = min(r.choice(g.sizes), 300)
    lv = g.levels(n, True)
    doc = ''.join('#' * x + ' ' + g.plain() + '\n' for x in lv)
    o = g.options(parsers=M.CMARK_LIKE, no_links=r.random() < .3,
                  keep_header_levels=6)
    t = M.toc(doc, o)[1].rstrip('\n').split('\n')
    if r.random() < .35:
        # Headings of all sorts.
        odd = ''.join('#' * x + ' ' + (r.choice(INSIDE) if r.random() < .4
                                       else g.text(.5)) + '\n' for x in lv)
        kind, u = M.toc(odd, o)
        u = normal(u).rstrip('\n').split('\n')
        if kind == 'ok' and recognised('\n'.join(u)) and all(
                x.strip() for x in u) and not any(
                    x.strip() in ('TOC HERE', '%%', 'x') for x in u):
            return u
    return t


def region(ctx, marker, kind=None):
    """Lines from the first to the last marker."""
    r, g = ctx.rng, ctx.gen
    kind = kind or r.choice(['single'] * 4 + ['toc'] * 6 + [
        'adjacent', 'blank', 'blank3', 'empty'])
    m = marker.strip()
    if r.random() < .15:
        m = r.choice([' ', '  ', '\t']) + m
    if r.random() < .15:
        m += r.choice([' ', '  ', '\t'])
    if kind == 'single':
        return kind, [m]
    if kind == 'adjacent':
        return kind, [m, m]
    if kind == 'blank':
        return kind, [m, '', m]
    if kind == 'blank3':
        n = r.choice([1, 2, 3, 4, 8, 9, 10, 20, 60] + [
            min(x, 300) for x in g.sizes])
        return kind, [m] + [r.choice(['', '', ' ', '\t', '   ', ' \t ', '\t\t',
                                      ' ' * 9]) for _ in range(n)] + [m]
    if kind == 'empty':
        n = r.choice([2, 3, 3, 4, 5, 6, 7, 10, 16, 33, 100] + [
            min(x, 300) for x in g.sizes])
        return kind, [m] + [''] * n + [m]
    return kind, [m, ''] + old_toc(ctx) + ['', m]


def gen_file(ctx, kinds=None):
    g, r = ctx.gen, ctx.rng
    marker = r.choice(MARKERS)
    sizes = [0, 0, 1, 2, 4, 8]
    if r.random() < .03:
        sizes = [200, 800]
    pre = prose(ctx, r.choice(sizes), marker)
    post = prose(ctx, r.choice(sizes), marker)
    if g.sizes and r.random() < .15:
        pre = [f'line {i}' for i in range(min(r.choice(g.sizes), 1500))] + pre
    kind = r.choice(kinds) if kinds else None
    if kind == 'none':
        reg = []
    elif kind == 'prose between':
        m = marker.strip()
        if r.random() < .4:
            body = short(ctx, m)
        else:
            body = ['Some prose'] + prose(ctx, r.choice([1, 2, 4]), marker,
                                          headings=False) + ['More prose']
        reg = [m] + body + [m]
    elif kind == 'many':
        reg = []
        n = r.randint(2, 4)
        if r.random() < .15:
            n = r.choice([5, 8, 13, 30])
        for _ in range(n):
            reg += region(ctx, marker)[1]
            if r.random() < .25:
                reg += short(ctx, marker.strip())
            elif r.random() < .7:
                reg += ['Between ' + g.plain(), r.choice(FILLER)]
        m = marker.strip()
        reg = [m if x.strip() == m else x for x in reg]
    else:
        kind, reg = region(ctx, marker, kind)
    final = r.random() < .8
    return dict(pre=pre, reg=reg, post=post, kind=kind, marker=marker,
                eol=r.choice(['\n'] * 6 + ['\r\n', '\r', 'mixed']),
                final=final, seed=r.random())


def text_of(case):
    """The text of the file."""
    import random
    rr = random.Random(case['seed'])
    lines = case['pre'] + case['reg'] + case['post']
    out = []
    prev_cr = False
    for i, ln in enumerate(lines):
        e = case['eol']
        if e == 'mixed':
            e = rr.choice(['\n', '\r\n', '\r'])
        if prev_cr and ln == '' and e == '\n':
            e = '\r\n'
        if i == len(lines) - 1 and not case['final']:
            e = ''
        out.append(ln + e)
        prev_cr = e == '\r'
    return ''.join(out)


def normal(text):
    return text.replace('\r\n', '\n').replace('\r', '\n')


def write(ctx, path, toc, marker, newline='\n', how='api'):
    """Write in place through one of the public entry points."""
    api = ctx.api
    ctx.events['in place:' + how] += 1
    if how == 'api':
        return rt.call(api.write_string_on_file_between_markers, path, toc,
                       marker, newline)
    if how == 'multi':
        return rt.call(api.write_strings_on_files_between_markers, [path],
                       [toc], marker, newline)
    raise ValueError(how)


NL = {'\n': r'\n', '\r': r'\r', '\r\n': r'\r\n'}


def cli_args(o, marker=None, in_place=False, diff=False):
    """Command line for a set of options (those the CLI can express)."""
    a = []
    if o.no_links:
        a.append('--no-links')
    if o.no_indentation:
        a.append('--no-indentation')
    elif o.no_list_coherence:
        a.append('--no-list-coherence')
    if in_place:
        a.append('--in-place')
    if diff:
        a.append('--diff')
    if marker is not None:
        a.append('--toc-marker=' + marker)
    if o.newline_string != '\n':
        a.append('--newline-string=' + NL[o.newline_string])
    if o.skip_lines:
        a += ['--skip-lines', str(o.skip_lines)]
    a.append(o.parser)
    if o.ordered:
        a.append('--ordered-list-marker=' + o.list_marker)
    else:
        a.append('--unordered-list-marker=' + o.list_marker)
    if o.constant_ordered_list:
        a.append('--constant-ordered-list')
    # All levels are six on the command line.
    a.append('--header-levels=' + str(min(o.keep_header_levels, 6)))
    return a


def recognised(toc: str) -> bool:
    """Tables that md-toc recognises again in the file (see the known
    findings of C15 for the others)."""
    return toc.strip() == '' or M._LIST.match(''.join(
        normal(toc).rstrip().split('\n'))) is not None


def mode(path):
    return os.stat(path).st_mode & 0o7777
