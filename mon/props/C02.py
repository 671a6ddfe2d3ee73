"""Fenced code blocks: nothing inside is listed, everything outside is."""
import itertools
import re

from .. import diff, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, sequence of in-block/out-of-block lines) over '
        'documents with at least one fence line')
MUST_SEE = ['headings hidden by a block', 'headings listed after a block',
            'documents with an unclosed block', 'fence line judged']
ASSUMPTIONS = ['fence grammar of CommonMark 0.30 / GFM 0.29 at document level '
               '(mon/model.py); redcarpet is documented not to support fences']
TOK = re.compile(r'zq\d+z')

# Variants of lines that are, or look like, code fences.
KIT = ['```', '~~~', '````', '~~~~', '`````', '   ```', '    ```', '``` py',
       '~~~ a`b', '```a`b', '```  ', '~~~\t', '``', '~~', '``` ~~~', '\t```',
       '~~~ ~~~', '```\u00a0', ' ~~~', '`~`', '> ```', '- ```', '\\```',
       '~~~~~ x', '``````', '   ~~~~   ', '    ~~~', '```\x0c', '````` `',
       '``~', '~~~`', '```~~~', '##', '~~~#', '``````````````', '~~~~~~~~~~~~',
       '``` #', '```#', '` ```', '`` `', '~ ~~', '  ```\t ', '   ````` ']
SHORT = KIT[:18]


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    # All short sequences of fence lines, with a heading around each of them.
    seqs = list(itertools.product(SHORT if not ctx.thorough else KIT[:30],
                                  repeat=3))
    seqs += list(itertools.product(KIT, repeat=2))
    seqs += [(x, ) for x in KIT]
    if not ctx.thorough:
        seqs = [s for i, s in enumerate(seqs) if len(s) < 3 or
                (i + ctx.seed) % 3 == 0]
    for i, s in ctx.mine(enumerate(seqs)):
        p = M.CMARK_LIKE[(i + ctx.seed) % 5]
        lines = ['# zq0z']
        for k, f in enumerate(s):
            lines += [f, f'# zq{k + 1}z']
        yield dict(lines=lines, opts=dict(parser=p), eol='\n',
                   last=i % 4 != 0)
    for ln in ctx.mine(fence_lines(ctx)):
        yield dict(fence=ln)
    for _ in range(ctx.n(9000)):
        o = g.options(no_list_coherence=True)
        n = r.choice([2, 3, 5, 8, 20])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 400)
        lines = []
        k = 0
        for _ in range(n):
            x = r.random()
            if x < .35:
                lines.append(g.fence_line() if r.random() < .6 else
                             r.choice(KIT))
            elif x < .5:
                body = []
                for _ in range(r.choice([0, 1, 2, 4])):
                    k += 1
                    body.append(f'{"#" * r.randint(1, 6)} zq{k}z')
                lines += g.fenced(body)
            elif x < .6:
                lines.append(r.choice(['', 'text', '    x', '- l', '> q']))
            else:
                k += 1
                lines.append(f'{" " * r.choice([0, 0, 1, 3])}'
                             f'{"#" * r.randint(1, 6)} zq{k}z '
                             f'{g.text() if r.random() < .3 else ""}')
        if r.random() < .1:
            # A long block: many buffers away from its opening line.
            at = r.randrange(len(lines) + 1)
            m = r.choice([200, 900, 3000])
            ch = r.choice(['```', '~~~~'])
            lines[at:at] = [ch] + [
                '# zq999999z' if r.random() < .3 else 'code é' * r.randint(
                    0, 9) for _ in range(m)] + ([ch] if r.random() < .8 else [])
        skip = r.choice([0] * 8 + [1, 2, 3])
        yield dict(lines=lines, opts={**o.kwargs(), 'skip_lines': skip},
                   eol=r.choice(['\n'] * 6 + ['\r\n', '\r']),
                   last=r.random() < .7, stdin=r.random() < .15)
    # Long fences.
    big = [9, 10, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256,
           257, 1000, 1024, 5000] + [x for x in g.sizes if x < 20000]
    for n in ctx.mine(big):
        for ch in '`~':
            for d in (-1, 0, 1):
                yield dict(lines=[ch * n, '# zq1z', ch * max(1, n + d),
                                  '# zq2z', ch * n, '# zq3z'],
                           opts=dict(parser=r.choice(M.CMARK_LIKE)),
                           eol='\n', last=True)


def fence_lines(ctx):
    al = ['`', '~', ' ', 'a', '\t', '#', '\\']
    top = 6 if ctx.thorough else 5
    for k in range(1, top + 1):
        for p in itertools.product(al, repeat=k):
            s = ''.join(p)
            yield '``' + s if k <= 4 else s
            if k <= 4:
                yield '~~' + s
                yield '   ' + s


def check(ctx, case):
    if 'fence' in case:
        return check_line(ctx, case)
    o = M.Opts(**{'no_list_coherence': True, 'keep_header_levels': 6,
                  **case['opts']})
    doc = case['eol'].join(case['lines']) + (case['eol'] if case['last']
                                             else '')
    if case.get('stdin'):
        got = stdin_toc(ctx, doc, o)
    else:
        got = ctx.toc(doc, o)
    entries, err = M.toc_entries(doc, o)
    if err or got.kind == 'timeout':
        return
    lines = diff.observed(got, o)
    ctx.require(lines is not None, case, 'no table of contents', doc=doc[:2000],
                opts=o.kwargs(), got=got.brief())
    g = [TOK.findall(s.raw)[:1] for s in lines]
    w = [TOK.findall(e.content)[:1] for e in entries]
    if g != w:
        ctx.violate(case, 'wrong set of headings around code blocks',
                    doc=doc[:2000], opts=o.kwargs(),
                    missing=[x for x in w if x not in g][:9],
                    extra=[x for x in g if x not in w][:9])
    ls = M.split_lines(doc)[o.skip_lines:]
    mask = M.code_mask(ls, o.parser)
    hidden = sum(1 for m, ln in zip(mask, ls) if m and M.atx(ln, o.parser))
    ctx.events['headings hidden by a block'] += hidden
    if any(mask):
        ctx.events['documents with a block'] += 1
        if mask[-1] and not M.code_mask(ls + ['zz'], o.parser)[-1] is False:
            ctx.events['documents with an unclosed block'] += 1
        first = mask.index(True)
        ctx.events['headings listed after a block'] += sum(
            1 for e in entries if e.line - o.skip_lines > first)
        ctx.seen(o.parser, ''.join('x' if m else 'h' if M.atx(
            ln, o.parser) else '.' for m, ln in zip(mask, ls))[:60])
        ctx.sample(dict(doc=doc[:200], opts=o.kwargs(), listed=len(w),
                        hidden=hidden))


def stdin_toc(ctx, doc, o):
    import io
    import sys
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(doc.encode()), encoding='utf-8',
                                 newline='\n')
    try:
        return rt.call(ctx.api.build_toc, '-', **o.kwargs())
    finally:
        sys.stdin = old


def check_line(ctx, case):
    """The same line judged through a document: opens a block or not, closes
    each kind of block or not."""
    ln = case['fence']
    for p in ('github', 'cmark') if not ctx.thorough else M.CMARK_LIKE:
        # One document: the line in the open, then inside four blocks.
        doc = [ln, '# zq1z']
        for ch, n in (('`', 3), ('~', 3), ('`', 5), ('~', 4)):
            doc += ['`' * 40, '~' * 40, '`' * 40, '~' * 40]
            doc += [ch * n, '# zq2z', ln, '# zq3z']
        for d in (doc, [ln, '# zq1z'], ['```', ln, '# zq1z'],
                  ['~~~', ln, '# zq2z'], ['~~~~', ln, '# zq3z']):
            o = M.Opts(parser=p, no_list_coherence=True, keep_header_levels=6,
                       no_links=True)
            text = '\n'.join(d) + '\n'
            entries, err = M.toc_entries(text, o)
            r = ctx.toc(text, o)
            if r.kind == 'timeout' or err:
                continue
            got = [TOK.findall(x)[:1] for x in (r.value or '').split('\n')
                   if x] if r.ok else None
            want = [TOK.findall(e.content)[:1] for e in entries]
            ctx.require(got == want, case, 'fence line misjudged', doc=text,
                        opts=o.kwargs(), got=got, want=want)
            ctx.events['fence line judged'] += 1
            ctx.seen(p, ln, bool(M.fence_open(ln)), tuple(map(tuple, want)))
