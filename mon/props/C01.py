"""Which lines are listed, and in which order."""
import itertools
import re

from .. import diff, model as M
from ..gen import FILLER, category_samples

LEVEL = 'exploration'
RULE = ('distinct (dialect, keep levels, sequence of listed/hidden/ignored '
        'line kinds) over documents with at least one listed heading')
MUST_SEE = ['headings listed', 'lines ignored', 'headings hidden']
TOK = re.compile(r'zq\d+z')
ASSUMPTIONS = ['the reference line grammar (mon/model.py: atx, code_mask) is '
               'the one of CommonMark 0.30, GFM 0.29 and redcarpet']

PRE = ['#', ' ', '\t', '\\', 'a']


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    # Exhaustive line prefixes, packed many to a document.
    pres = [''.join(p) for k in range(0, 6)
            for p in itertools.product(PRE, repeat=k)]
    pres += ['#' * k + s for k in range(1, 12) for s in ('', ' ', '\t', 'x')]
    pres += [' ' * k + '#' * j + ' ' for k in range(0, 8) for j in range(1, 9)]
    sufs = ['', ' #', '#', '  ', ' ## ', '\t#', '\\'] if ctx.thorough else [
        '', ' #']
    block = 250
    jobs = [(p, s, i) for p in M.ALL_PARSERS for s in sufs
            for i in range(0, len(pres), block)]
    for p, s, i in ctx.mine(jobs):
        lines = [f'{x}zq{i + k}z{s}' for k, x in
                 enumerate(pres[i:i + block])]
        yield dict(lines=lines, opts=dict(
            parser=p, keep_header_levels=6, no_list_coherence=True), eol='\n')
    # Whatever character comes before, between or after the hashes.
    chars = [chr(c) for c in range(1, 0x100) if c not in (10, 13)]
    chars += [c for c in category_samples(r) if c not in '\r\n\x00']
    chars += g.new + [c for t in g.new for c in t]
    forms = ['{0}# {1}', ' {0}# {1}', '{0} # {1}', '{0}{0}{0}# {1}',
             '#{0}{1}', '#{0}# {1}', '# {0}{1}', '## {1}{0}', '# {1} {0}',
             '###{0} {1}', '# {1} #{0}', '{0}## {1} ##']
    jobs = [(p, f, i) for p in M.ALL_PARSERS for f in forms
            for i in range(0, len(chars), 90)]
    for p, f, i in ctx.mine(jobs):
        lines = [f.format(c, f'zq{i + k}z')
                 for k, c in enumerate(chars[i:i + 90])]
        # One line must not change what the others are: no fences.
        lines = [x for x in lines if not re.match(r'[ \t]*(```|~~~)', x)]
        yield dict(lines=lines, opts=dict(
            parser=p, keep_header_levels=6, no_list_coherence=True), eol='\n')
    for _ in range(ctx.n(9000)):
        o = g.options(no_list_coherence=True)
        n = r.choice([1, 2, 3, 5, 8, 13, 30])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 400)
        lines = g.doc_lines(n, coherent=r.random() < .5, fences='wild' if
                            r.random() < .3 else True)
        yield dict(lines=tag(r, lines), opts=o.kwargs(),
                   eol=r.choice(['\n'] * 6 + ['\r\n', '\r', '']))
    # Long lines: whatever comes after the size of some buffer is still part
    # of the same line.
    sizes = sorted({2 ** k for k in range(7, 18)} | {1000, 10000, 100000} |
                   set(g.d.sizes(hi=100001)))
    for n in ctx.mine(sizes):
        for pre, p in ((0, 'github'), (1, 'cmark'), (0, 'redcarpet')):
            lines = ['# zq0z'] * pre
            for k, d in enumerate((-1, 0, 1)):
                lines += ['x' * (n + d) + f'# zq{3 * k + 1}z',
                          f'# zq{3 * k + 2}z',
                          'é' * (n // 2 + d) + f'\t# zq{3 * k + 3}z']
                if n > 20000:
                    break
            yield dict(lines=lines, opts=dict(
                parser=p, keep_header_levels=6, no_list_coherence=True),
                eol=r.choice(['\n', '\r\n', '\r', '']))
    # Big documents: many buffers, multi byte characters at their borders.
    sizes = [300, 1200] + ([5000, 20000] if ctx.thorough else [])
    for n in ctx.mine([s for s in sizes + [min(x, 5000) for x in g.sizes]
                       for _ in range(4)]):
        lines = []
        for i in range(n):
            lines.append('#' * r.randint(1, 6) + ' ' + r.choice(
                ['a', 'é', '日本', '🎉']) * r.randint(1, 30))
            if r.random() < .3:
                lines.append(r.choice(FILLER))
        o = g.options(no_list_coherence=True)
        yield dict(lines=tag(r, lines), opts=o.kwargs(), eol='\n')


def tag(r, lines):
    """Put a unique token in every line that has some text."""
    out = []
    for i, ln in enumerate(lines):
        m = re.match(r'[ \t]*#+(?:[ \t]+|$)', ln)
        t = f'zq{i}z'
        if re.match(r'[ \t]*(```|~~~)', ln):
            out.append(ln)
        elif m:
            out.append(ln[:m.end()] + (
                '' if ln[:m.end()][-1:] in ' \t' else ' ') + t + ' ' +
                ln[m.end():])
        else:
            out.append(ln + ' ' + t if r.random() < .5 else ln)
    return out


def check(ctx, case):
    o = M.Opts(**case['opts'])
    doc = (case['eol'] or '\n').join(case['lines'])
    if case['eol']:
        doc += case['eol']
    entries, err = M.toc_entries(doc, o)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout' or err:
        ctx.events['refused documents'] += 1
        return
    lines = diff.observed(r, o)
    want = [TOK.findall(e.content)[:1] for e in entries]
    ctx.require(lines is not None, case, 'no table of contents',
                opts=o.kwargs(), doc=doc[:3000], got=r.brief())
    got = [TOK.findall(s.raw)[:1] for s in lines]
    if got != want:
        g, w = sum(got, []), sum(want, [])
        ctx.violate(case, 'wrong set or order of headings', opts=o.kwargs(),
                    doc=doc[:3000], missing=sorted(set(w) - set(g))[:10],
                    extra=sorted(set(g) - set(w))[:10], n_got=len(got),
                    n_want=len(want))
    allh = M.headings(doc, o.parser, o.skip_lines)
    ctx.events['headings listed'] += len(want)
    ctx.events['headings hidden'] += len(allh) - len(want)
    ctx.events['lines ignored'] += len(M.split_lines(doc)) - len(allh)
    if want:
        ctx.seen(o.parser, o.keep_header_levels,
                 [e.level for e in entries][:40], len(allh))
        ctx.sample(dict(doc=doc[:300], opts=o.kwargs(), listed=len(want)))
