"""An incoherent list is refused, a coherent one never is."""
import itertools

from .. import model as M

LEVEL = 'exploration'
RULE = ('distinct (dialect, options, sequence of visible levels) with a '
        'verdict of acceptance or refusal')
MUST_SEE = ['refused', 'accepted', 'check disabled', 'hidden headings ignored']
ASSUMPTIONS = []


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    seqs = [p for k in range(1, 5) for p in itertools.product(range(1, 7),
                                                              repeat=k)]
    seqs += [p for p in itertools.product(range(1, 5), repeat=5)]
    if ctx.thorough:
        seqs += list(itertools.product(range(1, 7), repeat=5))
        seqs += list(itertools.product(range(1, 4), repeat=7))
    for i, s in ctx.mine(enumerate(seqs)):
        yield dict(levels=list(s), opts=dict(
            parser=M.ALL_PARSERS[(i + ctx.seed) % 6],
            keep_header_levels=[6, 7, 3, 6, 2, 4, 10][(i // 6) % 7]))
    for _ in range(ctx.n(7000)):
        o = g.options()
        n = r.choice([2, 4, 8, 16, 40])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 500)
        lv = g.levels(n, True, top=r.choice([2, 3, 4, 6]))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            i = r.randrange(len(lv))
            lv[i] = r.randint(1, 6)
        yield dict(levels=lv, opts=o.kwargs(), filler=r.random() < .5,
                   code=r.random() < .3, hostile=r.random() < .3,
                   seed=r.random())
    # The fault comes late, or after a long stretch.
    for n in ctx.mine([50, 99, 100, 101, 255, 256, 257, 1000] +
                      [x for x in g.sizes if x <= 3000]):
        for tail in ([3], [1], [2, 4], [4, 6], []):
            base = [2] + [r.choice([2, 3]) for _ in range(n)] + [2]
            yield dict(levels=base + tail, opts=dict(
                parser=r.choice(M.ALL_PARSERS), keep_header_levels=6))


def check(ctx, case):
    import random
    o = M.Opts(**case['opts'])
    rr = random.Random(case.get('seed', 0))
    g = ctx.gen
    lines = []
    for i, lv in enumerate(case['levels']):
        if case.get('filler') and rr.random() < .3:
            lines.append(rr.choice(['', 'text', '#nope', '####### no', '- x']))
        if case.get('code') and rr.random() < .3 and o.parser != 'redcarpet':
            lines += ['```', '###### in code', '# in code', '```']
        t = f'h{i}'
        if case.get('hostile'):
            t = rr.choice(['*e*', 'é', 'a b', '`c`', '[x]', 'Q!']) + f' {i}'
        lines.append('#' * lv + ' ' + t)
    doc = ''.join(x + '\n' for x in lines)
    entries, err = M.toc_entries(doc, o)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    vis = [lv for lv in case['levels'] if lv <= o.keep_header_levels]
    off = o.no_indentation or o.no_list_coherence
    bad = not off and any(
        b > a + 1 or b < vis[0] for a, b in zip(vis, vis[1:]))
    assert bad == (err == M.INCOHERENT), (vis, err)
    if bad:
        ctx.require(r.kind == 'raise' and r.value == M.INCOHERENT, case,
                    'an incoherent list was not refused', levels=vis,
                    opts=o.kwargs(), got=r.brief())
        ctx.events['refused'] += 1
    else:
        n = r.value.count(o.newline_string) if r.ok and isinstance(
            r.value, str) else None
        ctx.require(n == len(vis), case, 'a coherent list was refused',
                    levels=vis, opts=o.kwargs(), got=r.brief(),
                    want=len(vis))
        ctx.events['accepted'] += 1
        ctx.events['check disabled'] += off
    ctx.events['hidden headings ignored'] += len(vis) < len(case['levels'])
    ctx.seen(o.parser, off, vis)
    if len(vis) > 2:
        ctx.sample(dict(levels=vis[:20], refused=bad, opts=o.kwargs()))
