"""The list nests the way the headings do, as seen by a Markdown renderer."""
import itertools

from .. import mdit, model as M

LEVEL = 'exploration'
RULE = ('distinct (ordered or not, marker, sequence of levels) whose '
        'rendering was compared')
MUST_SEE = ['entries rendered', 'deep entries', 'numbers of two digits',
            'numbers of three digits', 'flat lists', 'constant numbers']
ASSUMPTIONS = ['renderer: markdown-it-py, commonmark preset; coherent '
               'documents; redcarpet\'s four space rule belongs to C07']

CM = M.CMARK_LIKE


def opts(ctx, i=None):
    r = ctx.rng
    o = dict(parser=r.choice(CM), keep_header_levels=6)
    k = r.random()
    if k < .35:
        o.update(list_marker=r.choice('-+*'))
    elif k < .8:
        o.update(ordered=True, list_marker=r.choice('.)'))
    else:
        o.update(constant_ordered_list=True, ordered=r.random() < .5,
                 list_marker=r.choice('.)'))
    if r.random() < .1:
        o.update(no_indentation=True)
    if r.random() < .1:
        o.update(no_list_coherence=True)
    if r.random() < .15:
        o.update(no_links=True)
    return o


def coherent(s):
    return all(s[0] <= b <= a + 1 for a, b in zip(s, s[1:]))


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    seqs = [s for k in range(1, 7 if not ctx.thorough else 9)
            for s in itertools.product(range(1, 7), repeat=k)
            if coherent(s)] if not ctx.thorough else list(gen_coherent(8))
    ctx.shared_rng.shuffle(seqs)
    for s in ctx.mine(seqs[:9000 if not ctx.thorough else 90000]):
        yield dict(levels=list(s), opts=opts(ctx))
    for _ in range(ctx.n(3000)):
        n = r.choice([8, 12, 15, 25, 40])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 500)
        yield dict(levels=g.levels(n, True, top=r.choice([2, 3, 6])),
                   opts=opts(ctx))
    # Width of the numbers: before and after a change of width, at all depths.
    widths = [8, 9, 10, 11, 12, 20, 98, 99, 100, 101, 102] + [
        x for x in g.sizes if x <= 1200] + [999, 1000, 1001]
    # Five digits and more, once per width.
    wide = [9999, 10000, 10001] + [x for x in g.sizes if 1200 < x <= 12000]
    if ctx.thorough:
        wide += [99999, 100000]
    for n in ctx.mine(wide):
        o = dict(ordered=True, list_marker=r.choice('.)'), parser=r.choice(
            M.CMARK_LIKE), keep_header_levels=6)
        yield dict(levels=[1] * n + [2, 3, 2, 1, 2], opts=o)
    for n in ctx.mine(widths):
        for d in (1, 2, 3):
            pre = list(range(1, d))
            for tail in ([d + 1, d + 1, d], [d + 1, d + 2, d + 1, d],
                         [d + 1, d + 2, d + 3, d + 2, d, d + 1],
                         [d + 1, d, d + 1, d + 2, 1, 2]):
                lv = pre + [d] * n + [min(6, x) for x in tail]
                if n <= 102:
                    lv += tail_again(d, n)
                if coherent(lv):
                    o = opts(ctx)
                    if r.random() < .7:
                        o.update(ordered=True, list_marker=r.choice('.)'))
                        o.pop('constant_ordered_list', None)
                        o.pop('no_indentation', None)
                    yield dict(levels=lv, opts=o)


def tail_again(d, n):
    return [d] + [d + 1] * n + [d + 2, d + 2, d + 1, d + 2, d]


def gen_coherent(top):
    out = [[(f, ) for f in range(1, 7)]]
    for _ in range(top - 1):
        out.append([s + (x, ) for s in out[-1]
                    for x in range(s[0], min(6, s[-1] + 1) + 1)])
        if len(out[-1]) > 400000:
            break
    return [s for b in out for s in b]


def check(ctx, case):
    o = M.Opts(**case['opts'])
    lv = case['levels']
    doc = ''.join(f'{"#" * x} entry{i}\n' for i, x in enumerate(lv))
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    ctx.require(r.ok and isinstance(r.value, str), case,
                'no table of contents', levels=lv, opts=o.kwargs(),
                got=r.brief())
    items, stray = mdit.render(r.value)
    flat = o.no_indentation
    want = [(1 if flat else x - lv[0] + 1, f'entry{i}')
            for i, x in enumerate(lv)]
    got = [(it.depth, it.text) for it in items]
    if got != want or stray or any(it.extra for it in items):
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        ctx.violate(case, 'rendered nesting differs from the headings',
                    levels=lv[:60], opts=o.kwargs(), at=k, got=got[k:k + 3],
                    want=want[k:k + 3], stray=stray[:3],
                    toc=r.value[:600])
    ctx.require(all(it.ordered == o.numbered for it in items), case,
                'wrong kind of list', opts=o.kwargs(), toc=r.value[:300])
    ctx.events['entries rendered'] += len(items)
    ctx.events['deep entries'] += sum(1 for d, _ in want if d >= 3)
    ctx.events['flat lists'] += flat
    ctx.events['constant numbers'] += o.constant_ordered_list
    if o.numbered and not o.constant_ordered_list and not flat:
        ctx.events['numbers of two digits'] += sum(
            1 for x in r.value.split('\n') if x.strip()[:2].isdigit())
        ctx.events['numbers of three digits'] += sum(
            1 for x in r.value.split('\n') if x.strip()[:3].isdigit())
    ctx.seen(o.numbered, o.marker, flat, lv[:200])
    if len(lv) > 3:
        ctx.sample(dict(levels=lv[:12], opts=o.kwargs(), toc=r.value[:200]))
