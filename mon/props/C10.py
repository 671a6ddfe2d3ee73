"""Numbers and markers of the entries."""
import itertools

from .. import diff, mdit, model as M

LEVEL = 'exploration'
RULE = ('distinct (dialect, ordered, constant, marker asked for, levels) '
        'whose numbers were compared')
MUST_SEE = ['ordered entries', 'constant entries', 'unordered entries',
            'marker replaced by the default', 'rendered numbers',
            'numbers above 9', 'incoherent sequences']
ASSUMPTIONS = ['in lists of incoherent documents only the number of an entry '
               'as deep as, or deeper than, the one before is specified']


def coherent(s):
    return all(s[0] <= b <= a + 1 for a, b in zip(s, s[1:]))


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    seqs = [s for k in range(1, 7) for s in itertools.product(
        range(1, 5), repeat=k) if coherent(s)]
    if ctx.thorough:
        seqs += [s for k in range(7, 9) for s in itertools.product(
            range(1, 5), repeat=k) if s[0] == 1 and coherent(s)]
    for i, s in ctx.mine(enumerate(seqs)):
        p = M.ALL_PARSERS[(i + ctx.seed) % 6]
        yield dict(levels=list(s), opts=dict(
            parser=p, ordered=True, keep_header_levels=6,
            list_marker='.' if p == 'redcarpet' or i % 2 else ')'))
    for p in M.ALL_PARSERS:
        for od, co, mk, ni, nl in itertools.product(
                (False, True), (False, True), ('-', '+', '*', '.', ')'),
                (False, True), (False, True)):
            if not (od or co) and mk in '.)':
                continue
            yield dict(levels=[1, 1, 2, 3, 2, 2, 1, 2, 3, 3], opts=dict(
                parser=p, ordered=od, constant_ordered_list=co,
                list_marker=mk, no_indentation=ni, no_links=nl,
                keep_header_levels=r.choice([2, 3, 6])))
    for _ in range(ctx.n(8000)):
        o = g.options()
        kw = o.kwargs()
        if r.random() < .6:
            kw['ordered'] = True
            if kw['list_marker'] not in '.)':
                kw['list_marker'] = r.choice('-+*.')
        n = r.choice([2, 5, 9, 12, 25, 60])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 600)
        lv = g.levels(n, True, top=r.choice([1, 2, 3, 6]))
        yield dict(levels=lv, opts=kw, hostile=r.random() < .3)
    # Incoherent ones.
    seqs = [s for k in range(2, 6) for s in itertools.product(
        (1, 2, 3, 4) if k < 5 else (1, 3, 4), repeat=k) if not coherent(s)]
    for i, s in ctx.mine(enumerate(seqs)):
        p = M.ALL_PARSERS[(i + ctx.seed) % 6]
        yield dict(levels=list(s), opts=dict(
            parser=p, ordered=True, keep_header_levels=6,
            no_list_coherence=i % 3 != 0, no_indentation=i % 3 == 0,
            list_marker='.'))
    for _ in range(ctx.n(2500)):
        flat = r.random() < .3
        yield dict(levels=[r.randint(1, 6) for _ in range(
            r.choice([3, 6, 12, 30]))], opts=dict(
                parser=r.choice(M.ALL_PARSERS), ordered=True, list_marker='.',
                no_list_coherence=not flat, no_indentation=flat,
                keep_header_levels=r.choice([3, 4, 6, 6]),
                constant_ordered_list=r.random() < .1),
                hostile=r.random() < .3)
    for n in ctx.mine([9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000,
                       1001] + [x for x in g.sizes if x <= 5000]):
        for lv in ([1] * n, [1] + [2] * n + [1, 2, 2],
                   [1, 2] + [3] * n + [2, 3, 1, 2, 3], [1, 2] * n,
                   [3] * n + [4] * 12 + [3]):
            yield dict(levels=lv, opts=dict(
                parser=r.choice(M.ALL_PARSERS), ordered=True, list_marker='.',
                keep_header_levels=6))


def check(ctx, case):
    o = M.Opts(**case['opts'])
    lv = case['levels']
    t = ['*e*', 'é', 'a b', '`c`', 'Q!'] if case.get('hostile') else ['h']
    doc = ''.join(f'{"#" * x} {t[i % len(t)]} w{i}\n'
                  for i, x in enumerate(lv))
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    seen = diff.observed(r, o)
    vis = [x for x in lv if x <= o.keep_header_levels]
    if vis and not coherent(vis):
        if o.no_list_coherence or o.no_indentation:
            incoherent(ctx, case, o, vis, seen, r)
        return
    # Independent of the model of documents: count siblings.
    want, counts = [], {}
    for x in vis:
        for k in [k for k in counts if k > x]:
            del counts[k]
        counts[x] = counts.get(x, 0) + 1
        want.append('' if not o.numbered else
                    '1' if o.constant_ordered_list else str(counts[x]))
    marker = o.list_marker
    if o.numbered:
        ok = '.' if o.parser == 'redcarpet' else '.)'
        if marker not in ok:
            marker = '.'
            ctx.events['marker replaced by the default'] += 1
    got = seen and [(s.num, s.marker) for s in seen]
    want = [(n, marker) for n in want]
    if vis:
        ctx.require(got == want, case, 'wrong numbers or markers',
                    levels=vis[:60], opts=o.kwargs(), toc=str(r.value)[:600],
                    got=[g for g, w in zip(got or [], want) if g != w][:5],
                    want=[w for g, w in zip(got or [], want) if g != w][:5])
    kind = ('constant' if o.constant_ordered_list else
            'ordered' if o.ordered else 'unordered') + ' entries'
    ctx.events[kind] += len(want)
    ctx.events['numbers above 9'] += sum(1 for n, _ in want if len(n) > 1)
    # As a reader sees them.
    if o.numbered and not o.constant_ordered_list and not o.no_indentation \
            and o.parser != 'redcarpet' and vis:
        items, _ = mdit.render(r.value)
        shown = [str(i.number) for i in items]
        ctx.require(shown == [n for n, _ in want], case,
                    'numbers shown by a renderer', levels=vis[:60],
                    opts=o.kwargs(), got=shown[:40])
        ctx.events['rendered numbers'] += len(shown)
    ctx.seen(o.parser, o.numbered, o.constant_ordered_list, o.list_marker,
             o.no_indentation, vis[:100])
    if len(vis) > 3:
        ctx.sample(dict(levels=vis[:12], opts=o.kwargs(), toc=r.value[:160]))


def incoherent(ctx, case, o, vis, seen, r):
    """What can be said of any sequence of levels."""
    nums = seen and [s.num for s in seen]
    bad = not nums or len(nums) != len(vis)
    if not bad and not o.numbered:
        bad = any(nums)
    elif not bad:
        for i, (x, n) in enumerate(zip(vis, nums)):
            if i == 0 or o.constant_ordered_list or x > vis[i - 1]:
                bad |= n != '1'
            elif x == vis[i - 1]:
                bad |= n != str(int(nums[i - 1]) + 1)
    ctx.require(not bad, case, 'numbers of entries as deep as, or deeper '
                'than, the one before', levels=vis[:60], opts=o.kwargs(),
                got=nums and nums[:60], toc=str(r.value)[:600])
    ctx.events['incoherent sequences'] += 1
    ctx.seen('incoherent', o.parser, o.numbered, o.constant_ordered_list, vis)
