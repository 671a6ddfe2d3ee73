"""The anchor derives from the heading text by the documented rule."""
import sys

from .. import diff, model as M, rt
from ..gen import category_samples

LEVEL = 'exploration'
RULE = 'distinct (dialect, heading content) whose anchor was compared'
MUST_SEE = ['code points swept', 'anchors compared', 'gitlab squeezed',
            'anchors built directly']
ASSUMPTIONS = ['the rule is the one documented for the dialect; inline '
               'constructs (emphasis, code, HTML) belong to C05, repeated '
               'anchors to C06, redcarpet to C07']

SPECIAL = set('*_`<>\\[]&\n\r\x00')
CM = M.CMARK_LIKE


def points(ctx):
    """Code points to be swept, in blocks."""
    allp = [c for c in range(1, 0x110000)
            if not 0xD800 <= c < 0xE000 and chr(c) not in SPECIAL]
    if ctx.thorough:
        return allp
    # Everything assigned below U+3400 and a slice of the rest.
    return [c for c in allp if c < 0x3400 or (c < 0x20000 and
                                              (c + ctx.seed) % 5 == 0)
            or (c + ctx.seed) % 97 == 0]


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    pts = points(ctx)
    block = 220
    jobs = [(p, i) for i in range(0, len(pts), block) for p in CM]
    if not ctx.thorough:
        jobs = [(p, i) for k, (p, i) in enumerate(jobs)
                if (k // 5 + k + ctx.seed) % 5 in (0, 2)]
    for p, i in ctx.mine(jobs):
        t = ''.join('a' + chr(c) + 'B' for c in pts[i:i + block])
        yield dict(texts=[t, 'z' + t[:50]], parser=p, sweep=True)
    # Characters next to each other, at both ends, spaces and hyphens.
    cats = [c for c in category_samples(ctx.shared_rng, 5)
            if c not in SPECIAL]
    for _ in range(ctx.n(9000)):
        texts = []
        for _ in range(r.choice([1, 2, 4])):
            n = r.choice([1, 2, 3, 5, 9])
            parts = []
            for _ in range(n):
                k = r.random()
                if k < .3:
                    parts.append(r.choice(cats))
                elif k < .5:
                    parts.append(r.choice([' ', '  ', '-', '--', ' - ', '---',
                                           ' -- ', '\t', ' \t ', '- -', '\x0b',
                                           '\x0c', '\u00a0', '\u2003']))
                elif k < .6:
                    parts.append(r.choice('!"#$%\'()+,./:;=?@^{|}~'))
                else:
                    parts.append(g.word())
            t = ''.join(c for c in ''.join(parts) if c not in SPECIAL)
            if r.random() < .2:
                t += r.choice(['', ' ']) + r.choice(
                    ['snake_case', 'a__b', 'x_1_y', '_', 'é_É', 'T_'])
            texts.append(t)
        yield dict(texts=texts, parser=r.choice(CM))
    for _ in range(ctx.n(3000)):
        t = ''.join(c for c in ''.join(
            g.word() + r.choice(['', ' ', '-', '  ']) for _ in range(
                r.randint(1, 6))) if c not in SPECIAL)
        yield dict(direct=t, parser=r.choice(CM))
    for n in ctx.mine(sorted({*range(1, 900, 7), *[
            x for x in g.sizes if x < 900], 63, 64, 65, 127, 128, 129, 255, 256,
            257, 511, 512, 513})):
        for pat in ('a', 'A', 'é', 'x ', 'y-', '. ', '日', '- ', 'aB'):
            yield dict(texts=[(pat * n)[:n - 1] + 'q'],
                       parser=r.choice(CM))


def check(ctx, case):
    p = case['parser']
    if 'direct' in case:
        t = case['direct']
        r = rt.call(ctx.api.build_anchor_link, t, {}, p)
        want = M.slug(t, p)
        if r.kind != 'timeout':
            ctx.require(r.ok and r.value == want, case,
                        'anchor built from a text is wrong', text=t, parser=p,
                        got=r.brief(), want=want)
        ctx.events['anchors built directly'] += 1
        return
    o = M.Opts(parser=p, keep_header_levels=6, no_list_coherence=True)
    texts = []
    seen = set()
    for t in case['texts']:
        h = M.atx('# ' + t, p)
        if h is None or M.label_is_blank(h[1]) or len(h[1]) > 998:
            continue
        s = M.slug(h[1], p)
        if s in seen:
            continue
        seen.add(s)
        texts.append(t)
    if not texts:
        return
    doc = ''.join('# ' + t + '\n' for t in texts)
    res = diff.expect(ctx, case, doc, o, lambda s: s.anchor,
                      lambda e: e.anchor, 'anchor is not the documented one')
    if res is None:
        return
    for e in res[0]:
        ctx.events['anchors compared'] += 1
        if case.get('sweep'):
            ctx.events['code points swept'] += len(set(e.content))
        if p == 'gitlab' and M.slug(e.content, 'cmark') != e.base:
            ctx.events['gitlab squeezed'] += 1
        ctx.seen(p, e.content)
    if res[0] and not case.get('sweep'):
        ctx.sample(dict(heading=res[0][0].content[:80],
                        anchor=res[1][0].anchor[:80], parser=p))
