"""Redcarpet dialect: headings, anchors, indentation."""
import itertools

from .. import diff, model as M, rt

LEVEL = 'exploration'
RULE = 'distinct (heading line, keep level) compared with redcarpet\'s rules'
MUST_SEE = ['lines judged', 'anchors compared', 'anchors from a checksum',
            'repeated anchors left alone', 'four space steps']
ASSUMPTIONS = ['oracle: rndr_header_anchor and is_atxheader/parse_atxheader '
               'of the redcarpet version quoted in the sources, 64 bit '
               'unsigned long']

O = dict(parser='redcarpet', no_list_coherence=True, keep_header_levels=6)


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    # Anchor: exhaustive small alphabets.
    top = 6 if ctx.thorough else 5
    texts = [''.join(p) for al in ('a -<>', 'A&;.', 'é~_ ', '.\\[x', '"\'(1',
                                   '<a>é')
             for k in range(1, top + 1) for p in itertools.product(al,
                                                                   repeat=k)]
    for i in ctx.mine(range(0, len(texts), 150)):
        yield dict(direct=texts[i:i + 150])
    asc = [chr(c) for c in range(1, 128) if c not in (10, 13)]
    yield dict(direct=[a + c + 'b' for a in ('', 'x', '.') for c in asc] + asc)
    pts = [c for c in range(0x80, 0x110000)
           if not 0xD800 <= c < 0xE000 and (ctx.thorough or c < 0x1000 or
                                            (c + ctx.seed) % 61 == 0)]
    for i in ctx.mine(range(0, len(pts), 2000)):
        yield dict(direct=[chr(c) for c in pts[i:i + 2000]] + [
            'a' + chr(c) + 'b' for c in pts[i:i + 300]])
    # Heading lines.
    al = ['#', ' ', 'a', '\t', '\\']
    lines = [''.join(p) for k in range(1, 7) for p in itertools.product(
        al, repeat=k) if p[0] in '# \t']
    lines += ['#' * n + s for n in range(1, 12) for s in ('', ' ', ' x', 'x',
                                                           '\tx', ' # x #')]
    if not ctx.thorough:
        lines = [x for i, x in enumerate(lines) if len(x) < 6 or
                 (i + ctx.seed) % 4 == 0]
    for i in ctx.mine(range(0, len(lines), 100)):
        yield dict(lines=lines[i:i + 100], opts=dict(O), eol='\n')
    for _ in range(ctx.n(9000)):
        o = g.options(parser='redcarpet')
        n = r.choice([1, 2, 4, 8, 15])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 400)
        ls = []
        for lv in g.levels(n, r.random() < .8):
            k = r.random()
            t = g.text(.6) if k < .6 else r.choice(
                ['same', 'Same', 'é', '日本 語', 'a <b>c</b>', 'x &amp; y',
                 '!!!', 'a--b', '<', '&', 'q & r', 'a < b > c', '&;',
                 '<b>', 'T_x', '1.', '🎉🎉'])
            ls.append(g.heading(lv, t))
            if r.random() < .15:
                ls.append(r.choice(['```', '~~~', 'txt', '', ' # x', '#y']))
        yield dict(lines=ls, opts=o.kwargs(),
                   eol=r.choice(['\n'] * 5 + ['\r\n', '\r']))
    for n in ctx.mine(sorted({1, 2, 8, 63, 64, 65, 500, 998, 999, 1000, 1001,
                              1500, 3000, *g.sizes})):
        for pat in ('a', 'é', '.', 'a.', '. ', 'a b'):
            t = (pat * n)[:n]
            if t.strip(' '):
                yield dict(lines=['# ' + t, '## ' + t + 'z'], opts=dict(O),
                           eol='\n')


def check(ctx, case):
    if 'direct' in case:
        for t in case['direct']:
            want = M.slug_redcarpet(t)
            r = rt.call(ctx.api.build_anchor_link, t, {}, 'redcarpet')
            ctx.require(r.ok and r.value == want, dict(direct=[t]),
                        'redcarpet anchor', text=t, got=r.brief(), want=want)
            ctx.events['anchors compared'] += 1
            if want.startswith('part-'):
                ctx.events['anchors from a checksum'] += 1
            ctx.seen(t)
        return
    o = M.Opts(**case['opts'])
    doc = ''.join(x + case['eol'] for x in case['lines'])

    pad = str if o.no_links else diff.unpad

    def proj(s):
        return (s.indent, s.num, s.marker,
                s.label and pad(s.label), s.anchor)

    def want(e):
        return (e.indent, str(e.index) if o.numbered else '', o.marker,
                pad(e.content if o.no_links else
                    M.label(e.content, 'redcarpet')),
                None if o.no_links else e.anchor)

    entries, err = M.toc_entries(doc, o)
    r = ctx.toc(doc, o)
    if r.kind == 'timeout':
        return
    if err:
        ctx.require(r.kind == 'raise' and r.value == err, case,
                    'refusal expected', doc=doc[:1500], opts=o.kwargs(),
                    got=r.brief(), want=err)
        return
    seen = diff.observed(r, o)
    ctx.require(seen is not None, case, 'no table of contents',
                doc=doc[:1500], opts=o.kwargs(), got=r.brief())
    g, w = [proj(s) for s in seen], [want(e) for e in entries]
    ctx.require(g == w, case, 'redcarpet table of contents', doc=doc[:1500],
                opts=o.kwargs(), got=[x for x in g if x not in w][:5],
                want=[x for x in w if x not in g][:5], n=[len(g), len(w)])
    ctx.events['lines judged'] += len(case['lines'])
    ctx.events['anchors compared'] += len(w)
    bases = [e.base for e in entries]
    ctx.events['repeated anchors left alone'] += len(bases) - len(set(bases))
    ctx.events['four space steps'] += sum(1 for e in entries if e.indent >= 4)
    for e in entries:
        ctx.seen(e.content, e.level)
    if w:
        ctx.sample(dict(heading=entries[0].content[:60], entry=seen[0].raw[:90]))
