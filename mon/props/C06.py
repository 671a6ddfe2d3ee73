"""Repeated anchors are numbered in document order, whoever is shown."""
import hashlib
import zlib

from .. import diff, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, keep levels, sequence of anchor groups) over '
        'documents in which some anchor repeats')
MUST_SEE = ['repeated anchors', 'hidden headings counted',
            'headings in code not counted', 'counter shared by calls',
            'ten or more repetitions', 'different anchors in one counter']
ASSUMPTIONS = ['an anchor that is equal to the numbered form of another one '
               '("a-1" as a heading) is numbered on its own, as documented '
               'by the counting rule; no uniqueness is claimed there']

CM = M.CMARK_LIKE


def variants(g, base):
    """Different headings with the same anchor."""
    r = g.r
    b = base
    forms = [b, b.upper() if b.isascii() else b, f'*{b}*', f'**{b}**', b + '!',
             f'`{b}`', b + '?', f'"{b}"', b.capitalize() if b.isascii() else b,
             f'({b})', b + '.', b + ' #', f' {b} ', f'~{b}', f'<b>{b}</b>',
             # The same anchor in some dialects only, or another one.
             b.replace(' ', '  '), b.replace(' ', '-'), b.replace(' ', ' - '),
             b.replace('-', '--'), b + '-', b + ' -', b.replace(' ', '!'),
             b.replace(' ', '\u00a0'), b.replace(' ', '_'), b + b]
    return r.choice(forms)


SHORT = {
    'crc32': zlib.crc32, 'adler32': zlib.adler32, 'length': len,
    'sum': sum, 'letters': lambda b: bytes(sorted(b))}
for _n in ('md5', 'sha1', 'sha256'):
    for _k in (2, 4, 6, 8):
        SHORT[f'{_n} start {_k}'] = lambda b, n=_n, k=_k: hashlib.new(
            n, b).hexdigest()[:k]
        SHORT[f'{_n} end {_k}'] = lambda b, n=_n, k=_k: hashlib.new(
            n, b).hexdigest()[-k:]


def cases(ctx):
    g, r = ctx.gen, ctx.rng
    for _ in range(ctx.n(9000)):
        k = r.choice([1, 1, 2, 2, 3, 5])
        bases = [r.choice(['a', 'foo', 'the end', 'x y', 'é', '日本', 'a-1',
                           'foo-1', 'a-2', '1', 'intro', 'a b', 'API', '-',
                           'set_up', 'x-', 'foo-1-1', g.plain(1), '***',
                           '!!', '?', '10', 'a-10', 'x  y', 'a b c',
                           'x - y', 'a--1', 'foo--bar'])
                 for _ in range(k)]
        n = r.choice([2, 3, 4, 6, 10, 15, 25])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 600)
        lines = []
        for i in range(n):
            b = r.choice(bases)
            t = variants(g, b) if r.random() < .7 else b
            ln = '#' * r.randint(1, 6) + ' ' + t
            if M.label_is_blank((M.atx(ln, 'cmark') or (0, ''))[1]):
                ln = '# x'
            x = r.random()
            if x < .1:
                lines += ['```', ln, '```']
            elif x < .15:
                lines += ['    ' + ln]
            elif x < .2:
                lines += ['\\' + ln]
            lines.append(ln)
        yield dict(lines=lines, keep=r.choice([1, 2, 3, 4, 5, 6, 6]),
                   parser=r.choice(CM), skip=r.choice([0] * 6 + [1, 2, 5]),
                   eol=r.choice(['\n'] * 5 + ['\r\n', '\r']),
                   ordered=r.random() < .3, noind=r.random() < .2)
    # Texts which are nearly the same.
    for _ in range(ctx.n(1600)):
        ts = g.family(r.choice([3, 6, 12]))
        yield dict(lines=['#' * r.randint(1, 6) + ' ' + (
            t if r.random() < .7 else variants(g, t)) for t in ts],
            keep=r.choice([3, 6]), parser=r.choice(CM), skip=0, eol='\n',
            ordered=r.random() < .3, noind=r.random() < .2)
    # Many repetitions.
    for n in ctx.mine([9, 10, 11, 12, 99, 100, 101, 102, 255, 256, 257, 999,
                       1001, 1025] + [x for x in g.sizes if x <= 6000]
                      + ([5000, 10001] if ctx.thorough else [])):
        for p in CM:
            yield dict(lines=['# Same'] * n, keep=3, parser=p, skip=0,
                       eol='\n', ordered=False, noind=False)
        yield dict(lines=[f'{"#" * (1 + i % 6)} {"Same" if i % 3 else "Two"}'
                          for i in range(n)], keep=r.choice([1, 2, 3, 6]),
                   parser=r.choice(CM), skip=0, eol='\n', ordered=True,
                   noind=True)
        # Far apart, with many other anchors between.
        yield dict(lines=['# Same'] + [f'# h{i}' for i in range(n)] +
                   ['# Same', '# h0', f'# h{n - 1}'], keep=3,
                   parser=r.choice(CM), skip=0, eol='\n', ordered=False,
                   noind=False)
    # Different anchors stay different, whatever stands for them inside: more
    # of them than a short checksum can tell apart ...
    n = ctx.n(300000)
    yield dict(many=[r.choice(['h', 'x ', 'é', 'Sect-']),
                     r.randrange(10 ** 6), n], parser=r.choice(CM))
    # ... and some which popular ones cannot.
    for name, f in ctx.mine(list(SHORT.items())):
        known, pairs = {}, []
        for i in range(200000):
            k = f(f'h{i}'.encode())
            if k in known:
                pairs += [f'# {known[k]}', f'# h{i}']
                if len(pairs) > 30:
                    break
            known[k] = f'h{i}'
        ctx.events['pairs with the same ' + name] += len(pairs) // 2
        yield dict(lines=pairs, keep=3, parser=r.choice(CM), skip=0, eol='\n',
                   ordered=False, noind=False)
    # The counter as a value handed over between calls.
    for _ in range(ctx.n(3000)):
        p = r.choice(CM)
        seq = [variants(g, r.choice(['a', 'b c', 'é', 'a-1', 'q', 'b  c'])
                        ).strip()
               for _ in range(r.choice([2, 5, 12, 30]))]
        yield dict(direct=[s.rstrip(' #') for s in seq], parser=p)


def check(ctx, case):
    p = case['parser']
    if 'many' in case:
        word, start, n = case['many']
        counter = {}
        build = ctx.api.build_anchor_link
        for i in range(start, start + n):
            t = f'{word}{i}'
            r = rt.call(build, t, counter, p)
            ctx.require(r.ok and r.value == M.slug(t, p), dict(
                case, many=[word, start, i - start + 1]),
                'an anchor seen for the first time is not plain', text=t,
                parser=p, got=r.brief(), want=M.slug(t, p), anchors_before=i)
        for i in {start, start + n // 2, start + n - 1}:
            t = f'{word}{i}'
            r = rt.call(build, t, counter, p)
            ctx.require(r.ok and r.value == M.slug(t, p) + '-1', case,
                        'an old anchor is not numbered', text=t, parser=p,
                        got=r.brief())
        ctx.events['different anchors in one counter'] += n
        return
    if 'direct' in case:
        counter = {}
        anchors = M.Anchors(p)
        for t in case['direct']:
            plain = t.replace('<b>', '').replace('</b>', '')
            want = anchors(M.slug(plain, p))
            r = rt.call(ctx.api.build_anchor_link, t, counter, p)
            ctx.require(r.ok and r.value == want, case,
                        'numbering over a shared counter', text=t, parser=p,
                        got=r.brief(), want=want)
            ctx.events['counter shared by calls'] += 1
        # A new counter starts again.
        t = case['direct'][-1]
        plain = t.replace('<b>', '').replace('</b>', '')
        r = rt.call(ctx.api.build_anchor_link, t, {}, p)
        ctx.require(r.ok and r.value == M.slug(plain, p), case,
                    'numbering leaks to a new counter', text=t, parser=p,
                    got=r.brief())
        return
    o = M.Opts(parser=p, keep_header_levels=case['keep'],
               no_list_coherence=True, skip_lines=case['skip'],
               ordered=case['ordered'], no_indentation=case['noind'],
               list_marker='.' if case['ordered'] else '-')
    doc = ''.join(x + case['eol'] for x in case['lines'])

    def slug(content, parser):
        return M.slug(content.replace('<b>', '').replace('</b>', ''), parser)

    res = diff.expect(ctx, case, doc, o, lambda s: s.anchor,
                      lambda e: e.anchor, 'repeated anchors numbered wrongly',
                      slug_fn=slug)
    if res is None:
        return
    allh = M.headings(doc, p, o.skip_lines)
    groups = [slug(c, p) for _, _, c in allh]
    rep = len(groups) - len(set(groups))
    if rep:
        ctx.events['repeated anchors'] += rep
        ids = {}
        ctx.seen(p, o.keep_header_levels,
                 [ids.setdefault(x, len(ids)) for x in groups][:60],
                 [lv <= o.keep_header_levels for _, lv, _ in allh][:60])
        ctx.events['hidden headings counted'] += len(allh) - len(res[0])
        ctx.events['headings in code not counted'] += doc.count('```') // 2
        if max(groups.count(x) for x in set(groups)) >= 10:
            ctx.events['ten or more repetitions'] += 1
        ctx.sample(dict(doc=doc[:150], anchors=[s.anchor for s in res[1]][:9]))
