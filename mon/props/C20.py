"""Skipping lines is the same as not having them."""
from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = 'distinct (dialect, number of skipped lines, document) compared'
MUST_SEE = ['tables compared', 'fence opened in the skipped part',
            'more lines skipped than there are', 'standard input compared',
            'files in place compared', 'negative numbers refused',
            'repeated anchors in the skipped part']
ASSUMPTIONS = ['in place: the marker is after the skipped lines']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for _ in range(ctx.n(6000)):
        o = g.options(no_list_coherence=r.random() < .7)
        if o.no_indentation:
            o.no_list_coherence = False
        n = r.choice([1, 2, 4, 8])
        lines = g.doc_lines(n, True, hostile=.5,
                            fences='wild' if r.random() < .5 else True)
        if r.random() < .3:
            lines = ['---', 'title: x', '# yaml comment', '---'] + lines
        if r.random() < .2:
            lines = ['# same', '# Same'] + lines + ['# same']
        k = r.choice([0, 1, 1, 2, 3, 5, len(lines) - 1, len(lines),
                      len(lines) + 1, len(lines) + 100,
                      r.randint(0, len(lines))])
        yield dict(lines=lines, opts=o.kwargs(), k=max(0, k),
                   eol=r.choice(['\n'] * 4 + ['\r\n', '\r']),
                   final=r.random() < .7,
                   how=r.choice(['api'] * 5 + ['stdin', 'cli', 'place',
                                               'multi']))
    for n in ctx.mine([10, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 5000] +
                      [x for x in g.sizes if x > 3]):
        for d in (-1, 0, 1):
            yield dict(lines=[f'# h{i}' if i % 3 else 'text é'
                              for i in range(n + 4)],
                       opts=dict(parser=r.choice(M.ALL_PARSERS)),
                       k=max(0, n + d), eol=r.choice(['\n', '\r\n']),
                       final=True, how=r.choice(['api', 'stdin', 'cli']))
    for k in (-1, -5, -10 ** 9):
        yield dict(neg=k)


def check(ctx, case):
    if 'neg' in case:
        ctx.write('# a\n# b\n')
        r = rt.call(ctx.api.build_toc, ctx.doc, skip_lines=case['neg'])
        ctx.require(r.kind == 'raise', case, 'a negative number is accepted',
                    got=r.brief())
        code, out, err, r = ctx.cli(['-s', str(case['neg']), 'github',
                                     ctx.doc])
        ctx.require(code in (1, 2) and out == b'', case,
                    'a negative number is accepted', code=code)
        ctx.events['negative numbers refused'] += 1
        return
    o = M.Opts(**case['opts'])
    k, e, lines = case['k'], case['eol'], case['lines']
    text = e.join(lines) + (e if case['final'] and lines else '')
    real = M.split_lines(text)
    cut = e.join(real[k:]) + (e if case['final'] and real[k:] else '')
    ref = ctx.toc(cut, o)
    if ref.kind == 'timeout':
        return
    oo = M.Opts(**{**o.kwargs(), 'skip_lines': k})
    info = dict(doc=text[:1200], k=k, opts=o.kwargs(), want=ref.brief())
    how = case['how']
    if how in ('stdin', 'cli'):
        ctx.write(text)
        name = '-' if how == 'stdin' else ctx.doc
        code, out, err, r = ctx.cli(I.cli_args(oo) + [name], text.encode())
        if r.kind == 'timeout':
            return
        ctx.require(code == (0 if ref.ok else 1) and out.decode() ==
                    (ref.value if ref.ok else ''), case,
                    'skipping differs from leaving out', got=out[:600],
                    code=code, **info)
        ctx.events['standard input compared'] += how == 'stdin'
    elif how == 'place':
        return place(ctx, case, o, oo, real, info)
    elif how == 'multi':
        ctx.write(text)
        p2 = ctx.write(text, ctx.path('two.md'))
        r = rt.call(ctx.api.build_multiple_tocs, [ctx.doc, p2],
                    **oo.kwargs())
        if r.kind == 'timeout':
            return
        ctx.require((r.ok and list(r.value) == [ref.value] * 2) if ref.ok
                    else r == ref, case, 'skipping differs over many files',
                    got=r.brief(), **info)
    else:
        r = ctx.toc(text, oo)
        if r.kind == 'timeout':
            return
        ctx.require(r == ref, case, 'skipping differs from leaving out',
                    got=r.brief(), **info)
    ctx.events['tables compared'] += 1
    mask = M.code_mask(real, o.parser)
    ctx.events['fence opened in the skipped part'] += k < len(mask) and \
        k > 0 and mask[k] and mask[k - 1]
    ctx.events['more lines skipped than there are'] += k > len(real)
    hs = [M.slug(h[1], o.parser) for x in real[:k]
          if (h := M.atx(x, o.parser))]
    tl = {M.slug(h[1], o.parser) for x in real[k:]
          if (h := M.atx(x, o.parser))}
    ctx.events['repeated anchors in the skipped part'] += any(
        x in tl for x in hs)
    ctx.seen(o.parser, k, real[:10])
    if ref.ok and ref.value and k:
        ctx.sample(dict(doc=text[:150], skipped=k, toc=ref.value[:100]))


def place(ctx, case, o, oo, real, info):
    """Skipped lines are still there in the file."""
    k = case['k']
    head, tail = real[:k], real[k:]
    marker = '<!--TOC-->'
    if any(x.strip() == marker for x in real) or len(head) < k:
        return
    p = ctx.path('c20.md')
    ctx.write('\n'.join(head + [marker] + tail) + '\n', p)
    code, out, err, r = ctx.cli(I.cli_args(oo, marker, True) + [p])
    q = ctx.path('c20-ref.md')
    ctx.write('\n'.join([marker] + tail) + '\n', q)
    code2, out2, err2, r2 = ctx.cli(I.cli_args(o, marker, True) + [q])
    if 'timeout' in (r.kind, r2.kind):
        return
    want = ''.join(x + '\n' for x in head) + ctx.read(q).decode()
    ctx.require(code == code2 and ctx.read(p).decode() == want, case,
                'in place: skipping differs from leaving out',
                got=ctx.read(p).decode()[:1200], expected=want[:1200], **info)
    ctx.events['files in place compared'] += 1
