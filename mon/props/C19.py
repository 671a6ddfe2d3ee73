"""Line endings of the input do not matter; those of the output are asked."""
from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, input line endings, output line ending, '
        'document) compared')
MUST_SEE = ['inputs compared', 'outputs compared', 'files in place compared',
            'verdicts after a write', 'standard input compared',
            'headings read with other line endings']
ASSUMPTIONS = ['line endings are LF, CR LF and CR']
EOLS = ['\n', '\r\n', '\r', 'mixed']
NLS = ['\n', '\r\n', '\r']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for _ in range(ctx.n(4500)):
        o = g.options(no_list_coherence=True,
                      skip_lines=r.choice([0] * 6 + [1, 2]))
        if o.no_indentation:
            o.no_list_coherence = False
        n = r.choice([1, 2, 4, 8])
        if g.sizes and r.random() < .2:
            n = min(r.choice(g.sizes), 300)
        lines = g.doc_lines(n, True, hostile=.6,
                            fences='wild' if r.random() < .4 else True)
        lines = [x.replace('\r', '').replace('\n', '') for x in lines]
        yield dict(lines=lines, opts=o.kwargs(), final=r.random() < .7,
                   stdin=r.random() < .15, seed=r.random())
    for _ in range(ctx.n(2500)):
        c = I.gen_file(ctx, ['single', 'toc', 'toc', 'empty', 'adjacent'])
        c['opts'] = g.options(no_list_coherence=True,
                              no_indentation=False).kwargs()
        c['how'] = r.choice(['api', 'cli', 'diff'])
        yield c
    # Buffers end between CR and LF.
    for n in ctx.mine([8189, 8190, 8191, 8192, 8193, 16383, 16384, 65535,
                       65536] + [x for x in g.sizes if x > 100]):
        yield dict(lines=['x' * (n - 1), '# a', '', '# b', '```', '# c',
                          '```', '# d'], opts=dict(parser='cmark'),
                   final=True, stdin=n % 2 == 0, seed=n)
        yield dict(lines=['y'] * (n // 3) + ['# a', '## b'],
                   opts=dict(parser='github'), final=False, stdin=False,
                   seed=n)


def join(case, style, lines):
    import random
    rr = random.Random(case['seed'])
    out, prev = [], False
    for i, ln in enumerate(lines):
        e = style if style != 'mixed' else rr.choice(NLS)
        if prev and ln == '' and e == '\n':
            e = '\r\n'
        if i == len(lines) - 1 and not case['final']:
            e = ''
        out.append(ln + e)
        prev = e == '\r'
    return ''.join(out)


def check(ctx, case):
    o = M.Opts(**{**case['opts'], 'newline_string': '\n'})
    if 'reg' in case:
        return in_place(ctx, case, o)
    lines = case['lines']
    ref = ctx.toc(join(case, '\n', lines), o)
    if ref.kind == 'timeout':
        return
    for e in EOLS[1:]:
        text = join(case, e, lines)
        r = ctx.toc(text, o)
        if r.kind == 'timeout':
            continue
        ctx.require(r == ref, case, 'line endings of the input matter',
                    doc=text[:1200], opts=o.kwargs(), eol=e, got=r.brief(),
                    want=ref.brief())
        ctx.events['inputs compared'] += 1
    for nl in NLS:
        e = EOLS[(NLS.index(nl) + len(lines)) % 4]
        r = ctx.toc(join(case, e, lines), o, newline_string=nl)
        if r.kind == 'timeout':
            continue
        same = r.kind == ref.kind and (
            r.value == (ref.value.replace('\n', nl) if ref.ok else ref.value))
        ctx.require(same, case, 'the newline asked for is not the one used',
                    doc=join(case, e, lines)[:1200], opts=o.kwargs(),
                    newline=nl, got=r.brief(), want=ref.brief())
        ctx.events['outputs compared'] += 1
        ctx.seen(o.parser, e, nl, lines[:8])
    if case['stdin']:
        for e in EOLS:
            for nl in NLS[:2]:
                oo = M.Opts(**{**o.kwargs(), 'newline_string': nl})
                code, out, err, r = ctx.cli(I.cli_args(oo) + ['-'], join(
                    case, e, lines).encode())
                if r.kind == 'timeout':
                    continue
                want = ref.value.replace('\n', nl) if ref.ok else ''
                ctx.require(out.decode() == want and
                            code == (0 if ref.ok else 1), case,
                            'standard input: line endings matter', eol=e,
                            newline=nl, opts=o.kwargs(),
                            doc=join(case, e, lines)[:1200],
                            got=out.decode()[:600], want=want[:600])
                ctx.events['standard input compared'] += 1
    # Reading headings from a string of many lines.
    some = [x for x in lines[:12] if x]
    if some and ref.ok:
        got = [rt.call(ctx.api.get_atx_heading, nl.join(some), 6, o.parser,
                       True) for nl in NLS]
        ctx.require(got[0] == got[1] == got[2], case,
                    'headings depend on the line endings', lines=some,
                    parser=o.parser, got=[x.brief() for x in got])
        ctx.events['headings read with other line endings'] += 1
    if ref.ok and ref.value:
        ctx.sample(dict(doc=join(case, '\r\n', lines)[:150],
                        toc=ref.value[:120]))


def in_place(ctx, case, o):
    marker = case['marker']
    ref = None
    for e in EOLS:
        for nl in NLS:
            c = dict(case, eol=e)
            text = I.text_of(c)
            p = ctx.path('c19.md')
            ctx.write(text, p)
            oo = M.Opts(**{**o.kwargs(), 'newline_string': nl})
            if case['how'] != 'api':
                code, _, err, r = ctx.cli(I.cli_args(
                    oo, marker, True, case['how'] == 'diff') + [p])
                ok = code == 0 or code == 128 and case['how'] == 'diff'
            else:
                b = rt.call(ctx.api.build_toc, p, **oo.kwargs())
                if not b.ok:
                    return
                ok = I.write(ctx, p, b.value, marker, nl).ok
            if not ok:
                ref = ref or ('failed', )
                ctx.require(ref == ('failed', ), case,
                            'fails with some line endings only', eol=e,
                            newline=nl, text=text[:900], opts=o.kwargs())
                continue
            raw = ctx.read(p).decode()
            norm = I.normal(raw)
            ctx.require(raw == norm.replace('\n', nl), case,
                        'line endings in the file are not the one asked for',
                        eol=e, newline=nl, before=text[:900],
                        after=raw[:1200], opts=o.kwargs())
            ref = ref or norm
            ctx.require(norm == ref, case,
                        'the file depends on the line endings', eol=e,
                        newline=nl, before=text[:900], after=norm[:1200],
                        want=ref[:1200], opts=o.kwargs())
            ctx.events['files in place compared'] += 1
            ctx.seen(o.parser, e, nl, case['pre'][:4], case['post'][:4])
    if ref is None or ref == ('failed', ):
        return
    # What was written compares equal to itself.
    for nl in NLS:
        ctx.write(ref.replace('\n', nl), p)
        oo = M.Opts(**{**o.kwargs(), 'newline_string': nl})
        b = rt.call(ctx.api.build_toc, p, **oo.kwargs())
        if not b.ok or not I.recognised(I.normal(b.value)) or \
                b.value.strip() == '':
            return
        r = rt.call(ctx.api.tocs_equal, b.value, p, marker)
        ctx.require(r.ok and r.value is True, case,
                    'a table differs from itself', newline=nl,
                    text=ref[:1200], opts=o.kwargs(), got=r.brief())
        ctx.events['verdicts after a write'] += 1
