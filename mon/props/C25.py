"""What the dialects cannot express is refused, and only that."""
from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (dialect, links, limit, size or content, hidden or not) of '
        'observed acceptances and refusals')
MUST_SEE = ['long labels accepted', 'long labels refused',
            'blank labels refused', 'blank labels accepted',
            'numbers at the limit accepted', 'numbers over the limit refused',
            'limits do not apply', 'refusals through the command line']
ASSUMPTIONS = ['the length of a label is the one of the text of the heading '
               'before brackets are escaped',
               'the number of the last ordered marker is reached by handing '
               'a counter to the public function which increases it']
CM = M.CMARK_LIKE
BIG = 999999999


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    sizes = [1, 2, 100, 500, 990, 995, 996, 997, 998, 999, 1000, 1001, 1002,
             1010, 1998, 1999, 2000, 2500] + [x for x in g.sizes if x < 3500]
    jobs = [(n, p, u, nl) for n in sizes for p in M.ALL_PARSERS
            for u in ('x', 'é', '日', '🎉', 'ab ', '[', '\\[', '*', '.', '_a',
                      '`', 'X-', '\\')
            for nl in (False, True)]
    if not ctx.thorough:
        jobs = [j for i, j in enumerate(jobs) if 997 <= j[0] <= 1001 and
                j[2] != '*' or (i + ctx.seed) % 5 == 0]
    for n, p, u, nl in ctx.mine(jobs):
        t = (u * n)[:n - 1].rstrip(' ') if n > 1 else ''
        t = t + 'z' * (n - len(t))
        yield dict(text=t, parser=p, no_links=nl,
                   how=r.choice(['api', 'api', 'cli']), hidden=r.random() < .2)
    # The length is the one of the whole text, whatever it is made of.
    piece = ['#', '##', '# ', '\\', '\\\\', '*', '**', '_', '`', '[', ']', '<b>',
             '</b>', '<', '&amp;', '&', '-', '.', '\u00a0', '\u3000', '\u200b',
             '\x0b', '\x0c', '\x1c', '\x85', '\u2028', 'e\u0301', '\t', ' ',
             '  ', '!', '1', '~', '|', '\ufeff', '\x00', '\x7f', 'İ', 'ß', '🎉']
    for _ in range(ctx.n(1500)):
        n = r.choice([990, 997, 998, 998, 999, 999, 1000, 1000, 1001, 1005])
        a = ''.join(r.choice(piece) for _ in range(r.choice([0, 1, 1, 3, 9])))
        b = ''.join(r.choice(piece) for _ in range(r.choice([0, 1, 1, 3, 9])))
        m = r.choice(piece) * r.choice([0, 0, 1, 5, 200])
        a, m, b = a.lstrip(' \t'), m[:400], b.rstrip(' \t')
        k = n - len(a) - len(m) - len(b)
        t = a + 'x' * (k // 2) + m + 'y' * (k - k // 2) + b
        yield dict(text=t, parser=r.choice(M.ALL_PARSERS),
                   no_links=r.random() < .2, how='api',
                   hidden=r.random() < .2)
    # A backslash at the end counts for two.
    for n in ctx.mine([997, 998, 999, 1000]):
        for p in CM:
            yield dict(text='y' * (n - 1) + '\\', parser=p, no_links=False,
                       how='api', hidden=False)
    blanks = ['', ' ', '  ', '\t', ' \t ', '\x0b', '\x0c', ' \x0b', '\x0c\t',
              '\t\x0b\x0c ', '\x0b\x0b', '\x0c \x0c', ' #', '\t##', ' ##\t',
              '\x0b #']
    solid = ['\u00a0', '\u2003', '\u3000', '\x1c', '\x85', '\u200b', '.', '\\',
             '&nbsp;', '<b>', '-', '\x00', '\u2028', '\x1f', '\x7f', '[]',
             '[ ]', '*', '``']
    for b in ctx.mine(blanks + solid):
        for p in M.ALL_PARSERS:
            for nl in (False, True):
                for hidden in (False, True):
                    yield dict(text=b, parser=p, no_links=nl, hidden=hidden,
                               how='api' if b not in ('', ' ') else 'cli')
    for _ in range(ctx.n(3000)):
        t = ''.join(r.choice([' ', '\t', '\x0b', '\x0c', ' ', '#', 'a',
                              '\u00a0', '\\']) for _ in range(r.randint(0, 6)))
        yield dict(text=t, parser=r.choice(M.ALL_PARSERS),
                   no_links=r.random() < .3, hidden=r.random() < .3,
                   how='api')
    # Ordered list markers.
    nums = [0, 1, 8, 9, 98, 99, 10 ** 5, BIG - 3, BIG - 2, BIG - 1, BIG,
            BIG + 1, 2 ** 31 - 2, 2 ** 32, 10 ** 12]
    nums += [x - 1 for x in ctx.dict.new_ints]
    for n in ctx.mine(nums):
        for p in M.ALL_PARSERS:
            for lv in range(1, 7):
                for prev in range(0, 7):
                    yield dict(count=n, parser=p, level=lv, prev=prev)
    # Real lists of increasing length.
    for n in ctx.mine([1, 9, 10, 99, 100, 999, 1000, 1001, 2500] + (
            [10000, 20000] if ctx.thorough else [])):
        for p in M.ALL_PARSERS:
            yield dict(entries=n, parser=p)


def check(ctx, case):
    if 'count' in case:
        return number(ctx, case)
    if 'entries' in case:
        return entries(ctx, case)
    p, nl = case['parser'], case['no_links']
    lv = 3 if case['hidden'] else 1
    doc = '# first\n' + '#' * lv + ' ' + case['text'] + '\n# last\n'
    o = M.Opts(parser=p, no_links=nl, keep_header_levels=2)
    h = M.atx('#' * lv + ' ' + case['text'], p)
    want = None
    if h is not None and not nl and p != 'redcarpet':
        if M.label_is_blank(h[1]):
            want = M.EMPTY
        elif len(h[1]) + h[1].endswith('\\') > M.MAX_LABEL:
            want = M.OVERFLOW
    ctx.write(doc)
    info = dict(length=len(case['text']), text=case['text'][:60], parser=p,
                no_links=nl, hidden=case['hidden'])
    if case['how'] == 'cli':
        code, out, err, r = ctx.cli(I.cli_args(o) + [ctx.doc])
        if r.kind == 'timeout':
            return
        ctx.require(code == (1 if want else 0), case,
                    'a label is treated in the wrong way', code=code,
                    want=want, err=err[-300:], **info)
        if want:
            ctx.require(out == b'', case, 'a refusal with a table', got=out,
                        **info)
            ctx.events['refusals through the command line'] += 1
        n = out.decode().count('\n')
    else:
        r = ctx.toc(doc, o)
        if r.kind == 'timeout':
            return
        ctx.require((r.kind, r.value) == ('raise', want) if want else r.ok,
                    case, 'a label is treated in the wrong way',
                    got=r.brief(), want=want, **info)
        n = r.value.count('\n') if r.ok else 0
    if not want:
        ctx.require(n == 2 + (h is not None and lv == 1), case,
                    'an entry is missing', entries=n, **info)
        ctx.events['limits do not apply'] += nl or p == 'redcarpet'
        ctx.events['long labels accepted'] += len(case['text']) in (998, 999)
        ctx.events['blank labels accepted'] += (h is not None and
                                                h[1].strip() == '')
    else:
        ctx.events['long labels refused'] += want == M.OVERFLOW
        ctx.events['blank labels refused'] += want == M.EMPTY
    ctx.seen(p, nl, case['hidden'], len(case['text']), case['text'][:12])
    ctx.sample(dict(info, outcome=want or 'accepted'))


def number(ctx, case):
    n, p, lv, prev = case['count'], case['parser'], case['level'], case['prev']
    c = {f'h{i}': n for i in range(1, 7)}
    r = rt.call(ctx.api.increase_index_ordered_list, c, prev, lv, p)
    restart = 0 < prev < lv
    v = 1 if restart else n + 1
    if p != 'redcarpet' and v > BIG:
        ctx.require((r.kind, r.value) == (
            'raise', 'GithubOverflowOrderedListMarker'), case,
            'a number over the limit is accepted', got=r.brief(), number=v,
            parser=p)
        ctx.events['numbers over the limit refused'] += 1
    else:
        ctx.require(r.ok and c[f'h{lv}'] == v, case,
                    'a number within the limit is refused or wrong',
                    got=r.brief(), exc=r.exc, number=v,
                    counter=c.get(f'h{lv}'), parser=p)
        ctx.events['numbers at the limit accepted'] += v == BIG
        ctx.events['limits do not apply'] += v > BIG
    ctx.seen('number', n, p, lv, prev)


def entries(ctx, case):
    n, p = case['entries'], case['parser']
    o = M.Opts(parser=p, ordered=True, list_marker='.', no_links=n % 2 == 0)
    r = ctx.toc(''.join(f'# h{i}\n' for i in range(n)), o)
    if r.kind == 'timeout':
        return
    ctx.require(r.ok and r.value.count('\n') == n and r.value.split('\n')[
        -2].startswith(f'{n}. '), case, 'a list within the limits is refused',
        got=r.brief() if not r.ok else r.value[-100:], entries=n, parser=p)
    ctx.seen('entries', n, p)
