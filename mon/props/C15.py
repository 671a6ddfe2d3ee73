"""Writing in place again changes nothing, whatever happened before."""
import os

from .. import inplace as I, known, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct histories (sequence of edits and runs) whose final states '
        'were compared')
MUST_SEE = ['runs', 'second runs compared', 'fresh files compared',
            'table changed by an edit', 'options changed between runs',
            'runs among many markers']
ASSUMPTIONS = ['edits happen outside the region; no skipped lines; tables '
               'that start with four or more spaces or with a blank label '
               'are excluded and listed as known findings']
SHRINK = False

MARKER = '<!--TOC-->'
SEPARATORS = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85',
              '\u2028', '\u2029', '\x00', '\u00a0', '\u200b', '\ufeff',
              '\u3000', '\x7f', '\x1a', '\x1b', '\x08', '\U0010ffff']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for k in known.load('C15'):
        if ctx.shard == 0:
            yield dict(known=k['id'], doc=k['doc'], opts=k['opts'])
    for _ in range(ctx.n(2500)):
        marker = r.choice(I.MARKERS)
        ops = []
        n = r.choice([1, 2, 3, 4, 6])
        for _ in range(n):
            k = r.random()
            if k < .3:
                ops.append(['heading', r.choice(['pre', 'post']),
                            r.randint(0, 9), heading(ctx)])
            elif k < .45:
                ops.append(['drop', r.choice(['pre', 'post']),
                            r.randint(0, 9)])
            elif k < .6:
                ops.append(['prose', r.choice(['pre', 'post']),
                            r.randint(0, 9),
                            I.prose(ctx, r.choice([1, 2, 4]), marker,
                                    headings=False)])
            elif k < .8:
                ops.append(['opts', opts(ctx)])
            else:
                ops.append(['reverse', r.choice(['pre', 'post'])])
        yield dict(marker=marker, opts=opts(ctx), ops=ops,
                   pre=I.prose(ctx, r.choice([0, 1, 3]), marker),
                   post=[heading(ctx) for _ in range(r.choice([0, 1, 3, 8]))]
                   + I.prose(ctx, r.choice([0, 0, 2]), marker),
                   how=r.choice(['api', 'cli']), final=r.random() < .85)
    # More markers than two: prose between them, left over, in crowds.
    for _ in range(ctx.n(1500)):
        c = I.gen_file(ctx, ['many', 'many', 'prose between', 'toc', 'blank'])
        m = c['marker'].strip()
        reg = [m if x.strip() == m else x for x in c['reg']]
        txt = I.short(ctx, m) if r.random() < .5 else ['Some prose']
        k = r.randrange(4)
        if k == 1:
            reg = ([m] + txt) * r.choice([1, 2, 3, 4, 7]) + reg
        elif k == 2:
            reg = reg + (txt + [m]) * r.choice([1, 2, 3, 4, 7])
        elif k == 3:
            reg = ([m] + txt) * r.choice([1, 2, 3, 4]) + reg + (
                txt + [m]) * r.choice([1, 2, 3])
        yield dict(c, reg=reg, crowd=[opts(ctx) for _ in range(3)],
                   how=r.choice(['api', 'cli']))
    for n in ctx.mine([9, 10, 11, 99, 100, 101, 1000] + [
            min(x, 3000) for x in g.sizes]):
        yield dict(marker=MARKER, opts=opts(ctx), ops=[
            ['heading', 'post', 0, '# New one'], ['drop', 'post', 3],
            ['opts', opts(ctx)]], pre=['Title', ''],
            post=[f'# heading {i}' for i in range(n)],
            how='api', final=True)


def heading(ctx):
    g, r = ctx.gen, ctx.rng
    while True:
        t = g.text(.5) if r.random() < .5 else g.plain()
        ln = '#' * r.choice([1, 1, 1, 2, 2, 3]) + ' ' + t
        if r.random() < .15:
            # Characters which some functions take for the end of a line.
            ln += 'w' + r.choice(SEPARATORS) + 'w'
        if not g._bad_label(ln) and ln.strip() not in I.MARKERS:
            return ln


def opts(ctx):
    r, g = ctx.rng, ctx.gen
    o = g.options(newline_string=r.choice(['\n'] * 6 + ['\r\n', '\r']))
    if o.no_indentation:
        o.no_list_coherence = False
    elif r.random() < .6:
        o.no_list_coherence = True
    return o.kwargs()


def run(ctx, path, o, marker, how):
    """One run of the tool; None if it refuses the document."""
    if how == 'cli':
        code, _, err, r = ctx.cli(I.cli_args(o, marker, in_place=True)
                                  + [path])
        return (True, err) if code == 0 else (None, err)
    b = rt.call(ctx.api.build_toc, path, **o.kwargs())
    if not b.ok:
        return None, b
    w = I.write(ctx, path, b.value, marker, o.newline_string)
    return (True, b) if w.ok else (None, w)


def check(ctx, case):
    if 'known' in case:
        return check_known(ctx, case)
    if 'crowd' in case:
        return check_crowd(ctx, case)
    marker = case['marker']
    path, fresh = ctx.path('h.md'), ctx.path('fresh.md')
    pre, post = list(case['pre']), list(case['post'])
    o = M.Opts(**case['opts'])
    nl = '\n'
    region = [marker.strip()]
    trace = []
    for op in [['start']] + case['ops']:
        if op[0] == 'heading':
            tgt = pre if op[1] == 'pre' else post
            tgt.insert(min(op[2], len(tgt)), op[3])
        elif op[0] == 'drop':
            tgt = pre if op[1] == 'pre' else post
            if tgt:
                del tgt[min(op[2], len(tgt) - 1)]
        elif op[0] == 'prose':
            tgt = pre if op[1] == 'pre' else post
            at = min(op[2], len(tgt))
            tgt[at:at] = op[3]
        elif op[0] == 'reverse':
            (pre if op[1] == 'pre' else post).reverse()
        elif op[0] == 'opts':
            o = M.Opts(**op[1])
            ctx.events['options changed between runs'] += 1
        text = nl.join(pre + region + post)
        if case['final'] or not post:
            text += nl
        # What the tool would make of a file which never had a table.
        ftext = '\n'.join(pre + [marker.strip()] + post) + '\n'
        want = M.toc(ftext, o)
        if want[0] != 'ok' or not I.recognised(want[1]):
            ctx.events['skipped: refused or unrecognised'] += 1
            continue
        ctx.write(text, path)
        ok, info = run(ctx, path, o, marker, case['how'])
        ctx.require(ok, case, 'a run failed', trace=trace, op=op[:2],
                    text=text[:1200], opts=o.kwargs(), info=str(info)[-500:])
        first = ctx.read(path)
        ok, info = run(ctx, path, o, marker, case['how'])
        second = ctx.read(path)
        ctx.events['runs'] += 2
        ctx.require(ok and first == second, case,
                    'the second run changes the file', trace=trace,
                    before=text[:1200], first=first.decode()[:1500],
                    second=second.decode()[:1500], opts=o.kwargs(),
                    marker=marker)
        ctx.events['second runs compared'] += 1
        # History does not matter.
        ctx.write(ftext, fresh)
        ok, info = run(ctx, fresh, o, marker, case['how'])
        a = I.normal(first.decode()).rstrip('\n')
        b = I.normal(ctx.read(fresh).decode()).rstrip('\n')
        ctx.require(ok and a == b, case,
                    'the result depends on the history', trace=trace,
                    got=a[:1500], want=b[:1500], before=text[:1200],
                    opts=o.kwargs(), marker=marker)
        ctx.events['fresh files compared'] += 1
        # Go on from the region as it is in the file now.
        nl = o.newline_string
        lines = I.normal(first.decode()).split('\n')
        m = marker.strip()
        pos = [i for i, x in enumerate(lines) if x.strip() == m]
        ctx.require(len(pos) == 2, case, 'markers multiplied or lost',
                    trace=trace, after=first.decode()[:1500])
        new = lines[pos[0]:pos[1] + 1]
        ctx.events['table changed by an edit'] += new != region and \
            len(trace) > 0
        region = new
        trace.append(op[0])
    ctx.seen(trace, [h for h in pre + post if h.startswith('#')][:9],
             case['how'], len(region))
    if len(trace) > 2:
        ctx.sample(dict(history=trace, region=region[:6]))


def check_crowd(ctx, case):
    """Whatever the markers, one run finds the table of the one before."""
    path = ctx.path('crowd.md')
    text = I.text_of(case)
    ctx.write(text, path)
    marker = case['marker']
    n = 0
    for kw in case['crowd']:
        o = M.Opts(**dict(kw, no_list_coherence=not kw['no_indentation']))
        before = ctx.read(path).decode()
        t = M.toc(before, o)
        if t[0] != 'ok' or not I.recognised(t[1]):
            ctx.events['skipped: refused or unrecognised'] += 1
            continue
        want = M.write_in_place(before, t[1], marker, o.newline_string)
        if M.toc(want, o) != t:
            # Headings lie between the markers and go with the old region.
            ctx.events['skipped: headings replaced'] += 1
            continue
        ok, info = run(ctx, path, o, marker, case['how'])
        ctx.require(ok, case, 'a run failed', text=before[:1200],
                    opts=o.kwargs(), info=str(info)[-500:])
        first = ctx.read(path).decode()
        ok, info = run(ctx, path, o, marker, case['how'])
        second = ctx.read(path).decode()
        ctx.require(ok and first == second, case,
                    'the second run changes the file', before=before[:1200],
                    first=first[:1500], second=second[:1500],
                    opts=o.kwargs(), marker=marker)
        ctx.require(first == want, case, 'the table is not where it was',
                    before=before[:1200], first=first[:1500],
                    want=want[:1500], opts=o.kwargs(), marker=marker)
        if n == 0:
            count = marks(first, marker)
        ctx.require(marks(first, marker) == count, case,
                    'markers multiplied or lost', before=before[:1200],
                    first=first[:1500], opts=o.kwargs(), marker=marker)
        n += 1
    ctx.events['runs among many markers'] += n
    if n:
        ctx.seen('crowd', case['kind'], marker, text)


def marks(text, marker):
    return len(M.marker_lines(M.split_lines(text), marker))


def check_known(ctx, case):
    path = ctx.path('k.md')
    ctx.write(case['doc'], path)
    o = M.Opts(**case['opts'])
    ok1, _ = run(ctx, path, o, MARKER, 'api')
    first = ctx.read(path)
    ok2, _ = run(ctx, path, o, MARKER, 'api')
    second = ctx.read(path)
    if not (ok1 and ok2 and first == second):
        ctx.known = getattr(ctx, 'known', []) + [
            f'{case["known"]}: a second run in place writes a second table '
            f'of contents for {case["doc"]!r} with {case["opts"]}']
