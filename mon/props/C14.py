"""The table goes where the marker is, between two markers."""
import os

from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (kind of region, options, number of entries, place) of '
        'regions written')
MUST_SEE = ['regions written', 'stale tables replaced', 'markers at the first '
            'line', 'markers at the last line', 'through the command line',
            'regions among other markers']
ASSUMPTIONS = ['a region is a pair of marker lines as md-toc writes them, '
               'an empty one, or a single marker line']

KINDS = ['single', 'single', 'toc', 'toc', 'toc', 'adjacent', 'blank',
         'blank3', 'empty']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for _ in range(ctx.n(8000)):
        c = I.gen_file(ctx, KINDS)
        o = g.options(no_list_coherence=True, skip_lines=0,
                      newline_string=r.choice(['\n'] * 5 + ['\r\n', '\r']))
        if o.no_indentation:
            o.no_list_coherence = False
        c.update(opts=o.kwargs(), how=r.choice(['api', 'api', 'multi', 'cli']))
        yield c
    # Other markers in the file: prose between two of them, a marker left
    # over, a second table.
    for _ in range(ctx.n(2500)):
        c = I.gen_file(ctx, ['toc', 'toc', 'adjacent', 'blank', 'empty'])
        m = c['marker'].strip()
        reg = [m if x.strip() == m else x for x in c['reg']]
        if r.random() < .3:
            txt = I.short(ctx, m)
        else:
            txt = ['Some prose'] + I.prose(
                ctx, r.choice([0, 1, 3]), c['marker'],
                headings=False) + ['more prose']
        k = r.choice(['before', 'after', 'second', 'both', 'twice before',
                      'crowd'])
        if k == 'before':
            reg = [m] + txt + reg
        elif k == 'twice before':
            reg = [m] + txt + [m] + txt + reg
        elif k == 'after':
            reg = reg + txt + [m]
        elif k == 'second':
            reg = reg + txt + [m, ''] + I.old_toc(ctx) + ['', m]
        elif k == 'crowd':
            reg = ([m] + txt) * r.choice([0, 2, 5, 9]) + reg + (
                txt + [m]) * r.choice([0, 2, 7, 11, 30])
        else:
            reg = [m] + txt + reg + txt + [m]
        o = g.options(no_list_coherence=True, no_indentation=False,
                      newline_string=r.choice(['\n'] * 5 + ['\r\n', '\r']))
        c.update(reg=reg, others=k, opts=o.kwargs(),
                 how=r.choice(['api', 'api', 'multi', 'cli']))
        yield c
    for n in ctx.mine([0, 1, 9, 10, 100, 999, 1000, 3000] + [
            min(x, 3000) for x in g.sizes]):
        for k in ('single', 'toc', 'adjacent'):
            c = I.gen_file(ctx, [k])
            c['post'] = c['post'] + [f'# heading {i}' for i in range(n)]
            c.update(opts=g.options(
                no_list_coherence=True, no_indentation=False).kwargs(),
                how=r.choice(['api', 'cli']))
            yield c


def check(ctx, case):
    path = ctx.path('c14.md')
    text = I.text_of(case)
    ctx.write(text, path)
    o = M.Opts(**case['opts'])
    nl = o.newline_string
    marker = case['marker']
    b = rt.call(ctx.api.build_toc, path, **o.kwargs())
    if not b.ok:
        ctx.events['refused documents'] += 1
        return
    toc = b.value
    if case['how'] == 'cli':
        code, _, err, r = ctx.cli(I.cli_args(o, marker, in_place=True)
                                  + [path])
        ctx.require(code == 0, case, 'writing in place failed', text=text[:900],
                    err=err[-500:])
        ctx.events['through the command line'] += 1
    else:
        r = I.write(ctx, path, toc, marker, nl, case['how'])
        if r.kind == 'timeout':
            return
        ctx.require(r.ok, case, 'writing in place failed', text=text[:900],
                    got=r.brief(), exc=r.exc)
    raw = ctx.read(path).decode()
    after = I.normal(raw).split('\n')
    if after[-1] == '':
        after.pop()
    table = I.normal(toc).rstrip().split('\n')
    if 'others' in case:
        want = M.write_in_place(text, toc, marker, nl)
        ctx.require(raw == want, case, 'the table is not in its place',
                    others=case['others'], before=text[:1000],
                    after=raw[:1500], want=(want or '')[:1500])
        ctx.events['regions among other markers'] += 1
        ctx.seen(case['others'], case['kind'], o.kwargs(), len(table),
                 len(case['pre']))
        return
    a = len(case['pre'])
    block = [marker, ''] + table + ['', marker]
    got = after[a:a + len(block)]
    info = dict(before=text[:1000], after=raw[:1500], opts=o.kwargs(),
                marker=marker, region=case['kind'])
    ctx.require(after[:a] == case['pre'], case,
                'the table is not where the marker was', **info)
    ctx.require(got == block, case, 'the region is not marker, table, marker',
                want=block[:20], **info)
    post = list(case['post'])
    if not case['final'] and post and post[-1] == '':
        # An empty last line without terminator is no line.
        post.pop()
    ctx.require(after[a + len(block):] == post, case,
                'remains of the old region, or lines lost after it', **info)
    m = marker.strip()
    ctx.require(sum(1 for x in after if x.strip() == m) == 2, case,
                'not exactly two markers', **info)
    # And nothing but the newline asked for.
    ctx.require(raw == I.normal(raw).replace('\n', nl), case,
                'line endings are not the ones asked for', **info)
    ctx.events['regions written'] += 1
    ctx.events['stale tables replaced'] += case['kind'] == 'toc'
    ctx.events['markers at the first line'] += not case['pre']
    ctx.events['markers at the last line'] += not case['post']
    ctx.seen(case['kind'], o.kwargs(), len(table), a, len(case['post']))
    ctx.sample(dict(kind=case['kind'], before=text[:120], after=raw[:200]))
