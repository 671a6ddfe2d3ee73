"""Requests outside the documented values are refused and have no effect."""
import copy
import os

from .. import model as M, rt
from .C17 import argv, run

LEVEL = 'exploration'
RULE = ('distinct (function or command line, flaw, value, dialect, shape of '
        'the document) of observed refusals')
MUST_SEE = ['bad number of lines', 'bad number of levels', 'bad marker',
            'bad dialect', 'bad lists of files', 'bad command lines',
            'bad command lines in place', 'bad arguments of building blocks',
            'files which cannot be read', 'newlines in headings',
            'valid neighbours accepted']
ASSUMPTIONS = ['a document without headings may be answered with an empty '
               'table when the number of levels or the list marker is '
               'invalid, since neither is ever used',
               'with numbering, a marker which cannot end a number is '
               'replaced by the default one (property C10)']
CM = M.CMARK_LIKE
MARKER = '<!--TOC-->'


def bad_markers(r, p, g):
    out = ['', ' ', 'x', '.', ')', '--', '- ', ' -', '-+', '-+*', '+*', '#',
           '1', '1.', '\u2022', '\u2013', '\u2212', '_', '~', '**', '\n',
           '>', '=', '0', ':', '-\n', None]
    return out + [x for x in g.new if x not in ('-', '+', '*')][:6]


BAD_DIALECT = ['', 'x', 'GitHub', 'github ', ' github', 'git', 'hub',
               'markdown', 'commonmark', 'GITLAB', 'cmark-gfm', 'gold mark',
               'redcarpet2', 'githubx', 'red', 'kramdown', 'github,gitlab']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    docs = ['# a\n', '# a\n## b\n# c\n', 'x\n\n# a\n', '```\n# b\n```\n# a\n',
            '# a', '## a\r\n### b\r\n']

    def doc():
        if r.random() < .5:
            return r.choice(docs)
        hostile = r.random() < .5
        return ''.join(g.heading(x, g.plain(), hostile) + '\n'
                       for x in g.levels(r.choice([1, 1, 2, 3, 8]), True,
                                         first=1))

    for n in ctx.mine([-1, -2, -3, -10, -100, -2 ** 31, -10 ** 20] * 12):
        yield dict(flaw='lines', value=n, doc=doc(),
                   opts=g.options().kwargs())
    for n in ctx.mine([0, -1, -2, -6, -7, -100, -2 ** 31] * 12):
        yield dict(flaw='levels', value=n, doc=doc(),
                   opts=g.options().kwargs())
    for m in ctx.mine([m for m in bad_markers(r, None, g) for _ in range(12)]):
        yield dict(flaw='marker', value=m, doc=doc(), opts=dict(
            g.options().kwargs(), ordered=False, constant_ordered_list=False,
            list_marker='-',
            keep_header_levels=r.choice([2, 3, 6])))
    for d in ctx.mine([d for d in BAD_DIALECT for _ in range(4)]):
        yield dict(flaw='dialect', value=d, doc=doc(),
                   opts=g.options().kwargs())
    # As many tables as files.
    for a in ctx.mine(range(0, 6)):
        yield dict(flaw='lists', value=a, seed=r.random())
    # Nothing that can be read.
    for k in ctx.mine(['missing', 'directory', 'dangling', 'loop',
                       'below a file', 'empty name', 'too long'] * 6):
        yield dict(flaw='file', value=k, opts=g.options().kwargs(),
                   how=r.choice(['build', 'write', 'equal', 'cli', 'place']))
    for t in ctx.mine(['a\nb', 'a\rb', 'a\r\nb', 'a\n\nb', 'a\n \nb',
                       'a\nb\nc', 'a\r\r\nb'] * 6):
        for p in M.ALL_PARSERS:
            yield dict(flaw='newline', value=t, parser=p)
    for _ in range(ctx.n(2400)):
        yield dict(flaw='block', value=r.choice(
            ['increase', 'indent', 'line', 'whole']), parser=r.choice(
                M.ALL_PARSERS), seed=r.random())
    for _ in range(ctx.n(4500)):
        o = g.options(no_list_coherence=False, no_indentation=False)
        pre, post = argv(ctx, o)
        yield dict(flaw='cli', value=r.choice(FLAWS), pre=pre, post=post,
                   parser=o.parser, seed=r.random(), place=r.random() < .5,
                   real=r.random() < .003, doc=doc())


FLAWS = ['dialect', 'no dialect', 'option', 'suboption', 'levels', 'bullet',
         'number', 'both', 'coherence', 'newline', 'lines', 'missing value',
         'value for a switch']


def flawed(rr, case):
    """A command line with one flaw, or None."""
    pre, post, p = list(case['pre']), list(case['post']), case['parser']
    at = pre.index(p)
    f = case['value']
    # Options of the dialect which do not conflict with the flaw by being
    # there twice: the last one would win.
    sub = pre[at + 1:]
    glob = pre[:at]
    if f == 'dialect':
        return glob + [rr.choice(BAD_DIALECT)] + sub, post
    if f == 'no dialect':
        return glob, None
    if f == 'option':
        return [rr.choice(['-z', '--nosuch', '--no-link-s', '-x', '--levels',
                           '--in_place', '--marker=x', '-q', '--n', '--no',
                           '--no-l', '--no-', '-9'])
                ] + glob + [p] + sub, post
    if f == 'suboption':
        return glob + [p] + sub, post + [rr.choice(
            ['-z', '--nosuch', '--constant', '--levels'][:2])]
    if f == 'levels':
        v = rr.choice(['0', '7', '8', '-1', '10', '66', 'x', '1.0', '1e0',
                       'all', '0x3', ' ', '3,4', '1-3', '16', '--'])
        if v == '--':
            v = '07'
        return glob + [p] + rr.choice(
            [['--header-levels=' + v], ['-l' + v]] if v[0] == '-' else
            [['-l', v], ['--header-levels', v], ['--header-levels=' + v]]
        ), []
    if f == 'bullet':
        v = rr.choice(['x', '.', ')', '#', '++', '**', '\u2022', '1', '+-',
                       '_', '~', '*+'])
        return glob + [p] + rr.choice(
            [['-u', v], ['-u' + v], ['--unordered-list-marker=' + v]]), []
    if f == 'number':
        v = rr.choice(['x', '+', '*', '#', '..', '))', '1.', ':', '.)', ']',
                       '1)'] + ([')'] if p == 'redcarpet' else []))
        return glob + [p] + rr.choice(
            [['-o', v], ['-o' + v], ['--ordered-list-marker=' + v]]), []
    if f == 'both':
        a = [rr.choice([['-u', '+'], ['-u*'],
                        ['--unordered-list-marker', '*']]),
             rr.choice([['-o', '.'], ['-o.'], ['--ordered-list-marker=.']])]
        rr.shuffle(a)
        return glob + [p] + a[0] + a[1], []
    if f == 'coherence':
        a = [rr.choice(['-i', '--no-indentation']),
             rr.choice(['-c', '--no-list-coherence'])]
        rr.shuffle(a)
        return glob + a + [p] + sub, post
    if f == 'newline':
        v = rr.choice(['x', '\\n\\r', 'n', '\\t', '\\\\n', 'crlf', 'LF', '\n',
                       '\r', '\r\n', '\\n ', '\\N', '\\0', '\\r\\r', '/n'])
        if v == '\n':
            v = '\\v'
        return glob + rr.choice([['-n', v], ['--newline-string', v],
                                 ['--newline-string=' + v]]) + [p] + sub, post
    if f == 'lines':
        v = rr.choice(['x', '1.5', '1e3', 'one', '0x1', '1,2', '--1', ' '])
        return glob + ['--skip-lines=' + v] + [p] + sub, post
    if f == 'missing value':
        return glob + [rr.choice(['-m', '-n', '-s', '--toc-marker',
                                  '--skip-lines', '--newline-string'])], None
    if f == 'value for a switch':
        return glob + [rr.choice(['--in-place=x', '--diff=1', '--no-links=no',
                                  '--no-indentation=0',
                                  '--no-list-coherence=y'])] + [p] + sub, post
    return None


def check(ctx, case):
    return globals()['bad_' + {'lines': 'number', 'levels': 'number',
                               'marker': 'number', 'dialect': 'number'}.get(
        case['flaw'], case['flaw'])](ctx, case)


def bad_number(ctx, case):
    """One argument of build_toc out of bounds."""
    f, v = case['flaw'], case['value']
    o = dict(case['opts'], newline_string='\n')
    key = dict(lines='skip_lines', levels='keep_header_levels',
               marker='list_marker', dialect='parser')[f]
    good = dict(o, keep_header_levels=max(o['keep_header_levels'], 1),
                no_list_coherence=True, no_indentation=False)
    path = ctx.write(case['doc'], ctx.path('c26.md'))
    want = rt.call(ctx.api.build_toc, path, **good)
    ctx.require(want.kind != 'raise', case, 'a valid request is refused',
                doc=case['doc'], opts=good, got=want.brief())
    ctx.events['valid neighbours accepted'] += 1
    table = M.headings(case['doc'], good['parser'])
    for fn, a in ((ctx.api.build_toc, path),
                  (ctx.api.build_multiple_tocs, [path]),
                  (ctx.api.build_multiple_tocs, [path, path])):
        r = rt.call(fn, a, **dict(good, **{key: v}))
        fine = r.kind == 'raise' and (f == 'dialect' or
                                      r.value == 'ValueError')
        if not table and f in ('levels', 'marker'):
            fine = fine or (r.ok and not ''.join(r.value))
        if f == 'marker' and not any(
                h[1] <= good['keep_header_levels'] for h in table):
            fine = fine or (r.ok and not ''.join(r.value))
        ctx.require(fine, case, 'an invalid request is answered',
                    argument=key, value=v, doc=case['doc'], opts=good,
                    got=r.brief())
    if f == 'lines' or f == 'levels' and v < 0:
        a = (['--skip-lines=%d' % v, o['parser']] if f == 'lines' else
             [o['parser'], '--header-levels=%d' % v])
        before = ctx.write(f'{MARKER}\n' + case['doc'], path)
        before = ctx.read(path)
        for p in ([], ['-p']):
            code, out, err, r = ctx.cli(p + a + [path])
            ctx.require(code in (1, 2) and out == b'' and err.strip(), case,
                        'an invalid command line is answered', argv=p + a,
                        code=code, out=out[:200])
            ctx.require(ctx.read(path) == before, case,
                        'a refused request changed a file', argv=p + a)
    ctx.events['bad ' + dict(lines='number of lines', marker='marker',
                             levels='number of levels',
                             dialect='dialect')[f]] += 1
    ctx.seen(f, v, o['parser'], case['doc'][:40])
    ctx.sample(dict(argument=key, value=v, doc=case['doc'][:80]))


def tree(ctx, d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.lstat(p)
        out[n] = (st.st_ino, st.st_mode, st.st_mtime_ns, open(
            p, 'rb').read() if os.path.isfile(p) else None)
    return out


def bad_lists(ctx, case):
    d = ctx.path('c26-lists')
    os.makedirs(d, exist_ok=True)
    a = case['value']
    for b in range(0, 6):
        if a == b:
            continue
        names = []
        for k in range(a):
            names.append(ctx.write(f'x\n{MARKER}\n# h{k}\n',
                                   os.path.join(d, f'{k}.md')))
        before = tree(ctx, d)
        strings = [f'- s{k}\n' for k in range(b)]
        r = rt.call(ctx.api.write_strings_on_files_between_markers, names,
                    strings, MARKER, '\n')
        ctx.require((r.kind, r.value) == ('raise', 'ValueError'), case,
                    'files without tables, or tables without files',
                    files=a, tables=b, got=r.brief())
        ctx.require(tree(ctx, d) == before, case,
                    'a refused request changed a file', files=a, tables=b)
        ctx.events['bad lists of files'] += 1
        ctx.seen('lists', a, b)


def bad_file(ctx, case):
    d = ctx.path('c26-file')
    os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
    ctx.write('# a\n', os.path.join(d, 'plain'))
    for n, t in (('dangling', 'nowhere'), ('loop', 'loop')):
        if not os.path.islink(os.path.join(d, n)):
            os.symlink(t, os.path.join(d, n))
    p = {'missing': 'nosuch.md', 'directory': 'dir', 'dangling': 'dangling',
         'loop': 'loop', 'below a file': 'plain/x', 'too long': 'n' * 300,
         'empty name': ''}[case['value']]
    p = os.path.join(d, p) if p else ''
    o = case['opts']
    before = tree(ctx, d)
    how = case['how']
    if how == 'build':
        r = rt.call(ctx.api.build_toc, p, **o)
    elif how == 'write':
        r = rt.call(ctx.api.write_string_on_file_between_markers, p, '- x\n',
                    MARKER)
    elif how == 'equal':
        r = rt.call(ctx.api.tocs_equal, '- x\n', p, MARKER)
    else:
        code, out, err, r = ctx.cli((['-p'] if how == 'place' else []) +
                                    [o['parser'], p])
        ctx.require(code == 1 and out == b'' and err.strip(), case,
                    'a file which cannot be read is no error', code=code,
                    out=out[:200])
        r = rt.Result('raise', 'exit')
    ctx.require(r.kind == 'raise', case,
                'a file which cannot be read is no error', file=case['value'],
                how=how, got=r.brief())
    ctx.require(tree(ctx, d) == before, case,
                'a refused request had an effect', file=case['value'],
                how=how)
    ctx.events['files which cannot be read'] += 1
    ctx.seen('file', case['value'], how)


def bad_newline(ctx, case):
    c = {}
    r = rt.call(ctx.api.build_anchor_link, case['value'], c, case['parser'])
    ctx.require((r.kind, r.value) == ('raise', 'StringCannotContainNewlines'),
                case, 'a heading of several lines has an anchor',
                text=case['value'], parser=case['parser'], got=r.brief())
    x = rt.call(ctx.api.build_anchor_link, 'ab', c, case['parser'])
    ctx.require(x.ok and x.value == 'ab', case,
                'a refused request left traces', got=x.brief())
    ctx.events['newlines in headings'] += 1
    ctx.seen('newline', case['value'], case['parser'])


def bad_block(ctx, case):
    """The functions a table is made of: one argument is out of bounds."""
    import random
    rr = random.Random(case['seed'])
    p = case['parser']
    A = ctx.api
    neg = rr.choice([-1, -1, -2, -5, -10 ** 9])
    kind = case['value']
    state = None
    if kind == 'increase':
        state = {f'h{i}': rr.randint(1, 9) for i in range(1, rr.randint(2, 7))}
        good = [0, rr.randint(1, 6)] if rr.random() < .5 else [
            rr.randint(1, 6), rr.randint(1, 6)]
        bad = list(good)
        k = rr.randrange(2)
        bad[k] = neg if k == 0 else rr.choice([0, neg])

        def fn(s, a):
            return rt.call(A.increase_index_ordered_list, s, a[0], a[1], p)
    elif kind == 'indent':
        ordered = rr.random() < .5
        m = '.' if ordered else rr.choice('-+*')
        state = A.init_indentation_log(p, m)
        good = [rr.randint(1, 6), rr.randint(1, 6), m, rr.randint(1, 200)]
        bad = list(good)
        k = rr.randrange(4)
        bad[k] = [rr.choice([0, neg]), neg, rr.choice(
            ['x', '', '--', '#', '-' if ordered else '.']),
            rr.choice([0, neg])][k]

        def fn(s, a):
            return rt.call(A.compute_toc_line_indentation_spaces, a[0], a[1],
                           p, ordered, a[2], s, a[3])
        if p != 'redcarpet':
            # A log which lacks a level.
            part = dict(state)
            for lv in rr.sample(range(1, 7), rr.choice([1, 1, 2, 6])):
                del part[lv]
            was = copy.deepcopy(part)
            r = fn(part, good)
            ctx.require((r.kind, r.value) == ('raise', 'ValueError')
                        and part == was, case, 'a log which lacks a level is '
                        'accepted', got=r.brief(), log=repr(part)[:600])
    elif kind == 'line':
        ordered = rr.random() < .5
        m = '.' if ordered else rr.choice('-+*')
        good = [rr.randint(1, 6), m, rr.randint(1, 200)]
        bad = list(good)
        k = rr.randrange(3)
        bad[k] = [rr.choice([0, neg]), rr.choice(
            ['x', '', '--', '#', '-' if ordered else '.']),
            rr.choice([0, neg])][k]

        def fn(s, a):
            return rt.call(A.build_toc_line_without_indentation, dict(
                header_type=a[0], text_original='a', text_anchor_link='a',
                visible=True), ordered, False, a[2], p, a[1])
    else:
        good, bad = [rr.choice([0, 1, 8])], [neg]

        def fn(s, a):
            return rt.call(A.build_toc_line, '- a', a[0])
    before = copy.deepcopy(state)
    r = fn(state, bad)
    info = dict(function=kind, arguments=bad, parser=p)
    ctx.require((r.kind, r.value) == ('raise', 'ValueError'), case,
                'an invalid argument is accepted', got=r.brief(), **info)
    ctx.require(state == before, case, 'a refused call left traces',
                got=repr(state), want=repr(before), **info)
    r = fn(state, good)
    ctx.require(r.ok, case, 'a valid argument is refused', got=r.brief(),
                **dict(info, arguments=good))
    ctx.events['valid neighbours accepted'] += 1
    ctx.events['bad arguments of building blocks'] += 1
    ctx.seen('block', kind, bad, p)


def bad_cli(ctx, case):
    import random
    rr = random.Random(case['seed'])
    pre, post = flawed(rr, case)
    path = ctx.write(f'x\n{MARKER}\n' + case['doc'], ctx.path('c26-cli.md'))
    other = ctx.path('c26-other.md')
    ctx.write(f'{MARKER}\n# o\n', other)
    before = tree(ctx, ctx.tmp)
    a = (rr.choice([['-p'], ['--in-place'], ['-p', '-d']])
         if case['place'] else []) + pre
    if post is not None:
        # An optional value could swallow the name of a file, never two.
        names = [path, other] if rr.random() < .5 else [path]
        a = a + names + post
    code, out, err = run(ctx, a, b'# in\n', case['real'])
    ctx.require(code == 2 and out == b'', case,
                'an invalid command line is not refused', argv=a, code=code,
                flaw=case['value'], out=out[:200], err=err[-300:])
    ctx.require('usage' in err.lower(), case,
                'an invalid command line without explanation', argv=a,
                err=err[-300:])
    ctx.require(tree(ctx, ctx.tmp) == before, case,
                'a refused command line had an effect', argv=a)
    ctx.events['bad command lines'] += 1
    ctx.events['bad command lines in place'] += case['place']
    ctx.seen('cli', case['value'], a[:-1])
    if len(a) > 6:
        ctx.sample(dict(argv=a, flaw=case['value']))
