"""The command line and the API give the same table; exit statuses."""
import os
import subprocess
import sys

from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (command line without file names, outcome, number of '
        'files, input channel)')
MUST_SEE = ['tables compared', 'errors reported', 'bad command lines',
            'standard input', 'many files', 'real processes',
            'in place through the command line',
            'standard input among files', 'a file named twice',
            'with --diff', 'in place with --diff',
            'in place with skipped lines', 'defaults of the API',
            'help and version']
ASSUMPTIONS = ['UTF-8 locale; most runs call the entry point in process, a '
               'sample starts the real interpreter']


def argv(ctx, o):
    """One of the spellings of a set of options: (before, after) the names
    of the files.  Options at their default may be left out."""
    r = ctx.rng

    def pick(*a):
        return list(r.choice(a))

    glob, sub, tail = [], [], []
    if o.no_links:
        glob.append(pick(['-l'], ['--no-links']))
    if o.no_indentation:
        glob.append(pick(['-i'], ['--no-indentation']))
    elif o.no_list_coherence:
        glob.append(pick(['-c'], ['--no-list-coherence']))
    if o.newline_string != '\n' or r.random() < .1:
        v = I.NL[o.newline_string]
        glob.append(pick(['-n', v], ['--newline-string', v],
                         ['--newline-string=' + v]))
    if o.skip_lines or r.random() < .1:
        v = str(o.skip_lines)
        glob.append(pick(['-s', v], ['--skip-lines', v],
                         ['--skip-lines=' + v], ['-s' + v]))
    if o.ordered:
        m = o.list_marker
        forms = [['-o', m], ['--ordered-list-marker', m],
                 ['--ordered-list-marker=' + m], ['-o' + m]]
        if m == '.' and r.random() < .4:
            tail.append(pick(['-o'], ['--ordered-list-marker']))
        else:
            sub.append(pick(*forms))
    elif o.list_marker != '-' or r.random() < .3:
        m = o.list_marker
        if m == '-':
            tail.append(pick(['-u'], ['--unordered-list-marker']))
        else:
            sub.append(pick(['-u', m], ['--unordered-list-marker', m],
                            ['--unordered-list-marker=' + m], ['-u' + m]))
    if o.constant_ordered_list:
        sub.append(pick(['-c'], ['--constant-ordered-list']))
    if o.keep_header_levels != 6 or r.random() < .3:
        v = str(min(o.keep_header_levels, 6))
        if v == '6' and not tail and r.random() < .5:
            # Without a value: the default number of levels.
            tail.append(pick(['-l'], ['--header-levels']))
        else:
            sub.append(pick(['-l', v], ['--header-levels', v],
                            ['--header-levels=' + v], ['-l' + v]))
    r.shuffle(glob)
    r.shuffle(sub)
    if tail and r.random() < .5:
        return sum(glob, []) + [o.parser], sum(sub + tail, [])
    return sum(glob, []) + [o.parser] + sum(sub, []), sum(tail, [])


BAD = [[], ['nosuch'], ['github', '-l', '0'], ['github', '-l', '7'],
       ['github', '-l', 'x'], ['-z', 'github'], ['github', '-u', 'x'],
       ['github', '-o', '-'], ['github', '-u', '+', '-o', '.'],
       ['redcarpet', '-o', ')'], ['-i', '-c', 'github'],
       ['-n', 'x', 'github'], ['-s', 'x', 'github'], ['-m'],
       ['gitlab', '--nosuch'], ['cmark', '-u', '+', '-o', ')'],
       ['GitHub'], ['git']]
INFO = [['-h'], ['--help'], ['-v'], ['--version'], ['github', '-h'],
        ['gitlab', '--help'], ['cmark', '-h'], ['redcarpet', '--help'],
        ['commonmarker', '-h'], ['goldmark', '--help'], ['-l', '-h'],
        ['-d', '-p', '--version'], ['-i', 'github', '-o', '.', '-h', 'x.md']]


# As documented, in the order of the parameters.
DEFAULTS = dict(ordered=False, no_links=False, no_indentation=False,
                no_list_coherence=False, keep_header_levels=3, parser='github',
                list_marker='-', skip_lines=0, constant_ordered_list=False,
                newline_string='\n')


def defaults(ctx, case):
    """Leaving out arguments at their defaults, naming them or not, is the
    same."""
    path = ctx.write(case['api'], ctx.path('c17-api.md'))
    full = case['full']
    some = {k: v for k, v in full.items()
            if not (k in case['omit'] and v == DEFAULTS[k])}
    k = case['cut']
    args = list(full.values())[:k]
    rest = {x: v for x, v in list(full.items())[k:] if x in some}
    want = rt.call(ctx.api.build_toc, path, **full)
    if want.kind == 'timeout':
        return
    o = M.Opts(**full)
    ref = M.toc(case['api'], o)
    ctx.require(full['parser'] == 'redcarpet' or ref == (
        want.kind, want.value), case, 'the API does not do what the options '
        'ask for', doc=case['api'], got=want.brief(), want=ref)
    for what, got in (
            ('some arguments left out',
             rt.call(ctx.api.build_toc, path, **some)),
            ('arguments by position',
             rt.call(ctx.api.build_toc, path, *args, **rest)),
            ('many files', rt.call(ctx.api.build_multiple_tocs, [path],
                                   **some)),
            ('many files, by position', rt.call(
                ctx.api.build_multiple_tocs, [path], *args, **rest))):
        value = got.value
        if what.startswith('many') and got.ok and len(value) == 1:
            value = value[0]
        ctx.require((got.kind, value) == (want.kind, want.value), case, what +
                    ' make a difference', doc=case['api'], given=some,
                    position=args, got=got.brief(), want=want.brief())
    line = case['api'].split('\n')[0]
    for fn, a, kw in ((ctx.api.get_md_header, [line, {}],
                       dict(keep_header_levels=3, parser='github',
                            no_links=False)),
                      (ctx.api.get_atx_heading, [line],
                       dict(keep_header_levels=3, parser='github',
                            no_links=False)),
                      (ctx.api.build_anchor_link, [line[2:], {}],
                       dict(parser='github'))):
        x = rt.call(fn, *[dict(y) if isinstance(y, dict) else y for y in a])
        y = rt.call(fn, *[dict(y) if isinstance(y, dict) else y for y in a],
                    **kw)
        ctx.require(x == y, case, 'a default is not the documented one',
                    function=fn.__name__, got=x.brief(), want=y.brief())
    both = []
    for a in ([], ['\n']):
        p = ctx.write('x\n<!--TOC-->\ny\n', ctx.path('c17-w.md'))
        r = rt.call(ctx.api.write_string_on_file_between_markers, p, '- a\n',
                    '<!--TOC-->', *a)
        both.append((r.kind, r.value, ctx.read(p)))
    ctx.require(both[0] == both[1], case, 'a default is not the documented '
                'one', function='write_string_on_file_between_markers',
                got=both[0], want=both[1])
    ctx.events['defaults of the API'] += 1
    ctx.seen('api', some, k)


def doc(ctx, err=False):
    g, r = ctx.gen, ctx.rng
    if err == 'incoherent':
        return '# a\n### b\n'
    if err == 'empty':
        return '# a\n#\n'
    if err == 'overflow':
        return '# ' + 'x' * 1000 + '\n'
    n = r.choice([0, 1, 3, 6, 12])
    if g.sizes and r.random() < .1:
        n = min(r.choice(g.sizes), 200)
    lines = g.doc_lines(n, True, hostile=.4)
    return g.join(lines, r.choice(['\n'] * 4 + ['\r\n', '\r']),
                  final=r.random() < .8)


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for i in range(ctx.n(6000)):
        o = g.options(skip_lines=r.choice([0] * 6 + [1, 2, 3, 50]),
                      newline_string=r.choice(['\n'] * 6 + ['\r\n', '\r']))
        if r.random() < .5:
            o.no_list_coherence = True
        if o.no_indentation:
            o.no_list_coherence = False
        n = r.choice([1, 1, 1, 2, 3, 6])
        docs = [doc(ctx) for _ in range(n)]
        # Files which are equal, or have equal tables, or are empty.
        for k in range(1, n):
            if r.random() < .15:
                docs[k] = docs[r.randrange(k)]
            elif r.random() < .08:
                docs[k] = docs[r.randrange(k)] + '\nsome text\n'
            elif r.random() < .05:
                docs[k] = ''
        e = None
        if r.random() < .12:
            e = r.choice(['incoherent', 'empty', 'overflow', 'missing'])
            docs[r.randrange(n)] = doc(ctx, e) if e != 'missing' else None
        pre, post = argv(ctx, o)
        yield dict(docs=docs, opts=o.kwargs(), pre=pre, post=post,
                   stdin=n == 1 and docs[0] is not None and
                   r.random() < .25, dash=r.random() < .5,
                   # The same file more than once, and the way to name it.
                   twice=n > 1 and r.random() < .15,
                   style=r.choice(['abs'] * 4 + ['rel', 'dot', 'odd']),
                   mid=r.randrange(n) if n > 1 and r.random() < .1 else -1,
                   real=i % (60 if not ctx.thorough else 150) == 0,
                   inplace=r.random() < .2, seed=r.random(),
                   diff=r.random() < .15)
    for b in ctx.mine(BAD):
        yield dict(bad=b, real=r.random() < .2)
    for b in ctx.mine(INFO):
        yield dict(info=b, real=r.random() < .2)
    # The functions behind the command line: defaults, order of arguments.
    for _ in range(ctx.n(1500)):
        full = dict(DEFAULTS)
        for k, v in g.options(newline_string='\n').kwargs().items():
            if r.random() < .3:
                full[k] = v
        if full['ordered'] and full['list_marker'] not in '.)':
            full['list_marker'] = '.'
        elif not (full['ordered'] or full['constant_ordered_list']
                  ) and full['list_marker'] in '.)':
            full['list_marker'] = '-'
        yield dict(api=''.join(f'{"#" * x} {g.plain()}\n' for x in g.levels(
            r.choice([2, 6, 9]), True, top=6)), full=full,
            omit=[k for k in DEFAULTS if r.random() < .6],
            cut=r.randint(0, len(DEFAULTS)))


def run(ctx, argv_, stdin, real):
    if not real:
        return ctx.cli(argv_, stdin)[:3]
    ctx.events['real processes'] += 1
    env = dict(os.environ, PYTHONPATH=rt.REPO)
    p = subprocess.run([sys.executable, '-m', 'md_toc'] + argv_,
                       input=stdin or b'', stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, cwd=ctx.tmp,
                       timeout=120)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')


def check(ctx, case):
    if 'bad' in case:
        code, out, err = run(ctx, case['bad'], None, case['real'])
        ctx.require(code == 2 and out == b'', case,
                    'a bad command line is not refused', argv=case['bad'],
                    code=code, out=out[:300])
        ctx.events['bad command lines'] += 1
        ctx.seen(case['bad'])
        return
    if 'info' in case:
        code, out, err = run(ctx, case['info'], b'# a\n', case['real'])
        ctx.require(code == 0 and out.strip(), case,
                    'help or version is not given', argv=case['info'],
                    code=code, out=out[:200], err=err[:200])
        ctx.events['help and version'] += 1
        ctx.seen(case['info'])
        return
    if 'api' in case:
        return defaults(ctx, case)
    with rt.cwd(ctx.tmp):
        check_files(ctx, case)


def name(ctx, style, k):
    if style == 'odd':
        d = ctx.path(['a b', 'ü é', '#x', "q'", '[g]*', 'x-'][k % 6])
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, ['n o', '日本', '-', 'a#b', '$(x)', '%s {}'][
            k % 6] + f'{k}.md')
    return dict(abs=ctx.path, rel=str, dot=lambda x: './' + x)[style](
        f'c17-{k}.md')


def check_files(ctx, case):
    o = M.Opts(**case['opts'])
    names, want, bad = [], [], False
    docs = list(case['docs'])
    if case['twice'] and docs[0] is not None:
        docs[-1] = docs[0]
    for k, d in enumerate(docs):
        p = name(ctx, case['style'],
                 0 if case['twice'] and k == len(docs) - 1 else k)
        if d is None:
            p = ctx.path('missing.md')
            bad = True
        else:
            ctx.write(d, p)
            r = rt.call(ctx.api.build_toc, p, **o.kwargs())
            if r.kind == 'timeout':
                return
            if r.ok:
                want.append(r.value)
            else:
                bad = True
        names.append(p)
    info = dict(argv=case['pre'] + ['FILES'] + case['post'],
                docs=[(d or '')[:500] for d in case['docs']])
    if case['inplace'] and not bad and not case['stdin'] and not (
            case['twice'] or case['mid'] >= 0):
        return in_place(ctx, case, o, want, info)
    stdin = None
    if case['stdin']:
        stdin = case['docs'][0].encode()
        names = ['-'] if case['dash'] else []
        ctx.events['standard input'] += 1
    elif case['mid'] >= 0 and docs[case['mid']] is not None:
        # Standard input as one of several.
        stdin = docs[case['mid']].encode()
        names[case['mid']] = '-'
        ctx.events['standard input among files'] += 1
    ctx.events['a file named twice'] += case['twice']
    if case.get('diff') and not case['stdin'] and '-' not in names:
        # No markers, no table in the files: all of them differ unless the
        # table is empty.
        code, out, err = run(ctx, ['--diff'] + case['pre'] + names +
                             case['post'], stdin, case['real'])
        same = all(not w.strip() for w in want)
        if bad:
            ctx.require(code == 1 and out == b'' and err.strip(), case,
                        'an error is not reported as one with --diff',
                        code=code, out=out[:300], **info)
        elif not any(M.marker_lines(M.split_lines(d), '<!--TOC-->')
                     for d in docs):
            ctx.require(code == (0 if same else 128) and
                        out.decode() == ''.join(want), case,
                        'exit status or output with --diff', code=code,
                        out=out[:300], **info)
        ctx.events['with --diff'] += 1
    code, out, err = run(ctx, case['pre'] + names + case['post'], stdin,
                         case['real'])
    if bad:
        ctx.require(code == 1, case, 'an error is not reported', code=code,
                    out=out[:300], **info)
        ctx.require(out == b'', case, 'output in spite of an error',
                    out=out[:300], **info)
        ctx.require(err.strip() != '', case, 'a silent error', **info)
        ctx.events['errors reported'] += 1
    else:
        ctx.require(code == 0, case, 'exit status is not 0', code=code,
                    err=err[-500:], **info)
        ctx.require(out.decode('utf-8', 'replace') == ''.join(want), case,
                    'command line and API differ',
                    got=out.decode('utf-8', 'replace')[:800],
                    want=''.join(want)[:800], **info)
        # The options mean the same thing to both.
        ref = [M.toc(d, o) for d in docs]
        if all(x[0] == 'ok' for x in ref) and o.parser != 'redcarpet':
            ctx.require(''.join(x[1] for x in ref) == out.decode(), case,
                        'the table is not the one the options ask for',
                        got=out.decode()[:800],
                        want=''.join(x[1] for x in ref)[:800], **info)
        ctx.events['tables compared'] += 1
    ctx.events['many files'] += len(names) > 1
    ctx.seen(case['pre'], case['post'], code, len(names), bool(stdin))
    if len(case['pre']) > 3:
        ctx.sample(dict(argv=info['argv'], code=code, out=out.decode(
            'utf-8', 'replace')[:120]))


def in_place(ctx, case, o, want, info):
    """-p does to the files what the API does, and prints nothing."""
    import random
    rr = random.Random(case['seed'])
    marker = rr.choice(['<!--TOC-->'] * 3 + ['[](TOC)', 'T O C', '-', '%%', '\\n', 'a\\tb',
                                        '\\', '%s', '$HOME', '"x"', "it's",
                                        ' t ', '\\r\\n', 'é'])
    spell = []
    if marker != '<!--TOC-->' or rr.random() < .2:
        spell = rr.choice([['-m', marker], ['--toc-marker', marker],
                           ['--toc-marker=' + marker]]
                          ) if marker != '-' else ['--toc-marker=-']
    diff = rr.random() < .4
    if diff:
        spell = rr.choice([spell + ['-d'], ['--diff'] + spell])
    a, b = [], []
    order = list(range(len(case['docs'])))
    rr.shuffle(order)
    for k, d in zip(order, case['docs']):
        lines = M.split_lines(I.normal(d))
        at = rr.choice([0, 0, 1, len(lines)])
        reg = rr.choice([[marker], [marker, '', '- old', '', marker]])
        if rr.random() < .1:
            reg = []
        text = ''.join(x + '\n' for x in lines[:at] + reg + lines[at:])
        for base, lst in (('a', a), ('b', b)):
            p = ctx.path(f'c17-{base}{k}.md')
            ctx.write(text, p)
            lst.append(p)
    for turn in (1, 2):
        tocs = []
        for p in a:
            r = rt.call(ctx.api.build_toc, p, **o.kwargs())
            if not r.ok:
                return
            tocs.append(r.value)
        same = True
        for p, t in zip(a, tocs):
            r = rt.call(ctx.api.write_string_on_file_between_markers, p, t,
                        marker, o.newline_string)
            same &= r.ok and bool(r.value)
            if not r.ok:
                return
        code, out, err = run(ctx, rr.choice([['-p'], ['--in-place']]) + spell
                             + case['pre'] + b + case['post'], None,
                             case['real'])
        ctx.require(code == (128 if diff and not same else 0) and out == b'',
                    case, 'in place through the command line', code=code,
                    spelling=spell, turn=turn, out=out[:200], err=err[-300:],
                    **info)
        for x, y in zip(a, b):
            ctx.require(ctx.read(x) == ctx.read(y), case,
                        'files written by the command line and the API '
                        'differ', got=ctx.read(y)[:600], spelling=spell,
                        want=ctx.read(x)[:600], turn=turn, **info)
        ctx.events['in place through the command line'] += 1
    ctx.events['in place with --diff'] += diff
    ctx.events['in place with skipped lines'] += o.skip_lines > 0
    ctx.seen('place', case['pre'], spell, len(a))
