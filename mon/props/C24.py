"""A file which is not text gives a notice, never a partial table."""
import os
import subprocess
import sys

from .. import inplace as I, known, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (kind of bad bytes, position class, dialect, entry point, '
        'number of skipped lines) of files observed')
MUST_SEE = ['notices compared', 'bad bytes in the skipped part',
            'bad bytes after the first buffer', 'bad bytes in code',
            'bad bytes at the end', 'files in place left alone',
            'standard input', 'text files accepted', 'other files unaffected',
            'comparisons refused', 'real processes']
ASSUMPTIONS = ['UTF-8 or C locale: files are decoded as UTF-8']
MARKER = '<!--TOC-->'
BAD = [b'\xff', b'\xfe\xff', b'\x80', b'\xc3', b'\xc0\xaf', b'\xe2\x82',
       b'\xed\xa0\x80', b'\xf5\x80\x80\x80', b'\xf4\x90\x80\x80', b'\xe9t\xe9',
       b'\xff\xfe#\x00 \x00a\x00', b'\x89PNG\r\n\x1a\n', b'\xf0\x9f\x8e',
       b'\xf8\x88\x80\x80\x80', b'\xbf\xbf', b'\xc3(']
GOOD = ['\x00', '\ufeff', '\uffff', '\U0010ffff', 'é' * 50, '日本' * 30,
        '🎉' * 20, '\x7f\x01\x02', '\u0080\u0085', '\ue000', '\ufffd',
        '\x1a', '\x1b[0m', '\u202e', '\ufdd0']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    if ctx.shard == 0:
        for k in known.load('C24'):
            yield dict(known=k['id'], doc=k['doc'], env=k['env'])
    for _ in range(ctx.n(6000)):
        n = r.choice([1, 2, 3, 6, 12])
        lines = g.doc_lines(n, True, hostile=.4)
        if r.random() < .25:
            pad = r.choice([100, 8000, 8190, 8192, 16384, 20000, 70000])
            at = r.randint(0, len(lines))
            lines = lines[:at] + ['x' * r.choice([10, 79, pad])
                                  for _ in range(r.choice([1, 3]))] + [
                'pad'] * (pad // 4) + lines[at:]
        if g.sizes and r.random() < .2:
            lines = ['é' * (r.choice(g.sizes) // 2)] + lines
        if r.random() < .2:
            lines = lines + r.choice([['```', '# x'], ['~~~', 'y', '~~~']])
        if r.random() < .3:
            lines.insert(r.randint(0, len(lines)), MARKER)
        lines = lines or ['x']
        o = g.options(no_list_coherence=True)
        if o.no_indentation:
            o.no_list_coherence = False
        k = r.choice(['bad'] * 7 + ['good'] * 2)
        where = r.choice([0, len(lines) - 1, r.randrange(len(lines)),
                          r.randrange(len(lines))])
        yield dict(lines=lines, opts=o.kwargs(), kind=k, where=where,
                   col=r.choice([0, 1, .5, 1]),
                   what=r.randrange(len(BAD if k == 'bad' else GOOD)),
                   skip=r.choice([0] * 5 + [1, 2, where, where + 1, 10 ** 6]),
                   final=r.random() < .7, eol=r.choice(['\n', '\n', '\r\n',
                                                        '\r']),
                   name=r.choice(['b.md', 'é b.md', 'x.bin', 'image.png']),
                   how=r.choice(['api'] * 5 + ['multi', 'multi', 'cli',
                                               'stdin', 'stdin', 'place',
                                               'write', 'equal']),
                   errors=r.choice(['strict', 'surrogateescape']),
                   real=r.random() < .03)


def content(case):
    x = (BAD if case['kind'] == 'bad' else
         [t.encode() for t in GOOD])[case['what']]
    e = case['eol'].encode()
    out = [ln.encode() for ln in case['lines']]
    w = min(case['where'], len(out) - 1)
    t = case['lines'][w]
    cut = len(t[:int(len(t) * case['col'])].encode())
    if case['kind'] == 'good':
        # Headings stay what they are.
        out[w] = out[w] + b'\n' + b'y' + x
    else:
        out[w] = out[w][:cut] + x + out[w][cut:]
    data = e.join(out) + (e if case['final'] else b'')
    return data, w


def check_known(ctx, case):
    p = ctx.write(case['doc'], ctx.path('known.md'))
    q = subprocess.run(
        [sys.executable, '-c', 'import sys; from md_toc import api; '
         'print(ascii(api.build_toc(sys.argv[1])))', p],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
        env={**os.environ, **case['env'], 'PYTHONPATH': rt.REPO})
    out = q.stdout.decode().strip()
    if 'probably a binary file' in out:
        ctx.known = getattr(ctx, 'known', []) + [
            f'{case["known"]}: {case["doc"]!r} is taken for binary with '
            f'{case["env"]}']
        return
    want = M.toc(case['doc'], M.Opts())[1]
    ctx.require(out == ascii(want), case, 'a text file gives another table '
                'with other settings of the locale', got=out, want=want)


def check(ctx, case):
    if 'known' in case:
        return check_known(ctx, case)
    data, w = content(case)
    bad = True
    try:
        text = data.decode()
        bad = False
    except UnicodeDecodeError:
        pass
    o = M.Opts(**{**case['opts'], 'skip_lines': case['skip']})
    d = ctx.path('c24')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, case['name'])
    ctx.write(data, p)
    how = case['how']
    name = '-' if how == 'stdin' else p
    notice = f'<!--stop reading {name}: probably a binary file-->'
    info = dict(how=how, bad=repr(BAD[case['what']]) if bad else None,
                where=w, of=len(case['lines']), skip=case['skip'],
                opts=case['opts'], data=repr(data[:400]))
    if not bad:
        if how in ('api', 'multi', 'cli', 'stdin'):
            r = rt.call(ctx.api.build_toc, p, **o.kwargs())
            if r.kind == 'timeout':
                return
            ctx.require(not r.ok or 'stop reading' not in r.value or
                        'stop reading' in text, case,
                        'a text file is taken for a binary one',
                        got=r.brief(), **info)
            if case['kind'] == 'good' and M.toc(text, o)[0] == 'ok':
                ctx.require(r.ok, case, 'a text file is refused',
                            got=r.brief(), exc=r.exc, **info)
                ctx.events['text files accepted'] += 1
        return
    got = None
    if how == 'api':
        r = rt.call(ctx.api.build_toc, p, **o.kwargs())
        if r.kind == 'timeout':
            return
        got = r.value if r.ok else r
    elif how == 'multi':
        q = ctx.write('# one\n# two\n', os.path.join(d, 'good.md'))
        oo = M.Opts(**{**case['opts'], 'skip_lines': 0})
        r = rt.call(ctx.api.build_multiple_tocs, [q, p, q], **oo.kwargs())
        if r.kind == 'timeout':
            return
        ref = rt.call(ctx.api.build_toc, q, **oo.kwargs())
        ctx.require(r.ok and len(r.value) == 3 and ref.ok and r.value[0] ==
                    r.value[2] == ref.value, case,
                    'other files are affected', got=r.brief(), **info)
        ctx.events['other files unaffected'] += 1
        got = r.value[1]
    elif how in ('cli', 'stdin'):
        if case['real']:
            lang = ctx.rng.choice(['C', 'C.UTF-8', 'POSIX', ''])
            env = {k: v for k, v in os.environ.items() if k not in
                   ('LC_ALL', 'LANG', 'PYTHONUTF8')}
            env.update(PYTHONPATH=rt.REPO, LANG=lang)
            q = subprocess.run(
                [sys.executable, '-m', 'md_toc'] + I.cli_args(o) + [name],
                input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=env, timeout=120)
            code, out, err = q.returncode, q.stdout, q.stderr.decode(
                'utf-8', 'replace')
            ctx.events['real processes'] += 1
        else:
            code, out, err, r = ctx.cli(I.cli_args(o) + [name], data,
                                        case['errors'])
            if r.kind == 'timeout':
                return
        if code == 1 and out == b'' and case['skip']:
            # Perhaps lines of a code block whose beginning was skipped.
            code = 0 if rt.call(ctx.api.build_toc, p, **o.kwargs()).value in (
                M.EMPTY, M.OVERFLOW) else 1
            if code == 0:
                return
        ctx.require(code == 0, case, 'the run failed', code=code,
                    err=err[-400:], **info)
        got = out.decode('utf-8', 'surrogateescape')
        ctx.events['standard input'] += how == 'stdin'
    elif how == 'equal':
        r = rt.call(ctx.api.tocs_equal, '- [a](#a)\n', p, MARKER)
        ctx.require(not (r.ok and r.value), case,
                    'a binary file compares equal', got=r.brief(), **info)
        ctx.require(ctx.read(p) == data, case, 'a comparison wrote', **info)
        ctx.events['comparisons refused'] += 1
    else:
        if how == 'place':
            code, out, err, r = ctx.cli(I.cli_args(o, MARKER, True) + [p])
            failed = code not in (0, 128)
        else:
            r = rt.call(ctx.api.write_string_on_file_between_markers, p,
                        '- [a](#a)\n', MARKER)
            failed = not r.ok
        if r.kind == 'timeout':
            return
        ctx.require(ctx.read(p) == data, case, 'a binary file was written to',
                    after=repr(ctx.read(p)[:400]), **info)
        ctx.require(failed, case, 'the failure is not reported', **info)
        ctx.events['files in place left alone'] += 1
    if isinstance(got, rt.Result) and case['skip'] and got.value in (
            M.EMPTY, M.OVERFLOW):
        # Lines of a code block whose beginning was skipped.
        return
    if got is not None:
        ctx.require(got == notice, case, 'not the notice', got=got if
                    isinstance(got, str) else got.brief(), want=notice, **info)
        ctx.events['notices compared'] += 1
    ctx.events['bad bytes in the skipped part'] += case['skip'] > w
    ctx.events['bad bytes after the first buffer'] += len(
        case['eol'].join(case['lines'][:w])) > 8192
    ctx.events['bad bytes at the end'] += w == len(case['lines']) - 1
    ctx.events['bad bytes in code'] += M.code_mask(
        case['lines'], o.parser)[w]
    ctx.seen(case['what'], w, len(case['lines']), o.parser, how,
             case['skip'])
    ctx.sample(dict(how=how, bytes=repr(BAD[case['what']]), line=w,
                    got=str(got)[:80]))
