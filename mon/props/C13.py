"""Writing in place keeps everything that is not the table."""
import os

from .. import inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (kind of region, line endings, file shape, entry point) of '
        'files written in place')
MUST_SEE = ['files rewritten', 'files without marker untouched',
            'symbolic links kept', 'modes kept', 'odd separators kept',
            'prose between markers kept']
ASSUMPTIONS = ['line endings become the newline asked for, as documented; '
               'ownership, ACLs and hard links are not claimed']

KINDS = ['single', 'toc', 'toc', 'toc', 'adjacent', 'blank', 'blank3',
         'empty', 'none', 'none', 'prose between', 'many']


def cases(ctx):
    r = ctx.rng
    for i in range(ctx.n(9000)):
        c = I.gen_file(ctx, KINDS)
        c.update(newline=r.choice(['\n'] * 6 + ['\r\n', '\r']),
                 toc=r.choice(['build', 'given', 'given', 'empty']),
                 how=r.choice(['api'] * 4 + ['multi', 'cli']),
                 link=r.random() < .2,
                 mode=r.choice([0o644] * 3 + [0o600, 0o755, 0o640, 0o664,
                                              0o444, 0o666, 0o700,
                                              0o2755, 0o4711, 0o1644]))
        if c['toc'] == 'given':
            c['given'] = I.old_toc(ctx)
        yield c
    # Tables from everyday to huge, files too.
    for n in ctx.mine([1, 100, 1000, 5000] + [min(x, 5000) for x in
                                              ctx.gen.sizes]):
        for k in ('single', 'toc'):
            c = I.gen_file(ctx, [k])
            c.update(newline='\n', toc='given', how='api', link=False,
                     mode=0o644, given=[f'- [h{i}](#h{i})' for i in range(n)])
            c['pre'] = [f'é line {i} ' + 'x' * (i % 80) for i in range(n)]
            c['post'] = [f'after {i}' for i in range(n)]
            yield c


def check(ctx, case):
    d = ctx.path('d')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'f.md')
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    text = I.text_of(case)
    ctx.write(text, path)
    os.chmod(path, case['mode'])
    before = ctx.read(path)
    name = path
    links = []
    if case['link']:
        name = os.path.join(d, 'link.md')
        os.symlink(r'f.md' if case['seed'] < .5 else path, name)
        links.append(name)
        if case['seed'] % .1 < .03:
            # A link to a link.
            name = os.path.join(d, 'link2.md')
            os.symlink('link.md', name)
            links.append(name)
    marker, nl = case['marker'], case['newline']
    o = M.Opts(no_list_coherence=True, newline_string=nl)
    if case['toc'] == 'build' or case['how'] == 'cli':
        toc = M.toc(text, o)
        if toc[0] != 'ok':
            return
        toc = toc[1]
    elif case['toc'] == 'empty':
        toc = ''
    else:
        toc = '\n'.join(case['given']) + '\n'
    if case['how'] == 'cli':
        code, out, err, r = ctx.cli(I.cli_args(o, marker, in_place=True)
                                    + [name])
        ctx.require(code == 0, case, 'writing in place failed', text=text[:900],
                    err=err[-600:], code=code)
    else:
        r = I.write(ctx, name, toc, marker, nl, case['how'])
        if r.kind == 'timeout':
            return
        ctx.require(r.ok, case, 'writing in place failed', text=text[:900],
                    got=r.brief(), exc=r.exc)
    after = ctx.read(path)
    want = M.write_in_place(text, toc, marker, nl)
    ctx.require(sorted(os.listdir(d)) == sorted(['f.md'] + [
        os.path.basename(x) for x in links]), case, 'other files appeared or vanished', ls=os.listdir(d))
    ctx.require(I.mode(path) == case['mode'], case, 'permissions changed',
                got=oct(I.mode(path)), want=oct(case['mode']))
    if case['link']:
        ctx.require(all(os.path.islink(x) for x in links), case,
                    'a link was replaced')
        ctx.events['symbolic links kept'] += 1
    if want is None:
        ctx.require(after == before, case, 'a file without marker changed',
                    before=before[:900], after=after[:900])
        ctx.events['files without marker untouched'] += 1
        return
    if after != want.encode():
        # Say what happened to the lines outside.
        lines = M.split_lines(I.normal(text))
        got = I.normal(after.decode('utf-8', 'replace')).split('\n')
        lost = [x for x in lines if x and x not in got and
                x not in case['reg']][:6]
        ctx.violate(case, 'the rest of the file changed', kind_of=case['kind'],
                    marker=marker, newline=nl, before=text[:1200],
                    after=after.decode('utf-8', 'replace')[:1200],
                    want=want[:1200], lost=lost)
    ctx.events['files rewritten'] += 1
    ctx.events['modes kept'] += case['mode'] != 0o644
    ctx.events['odd separators kept'] += any(c in text for c in
                                             '\x0c\x85\u2028\x1c\x0b')
    ctx.events['prose between markers kept'] += case['kind'] in (
        'prose between', 'many')
    ctx.seen(case['kind'], case['eol'], nl, case['how'], case['link'],
             case['mode'], len(case['pre']), len(case['post']), case['final'],
             len(case['reg']))
    ctx.sample(dict(kind=case['kind'], before=text[:150],
                    after=after.decode()[:200]))
