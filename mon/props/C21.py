"""Nothing is touched but the files named, and those only when asked to."""
import gc
import os
import shutil
import tempfile

from .. import fsmon, inplace as I, model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (entry point, options, kinds of files, outcome) of runs '
        'whose effects were compared with a snapshot')
MUST_SEE = ['runs that only read', 'runs in place', 'failed runs',
            'failed runs in place over many files', 'audit events of writes',
            'standard input in place refused', 'files without a marker',
            'runs again, names used before taken']
ASSUMPTIONS = ['effects are those visible to the audit hook of the '
               'interpreter and to snapshots of the scratch tree (contents, '
               'modes, inodes, modification times)',
               'a run that fails because of the text or the options of one '
               'of the files; not because the operating system refuses a '
               'write (see C22)']
SHRINK = False
MARKER = '<!--TOC-->'

GOOD = ['# a\n## b\n', '<!--TOC-->\n\n# a\n# b\n',
        'intro\n\n<!--TOC-->\n\n- [x](#x)\n\n<!--TOC-->\n\n# a\n## b\n',
        '# only\n', '', 'no heading\n', '<!--TOC-->\n', '```\n# x\n',
        '<!--TOC-->\r\n\r\n# cr\r\n', '# é\n<!--TOC-->\n',
        '<!--TOC-->\nprose\n<!--TOC-->\n# a\n', ' <!--TOC--> \n# a']
BAD = ['# a\n### b\n', '## a\n# b\n', '<!--TOC-->\n# a\n### b\n',
       '# a\n#\n<!--TOC-->\n', '<!--TOC-->\n# ' + 'x' * 1000 + '\n']
NAMES = ['a.md', 'b.md', 'README', 'with space.md', 'é.md', 'sub/c.md',
         '-dash.md', 'x.tmp', '.hidden.md', "quote'.md", '*.md', '$HOME.md',
         'a.md.bak', 'sub/deep/d.md', '%s.md', '#h.md', '~', 'nul.txt',
         'a&b;c.md', 'tab\t.md', 'x' * 120 + '.md']


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for d in ('# a\n', '# a\n### b\n', '<!--TOC-->\n'):
        for p in M.ALL_PARSERS:
            yield dict(stdin=d, parser=p)
    for _ in range(ctx.n(5000)):
        n = r.choice([1, 1, 1, 2, 3, 6])
        names = r.sample(NAMES, n)
        fail = r.random() < .35
        docs = [r.choice(GOOD) for _ in names]
        if r.random() < .4:
            for k in range(n):
                docs[k] = I.text_of(I.gen_file(ctx, ['single', 'toc', 'toc',
                                                     'none', 'many']))
        o = g.options(newline_string=r.choice(['\n'] * 5 + ['\r\n', '\r']),
                      skip_lines=0)
        o.no_list_coherence = not fail and not o.no_indentation
        bad = None
        if fail:
            bad = r.randrange(n)
            b = r.choice(BAD + ['missing', 'directory'])
            if b in BAD[3:] and (o.no_links or o.parser == 'redcarpet'):
                b = 'missing'
            if b in BAD[:3]:
                o.no_indentation = False
                o.keep_header_levels = 6
            docs[bad] = b
        how = r.choice(['print', 'print', 'diff', 'place', 'place', 'place',
                        'place diff', 'api'])
        yield dict(names=names, docs=docs, opts=o.kwargs(), how=how, bad=bad,
                   mode=r.choice([0o644, 0o644, 0o600, 0o444]),
                   relative=r.random() < .5, again=r.random() < .3)


def tree(ctx):
    root = ctx.path('c21')
    shutil.rmtree(root, ignore_errors=True)
    for d in ('docs/sub/deep', 'home', 'tmp', 'other', 'cwd'):
        os.makedirs(os.path.join(root, d))
    for p, t in (('docs/neighbour.md', '<!--TOC-->\n# n\n'),
                 ('other/a.md', '<!--TOC-->\n# other\n'),
                 ('cwd/TOC', 'x\n'), ('home/.profile', 'y\n'),
                 ('docs/sub/z.md', '# z\n')):
        ctx.write(t, os.path.join(root, p))
    os.symlink('../other/a.md', os.path.join(root, 'docs/link.md'))
    return root


def run(ctx, root, fn, base):
    """Call fn with everything it could write to inside the scratch tree."""
    saved = {k: os.environ.get(k) for k in ('TMPDIR', 'HOME')}
    old_tmp, tempfile.tempdir = tempfile.tempdir, None
    os.environ.update(TMPDIR=os.path.join(root, 'tmp'),
                      HOME=os.path.join(root, 'home'))
    env = dict(os.environ)
    mask = os.umask(0o22)
    os.umask(mask)
    gc.collect()
    fds = fsmon.open_fds()
    try:
        with rt.cwd(base):
            with fsmon.Recorder() as rec:
                res = fn()
            here = os.getcwd()
        gc.collect()
        return res, rec, dict(env=dict(os.environ) == env,
                              umask=os.umask(mask) == mask,
                              cwd=here == os.path.realpath(base),
                              fds=fsmon.open_fds() - fds)
    finally:
        tempfile.tempdir = old_tmp
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def standing(ctx, case, root, rec, state, info):
    real = os.path.realpath(root)
    out = [c for c in rec.changes if not os.path.realpath(c[1]).startswith(
        real + os.sep) and not c[1].startswith(('/dev/', '/proc/self/'))]
    ctx.require(not out, case, 'something outside was written to', got=out,
                **info)
    ctx.require(not rec.forbidden, case, 'processes, network or the '
                'environment were used', got=rec.forbidden, **info)
    ctx.require(state['env'] and state['cwd'] and state['umask'], case,
                'environment or directory changed', got=state, **info)
    ctx.require(state['fds'] <= 0, case, 'files were left open', got=state,
                **info)
    ctx.events['audit events of writes'] += rec.events


def difference(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def put(ctx, case, docs):
    paths = []
    for n, t in zip(case['names'], case['docs']):
        p = os.path.join(docs, n)
        if t == 'directory':
            os.mkdir(p)
        elif t != 'missing':
            ctx.write(t, p)
            os.chmod(p, case['mode'])
            os.utime(p, ns=(10 ** 18, 10 ** 18))
        if case['relative']:
            p = n if not n.startswith('-') else './' + n
        paths.append(p)
    return paths


def again(ctx, case, root, fn, rec, allowed, info):
    """The files a run makes on its way may have names that the user has
    used: run once more with files of the user there."""
    real = os.path.realpath(root)
    names = sorted({os.path.relpath(os.path.realpath(c[1]), real)
                    for c in rec.changes} - allowed)
    tree(ctx)
    put(ctx, case, os.path.join(root, 'docs'))
    for n in names:
        p = os.path.join(root, n)
        if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
            ctx.write('of the user\n', p)
    before = fsmon.snapshot(root)
    run(ctx, root, fn, os.path.join(root, 'docs'))
    d = difference(before, fsmon.snapshot(root))
    ctx.require(set(d) <= allowed, case, 'files of the user were lost',
                changed=d, **info)
    ctx.events['runs again, names used before taken'] += 1


def check(ctx, case):
    root = tree(ctx)
    if 'stdin' in case:
        before = fsmon.snapshot(root)
        (code, out, err, r), rec, state = run(
            ctx, root, lambda: ctx.cli(['-p', case['parser'], '-'],
                                       case['stdin'].encode()),
            os.path.join(root, 'cwd'))
        info = dict(stdin=case['stdin'], code=code, err=err[-300:])
        ctx.require(code == 1, case, 'standard input written in place',
                    **info)
        d = difference(before, fsmon.snapshot(root))
        ctx.require(not d, case, 'files changed', got=d, **info)
        standing(ctx, case, root, rec, state, info)
        ctx.events['standard input in place refused'] += 1
        ctx.seen('stdin', case['stdin'], case['parser'])
        return
    o = M.Opts(**case['opts'])
    docs = os.path.join(root, 'docs')
    paths = put(ctx, case, docs)
    how = case['how']
    place = how.startswith('place')
    before = fsmon.snapshot(root)
    if how == 'api':
        def fn():
            r = rt.call(ctx.api.build_multiple_tocs, list(paths),
                        **o.kwargs())
            for p in paths:
                rt.call(ctx.api.tocs_equal, '- x\n', p, MARKER)
            return (0 if r.ok else 1), r
    else:
        def fn():
            code, out, err, r = ctx.cli(I.cli_args(
                o, None, place, 'diff' in how) + paths)
            return code, r
    (code, r), rec, state = run(ctx, root, fn, docs)
    if r.kind == 'timeout':
        return
    after = fsmon.snapshot(root)
    info = dict(how=how, names=case['names'],
                docs=[x[:300] for x in case['docs']], opts=o.kwargs(),
                code=code, outcome=r.brief())
    standing(ctx, case, root, rec, state, info)
    d = difference(before, after)
    failed = code not in (0, 128)
    refused = case['bad'] is not None or any(
        M.toc(t, o)[0] != 'ok' for t in case['docs'])
    ctx.require(failed == refused, case,
                'unexpected outcome', **info)
    if not place or failed:
        ctx.require(not d, case, 'a run that must not write did write',
                    changed=d, audit=rec.changes[:10], **info)
        if not place:
            ctx.require(not rec.changes, case, 'a run that only reads did '
                        'write', audit=rec.changes[:10], **info)
        ctx.events['runs that only read'] += not place
        ctx.events['failed runs'] += failed
        ctx.events['failed runs in place over many files'] += (
            place and failed and len(paths) > 1)
    else:
        allowed = {'docs/' + n for n in case['names']}
        ctx.require(set(d) <= allowed, case,
                    'files other than those named changed', changed=d, **info)
        # Those without marker did not change either.
        for n, t in zip(case['names'], case['docs']):
            k = 'docs/' + n
            if not M.marker_lines(M.split_lines(t), MARKER):
                ctx.require(before[k][:3] == after[k][:3], case,
                            'a file without marker changed', name=n, **info)
                ctx.events['files without a marker'] += 1
        ctx.events['runs in place'] += 1
        if case['again']:
            again(ctx, case, root, fn, rec, allowed, info)
    ctx.seen(how, o.parser, o.ordered, len(paths), code, case['docs'],
             case['mode'])
    ctx.sample(dict(how=how, names=case['names'][:3], code=code,
                    changed=d[:3], audit=[c[0] for c in rec.changes][:6]))
