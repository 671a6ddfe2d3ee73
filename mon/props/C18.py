"""A table depends on the text and the options, and on nothing else."""
import io
import os
import pickle
import random
import struct
import subprocess
import sys
import threading

from .. import model as M, rt

LEVEL = 'exploration'
RULE = ('distinct (history length, previous outcome, options, document) '
        'compared with a pristine process')
MUST_SEE = ['compared with a pristine process', 'calls after an error',
            'many files at once', 'calls from threads', 'same path new text',
            'hash seeds', 'arguments compared', 'other places and names',
            'binary files under other names',
            'other environments']
ASSUMPTIONS = ['threads: the interpreter switches between them every few '
               'microseconds; no claim about schedules not seen']


class Zygote:
    """A process which has imported md_toc and called nothing: every request
    is served by a fresh fork of it."""

    def __init__(self, ctx):
        self.r, w = os.pipe()
        r2, self.w = os.pipe()
        self.path = ctx.path('pristine.md')
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.close(self.w)
            inp, out = os.fdopen(r2, 'rb'), os.fdopen(w, 'wb')
            while True:
                h = inp.read(4)
                if len(h) < 4:
                    os._exit(0)
                job = pickle.loads(inp.read(struct.unpack('I', h)[0]))
                pid = os.fork()
                if pid == 0:
                    res = serve(ctx, job)
                    b = pickle.dumps(res)
                    out.write(struct.pack('I', len(b)) + b)
                    out.flush()
                    os._exit(0)
                os.waitpid(pid, 0)
        os.close(w)
        os.close(r2)
        self.out, self.inp = os.fdopen(self.w, 'wb'), os.fdopen(self.r, 'rb')

    def __call__(self, jobs):
        b = pickle.dumps((self.path, jobs))
        self.out.write(struct.pack('I', len(b)) + b)
        self.out.flush()
        h = self.inp.read(4)
        return pickle.loads(self.inp.read(struct.unpack('I', h)[0]))

    def close(self):
        self.out.close()
        self.inp.close()
        os.waitpid(self.pid, 0)


def serve(ctx, job):
    # One job per fork; only its own call happened before it.
    path, (doc, kw) = job
    with open(path, 'wb') as f:
        f.write(doc.encode('utf-8', 'surrogateescape'))
    r = rt.call(ctx.api.build_toc, path, **kw)
    return r.kind, r.value


def doc(ctx):
    g, r = ctx.gen, ctx.rng
    k = r.random()
    if k < .2:
        return r.choice(['# a\n### b\n', '# a\n#\n', '# a\n# ' + 'x' * 1000,
                         '```\n# a\n', '# a\n~~~\n# b'])
    if k < .4:
        return ''.join(f'{"#" * r.choice([1, 1, 2])} '
                       f'{r.choice(["same", "Same", "two", "é"])}\n'
                       for _ in range(r.choice([2, 5, 12])))
    lines = g.doc_lines(r.choice([1, 2, 4, 8]), True, hostile=.5,
                        fences='wild' if r.random() < .2 else True)
    return g.join(lines, final=r.random() < .8)


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    z = Zygote(ctx)
    ctx.zygote = z
    try:
        for i in range(ctx.n(1200)):
            n = r.choice([2, 4, 8, 16])
            pool = [doc(ctx) for _ in range(r.choice([1, 2, n]))]
            if r.random() < .4:
                # The same number of characters, nearly the same text.
                k = r.random()
                if k < .5:
                    d = r.choice(pool)
                    pool = [d] + [g.twin(d) for _ in range(3)]
                else:
                    pool = [f'# {t}\n' for t in g.family(4)]
            jobs = []
            for _ in range(n):
                o = g.options(skip_lines=r.choice([0] * 5 + [1, 3]))
                if r.random() < .6:
                    o.no_list_coherence = True
                jobs.append([r.choice(pool), o.kwargs()])
            mode = r.choice(['seq', 'seq', 'seq', 'multi', 'multi', 'threads',
                             'args', 'where'])
            if mode == 'where':
                # Files which are not text, too.
                for j in jobs:
                    if r.random() < .3:
                        k = r.randrange(len(j[0]) + 1)
                        j[0] = j[0][:k] + r.choice(
                            ['\udcff', '\udcc3', '\udced\udca0\udc80']
                        ) + j[0][k:]
            yield dict(jobs=jobs, mode=mode, seed=r.random())
        # Long histories.
        for n in ctx.mine([100, 300] + [min(x, 2000) for x in g.sizes]):
            o = g.options(no_list_coherence=True)
            yield dict(jobs=[[f'# h{i % 7}\n## x\n', o.kwargs()]
                             for i in range(n)], mode='seq', seed=0)
        for i in ctx.mine(range(16 if not ctx.thorough else 80)):
            o = g.options(no_list_coherence=True)
            yield dict(jobs=[[doc(ctx), o.kwargs()] for _ in range(3)],
                       mode='hash', seed=i)
    finally:
        z.close()


def pristine(ctx, doc_, kw):
    if getattr(ctx, 'zygote', None) is None:
        ctx.zygote = Zygote(ctx)
    return ctx.zygote((doc_, kw))


def check(ctx, case):
    jobs = [(d, kw) for d, kw in case['jobs']]
    mode = case['mode']
    if mode == 'hash':
        return hash_seeds(ctx, case, jobs)
    memo = {}

    def want(d, kw):
        k = (d, repr(sorted(kw.items())))
        if k not in memo:
            memo[k] = tuple(pristine(ctx, d, kw))
        return memo[k]

    if mode == 'seq':
        prev = None
        last = None
        for i, (d, kw) in enumerate(jobs):
            if len(jobs) > 60 and i % 10 and i < len(jobs) - 3:
                ctx.write(d)
                rt.call(ctx.api.build_toc, ctx.doc, **kw)
                continue
            w = want(d, kw)
            ctx.write(d)
            # Neither does the time of the last change matter.
            os.utime(ctx.doc, (10 ** 9, 10 ** 9))
            r = rt.call(ctx.api.build_toc, ctx.doc, **kw)
            if 'timeout' in (r.kind, w[0]):
                continue
            ctx.require((r.kind, r.value) == w, case,
                        'the result depends on earlier calls', doc=d[:1200],
                        opts=kw, got=r.brief(), want=w, after=i,
                        previous=prev)
            ctx.events['compared with a pristine process'] += 1
            ctx.events['calls after an error'] += prev == 'raise'
            ctx.events['same path new text'] += last not in (None, d)
            ctx.seen(min(i, 40), prev, kw, d)
            prev, last = r.kind, d
            if i == len(jobs) - 1:
                ctx.sample(dict(calls=len(jobs), last=d[:100], options=kw,
                                outcome=r.kind))
    elif mode == 'args':
        arguments(ctx, case, jobs, want)
    elif mode == 'where':
        elsewhere(ctx, case, jobs, want)
    elif mode == 'multi':
        kw = jobs[0][1]
        paths = []
        for k, (d, _) in enumerate(jobs):
            paths.append(ctx.write(d, ctx.path(f'm{k}.md')))
        ws = [want(d, kw) for d, _ in jobs]
        given = list(paths)
        r = rt.call(ctx.api.build_multiple_tocs, given, **kw)
        ctx.require(given == paths, case, 'the list of files was changed',
                    got=given)
        if r.kind == 'timeout':
            return
        if all(w[0] == 'ok' for w in ws):
            ctx.require(r.ok and list(r.value) == [w[1] for w in ws], case,
                        'a file affects the table of another', opts=kw,
                        docs=[d[:400] for d, _ in jobs], got=r.brief(),
                        want=[w[1] for w in ws])
            # The same file more than once, and the other way around.
            back = rt.call(ctx.api.build_multiple_tocs,
                           paths[::-1] + paths[:1], **kw)
            ctx.require(back.ok and list(back.value) == [
                w[1] for w in ws[::-1] + ws[:1]], case,
                'the order of the files matters', opts=kw,
                docs=[d[:400] for d, _ in jobs], got=back.brief())
            ctx.events['many files at once'] += 1
            ctx.seen('multi', kw, tuple(d for d, _ in jobs))
        else:
            ctx.require(r.kind == 'raise', case, 'an error went unnoticed',
                        got=r.brief())
    else:
        ws = [want(d, kw) for d, kw in jobs]
        paths = [ctx.write(d, ctx.path(f't{k}.md'))
                 for k, (d, _) in enumerate(jobs)]
        got = [[] for _ in jobs]
        old = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)
        rr = random.Random(case['seed'])
        order = list(range(len(jobs))) * 2
        rr.shuffle(order)
        start = threading.Barrier(4)

        def work(mine):
            start.wait()
            for k in mine:
                try:
                    got[k].append(('ok', ctx.api.build_toc(
                        paths[k], **jobs[k][1])))
                except Exception as e:  # noqa: BLE001
                    got[k].append(('raise', type(e).__name__))

        ts = [threading.Thread(target=work, args=(order[i::4], ))
              for i in range(4)]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for k, w in enumerate(ws):
            for g in got[k]:
                ctx.require(w[0] == 'timeout' or g == w, case,
                            'concurrent calls disturb each other',
                            doc=jobs[k][0][:900], opts=jobs[k][1], got=g,
                            want=w)
                ctx.events['calls from threads'] += 1
        ctx.seen('threads', [kw for _, kw in jobs], order)


SCRIPT = '''
import json, sys
sys.path.insert(0, sys.argv[1])
import md_toc.api as a
out = []
for p, kw in json.load(open(sys.argv[2], encoding='utf-8')):
    try:
        out.append(['ok', a.build_toc(p, **kw)])
    except Exception as e:
        out.append(['raise', type(e).__name__])
sys.stdout.buffer.write(json.dumps(out).encode())
'''


def arguments(ctx, case, jobs, want):
    """Lists of the caller stay as they are, empty ones too."""
    d, kw = jobs[0]
    w = want(d, kw)
    given = []
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BytesIO(d.encode()), encoding='utf-8',
                                 newline='\n')
    try:
        r = rt.call(ctx.api.build_multiple_tocs, given, **kw)
    finally:
        sys.stdin = old
    ctx.require(given == [], case, 'the list of files was changed', got=given,
                opts=kw)
    if 'timeout' not in (r.kind, w[0]):
        ctx.require((r.kind, r.value) == ((w[0], [w[1]]) if w[0] == 'ok'
                                          else w), case,
                    'standard input gives another table', doc=d[:900],
                    opts=kw, got=r.brief(), want=w)
    paths = [ctx.write('<!--TOC-->\n' + x, ctx.path(f'a{k}.md'))
             for k, (x, _) in enumerate(jobs)]
    tocs = [f'- [x{k}](#x{k})\n' for k in range(len(jobs))]
    p2, t2 = list(paths), list(tocs)
    r = rt.call(ctx.api.write_strings_on_files_between_markers, p2, t2,
                '<!--TOC-->', '\n')
    ctx.require(r.ok and p2 == paths and t2 == tocs, case,
                'arguments of the caller were changed', got=[p2, t2],
                outcome=r.brief())
    ctx.events['arguments compared'] += 1
    ctx.seen('args', kw, d)


NAMES = ['README.md', 'readme.markdown', 'CHANGELOG', 'index.html', 'a.txt',
         'notes.rst', '.hidden', '-dash.md', '--', '-', 'a b.md', 'é.md', '#',
         'SUMMARY.md', 'CONTRIBUTING.md', 'a.MD', 'x.mdx', 'x.bin', 'x.py',
         'LICENSE', 'test.md', 'toc.md', 'foo.md', 'x.gz', 'x.tmp', '1', '%s',
         'a.github.md', 'redcarpet', 'gitlab.md', 'x' * 200, '~', '*.md',
         'a.md~', 'sub/README.md', 'docs/index.md', '.github/a.md',
         'node_modules/x.md', 'sub/sub/sub/sub/deep.md', 'tests/t.md', 'tmp/x',
         '日本.md', 'a;b.md', '_draft.md', '2024-01-01-x.md', 'x.md.bak']
ENVS = [{}, dict(LC_ALL='C.UTF-8'), dict(COLUMNS='10', LINES='3'),
        dict(TERM='dumb'), dict(HOME='/nonexistent'), dict(TZ='Asia/Tokyo'),
        dict(DEBUG='1', VERBOSE='1'), dict(CI='true', GITHUB_ACTIONS='true'),
        dict(PYTHONDEVMODE='1'), dict(NO_COLOR='1'), dict(USER='nobody'),
        dict(GITLAB_CI='1'), dict(EDITOR='vi'), dict(SOURCE_DATE_EPOCH='1'),
        dict(MD_TOC='1', MD_TOC_DEBUG='1', MDTOC_DEBUG='1'),
        dict(LANGUAGE='tr', LC_MESSAGES='tr_TR.UTF-8'), dict(PATH='')]


def elsewhere(ctx, case, jobs, want):
    """Name, place and attributes of the file, working directory and
    environment."""
    rr = random.Random(case['seed'])
    for d, kw in jobs:
        w = want(d, kw)
        root = ctx.path('where')
        name = rr.choice(NAMES)
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        ctx.write(d.encode('utf-8', 'surrogateescape'), p)
        os.chmod(p, rr.choice([0o644, 0o400, 0o777, 0o600]))
        t = rr.choice([0, 10 ** 9, 2 * 10 ** 9])
        os.utime(p, (t, t))
        kind = rr.choice(['abs', 'abs', 'rel', 'rel', 'link', 'hard', 'dots'])
        base = ctx.tmp
        arg = p
        q = os.path.join(root, 'other-' + str(len(name)))
        if kind == 'rel':
            base = rr.choice([root, os.path.dirname(p), ctx.tmp])
            arg = os.path.relpath(p, base)
            if arg == '-':
                arg = './-'
        elif kind == 'dots':
            arg = os.path.join(root, '.', '..', 'where', name)
        elif kind == 'link':
            os.symlink(p, q)
            arg = q
        elif kind == 'hard':
            os.link(p, q)
        env = rr.choice(ENVS)
        saved = dict(os.environ)
        os.environ.update(env)
        try:
            with rt.cwd(base):
                r = rt.call(ctx.api.build_toc, arg, **kw)
        finally:
            os.environ.clear()
            os.environ.update(saved)
            for x in (p, q):
                if os.path.lexists(x):
                    os.unlink(x)
        if 'timeout' in (r.kind, w[0]):
            continue
        if any('\udc80' <= c <= '\udcff' for c in d):
            # The notice names the file.
            if w[0] == 'ok':
                w = w[0], w[1].replace(ctx.zygote.path, arg)
            ctx.events['binary files under other names'] += 1
        ctx.require((r.kind, r.value) == w, case, 'the result depends on the '
                    'name or place of the file or on the environment',
                    doc=d[:1200], opts=kw, name=arg, how=kind, env=env,
                    directory=base, got=r.brief(), want=w)
        ctx.events['other places and names'] += 1
        ctx.seen('where', name, kind, env, kw, d)


def other_environments(ctx, case, jobs, lst, jf):
    rr = random.Random(case['seed'])
    env = dict(os.environ, **rr.choice(ENVS))
    flags = rr.choice([[], ['-O'], ['-OO'], ['-B'], ['-I'], ['-X', 'utf8'],
                       ['-W', 'error::SyntaxWarning'], ['-X', 'dev']])
    p = subprocess.run([sys.executable, *flags, '-c', SCRIPT, rt.REPO, jf],
                       env=env, stdout=subprocess.PIPE, timeout=120,
                       stderr=subprocess.DEVNULL,
                       cwd=rr.choice([ctx.tmp, '/', rt.REPO]))
    ctx.events['other environments'] += 1
    return p.stdout


def hash_seeds(ctx, case, jobs):
    import json
    lst = []
    for k, (d, kw) in enumerate(jobs):
        lst.append([ctx.write(d, ctx.path(f'h{k}.md')), kw])
    jf = ctx.path('jobs.json')
    ctx.write(json.dumps(lst), jf)
    seen = set()
    for s in ('1', '2', 'random'):
        env = dict(os.environ, PYTHONHASHSEED=s)
        p = subprocess.run([sys.executable, '-c', SCRIPT, rt.REPO, jf],
                           env=env, stdout=subprocess.PIPE, timeout=120,
                           cwd=ctx.tmp)
        seen.add(p.stdout)
        ctx.events['hash seeds'] += 1
    seen.add(other_environments(ctx, case, jobs, lst, jf))
    ctx.require(len(seen) == 1 and b'' not in seen, case,
                'the result depends on the hash seed or environment',
                got=[x[:400] for x in seen])
    ctx.require(json.loads(seen.pop()) == [list(pristine(ctx, d, kw))
                                           for d, kw in jobs], case,
                'a new interpreter gives something else')
