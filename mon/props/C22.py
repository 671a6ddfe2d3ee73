"""A failure while writing in place never costs the user's text."""
import errno
import os
import pickle
import random
import resource
import shutil
import sys
import tempfile

from .. import fsmon, inplace as I, model as M, rt

LEVEL = 'fault_enumeration'
RULE = ('distinct (fault, place of the fault in the run, kind of file) after '
        'which the files were examined')
MUST_SEE = ['killed runs', 'interrupted runs', 'runs with a refused operation',
            'runs with a full disk', 'files intact after a fault',
            'files finished despite a fault', 'failed runs reported',
            'distinct lines killed at']
ASSUMPTIONS = ['one fault per run; the temporary directory is on the file '
               'system of the file; a kill loses what the process had not '
               'handed to the system, not what it had (no power loss)',
               'a fault may leave temporary files behind, and may leave the '
               'text without table and markers']
SHRINK = False
MARKER = '<!--TOC-->'
TOOL = 4


def cases(ctx):
    r, g = ctx.rng, ctx.gen
    for i in range(ctx.n(160, 4000)):
        files = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = I.gen_file(ctx, ['single', 'toc', 'toc', 'adjacent', 'empty',
                                 'blank3', 'none'])
            for k in ('pre', 'post'):
                c[k] = [x for x in c[k] if x.strip() != MARKER][:60] or [
                    'keep me']
                if r.random() < .25:
                    c[k] = c[k] + [f'{k} line {j} é' for j in range(
                        r.choice([20, 20, 150]))]
            if c['reg']:
                m = c['marker'].strip()
                c['reg'] = [MARKER if x.strip() == m else x for x in c['reg']]
            c['marker'] = MARKER
            files.append(c)
        yield dict(files=files, how=r.choice(['api', 'multi', 'cli']),
                   newline=r.choice(['\n'] * 4 + ['\r\n', '\r']),
                   link=r.random() < .2, seed=r.random(),
                   points=20 if not ctx.thorough else 60)


def layout(ctx, case):
    root = ctx.path('c22')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'tmp'))
    paths, names, texts = [], [], []
    for k, c in enumerate(case['files']):
        p = os.path.join(root, f'f{k}.md')
        t = I.text_of(c)
        ctx.write(t, p)
        n = p
        if case['link'] and k == 0:
            n = os.path.join(root, 'link.md')
            os.symlink('f0.md', n)
        paths.append(p)
        names.append(n)
        texts.append(t)
    return root, paths, names, texts


def action(ctx, case, names, texts):
    nl = case['newline']
    o = M.Opts(no_list_coherence=True, newline_string=nl)
    tocs = [M.toc(t, o)[1] for t in texts]
    if case['how'] == 'cli':
        def fn():
            code, out, err, r = ctx.cli(I.cli_args(o, MARKER, True) + names)
            return 'ok' if code == 0 else 'failed'
    elif case['how'] == 'multi':
        def fn():
            return 'ok' if rt.call(
                ctx.api.write_strings_on_files_between_markers, names, tocs,
                MARKER, nl).ok else 'failed'
    else:
        def fn():
            for n, t in zip(names, tocs):
                if not rt.call(ctx.api.write_string_on_file_between_markers,
                               n, t, MARKER, nl).ok:
                    return 'failed'
            return 'ok'
    return fn, tocs


WATCH = (os.path.join(rt.REPO, 'md_toc') + os.sep, os.sep + 'fpyutils' +
         os.sep, os.sep + 'shutil.py', os.sep + 'tempfile.py')


def watched(name):
    return name.startswith(WATCH[0]) or any(w in name for w in WATCH[1:])


def on_lines(fn):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'faults')
    mon.register_callback(TOOL, mon.events.LINE, fn)
    mon.set_events(TOOL, mon.events.LINE)


def child(ctx, case, fault, body):
    """Run body in a fork with a fault; what it reported, or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            tempfile.tempdir = os.path.join(ctx.path('c22'), 'tmp')
            mon = sys.monitoring
            for t in (0, 1, 2, 3, 5):
                if mon.get_tool(t) is not None:
                    mon.set_events(t, 0)
            res = inject(fault, body)
            os.write(w, pickle.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def inside(path):
    return os.sep + 'c22' + os.sep in os.path.abspath(path)


def changes(event, args):
    w = fsmon.writes(event, args)
    return w is not None and any(map(inside, w))


def reads(event, args):
    return event == 'open' and isinstance(args[0], (str, bytes)) and inside(
        os.fsdecode(args[0]))


def inject(fault, body):
    kind = fault[0]
    if kind == 'record':
        lines, ops = [], []
        first = [None]

        def audit(event, args):
            if changes(event, args):
                if first[0] is None:
                    first[0] = len(lines)
                ops.append(event)
            elif reads(event, args):
                ops.append('open to read')

        def line(code, no):
            if not watched(code.co_filename):
                return sys.monitoring.DISABLE
            lines.append((os.path.basename(code.co_filename), no))

        fsmon.listen(audit)
        on_lines(line)
        out = body()
        sys.monitoring.set_events(TOOL, 0)
        fsmon.listen(None)
        return out, lines, ops, first[0]
    if kind in ('kill', 'interrupt'):
        n = [0]

        def line(code, no):
            if not watched(code.co_filename):
                return sys.monitoring.DISABLE
            if n[0] == fault[1]:
                if kind == 'kill':
                    os._exit(9)
                n[0] += 1
                raise KeyboardInterrupt
            n[0] += 1

        on_lines(line)
        try:
            return body()
        except KeyboardInterrupt:
            return 'interrupted'
    if kind == 'refuse':
        n = [0]

        def audit(event, args):
            if changes(event, args) or reads(event, args):
                n[0] += 1
                if n[0] - 1 == fault[1]:
                    raise OSError(fault[2], os.strerror(fault[2]))

        fsmon.listen(audit)
        out = body()
        fsmon.listen(None)
        return out
    if kind == 'full':
        resource.setrlimit(resource.RLIMIT_FSIZE,
                           (fault[1], resource.RLIM_INFINITY))
        out = body()
        return out
    raise ValueError(kind)


def faults(case, lines, ops, first, sizes):
    rr = random.Random(case['seed'])
    n = case['points']
    start = max(0, first - 30)
    tail = list(range(start, len(lines)))
    # The first and the last time of every line, and then some.
    once, last = {}, {}
    for i in tail:
        once.setdefault(lines[i], i)
        last[lines[i]] = i
    pts = sorted(set(once.values()) | set(last.values()))
    kills = rr.sample(pts, min(n, len(pts)))
    kills += rr.sample(tail, min(n // 3, len(tail)))
    out = [('kill', i) for i in kills]
    out += [('interrupt', i) for i in rr.sample(pts, min(n // 3, len(pts)))]
    opn = list(range(len(ops)))
    rr.shuffle(opn)
    for i in opn[:n // 2]:
        out.append(('refuse', i, rr.choice(
            [errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS])))
    top = max(sizes)
    for k in {0, 1, top // 2, max(0, min(sizes) - 1), max(0, top - 1),
              rr.randint(0, max(1, top))}:
        out.append(('full', k))
    return out


def check(ctx, case):
    import md_toc.__main__  # noqa: F401
    root, paths, names, texts = layout(ctx, case)
    fn, tocs = action(ctx, case, names, texts)
    if 'fault' in case:
        plan = [tuple(case['fault'])]
        lines = None
    else:
        rec = child(ctx, case, ('record', ), fn)
        if rec is None or rec[0] != 'ok':
            ctx.require(rec is not None, case, 'the process died',
                        files=[t[:300] for t in texts])
            return
        _, lines, ops, first = rec
        if first is None:
            return
        sizes = [os.path.getsize(p) for p in paths]
        plan = faults(case, lines, ops, first, sizes)
    want = [M.write_in_place(t, c, MARKER, case['newline'])
            for t, c in zip(texts, tocs)]
    for fault in plan:
        layout(ctx, case)
        got = child(ctx, case, fault, fn)
        where = None
        if fault[0] in ('kill', 'interrupt') and lines:
            where = lines[fault[1]]
            ctx.seen('line', where)
            if where not in ctx.__dict__.setdefault('killed', set()):
                ctx.killed.add(where)
                ctx.events['distinct lines killed at'] += 1
        info = dict(fault=list(fault), where=where, outcome=got,
                    how=case['how'])
        done = 0
        for p, t, w in zip(paths, texts, want):
            done += examine(ctx, case, p, t, w, info)
        if got == 'ok':
            ctx.require(done == len(paths), case, 'a failure was passed over '
                        'in silence', **info)
            ctx.events['files finished despite a fault'] += 1
        elif got == 'failed':
            ctx.events['failed runs reported'] += 1
        elif got is None:
            ctx.events['killed runs'] += 1
            ctx.require(fault[0] == 'kill', case, 'the process died', **info)
        if got == 'interrupted':
            ctx.events['interrupted runs'] += 1
        if fault[0] == 'refuse':
            ctx.events['runs with a refused operation'] += 1
        if fault[0] == 'full':
            ctx.events['runs with a full disk'] += 1
        ctx.seen(fault[0], where or fault[1:], [c['kind'] for c in
                                                case['files']])
    ctx.sample(dict(kinds=[c['kind'] for c in case['files']],
                    how=case['how'], faults=[list(f) for f in plan[:5]]))


def examine(ctx, case, path, text, want, info):
    """True if the file is as a run without faults leaves it."""
    info = dict(info, before=text[:700])
    ctx.require(os.path.isfile(path), case, 'the file is gone', **info)
    raw = ctx.read(path)
    try:
        now = raw.decode()
    except UnicodeDecodeError:
        ctx.violate(case, 'the file is damaged', after=raw[:500], **info)
    lines = M.split_lines(I.normal(text))
    _, a, b = M.find_region(lines, MARKER)
    ctx.events['files intact after a fault'] += 1
    if want is None:
        ctx.require(now == text, case, 'a file without region changed',
                    after=now[:700], **info)
        return True
    pre, post = lines[:a], lines[b:]
    got = M.split_lines(I.normal(now))
    ctx.require(len(got) >= len(pre) + len(post) and got[:len(pre)] == pre
                and (not post or got[-len(post):] == post), case,
                'text was lost', after=now[:700], **info)
    # What is between is a table, or nothing.
    mid = got[len(pre):len(got) - len(post)]
    ok = {'', MARKER}
    old = set(lines[a:b])
    new = set(M.split_lines(I.normal(want)))
    odd = [x for x in mid if x.strip() not in ok and x not in old and
           x not in new]
    ctx.require(not odd, case, 'something else was written', odd=odd[:4],
                after=now[:700], **info)
    return raw == want.encode()
