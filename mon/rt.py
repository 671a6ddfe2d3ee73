"""Runtime of the monitors: loads the code under test from the current tree of
/repo, observes calls at its public boundary, records what was observed."""
from __future__ import annotations

import collections
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 20.0  # seconds of CPU time for one call; typical calls take ms


class CpuTimeout(BaseException):
    """A call used more than its CPU budget."""


def _on_alarm(signum, frame):
    raise CpuTimeout()


def load():
    """Import md_toc from REPO, and nowhere else."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import md_toc
    import md_toc.api
    import md_toc.cli
    import md_toc.exceptions
    root = os.path.realpath(os.path.join(REPO, 'md_toc'))
    got = os.path.dirname(os.path.realpath(md_toc.api.__file__))
    if got != root:
        raise SystemExit(f'md_toc loaded from {got}, not from {root}')
    signal.signal(signal.SIGPROF, _on_alarm)
    return md_toc


class Result:
    """Outcome of one observed call."""
    __slots__ = ('kind', 'value', 'exc')

    def __init__(self, kind, value, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == 'ok'

    def brief(self):
        return [self.kind, self.value if isinstance(
            self.value, (str, bool, int, list, type(None))) else repr(
                self.value)]

    def __eq__(self, o):
        return (self.kind, self.value) == (o.kind, o.value)

    def __repr__(self):
        return f'{self.kind}:{self.value!r}'


# What the watchdog of this process saw.
WATCH = dict(hangs=0, slowest=0.0)


def call(fn, *a, limit=CPU_LIMIT, **kw) -> Result:
    """Run the real code once; a hang becomes an observation, not a hang."""
    t0 = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            v = fn(*a, **kw)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            t0 = time.process_time() - t0
            if t0 > WATCH['slowest']:
                WATCH['slowest'] = t0
        return Result('ok', v)
    except CpuTimeout:
        WATCH['hangs'] += 1
        return Result('timeout', None)
    except SystemExit as e:
        return Result('exit', e.code)
    except Exception as e:  # noqa: BLE001
        return Result('raise', type(e).__name__, f'{type(e).__module__}: {e}')


def scratch_base():
    for d in (os.environ.get('VERIF_SCRATCH', ''), '/dev/shm', '/tmp'):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


class Violation(Exception):
    pass


def entry_point():
    import md_toc.__main__ as entry
    return entry.main()


# The quick tier runs this many times the base number of random cases.
QUICK_SCALE = dict.fromkeys(
    ('C12', 'C15', 'C17', 'C18', 'C19', 'C21', 'C22', 'C23'), 1)


class Ctx:
    """State of one shard of one check."""

    def __init__(self, prop, tier, seed, shard=0, nshards=1, budget=1e9):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.rng = random.Random(f'{prop}/{seed}/{shard}')
        self.shared_rng = random.Random(f'{prop}/{seed}')
        self.evaluations = 0
        self.observations = 0
        self.events = collections.Counter()
        self.states: set[bytes] = set()
        self.samples: list = []
        self.violations: list = []
        self.timeouts = 0
        self.slow = False
        self.t0 = time.monotonic()
        self.budget = budget
        self.tmp = tempfile.mkdtemp(prefix='mdtocv.', dir=scratch_base())
        self.doc = os.path.join(self.tmp, 'doc.md')
        self.md = load()
        self.api = self.md.api
        from . import gen
        self.dict = gen.Dictionary(REPO)
        self.gen = gen.Gen(self.rng, self.dict)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick: int, thorough: int | None = None) -> int:
        """Number of cases of this shard."""
        if self.thorough:
            total = thorough if thorough is not None else quick * 12
        else:
            total = quick * QUICK_SCALE.get(self.prop, 3)
        return max(1, total // self.nshards)

    def mine(self, it):
        """Deal the items of a deterministic enumeration to the shards."""
        for i, x in enumerate(it):
            if i % self.nshards == self.shard:
                yield x

    def out_of_time(self):
        return time.monotonic() - self.t0 > self.budget

    # -- observation ------------------------------------------------------
    def seen(self, *sig):
        """Record the signature of a non trivial observation."""
        self.observations += 1
        self.states.add(
            hashlib.blake2b(repr(sig).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 4 and self.shard < 2:
            self.samples.append(obj)

    def write(self, text, path=None):
        path = path or self.doc
        data = text.encode('utf-8') if isinstance(text, str) else text
        with open(path, 'wb') as f:
            f.write(data)
        return path

    def read(self, path=None):
        with open(path or self.doc, 'rb') as f:
            return f.read()

    def path(self, name):
        return os.path.join(self.tmp, name)

    def toc(self, text, o, **kw) -> Result:
        """build_toc on a document given as text."""
        self.write(text)
        r = call(self.api.build_toc, self.doc, **{**o.kwargs(), **kw})
        self.events['build_toc'] += 1
        self.events['build_toc:' + r.kind] += 1
        if r.kind == 'timeout':
            self.timeouts += 1
        return r

    def cli(self, argv, stdin: bytes | None = None, errors='strict'):
        """Run the command line entry point in this process.

        Returns (exit code, stdout bytes, stderr text, Result).
        """
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        raw = io.BytesIO()
        out = io.TextIOWrapper(raw, encoding='utf-8', newline='',
                               write_through=True)
        err = io.StringIO()
        sys.argv = ['md_toc'] + list(argv)
        # Like the real one: no universal newlines.
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin or b''),
                                     encoding='utf-8', errors=errors,
                                     newline='\n')
        sys.stdout, sys.stderr = out, err
        try:
            r = call(entry_point)
            out.flush()
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        self.events['cli'] += 1
        code = r.value if r.kind == 'exit' else (0 if r.ok else 1)
        if code is None:
            code = 0
        return code, raw.getvalue(), err.getvalue(), r

    # -- verdicts ---------------------------------------------------------
    def violate(self, case, kind, **detail):
        raise Violation(json.dumps(dict(kind=kind, **detail), default=repr,
                                   ensure_ascii=True))

    def require(self, cond, case, kind, **detail):
        if not cond:
            self.violate(case, kind, **detail)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)
