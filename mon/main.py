"""Entry point:  python -m mon.main CHECK [--tier quick|thorough] [--seed N].

Runs the shards of a check in separate processes against the current tree,
merges what their monitors observed, writes the evidence file, gives the
verdict."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import rt


def shard_main(a):
    # Runs in a fresh process.
    mod = importlib.import_module(f'mon.props.{a.check}')
    ctx = rt.Ctx(a.check, a.tier, a.seed, a.shard, a.nshards, a.budget)
    cov = None
    if a.shard == 0:
        cov = start_coverage()
    out = dict(error=None)
    try:
        findings = []
        for case in mod.cases(ctx):
            if ctx.out_of_time():
                ctx.events['stopped: wall clock budget'] += 1
                break
            v = judge(mod, ctx, case)
            if v is not None:
                v = confirm(mod, ctx, case, v)
            if v is not None:
                findings.append(v)
                if len(findings) >= 3 or ctx.slow:
                    break
        out['findings'] = findings
        out['known'] = getattr(ctx, 'known', [])
    except BaseException:  # noqa: BLE001
        out['error'] = traceback.format_exc()
    out.update(evaluations=max(ctx.evaluations, ctx.observations),
               events=dict(ctx.events),
               states=ctx.states, samples=ctx.samples, timeouts=ctx.timeouts,
               slowest=rt.WATCH['slowest'],
               coverage=cov() if cov else None,
               new_constants=[ctx.dict.new_strs[:20], ctx.dict.new_ints[:20]])
    ctx.close()
    with open(a.out + '.new', 'wb') as f:
        pickle.dump(out, f)
    os.replace(a.out + '.new', a.out)


def judge(mod, ctx, case):
    """None, or a description of the violation."""
    ctx.evaluations += 1
    hangs = rt.WATCH['hangs']
    try:
        mod.check(ctx, case)
    except rt.Violation as e:
        return dict(case=case, detail=json.loads(str(e)))
    if rt.WATCH['hangs'] > hangs:
        # No property holds for a call which does not come back.
        return dict(case=case, detail=dict(
            kind='a call did not end', limit=f'{rt.CPU_LIMIT} s of CPU time'))
    return None


def confirm(mod, ctx, case, v):
    """Only what happens again counts; then make the case smaller."""
    t0 = time.monotonic()
    w = judge(mod, ctx, case)
    if w is None:
        ctx.events['not reproduced'] += 1
        return None
    if time.monotonic() - t0 > 5:
        # A hang: one is enough, and it is not made smaller.
        ctx.slow = True
        return w
    t0 = time.monotonic()
    key = next((k for k in ('doc', 'lines') if isinstance(
        case.get(k), (str, list))), None) if isinstance(case, dict) else None
    if key and getattr(mod, 'SHRINK', True):
        cur = case[key]
        parts = cur.splitlines(True) if isinstance(cur, str) else list(cur)
        size = max(1, len(parts) // 2)
        while size >= 1 and time.monotonic() - t0 < 8:
            i = 0
            changed = False
            while i < len(parts) and time.monotonic() - t0 < 8:
                cand = parts[:i] + parts[i + size:]
                c2 = dict(case)
                c2[key] = ''.join(cand) if isinstance(cur, str) else cand
                try:
                    w2 = judge(mod, ctx, c2)
                except Exception:  # noqa: BLE001
                    w2 = None
                if w2 is not None:
                    parts, w, changed = cand, w2, True
                else:
                    i += size
            if not changed or size == 1:
                size //= 2
    return w


def start_coverage():
    """Lines of md_toc executed while the monitors watched (cheap)."""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return lambda: None
    tool = 3
    try:
        mon.use_tool_id(tool, 'mdtoc-monitor')
    except ValueError:
        return lambda: None
    root = os.path.join(rt.REPO, 'md_toc') + os.sep
    hit = set()

    def on_line(code, line):
        if code.co_filename.startswith(root):
            hit.add((code.co_filename[len(root):], line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
        per = {}
        for f, _ in hit:
            per[f] = per.get(f, 0) + 1
        return per

    return stop


def has_findings(out):
    try:
        with open(out, 'rb') as f:
            return bool(pickle.load(f).get('findings'))
    except (OSError, EOFError, pickle.UnpicklingError):
        return False


def child_env(tmp):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('PYTHON') and not k.startswith('MD_TOC')}
    env.update(PYTHONPATH=rt.VERIF, PYTHONHASHSEED='0', PYTHONUTF8='1',
               PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8',
               PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), TZ='UTC',
               VERIF_SCRATCH=tmp)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shard', type=int, default=-1)
    ap.add_argument('--nshards', type=int, default=0)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--out', default='')
    ap.add_argument('--replay', default='')
    a = ap.parse_args()
    if a.shard >= 0:
        return shard_main(a)
    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            rep = json.load(f)
        mod = importlib.import_module(f'mon.props.{a.check}')
        ctx = rt.Ctx(a.check, a.tier, a.seed)
        v = judge(mod, ctx, rep['case'])
        ctx.close()
        print(json.dumps(v, indent=1, default=repr))
        return 1 if v else 0

    mod = importlib.import_module(f'mon.props.{a.check}')
    t0 = time.monotonic()
    n = a.nshards or getattr(mod, 'SHARDS', 8)
    budget = a.budget or (300 if a.tier == 'quick' else 780)
    tmp = tempfile.mkdtemp(prefix='mdtocv.', dir=rt.scratch_base())
    results, errors = [], []
    try:
        env = child_env(tmp)
        procs = []
        for s in range(n):
            out = os.path.join(tmp, f'{s}.pkl')
            log = open(os.path.join(tmp, f'{s}.log'), 'wb')
            cmd = [sys.executable, '-m', 'mon.main', a.check, '--tier', a.tier,
                   '--seed', str(a.seed), '--shard', str(s), '--nshards',
                   str(n), '--budget', str(budget), '--out', out]
            procs.append((s, out, log, subprocess.Popen(
                cmd, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=log,
                stderr=log)))
        deadline = t0 + budget + 60
        # Once a violation is known the others need not finish.
        found = None
        waiting = list(procs)
        stopped = set()
        while waiting:
            time.sleep(.05)
            for x in list(waiting):
                if x[3].poll() is None:
                    continue
                waiting.remove(x)
                if found is None and has_findings(x[1]):
                    found = time.monotonic()
            now = time.monotonic()
            if now > deadline or (found and now > found + 15):
                for s, _, _, p in waiting:
                    p.kill()
                    p.wait()
                    stopped.add(s)
                    if not found:
                        errors.append(f'shard {s}: no answer in time')
                waiting = []
        for s, out, log, p in procs:
            log.close()
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    r = pickle.load(f)
                if r['error']:
                    errors.append(f'shard {s}: {r["error"]}')
                results.append(r)
            elif s not in stopped:
                with open(log.name, 'rb') as f:
                    tail = f.read()[-2000:].decode('utf-8', 'replace')
                errors.append(f'shard {s}: died ({p.returncode}): {tail}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(a, mod, results, errors, time.monotonic() - t0)


def report(a, mod, results, errors, wall):
    events, states, samples, findings, known = {}, set(), [], [], []
    ev = timeouts = 0
    cov = None
    for r in results:
        ev += r['evaluations']
        timeouts += r['timeouts']
        states |= r['states']
        samples += r['samples']
        findings += r.get('findings', [])
        known += r.get('known', [])
        cov = cov or r['coverage']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
    evdir = os.path.join(rt.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    # Known findings are printed, not reported.
    for k in sorted(set(known)):
        print(f'KNOWN-FINDING: property={a.check} {k}')
    paths = []
    if findings:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, f in enumerate(findings[:5]):
            p = os.path.join(rdir, f'{a.check}-{a.tier}-{a.seed}-{i}.json')
            with open(p, 'w', encoding='utf-8') as fh:
                json.dump(dict(check=a.check, tier=a.tier, seed=a.seed, **f),
                          fh, indent=1, default=repr)
            paths.append(p)
    dead = [k for k in getattr(mod, 'MUST_SEE', []) if not events.get(k)]
    doc = dict(
        property=a.check, tier=a.tier, seed=a.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=ev, distinct_nontrivial=len(states), rule=mod.RULE,
            samples=samples[:6],
            observed_events={k: events[k] for k in sorted(events)},
            md_toc_lines_executed_in_shard_0=cov,
            shards=len(results), calls_over_cpu_budget=timeouts,
            slowest_call_s=round(max([r['slowest'] for r in results] + [0]),
                                 2),
            new_constants_used_as_dictionary=(
                results[0]['new_constants'] if results else None)),
        wall_s=round(wall, 2), assumptions=getattr(mod, 'ASSUMPTIONS', []),
        violations=len(findings),
        reported=[dict(replay=p, kind=f['detail'].get('kind'))
                  for p, f in zip(paths, findings)],
        known_findings=sorted(set(known)), errors=errors)
    with open(os.path.join(evdir, f'{a.check}.json'), 'w',
              encoding='utf-8') as f:
        json.dump(doc, f, indent=1, default=repr)
    print(f'{a.check} tier={a.tier} seed={a.seed} evaluations={ev} '
          f'distinct={len(states)} wall={wall:.1f}s')
    if findings:
        for f, p in zip(findings, paths):
            print('  ' + json.dumps(f['detail'], default=repr)[:1500])
            print(f'VIOLATION property={a.check} replay={p}')
        return 1
    if errors:
        print('\n'.join(errors)[-4000:])
        return 2
    if dead:
        print(f'INCONCLUSIVE: monitors never reached: {dead}')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
