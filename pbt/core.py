"""Running a property: shards, shrinking, replay, evidence."""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import pathlib
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import model, spec, sut
from .sut import Skip, Violation

ROOT = pathlib.Path(__file__).resolve().parent.parent
SHARDS = 8
CPU_GUARD = 30  # seconds of CPU for one case before the line counter is consulted
MAX_LINES = 20_000_000  # lines of library code one case may execute


def load(prop: str):
    return importlib.import_module(f'pbt.props.{prop.lower()}')


class _Guard(BaseException):
    pass


def _on_timer(signum, frame):
    raise _Guard()


def _is_sut_error(e: BaseException) -> bool:
    """Was the exception raised by or through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(str(sut.REPO / sut.PKG)):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def _checked(mod, case):
    try:
        return mod.check(case)
    except (Violation, Skip, _Guard):
        raise
    except model.TooBig as e:
        raise Skip(str(e)) from e
    except Exception as e:
        if _is_sut_error(e):
            raise Violation(f'unexpected {type(e).__name__}: {e}') from e
        if isinstance(e, MemoryError):
            raise
        # The check is written for every result which is right.
        raise Violation(f'the result cannot be compared: {type(e).__name__}: {e}') from e


def _counted(mod, case):
    """Re-run a slow case, counting the lines of library code it executes."""
    count = 0
    root = str(sut.REPO / sut.PKG)

    def local(frame, event, arg):
        nonlocal count
        count += 1
        if count > MAX_LINES:
            sys.settrace(None)
            raise Violation(f'does not terminate: more than {MAX_LINES} lines of library code executed')
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None

    sys.settrace(tracer)
    try:
        return _checked(mod, case)
    finally:
        sys.settrace(None)


def run_case(mod, case):
    """Labels of the case; raises Violation or Skip."""
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_GUARD)
    try:
        try:
            return _checked(mod, case) or ()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except _Guard:
        pass
    if os.environ.get('PBT_SLOW'):
        pathlib.Path(os.environ['PBT_SLOW']).write_text(repr(case))
    # Only the number of executed lines decides, never the time they take.
    signal.setitimer(signal.ITIMER_VIRTUAL, 4 * CPU_GUARD)
    try:
        return _counted(mod, case) or ()
    except _Guard:
        raise Skip('too slow to tell') from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def parse_case(mod, text: str):
    ns = {k: v for k, v in vars(mod).items() if isinstance(v, type)}
    ns |= {**vars(spec), 'inf': float('inf'), 'nan': float('nan')}
    return eval(text, ns)


# --- one shard -----------------------------------------------------------------


def run_shard(prop: str, tier: str, seed: int, shard: int, out: str, scale: float = 1.0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 60
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    mod = load(prop)
    examples = max(1, int(mod.EXAMPLES[tier] * scale / SHARDS))
    stats = dict(evaluations=0, nontrivial=0, skipped=0)
    labels = collections.Counter()
    distinct = set()
    samples = []
    failure = None

    def one(case):
        nonlocal failure
        try:
            got = set(run_case(mod, case))
        except Skip:
            stats['skipped'] += 1
            return
        except Violation as v:
            failure = (repr(case), str(v), ''.join(traceback.format_exception(v)))
            raise
        stats['evaluations'] += 1
        labels.update(got)
        if 'nontrivial' in got:
            digest = hashlib.sha1(repr(case).encode()).digest()[:8]
            if digest not in distinct:
                distinct.add(digest)
                stats['nontrivial'] += 1
                if len(samples) < 3 and stats['nontrivial'] % 50 == 1:
                    samples.append(repr(case))

    t = time.time()
    error = None
    fixed = list(getattr(mod, 'FIXED', ()))
    try:
        for i, case in enumerate(fixed):
            if i % SHARDS == shard:
                one(case)

        @hypothesis.seed(seed * 1000 + shard)
        @settings(max_examples=examples, database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink][:1 if os.environ.get('PBT_NO_SHRINK') else 2], report_multiple_bugs=False,
                  print_blob=False, suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                           HealthCheck.large_base_example])
        @given(mod.strategy(tier))
        def test(case):
            one(case)

        test()
    except Violation:
        pass
    except BaseException as e:  # noqa: B036
        if failure is None or not isinstance(e, hypothesis.errors.Flaky):
            error = ''.join(traceback.format_exception(e))
    pathlib.Path(out).write_text(json.dumps(dict(
        stats=stats, labels=labels, samples=samples, failure=failure, error=error,
        distinct=[d.hex() for d in distinct], cpu=time.process_time(), wall=time.time() - t)))


# --- a whole check ----------------------------------------------------------------


def env_for_children():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=str(ROOT))
    return env


def run_check(prop: str, tier: str, seed: int, scale: float = 1.0) -> int:
    t = time.time()
    mod = load(prop)
    work = ROOT / 'evidence' / f'.work-{prop}-{os.getpid()}'
    work.mkdir(parents=True, exist_ok=True)
    procs = []
    try:
        for shard in range(SHARDS):
            out = work / f'{shard}.json'
            cmd = [sys.executable, '-m', 'pbt.run', prop, '--shard', str(shard), '--tier', tier,
                   '--seed', str(seed), '--out', str(out), '--scale', str(scale)]
            procs.append((out, subprocess.Popen(cmd, env=env_for_children(), cwd=ROOT,
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        results = []
        for out, p in procs:
            text = p.communicate()[0].decode(errors='replace')
            if out.exists():
                results.append(json.loads(out.read_text()))
            else:
                results.append(dict(error=f'shard ended with {p.returncode}\n{text}', failure=None))
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        for f in work.glob('*'):
            f.unlink()
        work.rmdir()

    failures = [r['failure'] for r in results if r.get('failure')]
    errors = [r['error'] for r in results if r.get('error')]
    good = [r for r in results if 'stats' in r]
    labels = collections.Counter()
    for r in good:
        labels.update(r['labels'])
    distinct = {d for r in good for d in r['distinct']}
    samples = [s for r in good for s in r['samples']]
    samples.sort(key=len)
    samples = samples[len(samples) // 3:][:6]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['stats']['evaluations'] for r in good),
            distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=[s if len(s) < 1500 else s[:1500] + '...' for s in samples],
            excluded=sum(r['stats']['skipped'] for r in good),
            fixed_cases=len(list(getattr(mod, 'FIXED', ()))),
            labels=dict(sorted(labels.items())),
            shards=SHARDS,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', ())),
        wall_s=round(time.time() - t, 2),
        violations=len(failures),
    )
    path = ROOT / 'evidence' / f'{prop}.json'
    path.write_text(json.dumps(evidence, indent=1) + '\n')
    c = evidence['coverage']
    print(f'{prop}: {c["evaluations"]} cases, {c["distinct_nontrivial"]} distinct non-trivial, '
          f'{c["excluded"]} excluded, {evidence["wall_s"]} s')
    if failures:
        text, message, tb = min(failures, key=lambda f: len(f[0]))
        replay = ROOT / 'evidence' / f'replay-{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json'
        source = None
        try:
            source = mod.source(parse_case(mod, text))
        except Exception:
            pass
        replay.write_text(json.dumps(dict(property=prop, message=message, case=text, source=source,
                                          traceback=tb, seed=seed, tier=tier), indent=1) + '\n')
        again = subprocess.run([sys.executable, '-m', 'pbt.run', '--replay', str(replay)], cwd=ROOT,
                               env=env_for_children(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(message)
        print('case:', text if len(text) < 3000 else text[:3000] + '...')
        if source:
            print(source.split('\n\n\n')[-1] if len(source) > 6000 else '')
        if again.returncode != 1:
            print('note: the case alone does not fail in a fresh process; '
                  'it does in the sequence of cases of this seed')
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    if errors:
        print('HARNESS ERROR')
        print(errors[0])
        return 2
    return 0


def run_replay(path: str) -> int:
    data = json.loads(pathlib.Path(path).read_text())
    mod = load(data['property'])
    sys.setrecursionlimit(3000)
    case = parse_case(mod, data['case'])
    try:
        run_case(mod, case)
    except Violation as v:
        traceback.print_exception(v)
        print(f'VIOLATION property={data["property"]} replay={path}')
        return 1
    except Skip:
        pass
    print('the property holds for this case')
    return 0
