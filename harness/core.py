"""A small driver around Hypothesis.

A property is a list of parts.  A part has a strategy that builds a plain JSON
value (a "case") and a body that runs the code under test on that case and
compares it with an oracle.  Everything random is inside the strategy or is
seeded from the case, so a case is a complete reproduction: `run.py replay`
runs the same body on it without Hypothesis.
"""
from . import env  # noqa: F401  (must be first)

import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

N_PROC = int(os.environ.get('VERIF_JOBS', '8'))
CASE_CPU_LIMIT = 60.0       # CPU seconds for one case; cases take < 1 s
SHRINK_SECONDS = 20.0
# quick: after the cases every run makes, up to EXTRA further rounds of as many,
# as long as they can be started within EXTRA_SECONDS
EXTRA = int(os.environ.get('VERIF_EXTRA', '3'))
EXTRA_SECONDS = float(os.environ.get('VERIF_EXTRA_SECONDS', '30'))
SHRINK_RUNS = 3000


class Violation(AssertionError):
    """The property does not hold for the case being run."""


class _Hang(BaseException):
    pass


class _StopShrink(BaseException):
    pass


def req(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(actual, expected, what):
    if not (actual == expected):
        raise Violation(f'{what}: got {actual!r}, expected {expected!r}')


def close(actual, expected, what, rel=1e-9, abs_=1e-12):
    ok = False
    try:
        ok = (actual == expected or
              abs(actual - expected) <= abs_ + rel * abs(expected))
    except TypeError:
        pass
    if not ok:
        raise Violation(f'{what}: got {actual!r}, expected {expected!r}')


class Ctx:
    """Given to a body: it reports what the case was like."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


class Part:
    def __init__(self, name, strategy, body, quick, thorough=None, shards=2,
                 limit=CASE_CPU_LIMIT):
        self.name = name
        self.strategy = strategy        # () -> hypothesis strategy
        self.body = body                # (case, ctx) -> None
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.limit = limit

    def count(self, tier):
        return self.quick if tier == 'quick' else self.thorough


class Property:
    def __init__(self, pid, rule, parts, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.parts = parts
        self.assumptions = list(assumptions)


def load(pid):
    return importlib.import_module(f'props.{pid.lower()}').PROPERTY


# ---------------------------------------------------------------------------
# Running one case
# ---------------------------------------------------------------------------
def _alarm(signum, frame):
    raise _Hang()


def _from_code_under_test(exc):
    root = os.path.join(os.path.realpath(env.REPO), 'pysim') + os.sep
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        if os.path.realpath(frame.f_code.co_filename).startswith(root):
            return True
    return False


_VALUE_ERRORS = (KeyError, IndexError, ValueError, ZeroDivisionError,
                 OverflowError, TypeError, RuntimeError, StopIteration)


class HarnessError(Exception):
    pass


def run_case(part, case):
    """Run a body.  Returns its Ctx; raises Violation or HarnessError."""
    import hypothesis.errors as he
    import numpy as np
    ctx = Ctx()
    random.seed(0)
    np.random.seed(0)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, part.limit)
    try:
        part.body(case, ctx)
    except (Violation, he.HypothesisException):
        raise
    except _Hang:
        v = Violation(f'still running after {part.limit:.0f} s of CPU')
        v.hang = True
        raise v from None
    except (Exception, SystemExit) as e:
        text = ''.join(traceback.format_exception(e))
        none_attr = isinstance(e, AttributeError) and 'NoneType' in str(e)
        api = (isinstance(e, TypeError) and not _from_code_under_test(e)
               and 'argument' in str(e))
        if _from_code_under_test(e) or none_attr or isinstance(
                e, SystemExit) or type(e).__module__.startswith('click') or (
                isinstance(e, _VALUE_ERRORS) and not api):
            v = Violation(f'unexpected {type(e).__name__}: {e}')
            v.trace = text
            raise v from e
        raise HarnessError(text) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx


# ---------------------------------------------------------------------------
# One shard of one part: a forked process
# ---------------------------------------------------------------------------
def derive_seed(seed, *what):
    text = ':'.join([str(seed)] + [str(w) for w in what])
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], 'big')

# for mutation sweeps: stop at the first failing case, do not shrink it
FIRST = bool(os.environ.get('VERIF_FIRST'))


def run_shard(prop, part, shard, count, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = {'evaluations': 0, 'labels': Counter(), 'keys': set(), 'samples': [],
          'fail': None, 'error': None}
    shrink = {'since': None, 'runs': 0}

    def one(case):
        if shrink['since'] is not None:
            shrink['runs'] += 1
            if (time.monotonic() - shrink['since'] > SHRINK_SECONDS or
                    shrink['runs'] > SHRINK_RUNS):
                raise _StopShrink()
        else:
            st['evaluations'] += 1
        try:
            ctx = run_case(part, case)
        except Violation as v:
            text = json.dumps(case, ensure_ascii=False)
            if st['fail'] is None or len(text) <= len(st['fail']['text']):
                st['fail'] = {
                    'text': text, 'case': case, 'message': str(v),
                    'trace': getattr(v, 'trace', None) or
                    ''.join(traceback.format_exception(v)[-6:])}
            if shrink['since'] is None:
                shrink['since'] = time.monotonic()
            if getattr(v, 'hang', False):
                raise _StopShrink() from None
            raise
        if shrink['since'] is None:
            st['labels'].update(ctx.labels)
            if ctx.nontrivial:
                text = json.dumps(case, ensure_ascii=False, sort_keys=True)
                st['keys'].add(hashlib.md5(text.encode()).hexdigest()[:16])
                if len(st['samples']) < 40 and len(text) < 1500:
                    st['samples'].append(case)

    test = given(part.strategy())(one)
    test = hypothesis.seed(derive_seed(seed, prop.pid, part.name, shard))(test)
    test = settings(
        max_examples=count, database=None, deadline=None,
        derandomize=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=((Phase.generate,) if FIRST else
                (Phase.generate, Phase.shrink)),
        print_blob=False,
    )(test)
    try:
        test()
    except _StopShrink:
        pass
    except (Exception, SystemExit) as e:
        if st['fail'] is None:
            st['error'] = ''.join(traceback.format_exception(e))[-6000:]
    except BaseException as e:       # ExceptionGroup of hypothesis and others
        if st['fail'] is None:
            st['error'] = ''.join(traceback.format_exception(e))[-6000:]
    rng = random.Random(seed)
    picked = sorted(st['samples'], key=lambda c: len(json.dumps(c)))
    rng.shuffle(st['samples'])
    return {
        'evaluations': st['evaluations'], 'labels': dict(st['labels']),
        'keys': sorted(st['keys']), 'fail': st['fail'], 'error': st['error'],
        'samples': picked[:1] + st['samples'][:1],
    }


def _worker(prop, part, shard, count, seed, out):
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    err = os.open(out + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    scratch = out + '.d'
    os.makedirs(scratch)
    os.chdir(scratch)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.lastResort = None
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    except (ValueError, OSError):
        pass
    t = time.monotonic()
    try:
        res = run_shard(prop, part, shard, count, seed)
    except BaseException as e:
        res = {'evaluations': 0, 'labels': {}, 'keys': [], 'fail': None,
               'samples': [],
               'error': ''.join(traceback.format_exception(e))[-6000:]}
    res['wall'] = time.monotonic() - t
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def run_property(pid, tier, seed, only_part=None, scale=1.0, quiet=False):
    """Returns the exit code; writes evidence/<pid>.json."""
    t0 = time.monotonic()
    deadline = t0 + (800 if tier == 'quick' else 6 * 3600)
    tmp = tempfile.mkdtemp(prefix='verif-')
    os.environ['MPLCONFIGDIR'] = os.path.join(tmp, 'mpl')
    prop = load(pid)                 # imports the code under test once
    tasks, more = [], []
    for part in prop.parts:
        if only_part and part.name != only_part:
            continue
        total = max(1, int(part.count(tier) * scale))
        shards = min(part.shards if tier == 'quick' else max(8, part.shards),
                     total)
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((part, s, n))
            if tier == 'quick':
                more += [(r, part, s + r * shards, n)
                         for r in range(1, EXTRA + 1)]
    base = len(tasks)
    tasks += [t[1:] for t in sorted(more, key=lambda t: t[0])]
    # long parts first does not matter; keep a stable order
    running, results, queue = {}, [], list(enumerate(tasks))
    failed = False
    timed_out = False
    try:
        while queue or running:
            if queue and queue[0][0] >= base and \
                    time.monotonic() - t0 > EXTRA_SECONDS:
                queue = []
            while queue and len(running) < N_PROC and not failed:
                i, (part, s, n) = queue.pop(0)
                out = os.path.join(tmp, f'r{i}')
                pid_ = os.fork()
                if pid_ == 0:
                    code = 0
                    try:
                        _worker(prop, part, s, n, seed, out)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        os._exit(code)
                running[pid_] = (i, part, s, out)
            if failed:
                queue = []
                if not running:
                    break
            wpid, status = os.waitpid(-1, os.WNOHANG)
            if wpid == 0:
                if time.monotonic() > deadline:
                    timed_out = any(r[0] < base for r in running.values()) \
                        or any(i < base for i, _ in queue)
                    break
                time.sleep(0.01)
                continue
            if wpid not in running:
                continue
            i, part, s, out = running.pop(wpid)
            _kill_group(wpid)
            if os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
            else:
                err = ''
                if os.path.exists(out + '.err'):
                    with open(out + '.err', errors='replace') as f:
                        err = f.read()[-4000:]
                res = {'evaluations': 0, 'labels': {}, 'keys': [],
                       'fail': None, 'samples': [], 'wall': 0,
                       'error': f'worker ended with status {status}\n{err}'}
            results.append((i, part, s, res))
            if res['fail']:
                failed = True
                deadline = min(deadline,
                               time.monotonic() + (0 if FIRST else 40))
    finally:
        for p in running:
            _kill_group(p)
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    return _report(prop, tier, seed, results, t0,
                   timed_out and not failed, quiet)


def _kill_group(pgid):
    try:
        os.killpg(pgid, signal.SIGKILL)
    except OSError:
        pass


def known_findings():
    path = os.path.join(env.VERIF, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def _report(prop, tier, seed, results, t0, timed_out, quiet):
    results.sort(key=lambda r: r[0])
    per_part, labels, keys, samples = {}, {}, set(), []
    fails, errors = [], []
    total = 0
    for _, part, s, r in results:
        d = per_part.setdefault(part.name, {
            'evaluations': 0, 'distinct_nontrivial': 0, 'seconds': 0.0})
        d['evaluations'] += r['evaluations']
        d['seconds'] = round(d['seconds'] + r.get('wall', 0), 2)
        total += r['evaluations']
        new = {f'{part.name}:{k}' for k in r['keys']} - keys
        d['distinct_nontrivial'] += len(new)
        keys |= new
        lab = labels.setdefault(part.name, Counter())
        lab.update(r['labels'])
        if s == 0:
            samples += [{'part': part.name, 'case': c} for c in r['samples']]
        if r['fail']:
            fails.append((part, r['fail']))
        if r['error']:
            errors.append((part, r['error']))
    evidence = {
        'property': prop.pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(keys),
            'rule': prop.rule,
            'samples': samples or ['none: the run ended early'],
            'parts': per_part,
            'classes': {p: dict(sorted(c.items()))
                        for p, c in labels.items() if c},
        },
        'assumptions': prop.assumptions,
        'violations': len(fails),
        'wall_s': round(time.monotonic() - t0, 2),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(env.VERIF, 'evidence', f'{prop.pid}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)
    os.replace(path + '.tmp', path)

    for entry in known_findings().get('findings', []):
        if entry['property'] == prop.pid:
            print(f'KNOWN-FINDING: property={prop.pid} {entry["what"]}')

    if fails:
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        part, fail = min(fails, key=lambda f: len(f[1]['text']))
        digest = hashlib.md5(fail['text'].encode()).hexdigest()[:8]
        replay = os.path.join(env.VERIF, 'replays',
                              f'{prop.pid}-{part.name}-{digest}.json'.replace(
                                  ' ', '-'))
        with open(replay, 'w') as f:
            json.dump({'property': prop.pid, 'part': part.name,
                       'message': fail['message'], 'case': fail['case'],
                       'trace': fail['trace']}, f, ensure_ascii=False,
                      indent=1)
        print(f'{prop.pid}/{part.name}: {fail["message"]}')
        print(f'case: {fail["text"][:2000]}')
        print(f'VIOLATION property={prop.pid} replay={replay}')
        return 1
    for part, err in errors[:1]:
        print(f'HARNESS ERROR {prop.pid}/{part.name}:\n{err}',
              file=sys.stderr)
    if errors:
        return 2
    if timed_out:
        print(f'{prop.pid}: out of time, inconclusive', file=sys.stderr)
        return 2
    if not quiet:
        print(f'{prop.pid}: held on {total} cases '
              f'({len(keys)} distinct non-trivial) '
              f'in {time.monotonic() - t0:.1f} s')
    return 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = load(data['property'])
    part = next(p for p in prop.parts if p.name == data['part'])
    with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
        os.chdir(tmp)
        os.environ['MPLCONFIGDIR'] = tmp
        try:
            run_case(part, data['case'])
        except Violation as v:
            print(f'{prop.pid}/{part.name}: {v}')
            print(getattr(v, 'trace', '') or '')
            print(f'VIOLATION property={prop.pid} replay={path}')
            return 1
        finally:
            os.chdir('/')
    print(f'{prop.pid}/{part.name}: the replayed case holds')
    return 0


def one_at_a_time(strategy, body, valid=None):
    """Run a body on cases that differ in exactly one key, alternating.

    A value kept for a case must not be used for another one, whatever the
    parameter that makes them different."""
    from hypothesis import strategies as st

    def one_body(case, ctx):
        a, b = case['a'], case['b']
        for k in sorted(a):
            c = dict(a, **{k: b[k]})
            if c != a and (valid is None or valid(c)):
                body(c, ctx)
                body(a, ctx)
    return lambda: st.fixed_dictionaries(
        {'a': strategy(), 'b': strategy()}), one_body
