import math
import random

from hypothesis import strategies as st

from harness.core import Part, Property, close, eq, req
from pysim.models.tag_time.cli import run_model
from pysim.models.tag_time.objects import Config
from pysim.sim import ExitReason, ModelLoggerConfig


def simulate(probs, times, n, chunks, scenario, **limits):
    return run_model(Config(
        probability=tuple(probs), processing_time=tuple(times),
        max_transmisions=n, chunks_number=chunks, scenario=scenario),
        ModelLoggerConfig(), **limits)


def scenario():
    return st.sampled_from([1, 2, 3])


# --- no losses -------------------------------------------------------------
def sure_strategy():
    t = st.one_of(st.integers(0, 80), st.integers(0, 8000)).map(
        lambda n: n / 8)
    return st.fixed_dictionaries({
        'scenario': scenario(), 'chunks': st.integers(1, 20),
        'times': st.lists(t, min_size=4, max_size=4),
        'n': st.one_of(st.integers(0, 5), st.integers(1, 60)),
        'cut': st.one_of(st.none(), st.none(), st.integers(0, 40000)),
        'endless': st.booleans(),
    })


def sure_body(case, ctx):
    chunks = case['chunks'] if case['scenario'] == 3 else 1
    times, n = case['times'], case['n']
    one = times[:3] + times[3:] * chunks
    if case['cut'] is None or sum(one) == 0:
        st_ = simulate([1] * 4, times, n, case['chunks'], case['scenario'])
        close(st_.sim_time, n * sum(one), f'time of {n} transmissions')
        eq(st_.exit_reason, ExitReason.STOPPED, 'exit reason')
        ctx.nt(n > 1 and sum(one) > 0)
        ctx.label('complete')
        return
    # cut by a time limit: the run ends at the first event after it
    limit = case['cut'] / 8
    total = None if case['endless'] else n
    while sum(one) * 300 < limit:
        limit /= 2
    t, marks = 0.0, [0.0]
    k = 0
    while (total is None or k < total) and marks[-1] <= limit:
        for dt in one:
            t += dt
            marks.append(t)
        k += 1
    want = next((m for m in marks if m > limit), marks[-1])
    st_ = simulate([1] * 4, times, total, case['chunks'], case['scenario'],
                   max_sim_time=limit)
    close(st_.sim_time, want, f'end of a run limited by {limit}')
    ctx.nt(len(marks) > 4)
    ctx.label('limited')


# --- visits ----------------------------------------------------------------
BASE = (1.0, 1e4, 1e8, 1e12)


def visits(probs, n, chunks, scen):
    """Number of stays in each of the states: with these durations every
    digit of the total time is a count."""
    total = simulate(probs, BASE, n, chunks, scen).sim_time
    left = int(total)
    req(left == total, 'the time is not a sum of durations: %r', total)
    out = []
    for _ in range(3):
        left, r = divmod(left, 10 ** 4)
        out.append(r)
    return out + [left]


def visits_strategy():
    p = st.one_of(st.sampled_from([1.0, .9, .75]),
                  st.integers(60, 100).map(lambda n: n / 100))
    low = st.integers(15, 100).map(lambda n: n / 100)
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 1, 2, 3]), 'chunks': st.integers(1, 6),
        'p1': st.lists(p, min_size=4, max_size=4),
        'p2': st.lists(low, min_size=4, max_size=4),
        'seed': st.integers(0, 2 ** 32),
        'n': st.one_of(st.integers(1, 10), *[st.integers(150, 200)] * 2),
        # in the first scenario one phase may often fail
        'weak': st.one_of(st.none(), *[st.tuples(
            st.integers(0, 3), st.integers(15, 60).map(lambda n: n / 100))] * 3),
        'times': st.lists(st.one_of(
            st.just(0.0), st.integers(0, 800).map(lambda n: n / 8)),
            min_size=4, max_size=4),
    })


def visits_body(case, ctx):
    random.seed(case['seed'])
    scen, n = case['scenario'], case['n']
    chunks = case['chunks'] if scen == 3 else 1
    probs = case['p1'] if scen == 1 else case['p2']
    if scen == 1 and case['weak']:
        probs = [max(p, .75) for p in probs]
        probs[case['weak'][0]] = case['weak'][1]
    v = visits(probs, n, case['chunks'], scen)
    # the draws decide about the stays, the durations only weigh them
    random.seed(case['seed'])
    total = simulate(probs, case['times'], n, case['chunks'], scen).sim_time
    close(total, sum(k * t for k, t in zip(v, case['times'])),
          f'time of {v} stays of {case["times"]}')
    if scen == 1:
        # each stay is a success with its probability; a success opens one
        # stay in the next state, a failure goes back to the first one
        wins = v[1:] + [n]
    else:
        wins = [n, n, n, n * chunks]
    for i in range(4):
        req(v[i] >= wins[i], 'state %d: %d stays, %d successes', i, v[i],
            wins[i])
        if probs[i] == 1:
            eq(v[i], wins[i], f'stays in state {i} without failures')
        # number of successes among v[i] trials
        p = probs[i]
        sd = math.sqrt(v[i] * p * (1 - p))
        close(wins[i], v[i] * p, f'successes in state {i} of {v[i]} with '
              f'probability {p}', rel=0, abs_=7 * sd + 7)
    ctx.nt(v != wins)
    ctx.label(f'scenario {scen}')


def pooled_strategy():
    return st.fixed_dictionaries({
        'scenario': scenario(), 'seed': st.integers(0, 2 ** 32)})


def pooled_body(case, ctx):
    """Many runs with drawn probabilities: a small systematic deviation."""
    rng = random.Random(case['seed'])
    random.seed(case['seed'] + 1)
    scen = case['scenario']
    over, var, stays = [0.0] * 4, [0.0] * 4, [0] * 4
    for _ in range(60):
        chunks = rng.randint(1, 4)
        p = [rng.choice([1.0, rng.uniform(.6 if scen == 1 else .2, 1)])
             for _ in range(4)]
        n = 200
        v = visits(p, n, chunks, scen)
        wins = v[1:] + [n] if scen == 1 else \
            [n, n, n, n * (chunks if scen == 3 else 1)]
        for i in range(4):
            over[i] += wins[i] - v[i] * p[i]
            var[i] += v[i] * p[i] * (1 - p[i])
            stays[i] += v[i]
    for i in range(4):
        req(abs(over[i]) <= 5.5 * math.sqrt(var[i]) + 60,
            'state %d: %+.1f successes more than expected in %d stays '
            '(standard deviation %.1f)', i, over[i], stays[i],
            math.sqrt(var[i]))
    ctx.nt(True)
    ctx.label(f'scenario {scen}')


def mean_strategy():
    p = st.integers(30, 95).map(lambda n: n / 100)
    return st.fixed_dictionaries({
        'scenario': scenario(), 'chunks': st.integers(1, 8),
        'probs': st.lists(p, min_size=4, max_size=4),
        'times': st.lists(st.integers(1, 20), min_size=4, max_size=4),
        'seed': st.integers(0, 2 ** 32)})


def mean_body(case, ctx):
    """Average time of a transmission against the exact expectation."""
    random.seed(case['seed'])
    scen, n = case['scenario'], 400
    p, t = case['probs'], case['times']
    if scen == 1:
        p = [max(x, .6) for x in p]
    got = simulate(p, t, n, case['chunks'], scen).sim_time / n
    mean, var = moments(scen, p, t, case['chunks'])
    close(got, mean, 'average time', rel=0,
          abs_=8 * math.sqrt(var / n) + 1e-9)
    ctx.nt(True)
    ctx.label(f'scenario {scen}')


def moments(scen, p, t, chunks):
    """Mean and variance of the time to absorption."""
    if scen != 1:
        k = (1, 1, 1, chunks if scen == 3 else 1)
        return (sum(n * x / q for n, x, q in zip(k, t, p)),
                sum(n * x * x * (1 - q) / q / q for n, x, q in zip(k, t, p)))
    # first and second moments by states, going back from the last one:
    # E_i = t_i + p_i E_{i+1} + (1 - p_i) E_0, linear in E_0
    def solve(const):
        a, b = 0.0, 0.0          # E_i = a + b E_0
        for c, q in reversed(list(zip(const, p))):
            a, b = c + q * a, q * b + (1 - q)
        e0 = a / (1 - b)
        es, a, b = [], 0.0, 0.0
        for c, q in reversed(list(zip(const, p))):
            a, b = c + q * a, q * b + (1 - q)
            es.append(a + b * e0)
        return es[::-1]
    m1 = solve(t)
    const = []
    for i in range(4):
        nxt = m1[i + 1] if i < 3 else 0.0
        const.append(t[i] ** 2 +
                     2 * t[i] * (p[i] * nxt + (1 - p[i]) * m1[0]))
    m2 = solve(const)
    return m1[0], m2[0] - m1[0] ** 2


PROPERTY = Property(
    'C10',
    'Runs of the tag reading model in the three scenarios: without losses '
    'against the exact time (also under a time limit), with losses the number '
    'of stays in every state (read from a time made of decimal digits) '
    'against the transition rules and probabilities (7 sigma) in single runs, 5.5 sigma in '
    'pooled ones) and the average time against its expectation (8 sigma); non-trivial: several '
    'transmissions, or some transmission fails.',
    [Part('sure', sure_strategy, sure_body, 1200, shards=2),
     Part('visits', visits_strategy, visits_body, 500, shards=3),
     Part('pooled', pooled_strategy, pooled_body, 18, shards=4),
     Part('mean', mean_strategy, mean_body, 150, shards=3)])
