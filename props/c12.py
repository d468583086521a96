import math
import random

import numpy as np
from hypothesis import strategies as st

import pysim.models.tag_time.mc as mc
from harness.core import Part, Property, close, eq, req
from .c10 import moments


def prob():
    return st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, .5]))


def matrix_strategy():
    return st.fixed_dictionaries({
        'probs': st.lists(st.lists(prob(), min_size=4, max_size=4),
                          min_size=1, max_size=3),
        'long': st.lists(st.lists(prob(), min_size=1, max_size=14),
                         min_size=1, max_size=3),
    })


def check_matrix(m, probs, back):
    n = len(probs)
    eq(np.shape(m), (n + 1, n + 1), 'shape of the matrix')
    for i in range(n + 1):
        row = [0.0] * (n + 1)
        if i == n:
            row[n] = 1.0
        else:
            row[i + 1] = probs[i]
            row[0 if back else i] += 1 - probs[i]
        acc = 0.0
        for j in range(n + 1):
            acc += row[j]
            close(float(m[i][j]), acc, f'cumulative probability [{i}][{j}]',
                  abs_=1e-12)


def matrix_body(case, ctx):
    for p in case['probs']:
        check_matrix(mc.create_matrix_1(*p), p, True)
        check_matrix(mc.create_matrix_2(*p), p, False)
    for p in case['long']:
        check_matrix(mc.create_matrix_3(p), p, False)
    for scen, probs in ((1, case['probs']), (2, case['probs']),
                        (3, case['long'])):
        ms = mc.create_input_probs(scen, probs)
        eq(len(ms), len(probs), 'number of matrices')
        for m, p in zip(ms, probs):
            check_matrix(m, p, scen == 1)
    ctx.nt(any(0 < x < 1 for p in case['probs'] for x in p))


# --------------------------------------------------------------------------
def run_strategy():
    p = st.integers(30, 100).map(lambda n: n / 100)
    t = st.integers(0, 40).map(lambda n: n / 8)
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 2, 3]),
        'chunks': st.integers(1, 8),
        'cases': st.lists(st.tuples(
            st.lists(p, min_size=11, max_size=11),
            st.lists(t, min_size=11, max_size=11)).map(list),
            min_size=1, max_size=3),
        'n': st.sampled_from([1, 2, 7, 200, 200]),
        'sure': st.booleans(), 'seed': st.integers(0, 2 ** 32 - 1)})


def run_body(case, ctx):
    """Averages of several models, each in its place, in milliseconds."""
    np.random.seed(case['seed'])
    scen = case['scenario']
    size = 4 if scen < 3 else 3 + case['chunks']
    probs = [p[:size] for p, _ in case['cases']]
    times = [t[:size] for _, t in case['cases']]
    if scen == 1:
        probs = [[max(x, .6) for x in p] for p in probs]
    if case['sure']:
        probs = [[1.0] * size for _ in probs]
    got = mc.run_multiple_models(scen, probs, times, case['n'])
    eq(len(got), len(probs), 'number of results')
    for g, p, t in zip(got, probs, times):
        if case['sure']:
            close(g, sum(t) * 1000, 'time without losses')
            continue
        if scen == 1:
            mean, var = moments(1, p, t, 1)
        else:
            mean = sum(x / q for x, q in zip(t, p))
            var = sum(x * x * (1 - q) / q / q for x, q in zip(t, p))
        req(g >= sum(t) * 1000 * (1 - 1e-12),
            'the average %r is less than the shortest time', g)
        if case['n'] >= 200:
            close(g, mean * 1000, 'average time', rel=1e-9,
                  abs_=9000 * math.sqrt(var / case['n']))
    ctx.nt(not case['sure'] and case['n'] >= 200)
    ctx.label(f'scenario {scen}')


# --------------------------------------------------------------------------
def stays_strategy():
    p = st.integers(60, 100).map(lambda n: n / 100)
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 2]),
        'probs': st.lists(p, min_size=4, max_size=4),
        'seed': st.integers(0, 2 ** 32 - 1)})


def stays_body(case, ctx):
    """Stays in each state, read from the digits of the total time."""
    np.random.seed(case['seed'])
    n, p = 256, case['probs']
    make = mc.create_matrix_1 if case['scenario'] == 1 else mc.create_matrix_2
    base = [float(1 << 12 * i) for i in range(4)]
    total = round(mc.monte_carlo(make(*p), base, n) / 1000 * n)
    v = [total >> 12 * i & 4095 for i in range(3)] + [total >> 36]
    wins = v[1:] + [n] if case['scenario'] == 1 else [n] * 4
    for i in range(4):
        req(v[i] >= wins[i], 'state %d: %d stays, %d successes', i, v[i],
            wins[i])
        if p[i] == 1:
            eq(v[i], wins[i], f'stays in state {i} without failures')
        close(wins[i], v[i] * p[i], f'successes in state {i} of {v[i]}',
              rel=0, abs_=7 * math.sqrt(v[i] * p[i] * (1 - p[i])) + 7)
    ctx.nt(v != wins)


# --------------------------------------------------------------------------
def trials_strategy():
    return st.fixed_dictionaries({
        'n': st.integers(2, 40), 'p': st.sampled_from([.4, .5, .6]),
        'scenario': st.sampled_from([1, 2, 3]),
        'seed': st.integers(0, 2 ** 32 - 1)})


def trials_body(case, ctx):
    """The average is over the given number of trials, drawn anew.

    With stays of one second in the first state only, the sum over the trials
    is a whole number, and the sums of many calls have no common divisor.
    """
    np.random.seed(case['seed'])
    n, p = case['n'], case['p']
    m = mc.create_input_probs(case['scenario'], [[p, 1.0, 1.0, 1.0]])[0]
    sums = []
    for _ in range(60):
        s = mc.monte_carlo(m, [1.0, 0.0, 0.0, 0.0], n) / 1000 * n
        req(abs(s - round(s)) < 1e-6,
            'the average of %d trials is not a sum of stays over %d: %r', n,
            n, s)
        sums.append(round(s))
    req(len(set(sums)) > 1, '60 runs of %d trials gave the same times', n)
    eq(math.gcd(*(s - sums[0] for s in sums)), 1,
       f'common divisor of the sums of {n} trials')
    ctx.nt(True)


def pooled_strategy():
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 2, 3]),
        'seed': st.integers(0, 2 ** 32 - 1)})


def pooled_body(case, ctx):
    """Many runs with drawn probabilities: a small systematic deviation."""
    rng = random.Random(case['seed'])
    np.random.seed(case['seed'])
    scen, n = case['scenario'], 256
    size = 4 if scen < 3 else rng.randint(4, 8)
    over, var = [0.0] * size, [0.0] * size
    for _ in range(50):
        p = [rng.choice([1.0, rng.uniform(.6 if scen == 1 else .3, 1)])
             for _ in range(size)]
        m = mc.create_input_probs(scen, [p])[0]
        for i in range(size):
            t = [0.0] * size
            t[i] = 1.0
            if scen == 1 and i < 3:
                t[i + 1] = 4096.0
            total = round(mc.monte_carlo(m, t, n) / 1000 * n)
            v = total & 4095
            wins = n if scen > 1 or i == 3 else total >> 12
            over[i] += wins - v * p[i]
            var[i] += v * p[i] * (1 - p[i])
    for i in range(size):
        req(abs(over[i]) <= 5.5 * math.sqrt(var[i]) + 50,
            'state %d: %+.1f successes more than expected (standard '
            'deviation %.1f)', i, over[i], math.sqrt(var[i]))
    ctx.nt(True)
    ctx.label(f'scenario {scen}')


PROPERTY = Property(
    'C12',
    'Transition matrices for generated probabilities against their '
    'definition; Monte-Carlo averages without losses exactly, with losses '
    'against the expectation (9 sigma) and, through decimal digits of the '
    'time, the stays in each state (7 sigma in single '
    'runs, 5.5 in pooled ones); the number of trials by the divisors of '
    'their sums; non-trivial: some probability '
    'is inside (0, 1).',
    [Part('matrices', matrix_strategy, matrix_body, 2000, shards=2),
     Part('averages', run_strategy, run_body, 400, shards=3),
     Part('stays', stays_strategy, stays_body, 200, shards=3),
     Part('trials', trials_strategy, trials_body, 60, shards=1),
     Part('pooled', pooled_strategy, pooled_body, 12, shards=3)])
