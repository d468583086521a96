from fractions import Fraction as F

from hypothesis import strategies as st

import pysim.models.tag_time.analitical_model as am
from harness.core import Part, Property, close, eq


def phases(n, low=.02):
    p = st.one_of(st.floats(low, 1.0), st.sampled_from([1.0, .5, .9]))
    t = st.one_of(st.floats(1e-5, 10.0), st.integers(0, 5).map(float))
    return st.lists(st.tuples(p, t).map(list), min_size=n, max_size=n)


def strategy():
    return st.fixed_dictionaries({
        'cases': st.lists(phases(4), min_size=1, max_size=12),
        'chunks': st.one_of(st.integers(1, 3), st.integers(1, 60),
                            st.integers(61, 5000)),
        'rare': st.lists(phases(4, 1e-9), min_size=1, max_size=3),
        'any': st.integers(1, 9).flatmap(lambda n: phases(n, 1e-9))})


def second(ph):
    return sum(F(t) / F(p) for p, t in ph)


def first(ph):
    """Back to the start after a failure: the state k is visited once per
    arrival, with probability p_1...p_{k-1} in one attempt."""
    reach, total = F(1), F(0)
    for p, t in ph:
        total += F(t) * reach
        reach *= F(p)
    return total / reach


def accuracy(ph):
    """Of a linear system with these probabilities."""
    reach = 1.0
    for p, _ in ph:
        reach *= p
    return 1e-11 + 1e-13 / reach


def body(case, ctx):
    chunks = case['chunks']
    given = [[tuple(x) for x in ph] for ph in case['cases']]
    got = am.convert_data_for_analitica(
        [[p for p, _ in ph] for ph in given],
        [[t for _, t in ph] for ph in given])
    eq([[tuple(x) for x in ph] for ph in got], given,
       'phases built from probabilities and times')
    want = {1: [first(ph) for ph in given],
            2: [second(ph) for ph in given],
            3: [second(ph[:3]) + chunks * second(ph[3:]) for ph in given]}
    for scen, values in want.items():
        res = am.run_analitica(scen, given, chunks)
        eq(len(res), len(values), f'results of scenario {scen}')
        for i, v in enumerate(values):
            close(res[i], float(v * 1000), f'scenario {scen}, case {i}',
                  rel=accuracy(given[i]) if scen == 1 else 1e-9, abs_=1e-9)
    for ph, v1, v2, v3 in zip(given, want[1], want[2], want[3]):
        close(am.calculate_first_case(ph), float(v1), 'first case',
              accuracy(ph))
        close(am.calculate_second_case(ph), float(v2), 'second case')
        close(am.calculate_third_case(ph[:3], ph[3], chunks), float(v3),
              'third case')
    rare = [[tuple(x) for x in ph] for ph in case['rare']]
    for scen in (2, 3):
        res = am.run_analitica(scen, rare, chunks)
        for i, ph in enumerate(rare):
            v = second(ph) if scen == 2 else (second(ph[:3]) +
                                              chunks * second(ph[3:]))
            close(res[i], float(v * 1000),
                  f'scenario {scen}, rare success, case {i}')
    close(am.calculate_second_case([tuple(x) for x in case['any']]),
          float(second(case['any'])), 'second case, any number of phases')
    ctx.nt(any(p < 1 and t > 0 for ph in given for p, t in ph))


PROPERTY = Property(
    'C11',
    'Phases with probabilities 0.02..1 (down to 1e-9 where phases '
    'are repeated) and durations, up to 5000 chunks, '
    'against exact rational arithmetic; non-trivial: some phase can fail and '
    'lasts.',
    [Part('exact', strategy, body, 3000, shards=4)])
