import math

from harness.core import Part, Property, eq
from .kernel_common import (
    Reference, Run, check_order, long_run, long_strategy, program_strategy)
from hypothesis import strategies as st
from harness.core import req
from pysim.sim import build_simulation, run_simulation


def order_body(case, ctx):
    run = Run(case).execute()
    ref = Reference(case)
    check_order(run, ref)
    ctx.nt(len(ref.trace) >= 3 and ref.ties > 0)
    ctx.label(f'ties={"yes" if ref.ties else "no"}',
              f'events>={10 * min(5, len(ref.trace) // 10)}')


def floats_strategy():
    d = st.one_of(st.floats(0, 10, allow_nan=False),
                  st.floats(0, 1e-9), st.floats(0, 1e12),
                  st.integers(0, 10), st.just(0.1), st.just(math.inf))
    return st.lists(d, min_size=2, max_size=40)


def floats_body(case, ctx):
    """Arbitrary real delays from one instant, then a chain of them."""
    seen = []

    def init(sim):
        for i, d in enumerate(case):
            sim.schedule(d, lambda s, i: seen.append((s.time, i)), (i,))

    run_simulation(build_simulation('floats', init=init))
    eq([s[1] for s in seen], sorted(range(len(case)), key=lambda i: case[i]),
       'order of the events')
    for t, i in seen:
        eq(t, case[i], f'time of event {i}')
    chain = []
    case = [1.5 if math.isinf(d) else d for d in case]

    def step(sim, i, t_before):
        req(sim.time >= t_before, 'the clock went back')
        req(abs(sim.time - (t_before + case[i])) <=
            1e-12 * (abs(sim.time) + 1),
            'event %d, scheduled %r after %r, came at %r', i, case[i],
            t_before, sim.time)
        chain.append(i)
        if i + 1 < len(case):
            sim.schedule(case[i + 1], step, (i + 1, sim.time))

    run_simulation(build_simulation(
        'floats', init=lambda s: s.schedule(case[0], step, (0, 0.0))))
    eq(chain, list(range(len(case))), 'chain of events')
    ctx.nt(len(set(case)) > 2)
    ctx.label('repeats' if len(set(case)) < len(case) else 'all different')


def long_body(case, ctx):
    seen, _, _ = long_run(case)
    ctx.nt(len(seen) > 100)
    ctx.label(f'size {case["size"]}')


def same_strategy():
    return st.fixed_dictionaries({
        'plan': st.lists(st.tuples(st.integers(0, 3), st.integers(1, 5),
                                   st.booleans()).map(list),
                         min_size=1, max_size=10),
        'args': st.integers(0, 3),
        'msg': st.booleans(),
    })


def same_body(case, ctx):
    """Events that are the same in everything are still separate events."""
    count, expected = {}, {}
    args = [(), (7,), ('a', None), ((1, 2),)][case['args']]
    ids = []

    def handler(sim, *got):
        eq(got, args, 'arguments of the handler')
        count[sim.time] = count.get(sim.time, 0) + 1

    def add(sim):
        for t, n, nested in case['plan']:
            for _ in range(n):
                kw = {'msg': 'same'} if case['msg'] else {}
                ids.append(sim.schedule(t, handler, args, **kw))
                expected[sim.time + t] = expected.get(sim.time + t, 0) + 1
            if nested:
                ids.append(sim.call(handler, args))
                expected[sim.time] = expected.get(sim.time, 0) + 1

    def init(sim):
        add(sim)
        sim.schedule(2, add)

    run_simulation(build_simulation('same', init=init))
    eq(dict(sorted(count.items())), dict(sorted(expected.items())),
       'number of calls at each time')
    eq(len(set(ids)), len(ids), 'number of different event ids')
    ctx.nt(max(expected.values()) > 1)


def burst_strategy():
    return st.lists(st.tuples(st.integers(0, 5), st.integers(1, 60)),
                    min_size=1, max_size=12).map(
        lambda l: [list(x) for x in l])


def burst_body(case, ctx):
    """Many simultaneous events: strictly first in, first out."""
    seen, expected, n = [], [], 0
    plan = []
    for t, count in case:
        for _ in range(count):
            plan.append((t, n))
            n += 1

    def init(sim):
        for t, i in plan:
            sim.schedule(t, lambda s, i: seen.append((s.time, i)), (i,))

    run_simulation(build_simulation('burst', init=init))
    expected = sorted(plan)
    eq(seen, expected, 'order of simultaneous events')
    ctx.nt(n > 8 and len(case) > 1)


PROPERTY = Property(
    'C01',
    'Event programs (handlers that schedule, call and hand over arguments) '
    'run by the kernel and by a sorted-list reference; non-trivial: at least '
    'three events and a tie between pending events (programs), three '
    'different delays (floats), more than eight events (bursts), several '
    'equal events at a time (same), more than 100 events (long).',
    [
        Part('order', lambda: program_strategy(), order_body, 3500, shards=6),
        Part('floats', floats_strategy, floats_body, 700, shards=1),
        Part('burst', burst_strategy, burst_body, 300, shards=1),
        Part('same', same_strategy, same_body, 300, shards=1),
        Part('long', lambda: long_strategy([300, 2000, 20000, 70000]),
             long_body, 24, shards=2),
    ])
