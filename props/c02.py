from hypothesis import strategies as st

from harness.core import Part, Property, eq, req
from pysim.sim.simulator import Kernel
from .kernel_common import (
    Reference, Run, check_order, long_run, long_strategy, program_strategy)


def cancel_body(case, ctx):
    run = Run(case).execute()
    ref = Reference(case)
    eq(run.cancels, ref.cancels, 'results of cancel() in order')
    check_order(run, ref)
    executed = [s for _, s in run.trace]
    eq(len(set(executed)), len(executed), 'number of different events run')
    eq(len(set(run.ids)), len(run.ids), 'number of different event ids')
    req(all(i is not None for i in run.ids), 'an event has no id')
    req(all(isinstance(i, int) and i > 0 for i in run.ids),
        'an event id is not a number greater than 0: %r', min(run.ids or [1]))
    ctx.nt(ref.cancelled_pending > 0 and len(ref.trace) > 1)
    ctx.label('cancels hit' if ref.cancelled_pending else 'no cancel hit',
              'late cancel' if 0 in ref.cancels else 'no late cancel')


def many_strategy():
    return st.tuples(
        st.lists(st.integers(0, 30), min_size=1, max_size=120),
        st.lists(st.integers(0, 119), max_size=160)).map(list)


def many_body(case, ctx):
    """Large queues, cancelled in any order before anything runs."""
    from pysim.sim import build_simulation, run_simulation
    delays, victims = case
    seen, results = [], []
    ids = []

    def init(sim):
        for i, d in enumerate(delays):
            ids.append(sim.schedule(d, lambda s, i: seen.append(i), (i,)))
        for v in victims:
            results.append(sim.cancel(ids[v % len(ids)]))

    run_simulation(build_simulation('many', init=init))
    gone = {v % len(delays) for v in victims}
    expected_results, done = [], set()
    for v in victims:
        k = v % len(delays)
        expected_results.append(0 if k in done else 1)
        done.add(k)
    eq(results, expected_results, 'results of cancel()')
    eq(seen, [i for i in sorted(range(len(delays)),
                                key=lambda i: (delays[i], i))
              if i not in gone], 'events run')
    ctx.nt(bool(gone) and len(gone) < len(delays))


def long_body(case, ctx):
    seen, cancels, ids = long_run(case)
    eq(len(set(ids)), len(ids), 'number of different event ids')
    ctx.nt(sum(cancels) > 30 and len(seen) > 30)
    ctx.label(f'size {case["size"]}',
              f'cancelled >= {10 ** len(str(sum(cancels) // 10))}')


def storm_strategy():
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10 ** 6),
        'timers': st.sampled_from([5, 40, 150, 600]),
        'keep': st.sampled_from([0.0, .02, .1, .3]),
        'rounds': st.integers(1, 6),
        'spread': st.sampled_from([16, 200, 5000]),
    })


def storm_body(case, ctx):
    """Timers that are nearly all called off, round after round."""
    import random
    from pysim.sim import build_simulation, run_simulation
    rng = random.Random(case['seed'])
    live, n = {}, [0, 0, 0]         # no. -> (time, id); made, run, cancelled

    def timer(sim, i):
        best = min((t, k) for k, (t, _) in live.items())
        eq((sim.time, i), best, 'the next event (time, no.)')
        live.pop(i)
        n[1] += 1

    def add(sim, handler):
        d = rng.randrange(case['spread']) / 8
        i, n[0] = n[0], n[0] + 1
        live[i] = (sim.time + d, sim.schedule(d, handler, (i,)))

    def round_(sim, i):
        timer(sim, i)
        start(sim)

    def start(sim):
        if n[2] >= case['rounds']:
            return
        n[2] += 1
        for _ in range(case['timers']):
            add(sim, timer)
        add(sim, round_)
        last = n[0] - 1
        keys = sorted(live)
        rng.shuffle(keys)
        for k in keys:
            if k != last and rng.random() >= case['keep']:
                eq(sim.cancel(live.pop(k)[1]), 1, 'cancel() of a pending timer')

    stats, _, _ = run_simulation(build_simulation('storm', init=start))
    eq((len(live), n[2]), (0, case['rounds']), 'events left, rounds done')
    eq(stats.num_events_processed, n[1], 'events processed')
    ctx.nt(n[0] - n[1] > 30 and n[1] > 1)
    ctx.label(f'cancelled >= {10 ** len(str((n[0] - n[1]) // 10))}')


def kernel_strategy():
    op = st.one_of(
        st.tuples(st.just('s'), st.integers(0, 50)),
        st.tuples(st.just('x'), st.integers(0, 40)))
    return st.lists(op.map(list), min_size=1, max_size=40)


def kernel_body(case, ctx):
    """The kernel's list of future events is the set of pending ones."""
    k = Kernel('pending')
    ids, pending, hits = [], {}, 0

    def handler(sim):
        pass

    for op, n in case:
        if op == 's':
            i = k.schedule(n, handler)
            req(i not in ids, 'id %r given twice', i)
            ids.append(i)
            pending[i] = n
        elif ids:
            i = ids[n % len(ids)]
            hits += i in pending
            eq(k.cancel(i), 1 if pending.pop(i, None) is not None else 0,
               'result of cancel()')
        eq(len(k.future_events()), len(pending), 'number of future events')
    ctx.nt(hits > 0 and len(pending) > 0)


PROPERTY = Property(
    'C02',
    'Event programs with cancellation of pending, running, past, already '
    'cancelled and unknown events against a reference; non-trivial: a '
    'pending event is cancelled and other events run (or stay pending).',
    [
        Part('programs', lambda: program_strategy(cancel=3), cancel_body,
             3000, shards=5),
        Part('many', many_strategy, many_body, 600, shards=2),
        Part('long', lambda: long_strategy([300, 1000, 5000]), long_body,
             90, shards=2),
        Part('storm', storm_strategy, storm_body, 150, shards=2),
        Part('kernel', kernel_strategy, kernel_body, 600, shards=1),
    ])
