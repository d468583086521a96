import math
import time

from hypothesis import strategies as st

from harness.core import Part, Property, eq, req
from pysim.sim import ExitReason, build_simulation, run_simulation
from .kernel_common import (
    Reference, Run, check_order, check_reason, program_strategy)


def limits_body(case, ctx):
    t0 = time.time()
    run = Run(case, fin=False).execute()
    t1 = time.time()
    ref = Reference(case)
    check_order(run, ref)
    stats = run.stats
    eq(stats.num_events_processed, ref.served, 'events processed')
    eq(stats.sim_time, ref.now, 'simulated time at the end')
    check_reason(stats, ref)
    eq(stats.stop_message, ref.stopped or '', 'stop message')
    if ref.trace:
        last = run.handlers[ref.trace[-1][1]]
        req(stats.last_handler == last, 'last handler is %r, expected %r',
            stats.last_handler, last)
    req(0 <= stats.time_elapsed <= t1 - t0 + 0.05,
        'time elapsed is %r, the run took %r', stats.time_elapsed, t1 - t0)
    ctx.nt(len(ref.trace) >= 1 and bool(ref.pending))
    ctx.label(*('reason ' + getattr(r, 'name', 'MAX_EVENTS')
                for r in ref.reasons))


def real_strategy():
    return st.fixed_dictionaries({
        'limit_ms': st.integers(10, 40),
        'at': st.integers(0, 12),
        'other': st.booleans(),
        'delay': st.sampled_from([0, 0.0, 1, 2.5]),
    })


def real_body(case, ctx):
    """A handler that overruns the real-time limit is the last one."""
    limit = case['limit_ms'] / 1000
    seen = []

    def tick(sim):
        seen.append(sim.time)
        req(len(seen) < 500, 'the run goes on after its real-time limit')
        if len(seen) - 1 == case['at']:
            time.sleep(limit + 0.01)
        sim.schedule(case['delay'], tick)

    kw = {'max_sim_time': 1e9, 'max_num_events': 10 ** 6} if case['other'] \
        else {}
    t0 = time.time()
    stats, _, _ = run_simulation(build_simulation(
        'real', init=lambda sim: sim.call(tick), max_real_time=limit, **kw))
    t1 = time.time()
    eq(stats.exit_reason, ExitReason.REACHED_REAL_TIME_LIMIT, 'exit reason')
    req(len(seen) <= case['at'] + 1,
        '%d events run after the real-time limit', len(seen) - case['at'] - 1)
    eq(stats.num_events_processed, len(seen), 'events processed')
    req(limit < stats.time_elapsed <= t1 - t0 + 0.05,
        'time elapsed is %r, limit %r', stats.time_elapsed, limit)
    ctx.nt(case['at'] > 0)


def early_strategy():
    return st.fixed_dictionaries({
        'what': st.sampled_from(('stop', 'slow', 'slow and limit', 'both')),
        'events': st.integers(0, 5),
        'msg': st.sampled_from(('', 'enough')),
        'ms': st.integers(3, 12),
        'none': st.booleans(),
    })


def early_body(case, ctx):
    """The initializer itself asks for a stop or takes its time."""
    seen = []
    what = case['what']
    stops = what in ('stop', 'both')

    def init(sim):
        for i in range(case['events']):
            sim.schedule(i, lambda s, i: seen.append(i), (i,))
        if what != 'stop':
            time.sleep(case['ms'] / 1000)
        if stops:
            sim.stop(case['msg'])

    limit = {'slow': 60, 'stop': 60}.get(
        what, 0 if case['none'] else case['ms'] / 2000)
    stats, _, _ = run_simulation(build_simulation(
        'early', init=init, max_real_time=limit))
    n = case['events'] if what == 'slow' else 0
    eq(seen, list(range(n)), 'events run')
    eq(stats.num_events_processed, n, 'events processed')
    reasons = {ExitReason.NO_MORE_EVENTS} if what == 'slow' or \
        not case['events'] else set()
    if stops:
        reasons.add(ExitReason.STOPPED)
    if 'slow' not in what or what == 'slow and limit':
        if limit < 60:
            reasons.add(ExitReason.REACHED_REAL_TIME_LIMIT)
    req(stats.exit_reason in reasons, 'exit reason is %r, expected one of %r',
        stats.exit_reason, reasons)
    if stops:
        eq(stats.stop_message, case['msg'], 'stop message')
    if what != 'stop':
        req(stats.time_elapsed > case['ms'] / 1000 - 0.001,
            'time elapsed is %r, the initializer alone took %r ms',
            stats.time_elapsed, case['ms'])
    ctx.nt(case['events'] > 0)
    ctx.label(what)


def chain_strategy():
    return st.fixed_dictionaries({
        'step': st.integers(1, 40),          # eighths
        'branch': st.integers(1, 3),
        'max_sim': st.one_of(st.none(), st.integers(0, 2000)),
        'max_num': st.one_of(st.none(), st.integers(0, 300)),
        'stop_at': st.one_of(st.none(), st.integers(1, 300)),
        'n': st.integers(0, 320),
        'stop_twice': st.booleans(),
    })


def chain_body(case, ctx):
    """A regular stream of events; every limit has a closed form."""
    seen = []
    step = case['step'] / 8

    def tick(sim):
        seen.append(sim.time)
        if case['stop_at'] is not None and len(seen) == case['stop_at']:
            sim.stop('first')
            if case['stop_twice']:
                sim.stop('second')
        if len(seen) < case['n'] or case['n'] == 0:
            sim.schedule(step, tick)

    limits = []
    n_inf = 10 ** 9
    limits.append((case['n'] or n_inf, ExitReason.NO_MORE_EVENTS))
    if case['max_sim'] is not None:
        # events at step, 2*step...; the first one past the limit is the last
        limits.append((int(case['max_sim'] / 8 // step) + 1,
                       ExitReason.REACHED_SIM_TIME_LIMIT))
    if case['max_num'] is not None:
        limits.append((case['max_num'], 'events'))
    if case['stop_at'] is not None:
        limits.append((case['stop_at'], ExitReason.STOPPED))
    expected = min(n for n, _ in limits)
    if expected >= n_inf:
        ctx.label('endless: skipped')
        return
    reasons = {r for n, r in limits if n == expected}

    stats, _, _ = run_simulation(build_simulation(
        'chain', init=lambda sim: sim.schedule(step, tick),
        max_sim_time=None if case['max_sim'] is None else case['max_sim'] / 8,
        max_num_events=case['max_num'], max_real_time=100))
    eq(len(seen), expected, 'events run')
    eq(stats.num_events_processed, expected, 'events processed')
    eq(stats.sim_time, expected * step, 'simulated time')

    class R:
        pass
    r = R()
    r.reasons = reasons
    check_reason(stats, r)
    if stats.exit_reason is ExitReason.STOPPED:
        req(stats.stop_message in (
            ('first', 'second') if case['stop_twice'] else ('first',)),
            'stop message is %r', stats.stop_message)
    elif case['stop_at'] is None or expected < case['stop_at']:
        eq(stats.stop_message, '', 'stop message')
    ctx.nt(expected > 1 and len(limits) > 1)
    ctx.label(*('reason ' + getattr(x, 'name', 'MAX_EVENTS')
                for x in reasons))


def exact_strategy():
    d = st.one_of(st.floats(0, 10), st.floats(0, 1e-9), st.floats(0, 1e12),
                  st.sampled_from([0.1, 0.3, 0.7, 1.1]))
    return st.fixed_dictionaries({
        'delays': st.lists(d, min_size=1, max_size=12),
        'which': st.integers(0, 11),
        'side': st.sampled_from([-1, 0, 0, 1]),
    })


def exact_body(case, ctx):
    """A limit that is an event's own time, or next to it."""
    times = sorted(case['delays'])
    limit = times[case['which'] % len(times)]
    if case['side']:
        limit = math.nextafter(limit, case['side'] * math.inf)
    if limit < 0:
        ctx.label('negative limit: skipped')
        return
    want = [t for t in times if t <= limit]
    want += times[len(want):len(want) + 1]
    seen = []

    def init(sim):
        for d in case['delays']:
            sim.schedule(d, lambda s: seen.append(s.time))

    stats, _, _ = run_simulation(build_simulation(
        'exact', init=init, max_sim_time=limit))
    eq(seen, want, f'times of the events run up to the limit {limit!r}')
    eq(stats.sim_time, want[-1], 'simulated time at the end')
    reasons = set()
    if want[-1] > limit:
        reasons.add(ExitReason.REACHED_SIM_TIME_LIMIT)
    if len(want) == len(times):
        reasons.add(ExitReason.NO_MORE_EVENTS)
    req(stats.exit_reason in reasons, 'exit reason is %r, expected one of %r',
        stats.exit_reason, reasons)
    ctx.nt(len(want) < len(times))
    ctx.label(f'side {case["side"]}')


PROPERTY = Property(
    'C04',
    'Event programs and regular event streams under any combination of '
    'limits (simulated time, real time, number of events, explicit stop); '
    'non-trivial: events ran and events were still pending at the end '
    '(programs), several limits in competition (streams).',
    [
        Part('programs',
             lambda: program_strategy(cancel=1, stop=True, limits=True),
             limits_body, 3000, shards=4),
        Part('streams', chain_strategy, chain_body, 1500, shards=2),
        Part('exact', exact_strategy, exact_body, 400, shards=1),
        Part('early', early_strategy, early_body, 100, 1000, shards=1),
        Part('real_time', real_strategy, real_body, 60, 600, shards=2),
    ],
    ['The wall clock does not jump during a run.'])
