from hypothesis import strategies as st

from harness.core import Part, Property, Violation, eq, req
from pysim.sim import (
    SchedulingInPastError, build_simulation, run_simulation)

# what -> exceptions that may be raised
BAD = ('past', 'none', 'notcallable', 'args', 'args_call', 'none_call',
       'notcallable_call')
NEG = (-1, -0.5, -1e-9, -1e12, -3, -1e-300, -5e-324, -float('inf'))
NOT_CALLABLE = (5, 'handler', [1], {}, 2.5, ('a',))
NOT_ITERABLE = (5, 2.5, True, 0, False, 0.0, None, object())


def strategy():
    step = st.one_of(
        st.tuples(st.just('ok'), st.integers(0, 40), st.integers(0, 3)),
        st.tuples(st.just('bad'), st.integers(0, len(BAD) - 1),
                  st.integers(0, 29)),
        st.tuples(st.just('none_delay'), st.just(0), st.just(0)),
        st.tuples(st.just('zero'), st.integers(0, 2), st.just(0)),
    ).map(list)
    return st.fixed_dictionaries({
        'init': st.lists(step, min_size=1, max_size=8),
        'later': st.lists(step, max_size=8),
        'at': st.one_of(st.integers(0, 100), st.integers(0, 4 * 10 ** 9)),
    })


def body(case, ctx):
    seen, expected = [], []
    counter = [0]
    bad = 0

    def handler(sim, n):
        seen.append((sim.time, n))

    def steps(sim, ops):
        nonlocal bad
        for op, a, b in ops:
            if op == 'ok':
                n = counter[0]
                counter[0] += 1
                sim.schedule(a / 4, handler, (n,))
                expected.append((sim.time + a / 4, n))
            elif op == 'zero':
                n = counter[0]
                counter[0] += 1
                delay = (0, 0.0, -0.0)[a]
                sim.schedule(delay, handler, (n,))
                expected.append((sim.time, n))
            elif op == 'none_delay':
                eq(sim.schedule(None, handler, (-1,)), None,
                   'id of an event that is never to happen')
            else:
                bad += 1
                what = BAD[a]
                try:
                    if what == 'past':
                        sim.schedule(NEG[b % len(NEG)], handler, (-1,))
                        kind = SchedulingInPastError
                    elif what == 'none':
                        kind = ValueError
                        sim.schedule(b, None)
                    elif what == 'none_call':
                        sim.call(None)
                    elif what == 'notcallable':
                        sim.schedule(b, NOT_CALLABLE[b % len(NOT_CALLABLE)])
                    elif what == 'notcallable_call':
                        sim.call(NOT_CALLABLE[b % len(NOT_CALLABLE)])
                    elif what == 'args':
                        sim.schedule(b, handler,
                                     NOT_ITERABLE[b % len(NOT_ITERABLE)])
                    elif what == 'args_call':
                        sim.call(handler, NOT_ITERABLE[b % len(NOT_ITERABLE)])
                except Exception as e:
                    kind = {'past': SchedulingInPastError, 'none': ValueError,
                            'none_call': ValueError}.get(what, TypeError)
                    req(isinstance(e, kind),
                        'a request that is wrong (%s) raised %r, not %s',
                        what, e, kind.__name__)
                else:
                    raise Violation(f'a wrong request ({what}) is accepted')

    def second(sim):
        steps(sim, case['later'])

    def init(sim):
        steps(sim, case['init'])
        sim.schedule(case['at'] / 4, second)

    stats, _, _ = run_simulation(build_simulation('validate', init=init))
    eq(sorted(seen), sorted(expected), 'events run')
    eq([s[0] for s in seen], sorted(s[0] for s in seen), 'times of the events')
    eq(stats.num_events_processed, len(expected) + 1, 'events processed')
    req(issubclass(SchedulingInPastError, ValueError),
        'SchedulingInPastError is a ValueError')
    ctx.nt(bad > 0 and len(expected) > 0)
    ctx.label(*{BAD[a] for op, a, _ in case['init'] + case['later']
                if op == 'bad'})


PROPERTY = Property(
    'C03',
    'Mixes of valid and invalid scheduling requests, from the initializer '
    'and from a handler at a later time; non-trivial: at least one rejected '
    'request and one accepted event.',
    [Part('requests', strategy, body, 4000, shards=6)])
