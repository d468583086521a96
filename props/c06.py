import bisect
import random

from hypothesis import strategies as st

from harness.core import Part, Property, Violation, eq, req
from pysim.sim import EventQueue

TASKS = ('cat', ('h', (), ''), 0, '', False, ['l'], {'d': 1}, 3.5, ())


def strategy():
    t = st.one_of(st.integers(0, 5), st.integers(-3, 100),
                  st.integers(0, 80).map(lambda n: n / 8),
                  st.floats(allow_nan=False, allow_infinity=False, width=32))
    push = st.tuples(st.just('push'), t, st.integers(0, len(TASKS) - 1))
    op = st.one_of(
        push, push, push,
        st.tuples(st.just('pop')),
        st.tuples(st.just('cancel'), st.integers(0, 80)),
        st.tuples(st.just('cancel'), st.integers(0, 80)),
        st.tuples(st.just('unknown'), st.sampled_from([None, -1, 10 ** 6])),
        st.tuples(st.just('clear'), st.integers(0, 19)),
    ).map(list)
    return st.one_of(st.lists(op, min_size=1, max_size=80),
                     st.lists(op, min_size=25, max_size=80))


def body(case, ctx):
    q = EventQueue()
    pending = {}          # id -> (time, order, task)
    ids = []
    pops = cancels = 0

    def check():
        eq(len(q), len(pending), 'length of the queue')
        eq(bool(q.empty), not pending, 'emptiness of the queue')
        listed = [tuple(e) for e in q.to_list()]
        req(len(listed) == len(pending),
            '%d events are listed, %d are pending', len(listed), len(pending))
        for t, i, task in listed:
            req(i in pending and pending[i][0] == t and
                pending[i][2] is task, 'event %r is listed but not pending',
                (t, i, task))

    def pop():
        nonlocal pops
        if not pending:
            try:
                r = q.pop()
            except KeyError:
                return
            raise Violation(f'pop() of an empty queue gave {r!r}')
        i = min(pending, key=lambda i: (pending[i][0], pending[i][1]))
        t, order, task = pending.pop(i)
        got = q.pop()
        req(tuple(got[:2]) == (t, i) and got[2] is task and len(got) == 3,
            'pop() gave %r, expected %r', got, (t, i, task))
        pops += 1

    for op in case:
        if op[0] == 'push':
            i = q.push(op[1], TASKS[op[2]])
            req(i is not None and i not in ids, 'id %r given twice', i)
            pending[i] = (op[1], len(ids), TASKS[op[2]])
            ids.append(i)
        elif op[0] == 'pop':
            pop()
        elif op[0] == 'cancel':
            if ids:
                i = ids[op[1] % len(ids)]
                q.cancel(i)
                cancels += pending.pop(i, None) is not None
        elif op[0] == 'unknown':
            q.cancel(op[1])
        elif op[0] == 'clear' and op[1] == 0:
            q.clear()
            pending.clear()
        check()
    while pending:
        pop()
    check()
    pop()
    ctx.nt(pops > 1 and cancels > 0)
    ctx.label('pops' if pops else 'no pops',
              'cancels' if cancels else 'no cancels')


def large_strategy():
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10 ** 6),
        'size': st.sampled_from([300, 1000, 4000]),
        'pop': st.integers(0, 4),
        'cancel': st.integers(0, 8),
        'spread': st.sampled_from([4, 100, 10 ** 6]),
        'recent': st.booleans(),
    })


def large_body(case, ctx):
    """Long histories and long queues, drawn from a seed."""
    rng = random.Random(case['seed'])
    q = EventQueue()
    order, ids, when = [], [], {}     # order: sorted [(time, no., id)]
    hits = pops = 0

    def pop():
        t, n, i = order.pop(0)
        del when[i]
        got = q.pop()
        req(tuple(got) == (t, i, ('task', n)), 'pop() gave %r, expected %r',
            got, (t, i, ('task', n)))

    for step in range(case['size']):
        r = rng.randrange(12)
        if r < case['pop'] and order and step > 100:
            pop()
            pops += 1
        elif r < case['pop'] + case['cancel'] and ids:
            k = rng.randrange(len(ids))
            if case['recent']:
                k = len(ids) - 1 - rng.randrange(min(len(ids), 30))
            i = ids[k]
            q.cancel(i)
            if i in when:
                hits += 1
                key = (when.pop(i), k, i)
                del order[bisect.bisect_left(order, key)]
        else:
            t = rng.randrange(case['spread'])
            n = len(ids)
            i = q.push(t, ('task', n))
            req(i is not None and i not in when, 'id %r given twice', i)
            ids.append(i)
            when[i] = t
            bisect.insort(order, (t, n, i))
        req(len(q) == len(order), 'length of the queue is %d, expected %d',
            len(q), len(order))
        if step % 50 == 49:
            listed = sorted((e[0], e[1]) for e in q.to_list())
            req(listed == sorted((t, i) for t, n, i in order),
                'the list of events is not that of the pending ones')
    eq(len(set(ids)), len(ids), 'number of different ids')
    while order:
        pop()
        pops += 1
    req(q.empty and len(q) == 0, 'the queue is not empty at the end')
    ctx.nt(pops > 30 and hits > 30)
    ctx.label(f'cancelled >= {10 ** len(str(hits // 10))}')


PROPERTY = Property(
    'C06',
    'Histories of push, pop, cancel (of pending, past, repeated and unknown '
    'ids) and clear on the event queue against a dictionary model, checked '
    'after every operation; non-trivial: at least two pops and a '
    'cancellation of a pending event (histories), more than 30 of both '
    '(large).',
    [Part('histories', strategy, body, 4000, shards=6),
     Part('large', large_strategy, large_body, 120, shards=2)])
