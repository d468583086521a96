"""Generated discrete-event programs, run by the kernel and by a reference.

A program is {'init': script, 'scripts': [script...], 'max_sim', 'max_num'}.
A script is a list of operations done by a handler:
  ['s', delay in eighths, script, style]   schedule
  ['c', script, style]                     call (now)
  ['x', k]                                 cancel the k-th event scheduled
  ['u', k]                                 cancel an id that does not exist
  ['t', k]                                 stop the run
Delays are eighths, so that every time is exact in binary floating point and
ties are common.  A handler run after FUEL events does nothing.
"""
import functools

from hypothesis import strategies as st

from pysim.sim import ExitReason, build_simulation, run_simulation
from harness.core import Violation, eq, req

FUEL = 40
UNKNOWN_IDS = (None, -1, -7, 10 ** 9, 10 ** 12 + 1)
STOP_MSGS = ('', 'done', 'причина', 'a b c')


def delay_strategy():
    return st.one_of(
        st.sampled_from([0, 0, 8, 8, 16, 4]),
        st.integers(0, 24),
        st.integers(0, 8 * 10 ** 6),
    )


def op_strategy(n, cancel, stop):
    style = st.integers(0, 11)
    ops = [
        st.tuples(st.just('s'), delay_strategy(), st.integers(0, n - 1),
                  style).map(list),
        st.tuples(st.just('s'), delay_strategy(), st.integers(0, n - 1),
                  style).map(list),
        st.tuples(st.just('c'), st.integers(0, n - 1), style).map(list),
    ]
    if cancel:
        x = st.tuples(st.just('x'), st.integers(0, 60)).map(list)
        ops += [x] * cancel
        ops += [st.tuples(st.just('u'),
                          st.integers(0, len(UNKNOWN_IDS) - 1)).map(list)]
    if stop:
        ops += [st.tuples(st.just('t'),
                          st.integers(0, len(STOP_MSGS) - 1)).map(list)]
    return st.one_of(ops)


def program_strategy(cancel=0, stop=False, limits=False, max_scripts=5):
    def build(n):
        op = op_strategy(n, cancel, stop)
        init_op = op_strategy(n, cancel, False)
        fields = {
            'init': st.lists(init_op, min_size=1, max_size=10),
            'scripts': st.lists(st.lists(op, max_size=5),
                                min_size=n, max_size=n),
        }
        if limits:
            fields['max_sim'] = st.one_of(
                st.none(), st.integers(0, 40), st.integers(0, 400))
            fields['max_num'] = st.one_of(
                st.none(), st.integers(0, 4), st.integers(0, 60))
        return st.fixed_dictionaries(fields)
    return st.integers(1, max_scripts).flatmap(build)


class Obj:
    """Arguments that cannot be ordered or hashed."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise Violation('arguments of events are compared with each other')

    def __lt__(self, other):
        raise Violation('arguments of events are compared with each other')


def make_args(seq, style):
    """(args as passed to the kernel, what the handler must receive)."""
    k = style % 6
    obj = Obj(seq)
    values = [(), (seq,), (seq, obj), (obj, 'x', seq), ({'n': seq},),
              (None, seq)][k]
    if style < 6:
        return tuple(values), values
    form = style % 3
    if form == 0:
        return list(values), values
    if form == 1:
        return iter(values), values
    return (v for v in values), values


class Run:
    """A run of a program on the real kernel, with everything observed."""

    def __init__(self, prog, context=None, model_name='generated', fin=True,
                 hook=None, omit_empty_args=True):
        self.prog = prog
        self.trace = []      # (time, seq) in order of execution
        self.ids = []        # seq -> id
        self.cancels = []    # results of cancel()
        self.events = 0
        self.max_time_seen = 0.0
        self.hook = hook
        self.sims = []
        self.fin_calls = []
        self.handlers = {}   # seq -> the callable scheduled
        self.omit = omit_empty_args
        sim = build_simulation(
            model_name, init=self.init, fin=self.fin if fin else None,
            context=context,
            max_sim_time=(None if prog.get('max_sim') is None
                          else prog['max_sim'] / 8),
            max_num_events=prog.get('max_num'),
            debug=len(str(prog)) % 4 == 0)
        self.iterator = sim

    def execute(self):
        self.stats, self.context, self.fin_ret = run_simulation(self.iterator)
        return self

    def fin(self, sim):
        self.fin_calls.append((sim.time, len(self.trace)))
        return ('fin', len(self.trace))

    def init(self, sim):
        self.sims.append(sim)
        eq(sim.time, 0, 'time seen by the initializer')
        self.do(sim, self.prog['init'])

    def make_handler(self, seq, script, style, expected):
        def body(sim, *args):
            self.on_event(sim, seq, script, args, expected)
        form = (seq + style) % 4
        if form == 0:
            return body
        if form == 1:
            class Functor:
                def __call__(self, sim, *args):
                    body(sim, *args)
            return Functor()
        if form == 2:
            class Holder:
                def method(self, sim, *args):
                    body(sim, *args)
            return Holder().method
        return functools.partial(lambda extra, sim, *a: body(sim, *a), seq)

    def schedule(self, sim, delay, script, style):
        seq = len(self.ids)
        args, expected = make_args(seq, style)
        handler = self.make_handler(seq, script, style, expected)
        self.handlers[seq] = handler
        self.ids.append(None)
        msg = f'event {seq}' if style % 2 else ''
        kw = {'msg': msg} if msg else {}
        if delay is None:
            if not expected and self.omit:
                i = sim.call(handler, **kw)
            else:
                i = sim.call(handler, args, **kw)
        elif not expected and self.omit:
            i = sim.schedule(delay, handler, **kw)
        elif style % 4 == 3:
            i = sim.schedule(delay=delay, handler=handler, args=args, **kw)
        else:
            i = sim.schedule(delay, handler, args, **kw)
        self.ids[seq] = i

    def do(self, sim, script):
        for op in script:
            if op[0] == 's':
                d = op[1] // 8 if op[1] % 8 == 0 and op[3] % 2 else op[1] / 8
                self.schedule(sim, d, op[2], op[3])
            elif op[0] == 'c':
                self.schedule(sim, None, op[1], op[2])
            elif op[0] == 'x':
                if self.ids:
                    k = op[1] % len(self.ids)
                    self.cancels.append(sim.cancel(self.ids[k]))
            elif op[0] == 'u':
                self.cancels.append(sim.cancel(UNKNOWN_IDS[op[1]]))
            elif op[0] == 't':
                sim.stop(STOP_MSGS[op[1]])

    def on_event(self, sim, seq, script, args, expected):
        self.trace.append((sim.time, seq))
        req(len(args) == len(expected) and
            all(a is b for a, b in zip(args, expected)),
            'the handler of event %d did not receive its arguments: %r', seq,
            args)
        req(sim.time >= self.max_time_seen,
            'the clock went back from %r to %r', self.max_time_seen, sim.time)
        self.max_time_seen = sim.time
        self.sims.append(sim)
        n = self.events
        self.events += 1
        req(n < 3000, 'more events are executed than were ever scheduled')
        if self.hook:
            self.hook(self, sim, seq)
        if n < FUEL:
            t = sim.time
            self.do(sim, self.prog['scripts'][script])
            eq(sim.time, t, 'time at the end of the handler')


class Reference:
    """What must happen: a sorted list instead of a heap."""

    def __init__(self, prog):
        self.prog = prog
        self.now = 0.0
        self.pending = []           # (time, seq, script)
        self.n = 0
        self.trace = []
        self.cancels = []
        self.cancelled_pending = 0
        self.stopped = None
        self.ties = 0
        served = 0
        limit_t = prog.get('max_sim')
        limit_n = prog.get('max_num')
        self.do(prog['init'])
        while True:
            reasons = set()
            if limit_t is not None and self.now > limit_t / 8:
                reasons.add(ExitReason.REACHED_SIM_TIME_LIMIT)
            if limit_n is not None and served >= limit_n:
                reasons.add('events')
            if self.stopped is not None:
                reasons.add(ExitReason.STOPPED)
            if not self.pending:
                reasons.add(ExitReason.NO_MORE_EVENTS)
            if reasons:
                break
            best = min(self.pending, key=lambda e: (e[0], e[1]))
            self.pending.remove(best)
            if any(e[0] == best[0] for e in self.pending):
                self.ties += 1
            self.now = best[0]
            self.trace.append((best[0], best[1]))
            served += 1
            if served <= FUEL:
                self.do(prog['scripts'][best[2]])
        self.reasons = reasons
        self.served = served

    def do(self, script):
        for op in script:
            if op[0] == 's':
                self.pending.append((self.now + op[1] / 8, self.n, op[2]))
                self.n += 1
            elif op[0] == 'c':
                self.pending.append((self.now, self.n, op[1]))
                self.n += 1
            elif op[0] == 'x':
                if self.n:
                    k = op[1] % self.n
                    hit = [e for e in self.pending if e[1] == k]
                    self.cancels.append(len(hit))
                    self.cancelled_pending += len(hit)
                    self.pending = [e for e in self.pending if e[1] != k]
            elif op[0] == 'u':
                self.cancels.append(0)
            elif op[0] == 't':
                self.stopped = STOP_MSGS[op[1]]


def check_order(run, ref):
    for i, (a, b) in enumerate(zip(run.trace, ref.trace)):
        req(a == b, 'event %d executed is (time, no.) = %r, expected %r', i,
            a, b)
    eq(len(run.trace), len(ref.trace), 'number of events executed')


def check_reason(stats, ref):
    reason = stats.exit_reason
    req(isinstance(reason, ExitReason), 'exit reason is %r', reason)
    if 'events' in ref.reasons and reason not in (
            ExitReason.NO_MORE_EVENTS, ExitReason.REACHED_SIM_TIME_LIMIT,
            ExitReason.STOPPED, ExitReason.INTERRUPTED,
            ExitReason.REACHED_REAL_TIME_LIMIT):
        return
    req(reason in ref.reasons, 'exit reason is %r, expected one of %r',
        reason, ref.reasons)


# -- long runs, drawn from a seed ------------------------------------------
def long_strategy(sizes):
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10 ** 6),
        'size': st.sampled_from(sizes),
        'cancel': st.sampled_from([0, 1, 2, 4, 8]),     # of ten operations
        'ahead': st.sampled_from([1, 40, 400]),
        'spread': st.sampled_from([8, 100, 10000]),
    })


def long_run(case):
    """Run `size` events of one handler, shared by all of them.

    Before the run a queue of `ahead` events is filled; each handler then
    schedules new ones and cancels some of the last ones, so that the queue
    keeps about its length.  Returns what ran, what had to run (from a sorted
    list), the results of cancel() and those expected.
    """
    import random
    from bisect import bisect_left, insort
    rng = random.Random(case['seed'])
    size, spread = case['size'], case['spread']
    seen, ids, order = [], [], []      # order: sorted [(time, n)] pending
    when = {}
    cancels, expected_cancels, expected = [], [], []
    state = {'left': size}

    def add(sim):
        n = len(ids)
        d = rng.randrange(spread) / 8
        ids.append(sim.schedule(d, handler, (n,)))
        when[n] = sim.time + d
        insort(order, (when[n], n))

    def drop(sim, n):
        cancels.append(sim.cancel(ids[n]))
        hit = n in when
        expected_cancels.append(int(hit))
        if hit:
            key = (when.pop(n), n)
            del order[bisect_left(order, key)]

    def work(sim):
        for _ in range(rng.randrange(4) if len(order) > case['ahead'] // 2
                       else 4):
            if rng.randrange(10) < case['cancel'] and ids:
                k = len(ids) - 1 - int(rng.expovariate(1 / case['ahead']))
                drop(sim, max(0, k))
            elif len(ids) < size:
                add(sim)

    def handler(sim, n):
        t, first = order.pop(0) if order else (None, None)
        expected.append((t, first))
        when.pop(first, None)
        seen.append((sim.time, n))
        req(seen[-1] == expected[-1],
            'event %d executed is (time, no.) = %r, expected %r', len(seen),
            seen[-1], expected[-1])
        work(sim)

    def init(sim):
        for _ in range(min(case['ahead'], size)):
            add(sim)
        work(sim)

    stats, _, _ = run_simulation(build_simulation('long', init=init))
    req(not order, '%d events were never executed', len(order))
    eq(stats.num_events_processed, len(seen), 'events processed')
    eq(cancels, expected_cancels, 'results of cancel()')
    return seen, cancels, ids
