import queue
import statistics
import time

from hypothesis import strategies as st

from harness.core import Part, Property, Violation, eq, req
from pysim.sim import SchedulingInPastError, build_simulation, run_simulation
from .kernel_common import Reference, Run, check_order, program_strategy


class Thing:
    def __bool__(self):
        return False


CONTEXTS = ('none', 'dict', 'empty dict', 'list', 'empty list', 'falsy',
            'object', 'zero', 'string')


def make_context(kind):
    return {'none': None, 'dict': {'a': 1}, 'empty dict': {}, 'list': [1],
            'empty list': [], 'falsy': Thing(), 'object': object(),
            'zero': 0, 'string': ''}[kind]


def cycle_strategy():
    return st.fixed_dictionaries({
        'context': st.sampled_from(CONTEXTS),
        'replace': st.sampled_from(('no', 'init', 'event', 'fin')),
        'new': st.sampled_from(CONTEXTS[1:]),
        'args': st.lists(st.integers(), max_size=4),
        'args_form': st.sampled_from(('tuple', 'list', 'iter')),
        'events': st.integers(0, 12),
        'stop_at': st.one_of(st.none(), st.integers(1, 12)),
        'fin': st.sampled_from(('none', 'value', 'returns none', 'falsy')),
        'limit': st.sampled_from(('no', 'no', 'events', 'time', 'real')),
        'stop_in_init': st.sampled_from((False, False, False, True)),
        'drain': st.sampled_from(('run', 'next', 'for')),
        'debug': st.booleans(),
    })


def cycle_body(case, ctx):
    log = []
    given = make_context(case['context'])
    new = make_context(case['new'])
    sims = []
    state = {'context': given}

    def look(sim, where):
        sims.append(sim)
        req(sim is not None and sim.logger is not None, 'no simulator')
        if state['context'] is None:
            req(sim.context == {} and isinstance(sim.context, dict),
                'default context is %r', sim.context)
            state['context'] = sim.context
        req(sim.context is state['context'],
            'context seen by the %s is not the current one', where)
        if case['replace'] == where and 'replaced' not in state:
            sim.context = new
            state['context'] = new
            state['replaced'] = True

    def init(sim, *args):
        log.append(('init', args))
        look(sim, 'init')
        for i in range(case['events']):
            sim.schedule(i // 2, event, (i,))
        if case['stop_in_init']:
            sim.stop()

    def event(sim, i):
        log.append(('event', i))
        look(sim, 'event')
        if case['limit'] == 'real' and i == 1:
            time.sleep(0.021)
        if i + 1 == case['stop_at']:
            sim.stop()

    result = {'value': [1, 2], 'returns none': None, 'falsy': 0,
              'none': None}[case['fin']]

    def fin(sim, *args):
        log.append(('fin', sim.time))
        eq(args, (), 'extra arguments of the finalizer')
        look(sim, 'fin')
        return result

    kw = {}
    if case['fin'] != 'none':
        kw['fin'] = fin
    if given is not None:
        kw['context'] = given
    kw.update({'no': {}, 'events': {'max_num_events': 3},
               'time': {'max_sim_time': 1}, 'real': {'max_real_time': 0.02}}[
                   case['limit']])
    args = {'tuple': tuple, 'list': list, 'iter': iter}[case['args_form']](
        case['args'])
    if case['debug']:
        kw['debug'] = True
    it = build_simulation('cycle', init=init, init_args=args, **kw)
    if case['drain'] == 'run':
        res = run_simulation(it)
    elif case['drain'] == 'next':
        res = next(it)
        try:
            next(it)
        except StopIteration:
            pass
        else:
            raise Violation('a run has a second result')
    else:
        all_ = list(it)
        eq(len(all_), 1, 'number of results')
        res = all_[0]
    stats, context, ret = res

    n = case['events']
    if case['stop_at'] is not None:
        n = min(n, case['stop_at'])
    n = min(n, {'no': 99, 'events': 3, 'time': 5, 'real': 2}[case['limit']])
    if case['stop_in_init']:
        n = 0
    expected = [('init', tuple(case['args']))]
    expected += [('event', i) for i in range(n)]
    if case['fin'] != 'none':
        expected.append(('fin', max(0, (n - 1) // 2) if n else 0))
    if case['limit'] == 'real' and sum(x[0] == 'event' for x in log) < n:
        ctx.label('slow machine: skipped')
        return
    eq(log, expected, 'calls, in order')
    eq(stats.num_events_processed, n, 'events processed')
    req(ret is result, 'third result is %r, the finalizer returned %r', ret,
        result)
    req(context is state['context'], 'the context returned is %r, not the '
        'last one set', context)
    req(all(s is sims[0] for s in sims), 'handlers got different simulators')
    ctx.nt(n > 0 and (case['fin'] != 'none' or case['replace'] != 'no'))
    ctx.label('context ' + case['context'], 'replace ' + case['replace'],
              'limit ' + case['limit'])


def nested_strategy():
    return st.fixed_dictionaries({
        'outer': program_strategy(cancel=1, stop=True, max_scripts=3),
        'inner': program_strategy(cancel=1, stop=True, max_scripts=3),
        'at': st.integers(0, 6),
        'how': st.sampled_from(('nested', 'after', 'prepared', 'kernel')),
        'same_name': st.booleans(),
    })


def nested_body(case, ctx):
    """A run inside, after or prepared before another one does not touch it."""
    done = []

    def run_inner(outer, sim, seq):
        if len(outer.trace) - 1 == case['at'] and not done:
            t = sim.time
            inner = prepared or Run(case['inner'], context={'who': 'inner'},
                                    model_name=name)
            inner.execute()
            done.append(inner)
            eq(sim.time, t, 'time of the outer run after the inner one')

    name = 'nested' if case['same_name'] else 'inner model'
    prepared = None
    if case['how'] == 'prepared':
        prepared = Run(case['inner'], context={'who': 'inner'},
                       model_name=name)
    outer = Run(case['outer'], context={'who': 'outer'}, model_name='nested',
                hook=None if case['how'] == 'after' else run_inner)
    outer.execute()
    if not done:
        inner = prepared or Run(case['inner'], context={'who': 'inner'},
                                model_name=name)
        done.append(inner.execute())
    for run, prog, who in ((outer, case['outer'], 'outer'),
                           (done[0], case['inner'], 'inner')):
        ref = Reference(prog)
        check_order(run, ref)
        eq(run.cancels, ref.cancels, 'results of cancel()')
        eq(run.stats.sim_time, ref.now, f'time of the {who} run')
        eq(run.stats.num_events_processed, ref.served, 'events processed')
        eq(run.stats.stop_message, ref.stopped or '', 'stop message')
        req(run.stats.exit_reason in ref.reasons, 'exit reason %r',
            run.stats.exit_reason)
        eq(run.context, {'who': who}, 'context')
        eq(run.fin_ret, ('fin', len(ref.trace)), 'result of the finalizer')
        eq(len(run.fin_calls), 1, 'calls of the finalizer')
    ctx.nt(len(outer.trace) > 1 and len(done[0].trace) > 1)
    ctx.label(case['how'])


def default_context_strategy():
    return st.lists(st.lists(st.integers(0, 5), max_size=4), min_size=2,
                    max_size=5)


def default_context_body(case, ctx):
    """The default context is a fresh, empty dict in every run."""
    got = []
    for keys in case:
        def init(sim):
            eq(sim.context, {}, 'default context at the start')
            for k in keys:
                sim.schedule(k, put, (k,))

        def put(sim, k):
            sim.context[k] = sim.context.get(k, 0) + 1
        _, c, ret = run_simulation(build_simulation('default', init=init))
        eq(ret, None, 'result without a finalizer')
        eq(c, {k: keys.count(k) for k in keys}, 'context')
        got.append(c)
    eq(len({id(c) for c in got}), len(got), 'different contexts')
    ctx.nt(sum(bool(k) for k in case) > 1)


ERRORS = (KeyError, ValueError, TypeError, StopIteration, RuntimeError,
          AttributeError, IndexError, OverflowError, ZeroDivisionError,
          ArithmeticError, AssertionError, LookupError, NameError, OSError,
          FileNotFoundError, EOFError, NotImplementedError, RecursionError,
          MemoryError, UnicodeError, SchedulingInPastError,
          statistics.StatisticsError, queue.Empty, Warning, Exception)


def error_strategy():
    return st.tuples(st.integers(0, 10), st.integers(0, 10),
                     st.sampled_from(('event', 'init', 'fin')),
                     st.integers(-3, len(ERRORS) - 1)).map(list)


def error_body(case, ctx):
    """An error of the model reaches the caller."""
    n, at, where, k = case
    at = min(at, n)

    class Boom(Exception):
        pass
    error = None if k == -3 else (Boom if k < 0 else ERRORS[k])('why')
    seen = []

    def fail(sim):
        if error is None:       # the model's own mistake
            sim.schedule(-1, event)
        raise error

    def init(sim):
        if where == 'init':
            fail(sim)
        for i in range(n + 1):
            sim.schedule(i, event, (i,))

    def event(sim, i):
        seen.append(i)
        if where == 'event' and i == at:
            fail(sim)

    def fin(sim):
        if where == 'fin':
            fail(sim)
    try:
        run_simulation(build_simulation('boom', init=init, fin=fin))
    except Exception as e:
        if error is None:
            req(isinstance(e, SchedulingInPastError),
                'scheduling in the past raises %r', e)
        elif isinstance(error, StopIteration):
            # an error that ends an iteration: given on as a RuntimeError
            req(e is error or isinstance(e, RuntimeError) and
                error in (e.__cause__, e.__context__),
                'the error of the %s reaches the caller as %r', where, e)
        else:
            req(e is error, 'the %s raised %r, the caller gets %r', where,
                error, e)
    else:
        raise Violation(f'an error in the {where} is lost')
    eq(seen, {'init': [], 'event': list(range(at + 1)),
              'fin': list(range(n + 1))}[where], 'events run')
    ctx.nt(n > 0)
    ctx.label(type(error).__name__)


PROPERTY = Property(
    'C05',
    'Runs with every kind of context, initializer arguments, finalizer and '
    'way of draining the result; pairs of runs nested, prepared early or one '
    'after the other; non-trivial: events ran and there was a finalizer or a '
    'context change (life cycle), both runs had at least two events (pairs).',
    [
        Part('cycle', cycle_strategy, cycle_body, 2500, shards=3),
        Part('pairs', nested_strategy, nested_body, 1000, shards=3),
        Part('default_context', default_context_strategy,
             default_context_body, 200, shards=1),
        Part('errors', error_strategy, error_body, 600, shards=1),
    ])
