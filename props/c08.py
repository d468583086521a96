import math
import random

from hypothesis import strategies as st

from harness.core import Part, Property, close, eq, req
from pysim.models.pingpong.cli import run_model
from pysim.models.pingpong.handlers import finalize, initialize
from pysim.models.pingpong.objects import Config
from pysim.sim import (ExitReason, ModelLoggerConfig, build_simulation,
                       run_simulation)


def delay():
    return st.one_of(st.sampled_from([0.0, 1.0, 2.0, 10.0]),
                     st.integers(0, 800).map(lambda n: n / 8))


def strategy():
    return st.fixed_dictionaries({
        'interval': delay(), 'channel': delay(), 'service': delay(),
        'loss': st.one_of(st.sampled_from([0.0, 1.0, .5, .1]),
                          st.floats(0, 1, allow_nan=False, width=32)),
        'pings': st.one_of(st.integers(1, 6), st.integers(1, 150)),
        'seed': st.integers(0, 2 ** 32),
    })


def config(c, **kw):
    d = dict(interval=c['interval'], channel_delay=c['channel'],
             service_delay=c['service'], loss_prob=c['loss'],
             max_pings=c['pings'])
    d.update(kw)
    return Config(**d)


def counters(client, sent, good, *missed):
    got = (client.num_pings_sent, client.num_acknowledged,
           client.num_missed, client.num_bad_pongs)
    if got not in [(sent, good, n, 0) for n in missed]:
        eq(got, (sent, good, missed[0], 0),
           'pings sent, answered, missed and answered wrong')


def body(case, ctx):
    random.seed(case['seed'])
    stats, model, res = run_simulation(build_simulation(
        'PingPong', init=initialize, init_args=(config(case),),
        fin=finalize))
    n = case['pings']
    acked = (1 - res.miss_rate) * n
    k = round(acked)
    close(acked, k, 'number of answered pings', abs_=1e-6)
    req(0 <= k <= n, '%d of %d pings answered', k, n)
    if case['loss'] == 0:
        eq(k, n, 'answered pings without losses')
    if case['loss'] == 1:
        eq(k, 0, 'answered pings when all are lost')
    eq(stats.exit_reason, ExitReason.STOPPED, 'exit reason')
    close(stats.sim_time,
          n * (case['channel'] + case['interval']) +
          k * (case['service'] + case['channel']),
          f'duration of {n} pings, {k} of them answered')
    close(res.avg_interval, case['interval'], 'average interval')
    close(res.avg_delay, case['channel'], 'average channel delay')

    random.seed(case['seed'])
    again = run_model(config(case), ModelLoggerConfig())
    eq(again, res, 'result of the same run by run_model()')
    counters(model.client, n, k, n - k)
    ctx.nt(0 < k < n)
    ctx.label('all lost' if k == 0 else 'none lost' if k == n else 'mixed')


# --------------------------------------------------------------------------
def limited_strategy():
    return st.fixed_dictionaries({
        'interval': delay(), 'channel': delay(),
        'service': delay(), 'loss': st.sampled_from([0.0, 1.0]),
        'pings': st.one_of(st.none(), st.integers(0, 40)),
        'time': st.integers(0, 16000),
    })


def chain(c):
    """The only possible history: (time, kind) of every event."""
    t, sent = 0.0, 0
    while True:
        if c['pings'] is not None and sent >= c['pings']:
            yield t, 'end'
            return
        sent += 1
        yield t, 'ping'
        yield t, 'to server'
        t += c['channel']
        yield t, 'lost' if c['loss'] else 'received'
        if not c['loss']:
            t += c['service']
            yield t, 'served'
            yield t, 'to client'
            t += c['channel']
            yield t, 'pong'
        t += c['interval']


def limited_body(case, ctx):
    """Histories cut by a limit: a ping without an answer yet is missed."""
    if case['interval'] == case['channel'] == case['service'] == 0:
        case = dict(case, interval=1.0)
    if case['loss'] and case['interval'] == case['channel'] == 0:
        case = dict(case, interval=1.0)
    period = case['interval'] + (1 if case['loss'] else 2) * case['channel'] \
        + (0 if case['loss'] else case['service'])
    max_time = min(period + case['time'] / 8, period * 60)
    ran, t = [], 0.0
    for time, kind in chain(case):
        if t > max_time:
            break
        t = time
        ran.append(kind)
    some = case['pings'] != 0
    stats, model, res = run_simulation(build_simulation(
        'PingPong', init=initialize, init_args=(config(case),),
        fin=finalize if some else None, max_sim_time=max_time))
    close(stats.sim_time, t, 'time of the last event')
    if not some:    # no pings, no averages
        eq(stats.exit_reason, ExitReason.STOPPED, 'exit reason')
        counters(model.client, 0, 0, 0)
        ctx.label('no pings')
        return
    if 'end' not in ran:
        eq(stats.exit_reason, ExitReason.REACHED_SIM_TIME_LIMIT,
           'exit reason')
    close(res.miss_rate, 1 - ran.count('pong') / ran.count('ping'),
          'share of missed pings', abs_=1e-12)
    close(res.avg_interval, case['interval'], 'average interval')
    close(res.avg_delay, case['channel'], 'average channel delay')
    sent, good = ran.count('ping'), ran.count('pong')
    # a ping counts as missed at the latest when the client's next turn comes
    turns = sent + ('end' in ran)
    counters(model.client, sent, good,
             max(0, turns - 1) if case['loss'] else 0, ran.count('lost'))
    ctx.nt(ran.count('ping') > 2)
    ctx.label('cut' if 'end' not in ran else 'complete')


# --------------------------------------------------------------------------
def rate_strategy(n=4000):
    return st.fixed_dictionaries({
        'n': st.just(n),
        'loss': st.one_of(st.sampled_from([.5, .1, .9, .25]),
                          st.integers(1, 99).map(lambda n: n / 100)),
        'seed': st.integers(0, 2 ** 32)})


def rate_body(case, ctx):
    random.seed(case['seed'])
    n, p = case['n'], case['loss']
    res = run_model(Config(interval=1.0, channel_delay=.5, service_delay=.25,
                           loss_prob=p, max_pings=n), ModelLoggerConfig())
    close(res.miss_rate, p, f'share of missed pings of {n}', rel=0,
          abs_=(7 if n < 10 ** 4 else 5.5) * math.sqrt(p * (1 - p) / n) + 6 / n)
    ctx.nt(0 < res.miss_rate < 1)


PROPERTY = Property(
    'C08',
    'Ping-pong runs with generated delays, loss probability, number of pings '
    'and limits; the duration, the averages and the miss rate are compared '
    'with the history that the answered pings determine (exactly for loss 0 '
    'and 1), and over 4000 pings with the loss probability (7 sigma), '
    'over 50000 pings with 5.5 sigma; '
    'non-trivial: some pings are lost and some answered, or more than two '
    'pings before the cut.',
    [Part('runs', strategy, body, 1500, shards=3),
     Part('limits', limited_strategy, limited_body, 1500, shards=3),
     Part('rate', rate_strategy, rate_body, 60, thorough=1000, shards=4),
     Part('rate_long', lambda: rate_strategy(50000), rate_body, 6,
          shards=3)])
