"""Traffic: the tags of one or more generators enter, move and leave."""
import math

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.configurator as conf
import pysim.models.rfid.handlers as handlers
from pysim.models.rfid.objects import Generator
from pysim.sim import build_simulation, run_simulation
from harness.core import Part, Property, close, eq, req
from . import rfid_sim as rs

EPS = 1e-9


@st.composite
def generator(draw):
    kind = draw(st.sampled_from(['const', 'list', 'list', 'random']))
    gaps = st.one_of(st.floats(.004, .09), st.sampled_from([.01, .02, .05]))
    return {
        'kind': kind,
        'gaps': draw(st.lists(gaps, min_size=1,
                              max_size=1 if kind != 'list' else 8)),
        'max': draw(st.one_of(st.integers(0, 6), st.just(-1))),
        'speed': draw(st.one_of(st.floats(.3, 40),
                                st.floats(.3, 1),
                                st.sampled_from([5.0, 10.0, 20.0]))),
        'travel': draw(st.one_of(st.floats(.01, 2),
                                 st.floats(.01, .1),
                                 st.sampled_from([.5, 1.0, 2.0]))),
        'pos': draw(st.lists(st.floats(-4, 4), min_size=3, max_size=3)),
        'direction': draw(st.lists(st.integers(-4, 4).map(float), min_size=3,
                                   max_size=3).filter(any)),
        'deaf': draw(st.sampled_from([True, True, False])),
    }


@st.composite
def strategy(draw):
    c = draw(rs.settings_strategy(max_tags=1, power_stats=None))
    c['gens'] = draw(st.lists(generator(), min_size=1, max_size=3))
    c['max_tags'] = draw(st.one_of(st.none(), st.integers(1, 12)))
    c['limit'] = draw(st.floats(.05, .5))
    c['probes'] = draw(st.lists(st.floats(0, .5), max_size=6))
    return c


class Watch:
    def __init__(self):
        self.born = []      # (time, generator number, tag)
        self.values = []    # (generator number, time, gap)
        self.gone = []      # (time, tag)


def make(c, w):
    model = conf.create_model(rs.make_settings(c))
    model.generators.clear()
    model.max_tags_num = c['max_tags']
    clock = {'sim': None}

    def now():
        return clock['sim'].time if clock['sim'] else 0.0

    for k, gc in enumerate(c['gens']):
        g = Generator()
        g.pos0 = np.array(gc['pos'])
        g.direction = np.array(gc['direction'])
        g.tag_antenna_direction = np.array([0, 0, 1])
        g.velocity, g.travel_distance = gc['speed'], gc['travel']
        g.max_tags_generated = gc['max']
        g.epc_prefix = g.tid_prefix = '%04X' % k
        g.sensitivity = 500.0 if gc['deaf'] else -18.0

        def gap(k=k, gc=gc, rng=np.random.default_rng(c['seed'] + k),
                i=[0]):
            i[0] += 1
            v = gc['gaps'][(i[0] - 1) % len(gc['gaps'])]
            if gc['kind'] == 'random':
                v = float(rng.exponential(v)) + 1e-4
            w.values.append((k, now(), v))
            return v
        g.set_interval(gap)
        create = g.create_tag

        def create_tag(m, create=create, k=k):
            tag = create(m)
            w.born.append((now(), k, tag))
            return tag
        g.create_tag = create_tag
        model.generators.append(g)
    close_record = model.statistics.close_tag_record

    def close_tag_record(tag):
        w.gone.append((now(), tag))
        return close_record(tag)
    model.statistics.close_tag_record = close_tag_record
    return model, clock


def check_tags(c, w, model, time):
    """The tags of the model at a moment."""
    left = {id(tag) for _, tag in w.gone}
    eq([t.tag_id for t in model.tags],
       [t.tag_id for _, _, t in w.born if id(t) not in left],
       'tags in the model')
    for at, k, tag in w.born:
        if id(tag) in left:
            continue
        gc = c['gens'][k]
        life = gc['travel'] / gc['speed']
        req(time <= at + life + EPS, 'tag of generator %d, born at %r, is '
            'still there at %r', k, at, time)
        seen = tag.last_pos_update
        req(at - EPS <= seen <= time + EPS and
            time - seen <= c['update'] * (1 + EPS) + EPS,
            'position of a tag at %r is of the time %r', time, seen)
        d = np.array(gc['direction']) / math.sqrt(
            sum(x * x for x in gc['direction']))
        for got, x0, dx in zip(tag.pos, gc['pos'], d):
            close(float(got), x0 + dx * gc['speed'] * (seen - at),
                  f'position of a tag of generator {k}, '
                  f'{seen - at} s after its birth', 1e-9, 1e-9)


def body(c, ctx):
    w = Watch()
    model, clock = make(c, w)
    rs.seed(c['seed'])
    probed = []

    def probe(sim):
        probed.append(sim.time)
        check_tags(c, w, model, sim.time)

    def init(sim):
        clock['sim'] = sim
        handlers.start_simulation(sim)
        for t in c['probes']:
            sim.schedule(t, probe)

    stats, context, _ = run_simulation(build_simulation(
        'RFID', init=init, context=model, max_sim_time=c['limit'],
        max_num_events=60000))
    end = stats.sim_time
    req(context is model, 'the context is not the model')
    check_tags(c, w, model, end)
    # births: the gaps between them are those drawn, the first one included
    for k, gc in enumerate(c['gens']):
        mine = [(t, tag) for t, j, tag in w.born if j == k]
        drawn = [(t, v) for j, t, v in w.values if j == k]
        last = 0.0
        for t, tag in mine:
            req(any(abs(last + v - t) <= EPS for at, v in drawn
                    if at == last),
                'generator %d made a tag at %r; the previous one was made at '
                '%r and the intervals drawn then were %r', k, t, last,
                [v for at, v in drawn if at == last])
            last = t
        n = len(mine)
        if gc['max'] >= 0:
            req(n <= gc['max'], 'generator %d made %d tags, at most %d are '
                'allowed', k, n, gc['max'])
        if gc['max'] < 0 or n < gc['max']:
            # the next one is due after the end
            req(any(at == last and last + v >= end - EPS for at, v in drawn),
                'generator %d made no tag after %r, the run ended at %r, the '
                'intervals drawn then were %r', k, last, end,
                [v for at, v in drawn if at == last])
        eq([tag.epc[:4] for _, tag in mine], ['%04X' % k] * n,
           'prefix of the tags')
        eq(len({tag.epc for _, tag in mine}), n, 'identifiers')
    ids = [tag.tag_id for _, _, tag in w.born]
    eq(len(set(ids)), len(ids), 'numbers of tags')
    # everyone leaves at the end of its path
    home = {id(tag): (t, k) for t, k, tag in w.born}
    for t, tag in w.gone:
        at, k = home[id(tag)]
        gc = c['gens'][k]
        close(t, at + gc['travel'] / gc['speed'], 'time of leaving', EPS, EPS)
    times = [t for t, _ in w.gone]
    eq(times, sorted(times), 'times of leaving')
    for t, k, tag in w.born:
        gc = c['gens'][k]
        if t + gc['travel'] / gc['speed'] < end - EPS:
            req(any(x is tag for _, x in w.gone), 'a tag born at %r did not '
                'leave before %r', t, end)
    # counters and the end of the run
    eq(model.num_tags_simulated, len(w.gone), 'tags that left, as counted')
    s = model.statistics
    eq(s.num_tags_created, len(w.born), 'tags created, as counted')
    eq([g.num_tags_generated for g in model.generators],
       [sum(j == k for _, j, _ in w.born) for k in range(len(c['gens']))],
       'tags of each generator, as counted')
    eq([r.tag.tag_id for r in s.tags_history],
       [tag.tag_id for _, tag in w.gone], 'finished records')
    if c['max_tags'] is not None and len(w.gone) >= c['max_tags']:
        eq(len(w.gone), c['max_tags'], 'tags that left when the run ended')
        eq(stats.exit_reason.name, 'STOPPED', 'end of the run')
        close(end, times[-1], 'time of the end', EPS, EPS)
    else:
        req(end > c['limit'], 'the run ended at %r, before its limit %r',
            end, c['limit'])
        eq(stats.exit_reason.name, 'REACHED_SIM_TIME_LIMIT', 'end of the run')
    ctx.nt(len(c['gens']) > 1 and len(w.gone) > 2)
    ctx.label(*[n for n, f in (
        ('stopped by the number of tags', stats.exit_reason.name == 'STOPPED'),
        ('a generator at its limit', any(
            0 < g.max_tags_generated == g.num_tags_generated
            for g in model.generators)),
        ('tags left at the end', model.tags), ('probes', probed),
        ('an idle generator', any(g['max'] == 0 for g in c['gens']))) if f])


PROPERTY = Property(
    'C35',
    'Models with one to three generators (own intervals - constant, listed '
    'or random -, speeds, paths, limits) under a limit of tags or of time, '
    'inspected at generated moments and at the end.  Non-trivial: several '
    'generators and at least three tags that left.',
    [Part('traffic', strategy, body, 160, 3000, shards=8)],
    ['Intervals are positive; directions are not zero.'])
