"""A run is determined by its configuration and the seed."""
import hashlib
import json
import logging
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import pysim.models.pingpong.handlers as pp_handlers
from pysim.models.pingpong.objects import Config as PingConfig
import pysim.models.rfid.handlers as rf_handlers
import pysim.models.tag_time.mc as mc
import pysim.models.tag_time.handlers as tt_handlers
from pysim.models.tag_time.objects import Config as TagConfig
from pysim.sim import ModelLoggerConfig, build_simulation, run_simulation
from harness import env
from harness.core import Part, Property, eq, req
from . import rfid_sim as rs


# --- what a run was like -----------------------------------------------------
def commands(tr, first=None):
    """Everything said on the air."""
    ids = {}
    out = []
    for cmd in tr.commands[:first]:
        heard = []
        for tag, before, after, reply in cmd.heard:
            n = ids.setdefault(tag.tag_id, len(ids))
            heard.append([n, before, after,
                          str(reply.reply) if reply else None])
        out.append([cmd.time, cmd.command.encode(), str(cmd.state), cmd.q,
                    heard, [[t, str(f.reply)] for t, f in cmd.delivered],
                    [str(p) for _, _, _, p in cmd.snapshot]])
    return out


def rfid(c, traced=True, **limits):
    tr = rs.run(c, trace=traced, **limits)
    s = tr.result[1].statistics
    out = {'time': tr.stats.sim_time,
           'exit': tr.stats.exit_reason.name,
           'tags': [[r.tag.epc, r.tag.tid, r.num_rounds_attained,
                     [[x.round_index, float(x.ber), float(x.snr),
                       [float(y) for y in x.tag_pos], x.read_tid]
                      for x in r.inventory_history]]
                    for r in s.tags_history]}
    if traced:
        out['air'] = commands(tr)
    return out


def pingpong(c):
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    stats, _, res = run_simulation(build_simulation(
        'PingPong', init=pp_handlers.initialize, init_args=(PingConfig(
            interval=c['interval'] * 100, channel_delay=c['travel'],
            service_delay=c['distance'], loss_prob=.3,
            max_pings=c['num_tags'] * 20),), fin=pp_handlers.finalize))
    return [stats.sim_time, stats.num_events_processed, res.avg_interval,
            res.avg_delay, res.miss_rate]


def tag_time(c):
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    stats, _, _ = run_simulation(build_simulation(
        'TagTime', init=tt_handlers.initialize, init_args=(TagConfig(
            probability=(.8, .7, .9, .6), processing_time=(1, 2, 3, 4),
            max_transmisions=c['num_tags'] * 10, chunks_number=3,
            scenario=1 + c['per_target'] % 3),), fin=tt_handlers.finalize))
    return [stats.sim_time, stats.num_events_processed]


MODELS = {'rfid': rfid, 'pingpong': pingpong, 'tag_time': tag_time}


@st.composite
def strategy(draw):
    return {'a': draw(rs.settings_strategy(max_tags=4)),
            'b': draw(rs.settings_strategy(max_tags=3)),
            'other': draw(st.sampled_from(['rfid', 'rfid', 'pingpong',
                                           'tag_time', None])),
            'model': draw(st.sampled_from(['rfid', 'rfid', 'rfid',
                                           'pingpong', 'tag_time']))}


def differ(a, b, path=''):
    """Where two results differ first."""
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            d = differ(a[k], b[k], f'{path}/{k}')
            if d:
                return d
    elif isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}/{i}')
            if d:
                return d
        if len(a) != len(b):
            return f'{path}: {len(a)} and {len(b)} entries'
    elif a != b:
        return f'{path}: {a!r} and {b!r}'
    return None


def same(a, b, what):
    d = differ(a, b)
    req(d is None, '%s: %s', what, d)


def read(result):
    return any(t[3] for t in result['tags'])


def repeat_body(c, ctx):
    run = MODELS[c['model']]
    first = run(c['a'])
    if c['other']:
        MODELS[c['other']](c['b'])
    same(run(c['a']), first, f'{c["model"]} after {c["other"]}')
    ctx.nt(read(first) if c['model'] == 'rfid' else True)
    ctx.label(c['model'])


def silent_body(c, ctx):
    """Observation changes nothing: statistics of power, logging, listeners
    of the reader."""
    c = dict(c, power_stats=False)
    plain = rfid(c, traced=False)
    traced = rfid(c)
    with_power = rfid(dict(c, power_stats=True))
    same(with_power, traced, 'collecting power statistics')
    name = os.path.join(os.getcwd(), 'run.log')
    logged = rfid(c, logger_config=ModelLoggerConfig(
        level=logging.DEBUG, file_name=name))
    req(os.path.getsize(name) > 0, 'nothing is logged')
    os.remove(name)
    same(logged, traced, 'logging')
    traced.pop('air')
    same(traced, plain, 'listening to the reader')
    ctx.nt(read(plain))


def monte_carlo(c):
    np.random.seed(c['seed'] % 2 ** 32)
    return mc.run_multiple_models(
        1 + c['per_target'] % 3, [[.8, .7, .9, .6]] * 2,
        [[1., 2., 3., 4.]] * 2, 5 * c['num_tags'])


@st.composite
def seeds_strategy(draw):
    return {'a': draw(rs.settings_strategy(max_tags=3)),
            'model': draw(st.sampled_from(['rfid', 'rfid', 'pingpong',
                                           'tag_time', 'monte_carlo']))}


def seeds_body(c, ctx):
    """Other seeds give other draws: no run fixes the seed for itself."""
    run = dict(MODELS, monte_carlo=monte_carlo)[c['model']]
    if c['model'] == 'rfid':
        outs = [rfid(dict(c['a'], seed=c['a']['seed'] + 977 * k))['air']
                for k in range(4)]
        # what the tags said, whose numbers are drawn from 65536
        outs = [[h[3] for cmd in o for h in cmd[4] if h[3]] for o in outs]
        if not all(outs):
            ctx.label('no replies')
            return
    else:
        a = dict(c['a'], num_tags=3)
        outs = [run(dict(a, seed=a['seed'] + 977 * k)) for k in range(16)]
    req(any(o != outs[0] for o in outs), 'runs of %s with %d different '
        'seeds are all the same: %.200r', c['model'], len(outs), outs[0])
    if c['model'] == 'monte_carlo':
        req(any(o[0] != o[1] for o in outs),
            'all models of a series are the same')
    ctx.label(c['model'])
    ctx.nt(True)


def cut_strategy():
    return st.tuples(rs.settings_strategy(max_tags=4), st.floats(.1, .9),
                     st.booleans()).map(list)


def cut_body(case, ctx):
    """A run cut by a limit is the beginning of the run without it."""
    c, share, by_events = case
    full = rs.run(c)
    if by_events:
        limit = dict(max_num_events=max(
            1, int(full.stats.num_events_processed * share)))
    else:
        limit = dict(max_sim_time=full.stats.sim_time * share)
    part = rs.run(c, **limit)
    n = len(part.commands)
    req(n <= len(full.commands), 'more commands in a shorter run')
    same(commands(part, n - 1), commands(full, n - 1), 'the cut run')
    if by_events:
        eq(part.stats.num_events_processed, limit['max_num_events'], 'events')
    else:
        # it goes on until the limit
        at = next((x.time for x in full.commands[n:]), None)
        req(at is None or at >= limit['max_sim_time'] - 1e-9,
            'the run cut at %r lacks the command at %r',
            limit['max_sim_time'], at)
    ctx.nt(n > 5)


# --- a process of its own for every history ----------------------------------
EXTRA = {
    'reader_antenna_x': [3.0, 5.0, 7.5], 'reader_antenna_z': [3.0, 5.0, 6.0],
    'tag_antenna_x': [1.0, 5.0], 'tag_antenna_z': [0.0, .5],
    'reader_antenna_direction': [[0, 0, -1], [0, 1, -1]],
    'reader_power': [27.0, 31.5, 35.0], 'reader_antenna_gain': [3.0, 6.0],
    'reader_cable_loss': [-2.0, -5.0], 'tag_antenna_gain': [1.0, 3.0],
    'tag_sensitivity': [-18.0, -12.0], 'tag_modulation_loss': [-12.0, -6.0],
    'frequency': [8.6e8, 9.1e8], 'permittivity': [15.0, 3.0],
    'conductivity': [.03, .5], 'polarization_loss': [-3.0, 0.0],
    'ground_reflection_type': ['reflection', 'const'],
    'reader_antenna_switching_interval': [.03, 10.0],
    'reader_always_start_with_first_antenna': [True, False],
    'epc_bitlen': [96, 128, 32], 'sel': ['ALL', 'NOT_SEL'],
}


@st.composite
def fresh_strategy(draw):
    def one():
        c = draw(rs.settings_strategy(max_tags=3))
        c['extra'] = {k: draw(st.sampled_from(v)) for k, v in EXTRA.items()
                      if draw(st.booleans())}
        return c
    return {'a': one(), 'b': [one() for _ in range(draw(st.integers(1, 3)))],
            'how': draw(st.sampled_from(['run', 'run', 'build', 'cut']))}


def with_sel(c):
    import pysim.models.rfid.epcstd as std
    extra = dict(c['extra'])
    if 'sel' in extra:
        extra['sel'] = std.SelFlag[extra['sel']]
    return dict(c, extra=extra)


def in_child(fn):
    """The value of fn(), computed in a fork of this process, which itself
    never builds or runs a model."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = json.dumps(fn())
            except BaseException:
                import traceback
                out = json.dumps({'raised': traceback.format_exc()})
            with os.fdopen(w, 'w') as f:
                f.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    out = json.loads(text)
    if isinstance(out, dict) and 'raised' in out:
        req('/pysim/' not in out['raised'] or
            'AssertionError' in out['raised'], 'raised %s',
            out['raised'][-1500:])
        raise RuntimeError(out['raised'])
    return out


def fresh_body(c, ctx):
    a, others = with_sel(c['a']), [with_sel(b) for b in c['b']]

    def after():
        if c['how'] == 'build':
            import pysim.models.rfid.configurator as conf
            kept = [conf.create_model(rs.make_settings(b)) for b in others]
            out = rfid(a)
            return out if kept else None
        for b in others:
            if c['how'] == 'cut':
                rs.run(b, max_sim_time=rs.horizon(b) * .4)
            else:
                rs.run(b)
        return rfid(a)
    alone = in_child(lambda: rfid(a))
    same(in_child(after), alone, f'after other models ({c["how"]})')
    ctx.label(c['how'])
    ctx.nt(read(alone))


# --- several processes -------------------------------------------------------
def digest(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()


def processes_strategy():
    return st.fixed_dictionaries({
        'hash': st.integers(1, 4000),
        'cases': st.lists(rs.settings_strategy(max_tags=3), min_size=3,
                          max_size=6)})


def processes_body(c, ctx):
    want = [[digest(m(x)) for m in MODELS.values()] for x in c['cases']]
    e = dict(os.environ, PYTHONHASHSEED=str(c['hash']),
             PYTHONPATH=env.VERIF, VERIF_REPO=env.REPO)
    p = subprocess.run([sys.executable, '-c', 'import harness.env;'
                        'import props.c30; props.c30.child()'],
                       input=json.dumps(c['cases']), env=e, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    got = json.loads(p.stdout.splitlines()[-1])
    eq(got, want, 'results in another process')
    ctx.nt(any(read(rfid(x, traced=False)) for x in c['cases']))


def child():
    cases = json.loads(sys.stdin.read())
    print(json.dumps([[digest(m(x)) for m in MODELS.values()]
                      for x in cases]))


PROPERTY = Property(
    'C30',
    'Runs of the three models repeated with the same seed: after other '
    'runs, after other models that differ in every setting (each history in '
    'a process of its own), in another process with another hash seed, with and without '
    'observers, and cut by a limit; and with several seeds, which must not all give the same.  Everything said on the air and all '
    'statistics are compared exactly.  Non-trivial: tags were read; more '
    'than five commands before the cut.',
    [Part('repeat', strategy, repeat_body, 90, 1500, shards=4),
     Part('silent', lambda: rs.settings_strategy(max_tags=4), silent_body,
          40, 800, shards=4),
     Part('cut', cut_strategy, cut_body, 60, 1200, shards=4),
     Part('seeds', seeds_strategy, seeds_body, 40, 600, shards=4),
     Part('fresh', fresh_strategy, fresh_body, 48, 1000, shards=4),
     Part('processes', processes_strategy, processes_body, 8, 100,
          shards=4)],
    ['The random generators of Python and NumPy are both seeded before a '
     'run; identifiers of tags, which count on through the process, are '
     'not compared.'])
