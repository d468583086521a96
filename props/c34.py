"""The entry points of the models: run_model() and the command lines."""
import ast
import contextlib
import io
import logging
import os
import random
import re
import statistics
import sys

import click
import numpy as np
from hypothesis import strategies as st

import pysim.models.pingpong.cli as pp_cli
import pysim.models.pingpong.handlers as pp_handlers
import pysim.models.rfid.cli as rf_cli
import pysim.models.rfid.configurator as rf_conf
import pysim.models.rfid.handlers as rf_handlers
import pysim.models.tag_time.cli as tt_cli
import pysim.models.tag_time.handlers as tt_handlers
from pysim.models.pingpong.objects import Config as PingConfig
from pysim.models.tag_time.objects import Config as TagConfig
from pysim.sim import (ExitReason, ModelLoggerConfig, build_simulation,
                       run_simulation)
from harness.core import Part, Property, close, eq, req
from . import rfid_sim as rs


@contextlib.contextmanager
def output():
    old, out = sys.stdout, io.StringIO()
    sys.stdout = out
    try:
        yield out
    finally:
        sys.stdout = old


def seed(n):
    random.seed(n)
    np.random.seed(n % 2 ** 32)


# --- the three models, run by their entry points and by the kernel -----------
def ping_config(c):
    return PingConfig(interval=c['interval'] * 100, loss_prob=c['loss'],
                      channel_delay=c['travel'], service_delay=c['distance'],
                      max_pings=c['size'])


def tag_config(c):
    p = 1 - c['loss'] / 2
    return TagConfig(probability=(p, 1, p, p), processing_time=(1, 2, 3, 4),
                     max_transmisions=c['size'], chunks_number=c['chunks'],
                     scenario=c['scenario'])


def by_kernel(init, config=None, model=None, fin=None, **kw):
    return run_simulation(build_simulation(
        'reference', init=init, init_args=() if model else (config,),
        context=model, fin=fin, **kw))


def outcome(model):
    s = model.statistics
    return {'time': model.reader.kernel.time,
            'tags': model.num_tags_simulated,
            'records': [[r.num_rounds_attained, len(r.inventory_history)]
                        for r in s.tags_history],
            'shares': [s.inventory_probability(), s.read_tid_probability(),
                       s.average_rounds_per_tag()]
            if s.tags_history else None}


def numbers(stats):
    return [stats.sim_time, stats.num_events_processed, stats.exit_reason]


def entry(name, c, **kw):
    """What the entry point of a model gives."""
    seed(c['seed'])
    kw.setdefault('logger_config', ModelLoggerConfig())
    log = kw.pop('logger_config')
    with output():
        if name == 'pingpong':
            with nothing_sent() as none:
                return dict(pp_cli.run_model(ping_config(c), log, **kw))
            return none
        if name == 'tag_time':
            return numbers(tt_cli.run_model(tag_config(c), log, **kw))
        model = rf_conf.create_model(rs.make_settings(c))
        rf_conf.run_model(model, log, **kw)
        return outcome(model)


def reference(name, c, **kw):
    """The same by the kernel; -> (result, time, number of events)."""
    seed(c['seed'])
    with output():
        if name == 'pingpong':
            res = []
            with nothing_sent() as none:
                by_kernel(pp_handlers.initialize, ping_config(c),
                          fin=lambda sim: res.append(dict(
                              pp_handlers.finalize(sim))), **kw)
            seed(c['seed'])
            stats, _, _ = by_kernel(pp_handlers.initialize, ping_config(c),
                                    **kw)
            res = res[0] if res else none
        elif name == 'tag_time':
            stats, _, _ = by_kernel(tt_handlers.initialize, tag_config(c),
                                    fin=tt_handlers.finalize, **kw)
            res = numbers(stats)
        else:
            model = rf_conf.create_model(rs.make_settings(c))
            stats, _, _ = by_kernel(rf_handlers.start_simulation,
                                    model=model, **kw)
            res = outcome(model)
    return res, stats.sim_time, stats.num_events_processed


@contextlib.contextmanager
def nothing_sent():
    """The mean of no pings: a run cut too early for any result."""
    try:
        yield 'no result'
    except statistics.StatisticsError:
        pass


MODELS = ['pingpong', 'tag_time', 'rfid', 'rfid']


@st.composite
def case_strategy(draw):
    c = draw(rs.settings_strategy(max_tags=3))
    c.update(size=draw(st.integers(1, 40)), chunks=draw(st.integers(1, 5)),
             scenario=draw(st.integers(1, 3)),
             loss=draw(st.sampled_from([0.0, .2, .5])))
    return c


# --- limits ------------------------------------------------------------------
@st.composite
def limits_strategy(draw):
    return {'model': draw(st.sampled_from(MODELS)),
            'case': draw(case_strategy()),
            'time': draw(st.one_of(st.none(), st.just(0.0),
                                   st.floats(.05, 1.2))),
            'events': draw(st.one_of(st.none(), st.just(0),
                                     st.floats(.05, 1.2))),
            'real': draw(st.sampled_from([None, None, 1000.0]))}


def limits_body(c, ctx):
    name, case = c['model'], c['case']
    full, time, events = reference(name, case)
    eq(entry(name, case), full, f'{name} without limits')
    kw = {}
    if c['time'] is not None:
        kw['max_sim_time'] = time * c['time']
    if c['events'] is not None:
        kw['max_num_events'] = (
            0 if c['events'] == 0 else max(1, int(events * c['events'])))
    if c['real'] is not None:
        kw['max_real_time'] = c['real']
    got = entry(name, case, **kw)
    want, end, n = reference(name, case, **kw)
    eq(got, want, f'{name} with the limits {kw}')
    ctx.nt(n < events)
    ctx.label(name, *(k for k in kw))


def real_strategy():
    return st.fixed_dictionaries({
        'model': st.sampled_from(['pingpong', 'tag_time', 'rfid']),
        'limit': st.sampled_from([0.0, 1e-9, .02, .1]),
        'case': case_strategy()})


def real_body(c, ctx):
    """A run that takes minutes ends at its limit of real time."""
    name = c['model']
    case = dict(c['case'], size=10 ** 9, num_tags=10 ** 6, adjust=False)
    seed(case['seed'])
    kw = dict(max_real_time=c['limit'])
    if name == 'tag_time':
        with output():
            stats = tt_cli.run_model(tag_config(case), ModelLoggerConfig(),
                                     **kw)
        eq(stats.exit_reason, ExitReason.REACHED_REAL_TIME_LIMIT, 'reason')
        req(stats.time_elapsed >= c['limit'], 'ends after %r s',
            stats.time_elapsed)
    else:
        entry(name, case, **kw)
    ctx.nt(True)
    ctx.label(name)


# --- logs --------------------------------------------------------------------
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR,
          logging.CRITICAL]
FORMAT = '{levelname} {simTime} {message}'


def log_strategy():
    return st.fixed_dictionaries({
        'model': st.sampled_from(MODELS), 'case': case_strategy(),
        'level': st.sampled_from(LEVELS),
        'file': st.booleans(), 'events': st.integers(5, 120)})


def log_body(c, ctx):
    texts = []
    for run in (entry, reference):
        name = os.path.join(os.getcwd(), 'model.log')
        kw = dict(level=c['level'], file_level=c['level'], fmt=FORMAT)
        if c['file']:
            kw['file_name'] = name
        run(c['model'], c['case'], logger_config=ModelLoggerConfig(**kw),
            max_num_events=c['events'])
        eq(os.path.exists(name), c['file'], 'is there a log file')
        if c['file']:
            with open(name) as f:
                texts.append(f.read().splitlines())
            os.remove(name)
    if c['file']:
        drop = re.compile(r'tag id=\d+|метки \d+|\btag_id=\d+|0x[0-9a-f]+')
        got, want = ([drop.sub('', x) for x in t] for t in texts)
        eq(len(got), len(want), f'lines in the log of {c["model"]}')
        for a, b in zip(got, want):
            eq(a.split()[:2], b.split()[:2], 'level and time of a record')
    ctx.nt(bool(c['file'] and texts[0]))
    ctx.label(c['model'], 'file' if c['file'] else 'no file')


# --- command lines ------------------------------------------------------------
# options: values for a quick run
OPTIONS = {
    'pingpong': {
        '--interval': ['3.5', '20'], '--channel_delay': ['1', '4.5'],
        '--service_delay': ['0', '2.5'], '--loss_prob': ['0', '.5'],
        '--max_pings': ['20', '300']},
    'tag_time': {
        '--probability': ['1 .5 .8 .9', '1 1 1 1'],
        '--processing_time': ['1 2 3 4', '5 0 1 2.5'],
        '--max_transmisions': ['10', '300'],
        '--chunks_number': ['1', '4'], '--scenario': ['2', '3', '3']},
    'rfid': {
        '--speed': ['120', '90'], '--encoding': ['1', '4', '8'],
        '--tari': ['6.25', '18.75', '25'], '--tid-word-size': ['8', '16'],
        '--altitude': ['4.0', '7.0'], '--reader-offset': ['2.0', '4.0'],
        '--tag-offset': ['1.0', '3.0'], '--power': ['27', '32'],
        '--num-tags': ['2', '3'], '--delta': ['.1', '.9'],
        '--useadjust': [None]},
}
# defaults that take too long
NEEDED = {'pingpong': ['--max_pings'], 'tag_time': [],
          'rfid': ['--num-tags', '--speed']}
README = {'--interval': '10.0', '--channel_delay': '2.0',
          '--service_delay': '1.0', '--loss_prob': '0.1',
          '--max_pings': '1000000'}
COMMAND = {'pingpong': (pp_cli.cli_run, []), 'tag_time': (tt_cli.cli_run, []),
           'rfid': (rf_cli.cli, ['start'])}


@st.composite
def command_strategy(draw):
    name = draw(st.sampled_from(['pingpong', 'tag_time', 'rfid']))
    given = {}
    for k, vs in OPTIONS[name].items():
        needed = k in NEEDED[name] and (
            k != '--speed' or draw(st.integers(0, 3)) > 0)
        if needed or draw(st.integers(0, 2)) == 0:
            given[k] = draw(st.sampled_from(vs))
    return {'model': name, 'given': given,
            'order': draw(st.randoms(use_true_random=False).map(
                lambda r: r.random())),
            'seed': draw(st.integers(0, 2 ** 32 - 1))}


def said(name, args, n=0):
    """Lines of the output without those with measured time."""
    cmd, first = COMMAND[name]
    seed(n)
    with output() as out:
        cmd.main(first + args, standalone_mode=False)
    return [x[:x.index('{')] + repr(sorted(ast.literal_eval(
        x[x.index('{'):]).items())) if '{' in x else
            re.sub(r'time_elapsed=[^,)]*', '', x)
            for x in out.getvalue().splitlines() if 'ремя выполнения' not in x
            and '0x' not in x]


_help = {}


def help_defaults(name):
    """Default values that --help tells."""
    if name not in _help:
        cmd, first = COMMAND[name]
        cmd = cmd.commands['start'] if first else cmd
        text = cmd.get_help(click.Context(cmd, terminal_width=400,
                                          max_content_width=400))
        found = {}
        for line in re.split(r'\n(?=  -)', text):
            m = re.match(r'  -\w+, (--[\w-]+)', line)
            d = re.search(r'\[default:\s*([^\]]*)\]', line)
            if m:
                found[m[1]] = ' '.join(d[1].split()) if d else None
        _help[name] = found
    return _help[name]


def words(option, value):
    if value is None:
        return [option]
    return [option] + re.sub(r'[(),]', ' ', value).split()


def command_body(c, ctx):
    name, given = c['model'], c['given']
    told = help_defaults(name)
    short, full, n = [], [], 0
    items = sorted(OPTIONS[name])
    random.Random(c['order']).shuffle(items)
    for k in items:
        if k in given:
            short += words(k, given[k])
            full += words(k, given[k])
            continue
        if k == '--useadjust':      # a flag
            continue
        req(told.get(k), 'the help of %s tells no default of %s', name, k)
        if name == 'pingpong':
            eq(float(told[k]), float(README[k]), f'default of {k} in README')
        full += words(k, told[k])
        n += 1
    eq(said(name, short, c['seed']), said(name, full, c['seed']),
       f'output of {name} {" ".join(short)} and of {" ".join(full)}')
    ctx.nt(n > 0)
    ctx.label(name)


PROPERTY = Property(
    'C34',
    'The entry points run_model() of the three models with random limits '
    'and log settings, compared with the same run made by the kernel; '
    'endless runs with a limit of real time; command lines without some of '
    'their options, compared with the command lines that give the defaults '
    'told by the help.  Non-trivial: a limit cut the run; the log is not '
    'empty; an option was left out.',
    [Part('limits', limits_strategy, limits_body, 120, 2500, shards=4),
     Part('real', real_strategy, real_body, 24, 200, shards=2),
     Part('log', log_strategy, log_body, 80, 1500, shards=2),
     Part('command', command_strategy, command_body, 90, 1500, shards=4)],
    ['Defaults that take long (a million pings, 40 tags) are not run.',
     'An endless run must end within a minute of its limit.'])
