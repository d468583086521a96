import ast
import contextlib
import io
import itertools
import json
import re
import math
import os
import random
import shutil
import sys

import numpy as np
from hypothesis import strategies as st

import pysim.models.pingpong.cli as pp_cli
import pysim.models.pingpong.processing as pp_proc
import pysim.models.rfid.cli as rf_cli
import pysim.models.rfid.configurator as rf_conf
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.processing as rf_proc
import pysim.models.tag_time.cli as tt_cli
from harness.core import Part, Property, Violation, close, eq, req
from pysim.sim import ModelLoggerConfig


@contextlib.contextmanager
def output():
    """What this process prints."""
    old, out = sys.stdout, io.StringIO()
    sys.stdout = out
    try:
        yield out
    finally:
        sys.stdout = old


def cells(text):
    """Rows of the tables in a text."""
    return [[c.strip() for c in line.strip().strip('|').split('|')]
            for line in text.splitlines() if line.strip().startswith('|')]


def value(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text


def listed(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def cleanup():
    shutil.rmtree('results', ignore_errors=True)


# --- ping-pong -------------------------------------------------------------
PP = {'interval': '-i', 'channel_delay': '-ch', 'service_delay': '-s',
      'loss_prob': '-l', 'max_pings': '-mp'}
# README; the default of --max_pings takes too long
PP_DEFAULT = {'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0,
              'loss_prob': .1}
PP_LONG = {k: '--' + k for k in PP}


def pp_strategy():
    delay = st.one_of(st.just(0), st.integers(1, 400)).map(lambda n: n / 8)
    loss = st.sampled_from([0.0, 1.0, .5, .25, .75])
    values = {'interval': delay, 'channel_delay': delay,
              'service_delay': delay, 'loss_prob': loss,
              'max_pings': st.integers(1, 400)}
    single = st.fixed_dictionaries({k: v for k, v in values.items()})
    varied = st.sampled_from(['loss_prob', 'loss_prob', 'interval',
                              'channel_delay', 'service_delay', 'max_pings',
                              None]).flatmap(
        lambda k: st.tuples(st.just(k), st.just([]) if k is None else
                            st.lists(values[k], min_size=2, max_size=6)))
    return st.fixed_dictionaries({
        'base': single, 'varied': varied.map(list),
        'also': st.sampled_from([None] * 30 + sorted(PP)),
        'omit': st.one_of(st.just([]), st.lists(
            st.sampled_from(sorted(PP_DEFAULT)), max_size=4, unique=True)),
        'long': st.booleans(), 'seed': st.integers(0, 2 ** 32 - 1)})


def pp_body(case, ctx):
    random.seed(case['seed'])
    name, values = case['varied']
    names = PP_LONG if case['long'] else PP
    args, given = [], {}
    for k in sorted(PP):
        vs = values if k == name else [case['base'][k]]
        if k == case['also'] and k != name:
            vs = vs * 2
        omitted = k in case['omit'] and k != name
        if omitted:
            vs = [PP_DEFAULT[k]]
        given[k] = vs
        for v in vs:
            args += [] if omitted else [names[k], str(v)]
    with output() as out:
        if len([k for k in given if len(given[k]) > 1]) > 1:
            try:
                pp_cli.cli_run.main(args, standalone_mode=False)
            except ValueError:
                ctx.label('two varied options')
                ctx.nt(True)
                return
            raise Violation('a run with two varied options is accepted')
        pp_cli.cli_run.main(args, standalone_mode=False)
    text = out.getvalue()
    name = next((k for k in given if len(given[k]) > 1), None)
    order = sorted(set(given[name])) if name else [None]
    want = []
    for v in order:
        p = {k: x[0] for k, x in given.items()}
        if name:
            p[name] = v
        want.append(p)
    if name:
        rows = {r[0]: value(r[1]) for r in cells(text)}
        for k in PP:
            req(k in rows, 'no row %r in the table', k)
            eq(listed(rows[k]), order if k == name else given[k],
               f'parameter {k}')
        got = {k: listed(rows[k]) for k in ('avg_interval', 'avg_delay',
                                            'miss_rate')}
    else:
        got = dict(zip(('avg_interval', 'avg_delay', 'miss_rate'),
                       [[float(line.rsplit('=', 1)[1])]
                        for line in text.splitlines()
                        if line.strip().startswith('-')]))
    for k in got:
        eq(len(got[k]), len(order), f'number of values of {k}')
    for i, p in enumerate(want):
        close(got['avg_interval'][i], p['interval'], 'average interval')
        close(got['avg_delay'][i], p['channel_delay'], 'average delay')
        n, q = p['max_pings'], p['loss_prob']
        close(got['miss_rate'][i], q, f'miss rate of {n} pings', rel=0,
              abs_=0 if q in (0, 1) else
              7 * math.sqrt(q * (1 - q) / n) + 6 / n)
        k = round(got['miss_rate'][i] * n)
        close(got['miss_rate'][i] * n, k, 'missed pings', abs_=1e-6)
    ctx.nt(len(order) > 1)
    ctx.label('single' if not name else f'series by {name}')

    # the results as a file, where the folder exists and where it does not
    if len(order) % 2:
        os.makedirs('results')
    try:
        from pysim.models.pingpong.objects import Result
        res = [Result(avg_interval=a, avg_delay=b, miss_rate=c)
               for a, b, c in zip(*[got[k] for k in (
                   'avg_interval', 'avg_delay', 'miss_rate')])]
        init = {k: tuple(v) if k == name else v[0]
                for k, v in given.items()}
        with output():
            pp_proc.result_processing(init, res if name else res[0], name,
                                      save_results=True)
        files = os.listdir('results')
        eq(len(files), 1, 'number of files')
        with open(os.path.join('results', files[0])) as f:
            lines = f.read().splitlines()
        eq(len(lines), 2, 'lines of the file')
        saved = [json.loads(x[x.index('{'):]) for x in lines]
        eq({k: listed(v) for k, v in saved[0].items()},
           {k: order if k == name else v for k, v in given.items()},
           'saved parameters')
        eq({k: listed(v) for k, v in saved[1].items()}, got,
           'saved results')
    finally:
        cleanup()


# --- tag_time --------------------------------------------------------------
def tt_strategy():
    t = st.integers(0, 400).map(lambda n: n / 8)
    row = st.lists(t, min_size=4, max_size=4)
    return st.fixed_dictionaries({
        'times': st.lists(row, min_size=1, max_size=5),
        'extra': st.sampled_from([0] * 8 + [1, -1]),
        'scenario': st.sampled_from([1, 2, 3] * 4 + [0, 4, -1]),
        'chunks': st.one_of(st.integers(1, 12), st.integers(-1, 2)),
        'n': st.integers(1, 30)})


def tt_body(case, ctx):
    times, scen, chunks = case['times'], case['scenario'], case['chunks']
    n_probs = len(times) + case['extra']
    bad = (case['extra'] != 0 and n_probs > 0 or scen not in (1, 2, 3) or
           (scen == 3 and chunks < 1))
    args = []
    for row in times:
        args += ['-t'] + [str(x) for x in row]
    for _ in range(max(n_probs, 1)):
        args += ['-p', '1', '1', '1', '1']
    args += ['-m', str(case['n']), '-cn', str(chunks), '-s', str(scen)]
    with output():
        try:
            res = tt_cli.cli_run.main(args, standalone_mode=False)
        except AttributeError:
            req(bad, 'a correct run is rejected')
            ctx.label('rejected')
            ctx.nt(True)
            return
    req(not bad, 'a wrong run is accepted: %r', args)
    k = chunks if scen == 3 else 1
    want = [case['n'] * (sum(r[:3]) + k * r[3]) for r in times]
    got = [r.sim_time for r in res] if isinstance(res, list) \
        else [res.sim_time]
    eq(got, want, 'times of the series, in its order')
    ctx.nt(len(times) > 1)
    ctx.label('series' if len(times) > 1 else 'single')


def loss_strategy():
    row = st.lists(st.sampled_from([.25, .5, .75, 1.0]), min_size=4,
                   max_size=4)
    t = st.sampled_from([1.0, 2.0, 5.0, 10.0])
    return st.fixed_dictionaries({
        'rows': st.lists(st.tuples(row, st.lists(
            t, min_size=4, max_size=4)).map(list), min_size=1, max_size=4),
        'scenario': st.sampled_from([2, 2, 3]), 'chunks': st.integers(1, 6),
        'long': st.booleans()})


def loss_body(case, ctx):
    """Every row has its own probabilities."""
    n, args = 300, []
    p, t, m, cn, s = ('--probability', '--processing_time',
                      '--max_transmisions', '--chunks_number', '--scenario') \
        if case['long'] else ('-p', '-t', '-m', '-cn', '-s')
    for probs, times in case['rows']:
        args += [p] + [str(x) for x in probs] + [t] + [str(x) for x in times]
    args += [m, str(n), cn, str(case['chunks']), s, str(case['scenario'])]
    with output():
        res = tt_cli.cli_run.main(args, standalone_mode=False)
    res = res if isinstance(res, list) else [res]
    eq(len(res), len(case['rows']), 'number of results')
    k = case['chunks'] if case['scenario'] == 3 else 1
    for r, (probs, times) in zip(res, case['rows']):
        ph = list(zip(probs, times))
        ph = ph[:3] + ph[3:] * k
        close(r.sim_time / n, sum(y / x for x, y in ph),
              f'mean time with the probabilities {probs}', rel=1e-9,
              abs_=9 * math.sqrt(sum(y * y * (1 - x) / x / x
                                     for x, y in ph) / n))
    ctx.nt(any(x < 1 for probs, _ in case['rows'] for x in probs))


# --- RFID ------------------------------------------------------------------
RF = {'speed': '-s', 'tid_word_size': '-ws', 'altitude': '-a',
      'reader_offset': '-ro', 'tag_offset': '-to', 'power': '-p'}
# the first value is a good one; with some of the others nothing is read
RF_VALUES = {'speed': [60, 40, 120, 90], 'tid_word_size': [16, 0, 8, 64],
             'altitude': [5.0, 400.0, 0.0, 6.0, 4.5],
             'reader_offset': [3.0, 400.0, 0.0, 2.5, 3.5],
             'tag_offset': [2.0, 300.0, 500.0, 0.0, 1.5, 2.5],
             'power': [29, -30, 0, 28, 31]}


def rf_strategy():
    varied = st.sampled_from([None] + sorted(RF)).flatmap(
        lambda k: st.tuples(st.just(k), st.just([]) if k is None else
                            st.lists(st.sampled_from(RF_VALUES[k]),
                                     min_size=2, max_size=4)))
    return st.fixed_dictionaries({
        'varied': varied.map(list), 'm': st.sampled_from(['1', '2', '4',
                                                          '8']),
        'tari': st.sampled_from(['6.25', '12.5', '18.75', '25']),
        'tags': st.integers(1, 2), 'adjust': st.booleans(),
        'delta': st.sampled_from([None, 0.0, .1, .3, .9]),
        'speed': st.sampled_from([60, 90]),
        'also': st.sampled_from([None] * 20 + sorted(RF)),
        'verbose': st.integers(0, 3).map(lambda n: n == 0),
        'seed': st.integers(0, 2 ** 32 - 1)})


def rf_reference(p, case):
    model = rf_conf.create_model(
        speed=p['speed'] / 3.6, tari=float(case['tari']) * 1e-6,
        encoding={'1': std.TagEncoding.FM0, '2': std.TagEncoding.M2,
                  '4': std.TagEncoding.M4,
                  '8': std.TagEncoding.M8}[case['m']],
        tid_word_size=p['tid_word_size'], reader_offset=p['reader_offset'],
        tag_offset=p['tag_offset'], altitude=p['altitude'],
        power=p['power'], num_tags=case['tags'], useadjust=case['adjust'],
        delta=.5 if case['delta'] is None else case['delta'])
    rf_conf.run_model(model, ModelLoggerConfig())
    s = model.statistics
    return (s.average_rounds_per_tag(), s.inventory_probability(),
            s.read_tid_probability())


def histories(n):
    """What the process that ran simulation n may have run before it: the
    random generator it starts with is that of the parent, but it may have
    been used for some of the simulations 0..n-1."""
    for size in range(n + 1):
        yield from itertools.combinations(range(n), size)


def rf_body(case, ctx):
    np.random.seed(case['seed'])
    name, values = case['varied']
    given, args = {}, ['start', '-m', case['m'], '-t', case['tari'],
                       '-n', str(case['tags'])]
    if case['adjust']:
        args.append('-ua')
    if case['verbose']:
        args.append('-v')
    if case['delta'] is not None:
        args += ['-d', str(case['delta'])]
    for k in sorted(RF):
        vs = values if k == name else \
            [case['speed'] if k == 'speed' else RF_VALUES[k][0]]
        if k == case['also'] and k != name:
            vs = vs * 2
        given[k] = vs
        for v in vs:
            args += [RF[k], str(v)]
    varied = [k for k in given if len(given[k]) > 1]
    cleanup()
    with output() as out:
        if len(varied) > 1:
            try:
                rf_cli.cli.main(args, standalone_mode=False)
            except ValueError:
                ctx.label('two varied options')
                ctx.nt(True)
                return
            raise Violation('a run with two varied options is accepted')
        rf_cli.cli.main(args, standalone_mode=False)
    text = out.getvalue()
    name = varied[0] if varied else None
    order = sorted(set(given[name])) if name else [None]
    rows = cells(text)
    fields = ['rounds_per_tag', 'inventory_prob', 'read_tid_prob']
    if name:
        head = next((i for i, r in enumerate(rows) if r[0] == name and
                     len(r) == 4), None)
        req(head is not None, 'no table of results by %r', name)
        cols = rows[head]
        body = rows[head + 1:]
        eq([value(r[0]) for r in body], order, f'values of {name}')
        got = [{c: value(x) for c, x in zip(cols[1:], r[1:])} for r in body]
        static = {r[0]: r[1] for r in rows[:head] if len(r) == 2}
        for k in RF:
            if k != name:
                eq(value(static.get(k)), given[k][0], f'parameter {k}')
        eq(static.get('encoding'), case['m'], 'encoding')
        eq(static.get('tari'), case['tari'], 'Tari')
        eq(value(static.get('num_tags')), case['tags'], 'number of tags')
        pngs = os.listdir('results/plots')
        req(len(pngs) == 1 and pngs[0].endswith(name + '.png'),
            'plots: %r', pngs)
    else:
        d = {r[0]: value(r[1]) for r in rows if len(r) == 2}
        got = [d]
        eq(bool(re.search(r'medium\W+frequency\W+\d', text)),
           case['verbose'], 'the configuration is printed')
    cleanup()
    runs = []
    for v, g in zip(order, got):
        p = {k: x[0] for k, x in given.items()}
        if name:
            p[name] = v
        eq(sorted(set(g) & set(fields)), sorted(fields), 'columns')
        runs.append(p)
        what = f'{name} = {v}'
        result = tuple(g[f] for f in fields)
        first = None
        for before in histories(len(runs) - 1):
            np.random.seed(case['seed'])
            with output():
                for k in before:
                    rf_reference(runs[k], case)
                want = rf_reference(p, case)
            first = first or want
            if all(math.isclose(x, y, rel_tol=1e-9)
                   for x, y in zip(result, want)):
                break
        else:
            raise Violation(f'results {dict(zip(fields, result))}, {what}: '
                            f'the same simulation gives {first}')
        if before:
            ctx.label('not the first of its process')
    ctx.nt(len(order) > 1)
    ctx.label('single' if not name else f'series by {name}')

    if name:             # the file with the results
        os.makedirs('results/text')
        try:
            init = {k: tuple(v) if k == name else v[0]
                    for k, v in given.items()}
            init.update(encoding=case['m'], tari=case['tari'],
                        num_tags=case['tags'])
            rf_proc.save_mult_results_to_file(
                dict(init, **{name: order}), [(g, .5) for g in got], name)
            files = os.listdir('results/text')
            eq(len(files), 1, 'number of files')
            with open(os.path.join('results/text', files[0])) as f:
                lines = f.read().splitlines()
            saved = [json.loads(x[x.index('{'):]) for x in lines]
            eq(saved[0], json.loads(json.dumps(dict(init, **{name: order}))),
               'saved parameters')
            eq(saved[1], {f: [g[f] for g in got] for f in fields},
               'saved results')
        finally:
            cleanup()


PROPERTY = Property(
    'C09',
    'Command lines of the three models with a generated option varied (in '
    'any order, with repetitions), with none and with two; the printed tables '
    'are compared with the list of sorted distinct values and with the '
    'results of separate runs (exact where the run has no randomness); '
    'non-trivial: a series of at least two runs, or a rejected command line.',
    [Part('pingpong', pp_strategy, pp_body, 200, shards=3),
     Part('tag_time', tt_strategy, tt_body, 300, shards=2),
     Part('tag_time losses', loss_strategy, loss_body, 100, shards=2),
     Part('rfid', rf_strategy, rf_body, 60, thorough=1000, shards=8)])
