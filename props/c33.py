import contextlib
import io
import json
import os
import re
import shutil
import sys

import matplotlib
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.processing as rf_proc
import pysim.models.tag_time.processing as tt_proc
from harness.core import Part, Property, close, eq, req
from pysim.experiments.utility import graphs_style as gs
from pysim.sim.simulator import ExecutionStats, ExitReason

SAVE = matplotlib.figure.Figure.savefig


@contextlib.contextmanager
def watched(dirs=True):
    """Output of this process; lines of every saved figure.  The folders of
    the results exist beforehand or not."""
    old, out, saved = sys.stdout, io.StringIO(), []

    def savefig(self, fname, *args, **kwargs):
        saved.append((str(fname), [
            [(list(map(float, x.get_xdata())), list(map(float, x.get_ydata())))
             for x in ax.lines] for ax in self.axes],
            ' '.join(t.get_text() for ax in self.axes if ax.get_legend()
                     for t in ax.get_legend().get_texts()),
            [ax.get_xlabel() for ax in self.axes]))
        return SAVE(self, fname, *args, **dict(kwargs, dpi=20))
    for d in ('results/text', 'results/plots') if dirs else ():
        os.makedirs(d, exist_ok=True)
    sys.stdout = out
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield out, saved
    finally:
        sys.stdout = old
        matplotlib.figure.Figure.savefig = SAVE
        plt.close('all')
        for d in ('results', 'images'):
            shutil.rmtree(d, ignore_errors=True)


def listing(d):
    return os.listdir(d) if os.path.isdir(d) else []


def numbers(line):
    text = line[line.index(':') + 1:].strip()
    got = json.loads(text)
    return got if isinstance(got, list) else [got]


def stats(t):
    return ExecutionStats(
        num_events_processed=1, sim_time=t, time_elapsed=.1,
        exit_reason=ExitReason.STOPPED, stop_message='', last_handler=None)


# --- tag_time --------------------------------------------------------------
def prob():
    return st.integers(1, 100).map(lambda n: n / 100)


def tt_strategy():
    return st.fixed_dictionaries({
        'rows': st.lists(st.lists(prob(), min_size=4, max_size=4),
                         min_size=1, max_size=12),
        'sim': st.lists(st.floats(0, 1e6), min_size=12, max_size=12),
        'n': st.integers(1, 10 ** 4), 'scenario': st.sampled_from([1, 2, 3]),
        'chunks': st.integers(1, 9),
        'save': st.booleans(), 'dirs': st.booleans(), 'plot': st.integers(0, 4).map(lambda n: n == 0),
    })


def tt_body(c, ctx):
    rows = tuple(tuple(r) for r in c['rows'])
    sims = c['sim'][:len(rows)]
    series = len(rows) > 1
    kwargs = {'probability': rows, 'processing_time': ((1, 1, 1, 1),) *
              len(rows), 'max_transmisions': c['n'],
              'chunks_number': c['chunks'], 'scenario': c['scenario']}
    if not series:       # as the command line does
        kwargs.update(probability=rows[0], processing_time=(1, 1, 1, 1))
    result = [stats(t) for t in sims] if series else stats(sims[0])
    want = [t / c['n'] for t in sims]
    with watched(c['dirs']) as (out, saved):
        tt_proc.result_processing(dict(kwargs), result, save_res=c['save'],
                                  plot_res=c['plot'])
        lines = [x for x in out.getvalue().splitlines() if ':' in x]
        files = listing('results/text')
        texts = []
        for f in files:
            with open(os.path.join('results/text', f)) as inp:
                texts.append(inp.read())
    got = [numbers(x) for x in lines]
    if not series:
        eq(got, [[sims[0]], want], 'total and mean time')
        eq((files, saved), ([], []), 'files of a single run')
    else:
        eq(got, [want], 'mean times of the series')
        eq(len(files), int(c['save']), 'number of saved files')
        for text in texts:
            data = [json.loads(x[x.index(':') + 1:])
                    for x in text.splitlines()]
            eq(data, [json.loads(json.dumps(kwargs)), want],
               'saved parameters and results')
        eq(len(saved), int(c['plot']), 'number of plots')
        for _, axes, *_ in saved:
            eq(axes, [[(list(map(float, range(len(want)))), want)]],
               'plotted values')
    ctx.nt(series)
    ctx.label('series' if series else 'single')


# --- RFID ------------------------------------------------------------------
def rf_strategy():
    x = st.integers(0, 1000).map(lambda n: n / 8)
    return st.fixed_dictionaries({
        'name': st.sampled_from(['speed', 'tid_word_size', 'altitude',
                                 'reader_offset', 'tag_offset', 'power']),
        'values': st.lists(x, min_size=2, max_size=12, unique=True),
        'tid': st.lists(st.floats(0, 1), min_size=12, max_size=12),
        'inv': st.lists(st.floats(0, 1), min_size=12, max_size=12),
        'times': st.lists(st.floats(.001, 1e3), min_size=12, max_size=12),
        'm': st.sampled_from(['1', '2', '4', '8']),
        'tari': st.sampled_from(['6.25', '12.5', '18.75', '25']),
        'save': st.booleans(), 'dirs': st.booleans()})


def rows_of(text):
    return [[x.strip() for x in line.strip().strip('|').split('|')]
            for line in text.splitlines() if line.strip().startswith('|')]


def single_body(c, ctx):
    values = {'rounds_per_tag': c['times'][0], 'inventory_prob': c['inv'][0],
              'read_tid_prob': c['tid'][0]}
    with watched(c['dirs']) as (out, saved):
        rf_proc.result_processing({}, (dict(values), c['times'][1]), None,
                                  **({'save_results': True} if c['save']
                                     else {}))
        files = listing('results/text') + listing('results/plots')
    got = {r[0]: float(r[1]) for r in rows_of(out.getvalue())}
    eq(set(got), set(values), 'results shown')
    for k in values:
        close(got[k], values[k], k, 1e-4, 1e-4)
    last = re.findall(r'[\d.]+(?:e-?\d+)?', out.getvalue().rsplit(':')[-1])
    close(float(last[0]), c['times'][1], 'time of the simulation', 1e-6)
    eq((files, saved), ([], []), 'files of a single run')
    ctx.nt(True)


def rf_body(c, ctx):
    name, values = c['name'], sorted(c['values'])
    params = {k: 1 for k in ('speed', 'tid_word_size', 'altitude',
                             'reader_offset', 'tag_offset', 'power')}
    params.update(encoding=c['m'], tari=c['tari'], num_tags=3)
    params[name] = tuple(c['values']) + (values[0],)
    results = [({'read_tid_prob': a, 'inventory_prob': b,
                 'rounds_per_tag': i}, t)
               for i, (_, a, b, t) in enumerate(zip(
                   values, c['tid'], c['inv'], c['times']))]
    with watched(c['dirs']) as (out, saved):
        rf_proc.result_processing(dict(params), results, name,
                                  save_results=c['save'])
        texts = []
        for f in listing('results/text'):
            with open(os.path.join('results/text', f)) as inp:
                texts.append(inp.read().splitlines())
    eq(len(saved), 1, 'number of plots')
    eq(saved[0][1], [[(values, c['tid'][:len(values)])]],
       f'probability of reading by {name}')
    text = saved[0][2]
    req(f'Tari = {c["tari"]}' in text and
        text.replace(f'Tari = {c["tari"]}', '').count(c['m']) == 1,
        'legend %r for M = %s, Tari = %s', text, c['m'], c['tari'])
    req(saved[0][3][0].startswith(name), 'axis of %s is named %r', name,
        saved[0][3][0])
    last = re.findall(r'[\d.]+(?:e-?\d+)?', out.getvalue().rsplit('=')[-1])
    close(float(last[0]), sum(c['times'][:len(values)]) / len(values),
          'mean time of a simulation', 1e-6)
    eq(len(texts), int(c['save']), 'number of saved files')
    for lines in texts:
        got = [json.loads(x[x.index('{'):]) for x in lines]
        eq(got[0], json.loads(json.dumps(dict(params, **{name: values}))),
           'saved parameters')
        eq(got[1], {k: [r[k] for r, _ in results] for k in results[0][0]},
           'saved results')
    ctx.nt(c['values'] != values)
    ctx.label(name)


# --- figures ---------------------------------------------------------------
def fig_strategy():
    return st.fixed_dictionaries({
        'name': st.one_of(st.none(), st.sampled_from(['', '  ']),
                          st.text('ab1_ -.', min_size=1, max_size=8).filter(
                              lambda s: s.strip() == '' or s.strip(' .'))),
        'exts': st.one_of(st.none(), st.lists(
            st.sampled_from(['png', 'pdf', 'svg']), min_size=1, max_size=3,
            unique=True)),
        'dir': st.sampled_from([None, 'results/plots', 'images'])})


def fig_body(c, ctx):
    with watched():
        os.makedirs('images')
        plt.plot([1, 2], [3, 4])
        kw = {}
        if c['exts'] is not None:
            kw['exts'] = c['exts']
        if c['dir'] is not None:
            kw['directory'] = c['dir']
        gs.savefig(c['name'], **kw)
        name = (c['name'] or '').strip()
        want = [] if not name else sorted(
            os.path.join(c['dir'] or gs.IMAGE_BASE_DIR, f'{name}.{e}')
            for e in (c['exts'] or gs.IMAGE_EXTENSIONS))
        got = sorted(os.path.join(d, f) for d in ('results/plots', 'images')
                     for f in os.listdir(d))
        eq(got, want, 'saved figures')
        for f in got:
            req(os.path.getsize(f) > 0, '%s is empty', f)
    ctx.nt(len(want) > 1)


def format_strategy():
    return st.fixed_dictionaries({
        'values': st.lists(st.one_of(
            st.integers(-10 ** 5 + 1, 10 ** 5 - 1),
            st.integers(-10 ** 5, 10 ** 5).map(float),
            st.floats(-1e9, 1e9), st.text('abc', max_size=3)), min_size=1,
            max_size=6),
        'x': st.booleans(), 'y': st.booleans(),
        'how': st.sampled_from(['one', 'list', 'tuple', 'two']),
        'other': st.booleans(), 'color': st.floats(0, 1)})


def format_body(c, ctx):
    old = plt.rcParams['axes.formatter.use_locale']
    try:
        _, (a, b) = plt.subplots(1, 2)
        axes = {'one': (a,), 'list': ([a, b],), 'tuple': ((a, b),),
                'two': (a, b)}[c['how']]
        before = {id(ax): (ax.xaxis.get_major_formatter(),
                           ax.yaxis.get_major_formatter()) for ax in (a, b)}
        kw = {'platforms': ('nowhere',)} if c['other'] else {'platforms': ()}
        gs.set_axes_formatter(*axes, use_x=c['x'], use_y=c['y'], **kw)
        for ax in (a, b):
            given = not c['other'] and not (c['how'] == 'one' and ax is b)
            for axis, use, was in ((ax.xaxis, c['x'], before[id(ax)][0]),
                                   (ax.yaxis, c['y'], before[id(ax)][1])):
                fmt = axis.get_major_formatter()
                eq(fmt is not was, given and use, 'a new formatter')
                if fmt is was:
                    continue
                for v in c['values']:
                    text = fmt(v, 0)
                    if isinstance(v, str):
                        eq(text, v, 'text on an axis')
                        continue
                    req(chr(8239) not in text, 'a narrow space in %r', text)
                    close(float(text), v, f'{v!r} on an axis', 1e-5, 1e-300)
                    if v == int(v) and 0 < abs(v) < 1e5:
                        eq(text, str(int(v)), f'{v!r} on an axis')
                    ctx.nt()
    finally:
        plt.close('all')
        plt.rcParams['axes.formatter.use_locale'] = old
    x = c['color']
    eq(tuple(gs.get_color(x)), tuple(matplotlib.colormaps[gs.CMAP_NAME](x)),
       'colour')


PROPERTY = Property(
    'C33',
    'Results of series and of single runs, given to the processing of the '
    'tag-reading and RFID models: printed, saved and plotted values; names, '
    'extensions and directories of figures, numbers on axes; non-trivial: a '
    'series, values out of order, several files, a number formatted.',
    [Part('tag_time', tt_strategy, tt_body, 300, shards=2),
     Part('rfid', rf_strategy, rf_body, 60, shards=2),
     Part('rfid single', rf_strategy, single_body, 100, shards=1),
     Part('figures', fig_strategy, fig_body, 60, shards=3),
     Part('axes', format_strategy, format_body, 200, shards=2)])
