import io
import logging
import os
import re
import sys

import colorama
from hypothesis import strategies as st

from harness.core import Part, Property, eq, req
from pysim.sim import build_simulation, run_simulation
from pysim.sim.logger import ModelLogger, ModelLoggerConfig

LEVELS = (1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60)
NAMES = {10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR', 50: 'CRITICAL'}
DEFAULT_COLORS = {
    10: colorama.Fore.LIGHTBLACK_EX, 20: colorama.Fore.GREEN,
    30: colorama.Fore.YELLOW, 40: colorama.Fore.RED + colorama.Style.BRIGHT,
    50: (colorama.Back.RED + colorama.Fore.WHITE + colorama.Style.BRIGHT)}
CUSTOM = (colorama.Fore.BLUE, colorama.Fore.MAGENTA, colorama.Back.CYAN)
FMT = (None, ('{runId}|{simTime}|{levelname}|{message}', '{'),
       ('%(simTime)s %(runId)d %(funcName)s %(message)s', '%'),
       ('$name:$levelno:$simTime:$message', '$'))
FILES = ('model.log', 'model', 'run.v2.log', 'out.txt', 'UP.LOG', 'x.log.log')
SEPS = ('_', '-', '.', '__', '')
OPS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50,
       'exception': 40}
NAME = 'verif-c07'


def level_name(level):
    return NAMES.get(level, f'Level {level}')


def expected_name(name, run_id, sep):
    m = re.fullmatch(r'(.*)(\.log)', name.strip(), re.I | re.S)
    if m:
        return f'{m.group(1)}{sep}{run_id}{m.group(2)}'
    return f'{name.strip()}{sep}{run_id}'


def expected_line(fmt, r):
    t, run_id, level, func, msg, name = r
    if fmt == 0:
        return (f'{t:013.06f} [{level_name(level):8s}] {name} (R:{run_id}) '
                f'(c07.py:{func}) - {msg}')
    if fmt == 1:
        return f'{run_id}|{t}|{level_name(level)}|{msg}'
    if fmt == 2:
        return f'{t} {run_id} {func} {msg}'
    return f'{name}:{level}:{t}:{msg}'


# --------------------------------------------------------------------------
def config_strategy():
    lv = st.sampled_from(LEVELS)
    return st.fixed_dictionaries({
        'level': st.sampled_from(LEVELS + (0,)),
        'console': st.booleans(),
        'colored': st.booleans(),
        'colors': st.one_of(st.none(), st.dictionaries(
            st.sampled_from(['10', '20', '30', '40', '50']),
            st.integers(0, 2), max_size=3)),
        'console_level': st.one_of(st.none(), lv),
        'file': st.one_of(st.none(), st.integers(0, len(FILES) - 1),
                          st.integers(0, len(FILES) - 1)),
        'file_level': st.one_of(st.just(0), lv),
        'sep': st.integers(0, len(SEPS) - 1),
        'no_id': st.booleans(),
        'fmt': st.integers(0, len(FMT) - 1),
    })


def strategy():
    rec = st.one_of(
        st.tuples(st.just('rec'), st.sampled_from(sorted(OPS)),
                  st.integers(0, 1)),
        st.tuples(st.just('log'), st.sampled_from(LEVELS),
                  st.integers(0, 1)),
    )
    op = st.one_of(
        rec, rec, rec, rec,
        st.tuples(st.just('time'), st.one_of(
            st.integers(0, 10 ** 7), st.floats(0, 10 ** 7))),
        st.tuples(st.just('run_id'), st.integers(0, 999999)),
        st.tuples(st.just('setup'), config_strategy(), st.booleans()),
        st.tuples(st.just('new'), config_strategy(), st.integers(0, 999)),
    ).map(list)
    return st.fixed_dictionaries({
        'config': config_strategy(),
        'run_id': st.one_of(st.none(), st.integers(0, 3),
                            st.integers(0, 999999)),
        'sub': st.booleans(),
        'other_level': st.sampled_from([0, 1, 30, 60]),
        'ops': st.lists(op, min_size=3, max_size=25),
    })


def make_config(c):
    kw = {}
    if FMT[c['fmt']] is not None:
        kw['fmt'], kw['style'] = FMT[c['fmt']]
    colors = c['colors']
    return ModelLoggerConfig(
        level=c['level'], use_console=c['console'],
        colored_console=c['colored'],
        console_colors=(None if colors is None else
                        {int(k): CUSTOM[v] for k, v in colors.items()}),
        console_level=c['console_level'],
        file_name=None if c['file'] is None else FILES[c['file']],
        file_level=c['file_level'], file_name_sep=SEPS[c['sep']],
        file_name_no_run_id=c['no_id'], **kw)


def emit_alpha(logger, how, level, n):
    return _emit(logger, how, level, n)


def _emit(logger, how, level, n):
    """Writes a record; the caller to be reported is this function."""
    text, args = [('record %d', (n,)), ('record %s of %s', (n, 'a%sb')),
                  ('plain record', ())][n % 3]
    if how == 'log':
        logger.log(level, text, *args)
    elif how == 'debug':
        logger.debug(text, *args)
    elif how == 'info':
        logger.info(text, *args)
    elif how == 'warning':
        logger.warning(text, *args)
    elif how == 'error':
        logger.error(text, *args)
    elif how == 'critical':
        logger.critical(text, *args)
    else:
        try:
            raise LookupError(f'boom {n}')
        except LookupError:
            logger.exception(text, *args)
    return text % args if args else text


def probe(logger, std):
    seen = []

    class Probe(logging.Handler):
        def emit(self, record):
            seen.append(record.runId)

    h = Probe()
    std.setLevel(1)
    std.propagate = False
    std.addHandler(h)
    logger.critical('probe')
    std.removeHandler(h)
    return seen[0]


class Sink:
    """What a handler created by the active configuration must contain."""

    def __init__(self, conf, kind):
        c = conf
        self.kind = kind
        own = c['console_level'] if kind == 'console' else c['file_level']
        self.level = own or c['level']
        self.fmt = c['fmt']
        self.colors = None
        if kind == 'console' and c['colored']:
            self.colors = dict(DEFAULT_COLORS)
            for k, v in (c['colors'] or {}).items():
                self.colors[int(k)] = CUSTOM[v]
        self.expected = []

    def add(self, record, boom):
        if record[2] < self.level:
            return
        line = expected_line(self.fmt, record)
        if self.colors and record[2] in self.colors:
            line = (self.colors[record[2]] + line +
                    colorama.Style.RESET_ALL)
        self.expected.append((line, boom))

    def check(self, text):
        rest = text
        for line, boom in self.expected:
            req(rest.startswith(line + '\n'),
                '%s: expected the line %r, the rest is %r', self.kind, line,
                rest[:300])
            rest = rest[len(line) + 1:]
            if boom is not None:
                end = f'LookupError: boom {boom}\n'
                i = rest.find(end)
                req(rest.startswith('Traceback') and i >= 0,
                    '%s: no traceback after %r', self.kind, line)
                rest = rest[i + len(end):]
        req(rest == '', '%s: unexpected output %r', self.kind, rest[:300])


def body(case, ctx):
    name = NAME + ('.sub' if case['sub'] else '')
    old_err, console = sys.stderr, io.StringIO()
    now = [0.0]
    made = set()
    std = logging.getLogger(name)
    other = logging.getLogger(NAME if case['sub'] else NAME + '.sub')
    stray = io.StringIO()
    stray_handler = logging.StreamHandler(stray)
    other.addHandler(stray_handler)
    other.setLevel(case['other_level'])
    all_handlers = []
    left, old_files = [], {}
    seen = {'new': 0, 'out': 0, 'cut': 0, 'setup': 0, 'forced': 0}
    try:
        logger = ModelLogger(name, lambda: now[0], case['run_id'])
        run_id = case['run_id']
        if run_id is None:       # chosen by the logger
            run_id = probe(logger, std)
        sinks = {}
        first = True
        for n, op in enumerate([['setup', case['config'], False]] +
                               case['ops']):
            if op[0] == 'time':
                now[0] = op[1] / 64
            elif op[0] == 'run_id':
                logger.set_run_id(op[1])
                run_id = op[1]
            elif op[0] in ('setup', 'new'):
                conf, force = op[1], op[2]
                if op[0] == 'new':       # the next run of the same model
                    run_id, force = op[2], False
                    logger = ModelLogger(name, lambda: now[0], run_id)
                    first = True
                    seen['new'] += 1
                if first or force:
                    _flush_and_check(std, sinks, console)
                    all_handlers += std.handlers
                    if 'console' in sinks:
                        left.append((console, console.getvalue()))
                    if 'file' in sinks:
                        with open(sinks['file'][1]) as inp:
                            old_files[sinks['file'][1]] = inp.read()
                    console = io.StringIO()
                    sys.stderr = console
                    sinks = {}
                    if conf['console']:
                        sinks['console'] = (Sink(conf, 'console'), None)
                    if conf['file'] is not None:
                        f = FILES[conf['file']]
                        if not conf['no_id']:
                            f = expected_name(f, run_id, SEPS[conf['sep']])
                        sinks['file'] = (Sink(conf, 'file'), f)
                        made.add(f)
                        old_files.pop(f, None)
                        with open(f, 'w') as out:
                            out.write('an earlier run\n')
                    seen['forced'] += not first
                seen['setup'] += 1
                if force:
                    logger.setup(make_config(conf), force_run=True)
                else:
                    logger.setup(make_config(conf))
                first = False
                eq(set(os.listdir('.')) - made, set(), 'unexpected log files')
            else:
                how, func = op[1] if op[0] == 'rec' else 'log', op[2]
                level = OPS[how] if op[0] == 'rec' else op[1]
                msg = (emit_alpha if func else _emit)(logger, how, level, n)
                record = (now[0], run_id, level, '_emit', msg, name)
                for sink, _ in sinks.values():
                    before = len(sink.expected)
                    sink.add(record, n if how == 'exception' else None)
                    key = 'out' if len(sink.expected) > before else 'cut'
                    seen[key] += 1
        _flush_and_check(std, sinks, console)
        for h in all_handlers:
            h.flush()
        for stream, text in left:
            eq(stream.getvalue(), text, 'console of an earlier set-up')
        for f, text in old_files.items():
            with open(f) as inp:
                eq(inp.read(), text, f'log file {f} of an earlier set-up')
        eq(stray.getvalue(), '', 'records of another logger')
    finally:
        sys.stderr = old_err
        other.removeHandler(stray_handler)
        other.setLevel(0)
        for h in all_handlers + std.handlers:
            h.close()
        std.handlers = []
        for f in os.listdir('.'):
            os.unlink(f)
    ctx.nt(seen['out'] and seen['cut'])
    ctx.label(*[k for k, v in seen.items() if v])


def _flush_and_check(std, sinks, console):
    for h in std.handlers:
        h.flush()
    if 'console' not in sinks:
        eq(console.getvalue(), '', 'output to a console not switched on')
    for kind, (sink, f) in sinks.items():
        if kind == 'console':
            sink.check(console.getvalue())
        else:
            req(os.path.exists(f), 'no log file %r', f)
            with open(f) as inp:
                sink.check(inp.read())


# --------------------------------------------------------------------------
def names_strategy():
    return st.fixed_dictionaries({
        'name': st.one_of(
            st.sampled_from(FILES),
            st.text('aL.loGgx_ /', min_size=1, max_size=12),
            st.text('aL.loGgx_ /', min_size=1, max_size=12).map(
                lambda s: s + '.log'),
            st.text('abc.', min_size=1, max_size=6).map(lambda s: s + '.Log ')),
        'run_id': st.integers(0, 10 ** 6),
        'sep': st.one_of(st.none(), st.sampled_from(SEPS)),
    })


def names_body(case, ctx):
    want = expected_name(case['name'], case['run_id'],
                         '_' if case['sep'] is None else case['sep'])
    args = [case['name'], case['run_id']]
    if case['sep'] is not None:
        args.append(case['sep'])
    eq(ModelLogger.build_file_name(*args), want, f'file name for {args}')
    ctx.nt('.' in case['name'])


# --------------------------------------------------------------------------
def kernel_strategy():
    return st.fixed_dictionaries({
        'level': st.sampled_from([10, 20, 30, 40]),
        'times': st.lists(st.tuples(st.integers(0, 400),
                                    st.sampled_from(sorted(OPS))).map(list),
                          min_size=1, max_size=12),
        'debug': st.booleans(),
    })


def kernel_body(case, ctx):
    """The records of a model: name of the model, simulation time of the
    handler that wrote them, one run id; the given configuration stays."""
    def handler(sim, n, how):
        _emit(sim.logger, how, OPS[how], 3 * n)

    def init(sim):
        for n, (t, how) in enumerate(case['times']):
            sim.schedule(t / 8, handler, (n, how))

    try:
        run_simulation(build_simulation(
            NAME, init=init, debug=case['debug'],
            logger_config=ModelLoggerConfig(
                fmt='{simTime}|{levelno}|{name}|{runId}|{message}',
                level=case['level'], file_name='k.log')))
        for h in logging.getLogger(NAME).handlers:
            h.flush()
        with open('k.log') as f:
            text = f.read().splitlines()
        lines = [s.split('|') for s in text if '|record ' in s]
    finally:
        for h in logging.getLogger(NAME).handlers:
            h.close()
        logging.getLogger(NAME).handlers = []
        if os.path.exists('k.log'):
            os.unlink('k.log')
    order = sorted(range(len(case['times'])),
                   key=lambda n: (case['times'][n][0], n))
    want = [(case['times'][n][0] / 8, OPS[case['times'][n][1]], NAME,
             f'record {3 * n}') for n in order
            if OPS[case['times'][n][1]] >= case['level']]
    eq([(float(r[0]), int(r[1]), r[2], r[4]) for r in lines], want,
       'records of the model')
    req(len({r[3] for r in lines}) <= 1, 'several run ids in one run')
    if case['level'] <= 20:
        eq([s.split('|')[-1] for s in text if 'debugger' in s],
           ['Enter debugger mode'] * case['debug'],
           'records of the debug mode')
    ctx.nt(len(want) > 1 and len(want) < len(case['times']))


PROPERTY = Property(
    'C07',
    'Logger configurations (levels, console, colours, file, separators, '
    'formats), repeated and forced setup, run ids and clocks, records of '
    'standard and other levels; each output is compared with the lines '
    'written by a reference; non-trivial: some records pass and some are '
    'cut (for file names: the name has a dot).',
    [Part('records', strategy, body, 1500, shards=4),
     Part('names', names_strategy, names_body, 2000, shards=1),
     Part('kernel', kernel_strategy, kernel_body, 500, shards=2)])
