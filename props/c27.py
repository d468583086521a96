"""From settings and overriding arguments to a model."""
import contextlib
import copy
import dataclasses
import io
import re

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Reader
from harness.core import Part, Property, close, eq, req
from . import rfid_common as rc
from . import rfid_sim as rs
from . import tag_common as tc

num = st.one_of(st.floats(-40, 40), st.sampled_from([0.0, 1.0]))
pos = st.floats(.01, 90)
pos0 = st.one_of(st.just(0.0), pos)
vec = st.lists(st.integers(-5, 5).map(float), min_size=3, max_size=3)
SIMPLE = {     # settings that are plain values
    'delim': pos, 'tari': pos, 'rtcal_tari_mul': st.floats(2.5, 3),
    'trcal_rtcal_mul': st.floats(1.1, 3), 'speed': pos,
    'initial_distance_to_reader': num, 'travel_distance': pos,
    'reader_antenna_x': num, 'reader_antenna_z': num, 'tag_antenna_x': num,
    'tag_antenna_z': num, 'update_interval': pos, 'reader_power': num,
    'reader_antenna_gain': num, 'reader_cable_loss': num,
    'tag_antenna_gain': num, 'tag_modulation_loss': num,
    'tag_sensitivity': num, 'reader_noise': num,
    'ber_distribution': st.sampled_from(['rayleigh', 'awgn']),
    'frequency': pos, 'permittivity': pos, 'conductivity': pos0,
    'polarization_loss': num,
    'ground_reflection_type': st.sampled_from(['reflection', 'const']),
    'use_doppler': st.booleans(), 'reader_switch_power': st.booleans(),
    'reader_power_on_duration': pos, 'reader_power_off_duration': pos0,
    'reader_antenna_switching_interval': pos,
    'reader_always_start_with_first_antenna': st.booleans(),
    'read_tid_bank': st.booleans(), 'tid_word_size': st.integers(0, 64),
    'trext': st.booleans(), 'q': st.integers(0, 15),
    'use_query_adjust': st.booleans(), 'adjust_delta': st.floats(0, 1),
    'q_fp': st.one_of(st.none(), st.just(0.0), st.floats(0, 15)),
    'target_strategy': st.sampled_from(['const', 'switch']),
    'rounds_per_target': st.integers(1, 5), 'epc_bitlen': st.sampled_from(
        [32, 96, 128]),
    's1_persistence': pos0, 's2_persistence': pos0,
    's3_persistence': pos0,
    'num_tags': st.integers(0, 10 ** 6),
    'collect_power_statistics': st.booleans(),
}
ENUMS = {'temp': rc.TEMP, 'encoding': rc.ENC, 'dr': rc.DR, 'sel': rc.SEL,
         'session': rc.SESSION, 'target': rc.TARGET}
KWARGS = {'speed': pos, 'encoding': rc.keys(rc.ENC), 'tari': pos,
          'tid_word_size': st.integers(0, 64), 'reader_offset': num,
          'tag_offset': num, 'altitude': num, 'power': num,
          'num_tags': st.integers(0, 100), 'useadjust': st.booleans(),
          'delta': st.floats(0, 1)}
OVERRIDES = {'speed': 'speed', 'encoding': 'encoding', 'tari': 'tari',
             'tid_word_size': 'tid_word_size',
             'reader_offset': 'reader_antenna_x',
             'tag_offset': 'tag_antenna_x', 'altitude': 'reader_antenna_z',
             'power': 'reader_power', 'num_tags': 'num_tags',
             'useadjust': 'use_query_adjust', 'delta': 'adjust_delta'}


@st.composite
def strategy(draw):
    return {
        'set': draw(st.fixed_dictionaries({}, optional=dict(
            SIMPLE, **{k: rc.keys(v) for k, v in ENUMS.items()}))),
        'reader_dir': draw(st.one_of(st.none(), vec)),
        'tag_dir': draw(st.one_of(st.none(), vec)),
        'kw': draw(st.fixed_dictionaries({}, optional=KWARGS)),
        'interval': draw(st.lists(pos, max_size=3)),
        'own': draw(st.sampled_from([True, True, True, False])),
    }


def defaults():
    """Fields of Settings by name, with the default values."""
    s = conf.Settings()
    return {f.name: copy.copy(getattr(s, f.name))
            for f in dataclasses.fields(s)}


def values(c):
    out = {k: ENUMS[k][v] if k in ENUMS else v for k, v in c['set'].items()}
    for k, name in (('reader_dir', 'reader_antenna_direction'),
                    ('tag_dir', 'tag_antenna_direction')):
        if c[k] is not None:
            out[name] = np.array(c[k])
    if c['interval']:
        out['generation_interval'] = (lambda *a: sum(a),) + tuple(
            c['interval'])
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return [float(x) for x in a] == [float(x) for x in b]
    return type(a) is type(b) and a == b


def check_model(model, v, what='model'):
    """v: the value of every setting after overriding."""
    r, m = model.reader, model.medium
    g, = model.generators
    ant = r.antenna
    words = v['tid_word_size']
    want = [
        (model.max_tags_num, v['num_tags'], 'number of tags to simulate'),
        (g.max_tags_generated, v['num_tags'], 'number of tags to generate'),
        (model.update_interval, v['update_interval'], 'update interval'),
        (model.statistics.use_power_statistics,
         v['collect_power_statistics'], 'power statistics'),
        (r.tari, v['tari'], 'Tari'), (r.delim, v['delim'], 'delimiter'),
        (r.temp, v['temp'], 'temperature'),
        (r.tag_encoding, v['encoding'], 'encoding'),
        (r.dr, v['dr'], 'DR'), (r.trext, v['trext'], 'TRext'),
        (r.sel, v['sel'], 'Sel'), (r.session, v['session'], 'session'),
        (r.target, v['target'], 'target'),
        (r.target_strategy, v['target_strategy'], 'target strategy'),
        (r.rounds_per_target, v['rounds_per_target'], 'rounds per target'),
        (r.q, v['q'], 'Q'),
        (r.q_fp, v['q'] if v['q_fp'] is None else v['q_fp'], 'floating Q'),
        (r.use_query_adjust, v['use_query_adjust'], 'use of QueryAdjust'),
        (r.adjust_delta, v['adjust_delta'], 'step of Q'),
        (r.max_power, v['reader_power'], 'power'),
        (r.power_control_mode,
         Reader.PowerControlMode.PERIODIC if v['reader_switch_power'] else
         Reader.PowerControlMode.ALWAYS_ON, 'power mode'),
        (r.power_on_duration, v['reader_power_on_duration'], 'on time'),
        (r.power_off_duration, v['reader_power_off_duration'], 'off time'),
        (r.noise, v['reader_noise'], 'noise'),
        (r.read_tid_words_num, words, 'words to read'),
        (bool(r.read_tid_bank), v['read_tid_bank'] and words > 0,
         'reading of TID'),
        (r.always_start_with_first_antenna,
         v['reader_always_start_with_first_antenna'], 'first antenna'),
        (r.antenna_switch_interval, v['reader_antenna_switching_interval'],
         'antenna switching'),
        (r.num_antennas, 1, 'antennas'),
        ([float(x) for x in ant.pos],
         [v['reader_antenna_x'], 0.0, v['reader_antenna_z']],
         'position of the antenna'),
        ([float(x) for x in ant.direction_theta],
         [float(x) for x in v['reader_antenna_direction']], 'direction'),
        (ant.gain, v['reader_antenna_gain'], 'gain'),
        (ant.cable_loss, v['reader_cable_loss'], 'cable loss'),
        (m.ber_distribution, v['ber_distribution'], 'BER'),
        (m.ground_reflection_type, v['ground_reflection_type'],
         'reflection'),
        (m.frequency, v['frequency'], 'frequency'),
        (m.permittivity, v['permittivity'], 'permittivity'),
        (m.conductivity, v['conductivity'], 'conductivity'),
        (m.polarization_loss, v['polarization_loss'], 'polarization loss'),
        (m.use_doppler, v['use_doppler'], 'Doppler effect'),
    ]
    for got, expected, name in want:
        eq(got, expected, f'{what}: {name}')
    close(r.rtcal, v['tari'] * v['rtcal_tari_mul'], f'{what}: RTcal')
    close(r.trcal, v['tari'] * v['rtcal_tari_mul'] * v['trcal_rtcal_mul'],
          f'{what}: TRcal')
    return g


def check_tag(g, model, v, what):
    tag = g.create_tag(model)
    words = v['tid_word_size']
    for got, expected, name in (
            ([float(x) for x in tag.pos],
             [v['tag_antenna_x'], -v['initial_distance_to_reader'],
              v['tag_antenna_z']], 'position'),
            ([float(x) for x in tag.normalized_direction], [0.0, 1.0, 0.0],
             'direction'),
            (tag.velocity, v['speed'], 'speed'),
            ([float(x) for x in tag.antenna.direction_theta],
             [float(x) for x in v['tag_antenna_direction']],
             'antenna direction'),
            (tag.antenna.gain, v['tag_antenna_gain'], 'gain'),
            (tag.modulation_loss, v['tag_modulation_loss'], 'modulation'),
            (tag.sensitivity, v['tag_sensitivity'], 'sensitivity'),
            (len(tag.epc) * 4, v['epc_bitlen'], 'length of EPC'),
            (tag.persistence(std.Session.S1), v['s1_persistence'], 'S1'),
            (tag.persistence(std.Session.S2), v['s2_persistence'], 'S2'),
            (tag.persistence(std.Session.S3), v['s3_persistence'], 'S3')):
        eq(got, expected, f'{what}: tag {name}')
    if words > 0:
        eq(len(tag.tid) * 4, 16 * words, f'{what}: tag TID')
    close(g.lifetime, v['travel_distance'] / v['speed'],
          f'{what}: time of a tag')
    fn = v['generation_interval']
    close(g.interval, fn[0](*fn[1:]), f'{what}: interval of tags')
    return tag


def body(c, ctx):
    given = values(c)
    base = defaults()
    if c['own']:
        settings = conf.Settings(**given)
        v = dict(base, **given)
    else:
        settings, v = None, dict(base)
    close((settings or conf.Settings()).tid_bitlen, 16 * v['tid_word_size'],
          'length of TID by the settings')
    close((settings or conf.Settings()).rtcal,
          v['tari'] * v['rtcal_tari_mul'], 'RTcal by the settings')
    for switch in (None, True, False):
        mode = (settings or conf.Settings()).get_power_control_mode(
            **({} if switch is None else {'reader_switch_power': switch}))
        on = v['reader_switch_power'] if switch is None else switch
        eq(mode, Reader.PowerControlMode.PERIODIC if on else
           Reader.PowerControlMode.ALWAYS_ON, f'power mode for {switch}')
    # the default settings are of every object its own
    spoiled = conf.Settings()
    for f in dataclasses.fields(spoiled):
        x = getattr(spoiled, f.name)
        if isinstance(x, np.ndarray):
            x += 7
    for k, x in defaults().items():
        req(same(x, base[k]), 'default of %s became %r', k, x)
    before = {f.name: copy.copy(getattr(settings, f.name))
              for f in dataclasses.fields(conf.Settings)} if settings else {}
    kw = dict(c['kw'])
    if 'encoding' in kw:
        kw['encoding'] = rc.ENC[kw['encoding']]
    for k, x in kw.items():
        v[OVERRIDES[k]] = x
    plain = dict(base, **given) if c['own'] else dict(base)

    model = conf.create_model(settings, **kw)
    g = check_model(model, v)
    tag = check_tag(g, model, v, 'model')
    # settings stay, and another model of them does not depend on the first
    for k, x in before.items():
        req(same(getattr(settings, k), x), 'setting %s changed to %r', k,
            getattr(settings, k))
    model.reader.q = 99
    model.reader.antenna.gain = 1e9
    model.reader.antenna.pos[0] = 1e9
    model.medium.frequency = 1e9
    g.num_tags_generated += 5
    tag.pos[0] = 1e9
    second = conf.create_model(settings)
    req(second.reader is not model.reader and second.medium is not
        model.medium and second.generators[0] is not g and
        second.statistics is not model.statistics, 'models share parts')
    eq(second.generators[0].num_tags_generated, 0, 'tags generated')
    eq((second.tags, second.num_tags_simulated, second.transaction),
       ([], 0, None), 'a new model')
    g2 = check_model(second, plain, 'second model')
    check_tag(g2, second, plain, 'second model')
    ctx.nt(bool(kw) and bool(given))
    ctx.label('own settings' if c['own'] else 'default settings',
              'overridden' if kw else 'as set')


# --- printed settings --------------------------------------------------------
def shown(v):
    """(group, name) -> value that a detailed table has to show."""
    us = ('tari', 'rtcal', 'trcal', 'delim')
    rtcal = v['tari'] * v['rtcal_tari_mul']
    words = v['tid_word_size']
    want = {
        'model': {'max_tags_num': v['num_tags'],
                  'update_interval': v['update_interval'],
                  'statistics.use_power_statistics':
                      v['collect_power_statistics']},
        'reader': {
            'tari': v['tari'], 'rtcal': rtcal,
            'trcal': rtcal * v['trcal_rtcal_mul'], 'delim': v['delim'],
            'tag_encoding': v['encoding'], 'max_power': v['reader_power'],
            'power_control_mode': 'PERIODIC' if v['reader_switch_power']
            else 'ALWAYS_ON',
            'power_on_duration': v['reader_power_on_duration'],
            'power_off_duration': v['reader_power_off_duration'],
            'noise': v['reader_noise'], 'read_tid_words_num': words,
            'read_tid_bank': v['read_tid_bank'] and words > 0,
            'always_start_with_first_antenna':
                v['reader_always_start_with_first_antenna'],
            'antenna_switch_interval':
                v['reader_antenna_switching_interval'],
            **{k: v[k] for k in ('q', 'temp', 'session', 'target', 'sel',
                                 'dr', 'trext', 'target_strategy',
                                 'rounds_per_target')}},
        'reader antenna': {
            'pos': [v['reader_antenna_x'], 0, v['reader_antenna_z']],
            'direction_theta': v['reader_antenna_direction'],
            'gain': v['reader_antenna_gain'],
            'cable_loss': v['reader_cable_loss']},
        'medium': {k: v[k] for k in (
            'ber_distribution', 'ground_reflection_type', 'frequency',
            'permittivity', 'conductivity', 'polarization_loss',
            'use_doppler')},
        'tag': {
            'pos0': [v['tag_antenna_x'], -v['initial_distance_to_reader'],
                     v['tag_antenna_z']],
            'velocity': v['speed'], 'direction': [0, 1, 0],
            'antenna_direction': v['tag_antenna_direction'],
            'travel_distance': v['travel_distance'],
            'epc_bitlen': v['epc_bitlen'], 'tid_bitlen': 16 * words,
            'antenna_gain': v['tag_antenna_gain'],
            'modulation_loss': v['tag_modulation_loss'],
            'sensitivity': v['tag_sensitivity']},
        'generator': {'num_tags': v['num_tags']}}
    return [(group, name, x, 1e6 if name in us else 1)
            for group, rows in want.items() for name, x in rows.items()]


def printed_body(c, ctx):
    v = defaults()
    given = values(c) if c['own'] else {}
    v.update(given)
    kw = dict(c['kw'])
    if 'encoding' in kw:
        kw['encoding'] = rc.ENC[kw['encoding']]
    for k, x in kw.items():
        v[OVERRIDES[k]] = x
    settings = conf.Settings(**given) if c['own'] else None
    texts = []
    for verbose in (True, False):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            model = conf.create_model(settings, verbose=verbose, **kw)
        check_model(model, v, f'verbose={verbose}')
        texts.append(out.getvalue())
    for group, name, x, mul in shown(v):
        row = re.compile(rf'^\W*{re.escape(group)}\W+{re.escape(name)}'
                         r'(?:\s+|\s*\|\s*)(\S.*?)\W?$', re.M)
        req(not row.search(texts[1]), '%s %s printed unasked', group, name)
        found = [m.group(0) for m in row.finditer(texts[0])]
        eq(len(found), 1, f'rows of {group} {name}')
        text = found[0].split(name, 1)[1]
        if isinstance(x, (bool, str)) or not isinstance(
                x, (int, float, list, np.ndarray)):
            req(text.split()[0] == str(x), '%s %s is %s, printed %r', group,
                name, x, text)
            continue
        got = [float(t) for t in re.findall(
            r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?', text)]
        want = [float(t) * mul for t in (
            x if isinstance(x, (list, np.ndarray)) else [x])]
        eq(len(got), len(want), f'numbers of {group} {name}')
        for a, b in zip(got, want):
            close(a, b, f'{group} {name} printed', 1e-4,
                  .006 if mul > 1 else 1e-7)
    ctx.nt(bool(kw) and bool(given))


# --- effect on the air -------------------------------------------------------
def air_strategy():
    return st.fixed_dictionaries({
        'case': rs.settings_strategy(max_tags=1),
        'kw': st.fixed_dictionaries({}, optional={
            'encoding': rc.keys(rc.ENC),
            'tari': st.sampled_from([6.25, 12.5, 18.75, 25.0]),
            'tid_word_size': st.integers(0, 20), 'power': num}),
    })


def air_body(c, ctx):
    s = rs.make_settings(c['case'], reader_power=30.0)
    kw = dict(c['kw'])
    m = kw.get('encoding', c['case']['m'])
    if 'encoding' in kw:
        kw['encoding'] = rc.ENC[kw['encoding']]
    tari = kw['tari'] = kw.get('tari', c['case']['tari']) * 1e-6

    def scenario(sim):
        model = sim.context = conf.create_model(s, **kw)
        reader = model.reader
        reader.kernel = sim
        return reader.turn_on(), reader
    frame, reader = tc.in_sim(scenario)
    cmd = frame.command
    req(isinstance(cmd, std.Query), 'the first command is %r', cmd)
    eq((cmd.m, cmd.dr, cmd.trext, cmd.q, cmd.session, cmd.sel),
       (rc.ENC[m], rc.DR[c['case']['dr']], c['case']['trext'],
        c['case']['q'], rc.SESSION[c['case']['session']], std.SelFlag.ALL),
       'fields of Query')
    if c['case']['strategy'] == 'const':
        eq(cmd.target, rc.TARGET[c['case']['target']], 'target of Query')
    lk = rs.link_of(dict(c['case'], tari=tari * 1e6))
    close(frame.duration, rc.ref_command_duration(lk, cmd.encode(), True),
          'time of Query', 1e-9)
    close(reader.power, kw.get('power', 30.0), 'power on the air')
    ctx.nt(bool(c['kw']))


# --- what is not given ---------------------------------------------------------
SENSE = {
    'delim': lambda v: 11.875e-6 <= v['delim'] <= 13.125e-6,
    'tari': lambda v: 6.25e-6 <= v['tari'] <= 25e-6,
    'rtcal_tari_mul': lambda v: 2.5 <= v['rtcal_tari_mul'] <= 3,
    'trcal_rtcal_mul': lambda v: 1.1 <= v['trcal_rtcal_mul'] <= 3,
    'temp': lambda v: v['temp'] in rc.TEMP.values(),
    'speed': lambda v: 0 < v['speed'] < 100,
    'travel_distance': lambda v: v['travel_distance'] > 0,
    'update_interval': lambda v: 0 < v['update_interval'] <= 1,
    'reader_antenna_gain': lambda v: 0 <= v['reader_antenna_gain'] < 20,
    'reader_cable_loss': lambda v: -10 < v['reader_cable_loss'] <= 0,
    'tag_antenna_gain': lambda v: 0 <= v['tag_antenna_gain'] < 20,
    'tag_modulation_loss': lambda v: -40 < v['tag_modulation_loss'] < 0,
    'reader_power': lambda v: 0 < v['reader_power'] <= 36,
    'tag_sensitivity': lambda v: -40 < v['tag_sensitivity'] < 0,
    'reader_noise': lambda v: -130 < v['reader_noise'] < -40,
    'ber_distribution': lambda v: v['ber_distribution'] in ('rayleigh',
                                                            'awgn'),
    # the band of the standard, in Hz
    'frequency': lambda v: 860e6 <= v['frequency'] <= 960e6,
    'permittivity': lambda v: 1 <= v['permittivity'] < 100,
    'conductivity': lambda v: 0 <= v['conductivity'] < 100,
    'polarization_loss': lambda v: -10 <= v['polarization_loss'] <= 0,
    'ground_reflection_type': lambda v: v['ground_reflection_type'] in (
        'reflection', 'const'),
    'reader_power_on_duration': lambda v: v['reader_power_on_duration'] > 0,
    'reader_power_off_duration': lambda v: v['reader_power_off_duration'] > 0,
    'tid_word_size': lambda v: 0 <= v['tid_word_size'] < 256,
    'encoding': lambda v: v['encoding'] in rc.ENC.values(),
    'dr': lambda v: v['dr'] in rc.DR.values(),
    'sel': lambda v: v['sel'] in rc.SEL.values(),
    'session': lambda v: v['session'] in rc.SESSION.values(),
    'target': lambda v: v['target'] in rc.TARGET.values(),
    'trext': lambda v: v['trext'] in (True, False),
    'q': lambda v: v['q'] in range(16),
    'adjust_delta': lambda v: 0 < v['adjust_delta'] < 1,
    'q_fp': lambda v: v['q_fp'] is None or 0 <= v['q_fp'] <= 15,
    'target_strategy': lambda v: v['target_strategy'] in ('const', 'switch'),
    'rounds_per_target': lambda v: v['rounds_per_target'] >= 1,
    'epc_bitlen': lambda v: v['epc_bitlen'] in range(16, 497, 16),
    # the least times of the standard
    's1_persistence': lambda v: .5 <= v['s1_persistence'] <= 5,
    's2_persistence': lambda v: 2 <= v['s2_persistence'],
    's3_persistence': lambda v: 2 <= v['s3_persistence'],
    'num_tags': lambda v: v['num_tags'] >= 1,
}


def sense_strategy():
    return st.fixed_dictionaries({}, optional=dict(
        SIMPLE, **{k: rc.keys(v) for k, v in ENUMS.items()}))


def sense_body(c, ctx):
    given = {k: ENUMS[k][v] if k in ENUMS else v for k, v in c.items()}
    s = conf.Settings(**given)
    v = {f.name: getattr(s, f.name) for f in dataclasses.fields(s)}
    for k, fn in SENSE.items():
        if k in given:
            eq(v[k], given[k], f'setting {k}')
        else:
            req(fn(v), 'the default of %s makes no sense: %r', k, v[k])
    ctx.nt(given and len(given) < len(SIMPLE))


def reading_strategy():
    return st.fixed_dictionaries({
        'seed': st.integers(0, 2 ** 32 - 1), 'num_tags': st.integers(2, 3),
        'words': st.integers(1, 8)})


def reading_body(c, ctx):
    """With the default settings tags are read."""
    c = dict(c, interval=1.0, travel=20.0, speed=8.0)
    tr = rs.run(c, conf.Settings(num_tags=c['num_tags'],
                                 tid_word_size=c['words']), trace=False)
    s = tr.model.statistics
    req(s.inventory_probability() > 0, 'no tag was identified')
    req(s.read_tid_probability() > 0, 'no tag was read')
    ctx.nt()


PROPERTY = Property(
    'C27',
    'Random subsets of the settings with random values and random subsets '
    'of the overriding arguments; every setting is found in the model, its '
    'tags and its first command, settings stay untouched, models are '
    'independent; settings not given make sense, and tags are read with '
    'them.  Non-trivial: both settings and arguments given.',
    [Part('model', strategy, body, 1200, shards=4),
     Part('printed', strategy, printed_body, 400, shards=2),
     Part('air', air_strategy, air_body, 300, shards=2),
     Part('sense', sense_strategy, sense_body, 300, shards=1),
     Part('reading', reading_strategy, reading_body, 8, 200, shards=8)],
    ['Settings are not checked for sense (any number is passed on).'])
