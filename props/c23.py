"""Link budget, SNR and BER, and the power records of a run."""
import math

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.channel as chan
import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, close, eq, req
from . import c22
from . import rfid_common as rc
from . import rfid_sim as rs
from . import tag_common as tc

LIGHT = 2.99792458e8
FLOOR = -120


def db(x):
    return 10 * math.log10(x) if x >= 1e-15 else -math.inf


class Link:
    """The link budget of a reader and a tag, computed independently."""

    def __init__(self, p):
        self.p = p

    def gain(self, tag_pos, time, to_tag):
        """Path gain in dB and whether it is far enough from its floor."""
        p = self.p
        wavelen = LIGHT / p['frequency']
        tag_vel = [x * p['speed'] for x in (0, 1, 0)]
        ends = [(p['reader_pos'], c22.unit(p['reader_dir']), [0, 0, 0]),
                (list(tag_pos), c22.unit(p['tag_dir']), tag_vel)]
        if not to_tag:
            ends.reverse()
        (tx, tx_dir, tx_vel), (rx, rx_dir, rx_vel) = ends
        c = {'tx': tx, 'rx': rx, 'tx_dir': tx_dir, 'rx_dir': rx_dir,
             'tx_vel': tx_vel, 'rx_vel': rx_vel, 'wavelen': wavelen,
             'time': time if p['doppler'] else 0.0}
        if p['wall'] == 'const':
            def coef(cos):
                return -1.0
        else:
            def coef(cos):
                return c22.fresnel(cos, .5 if to_tag else 1.0, p['eps'],
                                   p['sigma'], wavelen)
        amplitude, bound, _ = c22.two_rays(c, coef)
        power = abs(amplitude) ** 2
        geom = wavelen / (4 * math.pi) / math.dist(tx, rx)
        # digits are lost when the rays cancel or a pattern is near its zero
        ok = abs(amplitude) > 1e-4 * geom and power > 1e-14
        return db(power) + p['polarization_loss'], ok

    @property
    def fixed(self):
        p = self.p
        return (p['reader_gain'] + p['tag_gain'] + p['reader_loss'] +
                p['tag_loss'])

    def tag_rx(self, tag_pos, time):
        g, ok = self.gain(tag_pos, time, True)
        return self.p['power'] + g + self.fixed, ok

    def reader_rx(self, tag_power, tag_pos, time):
        g, ok = self.gain(tag_pos, time, False)
        return tag_power + self.p['modulation_loss'] + g + self.fixed, ok

    def snr(self, reader_rx, lk):
        width = self.p.get('bandwidth', 1.2e6)
        raw = 10 ** ((reader_rx - self.p['noise']) / 10)
        if raw < 1e-7:
            return None
        blf = rc.ref_blf(lk)
        m = rc.M_VALUE[lk['m']]
        preamble = rc.ref_preamble_bits(lk['m'], lk['trext']) * m / blf
        ang = (raw * preamble * width) ** -.5
        top = m * raw / blf * width
        return top * math.cos(ang) ** 2, top * max(1, ang) * 1e-6

    def ber(self, snr):
        if snr < 1e-8:
            return .5
        if self.p['ber'] == 'awgn':
            return c22.awgn(snr)
        t = math.sqrt(1 + 2 / snr)
        return .5 - 1 / t + 2 / math.pi * math.atan(t) / t


def direction(draw, z, strong):
    tilt = draw(st.sampled_from([0.0, 0.0, .3, .1 if strong else 1.0]))
    v = draw(st.lists(st.integers(-5, 5), min_size=3, max_size=3))
    d = [tilt * x / 5 for x in v]
    d[2] += z
    return d if any(abs(x) > 1e-6 for x in d) else [0.0, 0.0, float(z)]


@st.composite
def environment(draw, strong=False):
    """Everything about energy: a case for a link."""
    num = c22.number
    return {
        'reader_x': draw(num(1, 9)), 'reader_z': draw(num(1, 6 if strong else 12)),
        'tag_x': draw(num(1, 9)), 'tag_z': draw(num(-1, 1)) * .5,
        'reader_dir': direction(draw, -1, strong), 'tag_dir': direction(draw, 1, strong),
        'speed': draw(num(1, 40)), 'power': draw(num(33 if strong else 20, 42)),
        'reader_gain': draw(num(0, 10)), 'reader_loss': draw(num(-4, 0)),
        'tag_gain': draw(num(0, 5)), 'modulation_loss': draw(num(-18, -3)),
        'sensitivity': draw(st.sampled_from([-18.0, -25.0, -12.5])),
        'noise': draw(st.sampled_from([-80.0, -65.0, -50.0, -95.0])),
        'ber': draw(st.sampled_from(['rayleigh', 'awgn'])),
        'frequency': draw(st.sampled_from([860e6, 915e6, 866.9e6])),
        'eps': draw(num(2, 30)), 'sigma': draw(num(0, 2)),
        'polarization_loss': draw(num(-6, 0)),
        'wall': draw(st.sampled_from(['reflection', 'reflection', 'const'])),
        'doppler': draw(st.booleans()),
        'bandwidth': draw(st.sampled_from([1.2e6, 1.2e6, .6e6, 2e6])),
    }


def energy_settings(e):
    return dict(
        reader_antenna_x=e['reader_x'], reader_antenna_z=e['reader_z'],
        tag_antenna_x=e['tag_x'], tag_antenna_z=e['tag_z'],
        reader_antenna_direction=np.array(e['reader_dir'], dtype=float),
        tag_antenna_direction=np.array(e['tag_dir'], dtype=float),
        speed=e['speed'], reader_power=e['power'],
        reader_antenna_gain=e['reader_gain'],
        reader_cable_loss=e['reader_loss'], tag_antenna_gain=e['tag_gain'],
        tag_modulation_loss=e['modulation_loss'],
        tag_sensitivity=e['sensitivity'], reader_noise=e['noise'],
        ber_distribution=e['ber'], frequency=e['frequency'],
        permittivity=e['eps'], conductivity=e['sigma'],
        polarization_loss=e['polarization_loss'],
        ground_reflection_type=e['wall'], use_doppler=e['doppler'])


def link(e, tag_loss):
    return Link(dict(e, reader_pos=[e['reader_x'], 0.0, e['reader_z']],
                     tag_loss=tag_loss))


# --- one link --------------------------------------------------------------
def one_strategy(draw):
    env = draw(environment(draw(st.booleans())))
    if draw(st.integers(0, 7)) == 3:    # 0 dBm is a power as any other
        env['power'] = 0.0
    return {'env': env,
            'y': draw(st.one_of(c22.number(-3, 3), c22.number(-20, 20))),
            'dt': draw(st.one_of(st.just(0.0), st.floats(0, 3),
                                 st.floats(3, 2000))),
            'level': draw(st.one_of(st.just('own'), st.just('own'), st.none(),
                                    st.just(0.0), st.floats(-17, 10))),
            'link': draw(rc.link()), 'q': draw(st.integers(0, 3))}


@st.composite
def budget_strategy(draw):
    c = one_strategy(draw)
    c['more'] = [dict(one_strategy(draw), off=draw(st.booleans()))
                 for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return c


def apply_environment(e, model, tag):
    """Another environment for the same objects."""
    reader, medium = model.reader, model.medium
    ant = reader.antenna
    ant.pos = np.array([e['reader_x'], 0.0, e['reader_z']])
    ant.direction_theta = np.array(e['reader_dir'], dtype=float)
    ant.gain, ant.cable_loss = e['reader_gain'], e['reader_loss']
    reader.max_power, reader.noise = e['power'], e['noise']
    tag.antenna.direction_theta = np.array(e['tag_dir'], dtype=float)
    tag.antenna.gain = e['tag_gain']
    tag.velocity, tag.sensitivity = e['speed'], e['sensitivity']
    tag.modulation_loss = e['modulation_loss']
    medium.ber_distribution, medium.frequency = e['ber'], e['frequency']
    medium.permittivity, medium.conductivity = e['eps'], e['sigma']
    medium.polarization_loss = e['polarization_loss']
    medium.ground_reflection_type = e['wall']
    medium.use_doppler, medium.bandwidth = e['doppler'], e['bandwidth']


def budget_body(c, ctx):
    first = c['env']

    def scenario(sim):
        model = sim.context = conf.create_model(
            conf.Settings(**energy_settings(first)))
        reader = model.reader
        model.medium.bandwidth = first['bandwidth']
        reader.kernel = sim
        tag = model.generators[0].create_tag(model)
        tag.kernel = sim
        eq(model.medium.estimate_tag_rx_power(reader, tag, 0.0), None,
           'power from a reader that is off')
        eq(model.medium.get_forward_path_loss(reader, tag, 0.0), FLOOR,
           'path gain from a reader that is off')
        done = one_budget(c, model, tag)
        power = first['power']
        for more in c['more']:
            if more['off']:
                reader.turn_off()
                eq(model.medium.estimate_tag_rx_power(reader, tag, 0.0), None,
                   'power from a reader that is off again')
            else:   # the power in use is the one of the last turning on
                more = dict(more, env=dict(more['env'], power=power))
            power = more['env']['power']
            apply_environment(more['env'], model, tag)
            done = one_budget(more, model, tag) or done
        return done
    ctx.nt(tc.in_sim(scenario))
    ctx.label('%d environments' % (1 + len(c['more'])))


@st.composite
def single_strategy(draw):
    return {'a': one_strategy(draw), 'b': one_strategy(draw),
            'off': draw(st.lists(st.booleans(), min_size=60, max_size=60))}


def single_body(case, ctx):
    """Nothing but one quantity differs from one moment to the next."""
    a, b = case['a'], case['b']
    changed = [dict(a, **{k: b[k]}) for k in sorted(a)
               if k not in ('env', 'link')]
    changed += [dict(a, env=dict(a['env'], **{k: b['env'][k]}))
                for k in sorted(a['env'])]
    lk = dict(b['link'])
    lk['trcal'] *= a['link']['rtcal'] / b['link']['rtcal']
    changed += [dict(a, link=dict(a['link'], **{k: lk[k]}))
                for k in ('trcal', 'dr', 'm', 'trext')]
    more = [x for c in changed for x in (c, a)]
    more = [dict(c, off=off or c['env']['power'] != a['env']['power'] or
                 d['env']['power'] != a['env']['power'])
            for c, d, off in zip(more, [a] + more, case['off'] * 2)]
    budget_body(dict(a, more=more), ctx)


def one_budget(c, model, tag):
    e, lk = c['env'], c['link']
    lk['delim'] = 12.5e-6
    reader, medium = model.reader, model.medium
    if 'off' in c:
        tag.set_power(0.0, None)
    else:
        tag.setup(0.0)
    tag.pos = np.array([e['tag_x'], c['y'], e['tag_z']])
    if c.get('off', True):
        reader.turn_on()
    ref = link(e, tag.antenna.cable_loss)
    want, ok = ref.tag_rx(tag.pos, c['dt'])
    got = medium.estimate_tag_rx_power(reader, tag, c['dt'])
    if ok:
        close(got, want, 'power at the tag', 0, 1e-3)
    gain, ok = ref.gain(tag.pos, c['dt'], True)
    if ok:
        close(medium.get_forward_path_loss(reader, tag, c['dt']), gain,
              'path gain to the tag', 0, 1e-3)
    eq(medium.get_backward_path_loss(reader, tag, c['dt']), FLOOR,
       'path gain from a tag that is off')
    eq(medium.estimate_reader_rx_power(reader, tag, c['dt']), None,
       'power from a tag that is off')
    eq(medium.estimate_reader_rx_snr(reader, tag, [tag], c['dt']), 0.0,
       'SNR of a tag that is off')
    level = got if c['level'] == 'own' else c['level']
    tag.set_power(0.0, level)
    on = level is not None and level > e['sensitivity']
    eq(tag.power, level if on else None, 'power of the tag')
    if not on:
        eq(tag.tx_power, None, 'power sent by a tag that is off')
        eq(medium.estimate_reader_rx_power(reader, tag, c['dt']), None,
           'power from a tag that is off')
        return False
    tag.receive(std.ReaderFrame(
        std.ReaderPreamble(lk['tari'], lk['rtcal'], lk['trcal']),
        std.Query(dr=rc.DR[lk['dr']], m=rc.ENC[lk['m']],
                  trext=lk['trext'], q=c['q'])))
    close(tag.tx_power, level + e['modulation_loss'], 'sent by the tag')
    want, ok2 = ref.reader_rx(level, tag.pos, c['dt'])
    back = medium.estimate_reader_rx_power(reader, tag, c['dt'])
    if ok2:
        close(back, want, 'power at the reader', 0, 1e-3)
    gain, ok3 = ref.gain(tag.pos, c['dt'], False)
    if ok3:
        close(medium.get_backward_path_loss(reader, tag, c['dt']), gain,
              'path gain from the tag', 0, 1e-3)
    snr = medium.estimate_reader_rx_snr(reader, tag, [tag], c['dt'])
    check_snr(ref, back, snr, lk, medium.estimate_reader_rx_ber(
        reader, tag, [tag], snr))
    return ok and ok2


def check_snr(ref, reader_rx, snr, lk, ber):
    if reader_rx > -math.inf:
        want = ref.snr(reader_rx, lk)
        if want is not None:
            close(snr, want[0], 'SNR', 1e-6, want[1] + 1e-12)
    close(ber, ref.ber(snr), f'BER for SNR {snr}', 1e-6, 1e-9)


# --- records of a run --------------------------------------------------------
@st.composite
def records_strategy(draw):
    c = draw(rs.settings_strategy(max_tags=3, power_stats=True))
    c['env'] = draw(environment(strong=draw(st.sampled_from([1, 1, 0]))))
    c['env']['speed'] = c['speed'] = draw(st.sampled_from([10.0, 20.0, 31.0]))
    c['env']['noise'], c['env']['ber'] = c['noise'], c['ber']
    c['env']['doppler'] = c['doppler']
    if draw(st.integers(0, 5)) == 2:
        c['env'].update(power=0.0, sensitivity=-60.0)
    c['travel'] = min(c['travel'], 1.5)
    c['update'] = max(c['update'], .004)
    return c


def records_body(c, ctx):
    e = c['env']
    settings = rs.make_settings(c, **energy_settings(e))
    tr = rs.run(c, settings, before=lambda m: setattr(
        m.medium, 'bandwidth', e['bandwidth']))
    lk = rs.link_of(c)
    events = sorted([(t, 1) for t in tr.on] + [(t, 0) for t in tr.off])
    stats = tr.result[1].statistics
    dt_max = c['update'] + 1e-9
    n = [0, 0, 0]
    for rec in stats.tags_history:
        tag = rec.tag
        born = [t for t, x in tr.born if x is tag][0]
        ref = link(e, tag.antenna.cable_loss)
        req(len(rec.power_mapping) > 0, 'no power records of a tag')
        prev = None
        for p in rec.power_mapping:
            req(prev is None or p.time >= prev.time, 'power records in time')
            y = -c['distance'] + e['speed'] * (p.time - born)
            close(p.tag_pos[1], y, f'position at {p.time}', 1e-9, 1e-9)
            eq((p.tag_pos[0], p.tag_pos[2]), (e['tag_x'], e['tag_z']),
               'the other coordinates')
            eq([float(x) for x in p.reader_antenna_pos],
               [e['reader_x'], 0.0, e['reader_z']], 'position of the reader')
            eq(p.reader_antenna_index, 0, 'antenna')
            last = [x for x in events if x[0] <= p.time]
            # more events at this very moment: either state is right
            edge = any(abs(t - p.time) < 1e-12 for t, _ in events[1:])
            on = p.reader_tx_power != FLOOR
            if not edge:
                eq(on, bool(last) and last[-1][1] == 1, 'reader is on')
            n[0] += 1
            if not on:
                eq((p.tag_rx_power, p.tag_tx_power, p.reader_rx_power,
                    p.reader_tag_pl, p.tag_reader_pl),
                   (FLOOR,) * 5, f'a record without the field at {p.time}')
                eq(p.field_lifetime, np.inf, 'lifetime of no field')
                eq((p.snr, p.ber), (0.0, .5), 'SNR, BER without the field')
                prev = p
                n[1] += 1
                continue
            eq(p.reader_tx_power, e['power'], 'power of the reader')
            since = [t for t, x in events if x and t <= p.time + 1e-12]
            lifetime = p.time - max(since)
            if edge:    # with no off time: the one before may be meant
                lifetime = min((p.time - t for t in since), key=lambda x: abs(
                    x - p.field_lifetime))
            close(p.field_lifetime, lifetime, 'lifetime of the field', 1e-9,
                  1e-9)
            g, ok = ref.gain(p.tag_pos, lifetime, True)
            if ok:
                close(p.reader_tag_pl, g, 'path gain to the tag', 0, 1e-3)
            if p.tag_rx_power == FLOOR:
                eq((p.tag_tx_power, p.reader_rx_power, p.tag_reader_pl),
                   (FLOOR,) * 3, 'a record of a tag that is off')
                eq((p.snr, p.ber), (0.0, .5), 'SNR, BER of a silent tag')
            else:
                n[2] += 1
                req(p.tag_rx_power >= e['sensitivity'], 'a tag is on at %r '
                    'dBm', p.tag_rx_power)
                close(p.tag_tx_power, p.tag_rx_power + e['modulation_loss'],
                      'power sent by the tag')
                g, ok = ref.gain(p.tag_pos, lifetime, False)
                if ok:
                    close(p.tag_reader_pl, g, 'path gain back', 0, 1e-3)
                close(p.reader_rx_power, p.tag_tx_power + p.tag_reader_pl +
                      ref.fixed, 'power at the reader', 0, 1e-6)
                heard = any(cmd.time < p.time - 1e-12 and
                            isinstance(cmd.command, std.Query) and
                            any(t is tag and after in ('ARBITRATE', 'REPLY')
                                for t, _, after, _ in cmd.heard)
                            for cmd in tr.commands)
                if heard and p.reader_rx_power > -math.inf:
                    check_snr(ref, p.reader_rx_power, p.snr, lk, p.ber)
                # the power was computed where the tag is, or where it was
                # one update before
                spots = [(p.tag_pos, lifetime)]
                if prev is not None:
                    spots.append((prev.tag_pos, lifetime))
                else:
                    spots.append((list(p.tag_pos[:1]) + [-c['distance']] +
                                  list(p.tag_pos[2:]), lifetime))
                near = False
                for pos, t in spots:
                    want, ok = ref.tag_rx(pos, t)
                    near = near or not ok or \
                        abs(want - p.tag_rx_power) < 1e-3
                req(near, 'power at the tag %r, expected %r', p.tag_rx_power,
                    want)
            prev = p
        # nothing is missed for longer than the update interval
        times = [born] + [p.time for p in rec.power_mapping]
        gap = max(b - a for a, b in zip(times, times[1:]))
        req(gap <= dt_max, 'no power record for %r s', gap)
    ctx.nt(n[2] > 3)
    ctx.label(*[x for x, k in zip(('records', 'reader off', 'tag on'), n)
                if k])


PROPERTY = Property(
    'C23',
    'Links of a reader and a tag with generated geometry, wall, powers, '
    'gains, losses and air parameters against an independent link budget; '
    'every power record of generated runs against the same budget, the time '
    'of the last turn-on and the straight path of the tag.  Non-trivial: '
    'both directions of a powered link compared; more than three records '
    'of powered tags.',
    [Part('budget', budget_strategy, budget_body, 1500, shards=4),
     Part('one', single_strategy, single_body, 60, 1000, shards=2),
     Part('records', records_strategy, records_body, 120, 2000, shards=4)],
    ['Path gains are compared where the rays do not cancel (no less than '
     '1e-4 of the free-space amplitude) and are above the -150 dB floor.  '
     'In a record the power at the tag may belong to the position at the '
     'previous update (the simulator moves a tag after powering it).'])
