"""A reader with several antennas."""
import math

import numpy as np
from hypothesis import strategies as st

from pysim.models.rfid.objects import Antenna
from harness.core import Part, Property, close, eq, req
from . import c23
from . import rfid_sim as rs

EPS = 1e-9


@st.composite
def strategy(draw):
    c = draw(rs.settings_strategy(max_tags=3, power_stats=True))
    c['wait'] = draw(st.sampled_from([.0031, .0113, .047, .21]))
    c['first'] = draw(st.booleans())
    c['others'] = [[draw(st.floats(1, 8)), draw(st.floats(-2, 2)),
                    draw(st.floats(2, 6)), draw(st.floats(0, 9)),
                    draw(st.floats(-3, 0))]
                   for _ in range(draw(st.one_of(st.integers(0, 3),
                                                  st.integers(4, 9))))]
    return c


def antenna_at(c, tr, n):
    """-> function of time: the index of the antenna (None: switching now)"""
    on = [0.0] + [t for t in tr.on if t > 0]
    spans = []
    start = 0
    for i, t in enumerate(on):
        t_off = tr.off[i] if i < len(tr.off) else math.inf
        if c['first']:
            start = 0
        marks, t1 = [], t
        if n > 1:
            while t1 + c['wait'] < min(t_off, tr.stats.sim_time + 1):
                t1 += c['wait']
                marks.append(t1)
        spans.append((t, t_off, start, marks))
        start = (start + len(marks)) % n

    def index(time):
        """Possible indexes at the moment."""
        out = set()
        for i, (t, t_off, first, marks) in enumerate(spans):
            t_next = spans[i + 1][0] if i + 1 < len(spans) else math.inf
            if t - EPS <= time <= t_next + EPS:
                k = sum(1 for m in marks if m < time - EPS)
                j = sum(1 for m in marks if m <= time + EPS)
                out |= {(first + x) % n for x in range(k, j + 1)}
                if abs(t_off - time) < EPS or any(
                        abs(m - t_off) < EPS for m in marks) or abs(
                            (marks[-1] if marks else t) + c['wait'] -
                            t_off) < EPS:
                    return None     # switched or turned off first: either
        return out
    return index


def body(c, ctx):
    n = 1 + len(c['others'])
    made = []

    def before(model):
        reader = model.reader
        made.append(reader.antenna)
        eq((reader.num_antennas, reader.antenna_index), (1, 0),
           'antennas of a new reader')
        for x, y, z, gain, loss in c['others']:
            a = Antenna()
            a.pos = np.array([x, y, z])
            a.direction_theta = np.array([0, 0, -1])
            a.gain, a.cable_loss = gain, loss
            eq(reader.attach_antenna(a), len(made), 'index of an antenna')
            made.append(a)
        for i, a in enumerate(made):
            req(reader.get_antenna(i) is a and a.index == i,
                'antenna %d is not at its place', i)
        req(reader.antenna is made[0], 'the first antenna')

    settings = rs.make_settings(
        c, reader_antenna_switching_interval=c['wait'],
        reader_always_start_with_first_antenna=c['first'])
    tr = rs.run(c, settings, before=before)
    where = antenna_at(c, tr, n)
    used = set()
    ambiguous = False
    for rec in tr.result[1].statistics.tags_history:
        for p in sorted(rec.power_mapping, key=lambda p: p.time):
            i = p.reader_antenna_index
            want = where(p.time)
            if want is None:
                ambiguous = True
            if not (ambiguous and not c['first']) and want is not None:
                req(i in want, 'antenna %r at %r, expected %r', i, p.time,
                    want)
            used.add(i)
            a = made[i]
            eq([float(x) for x in p.reader_antenna_pos],
               [float(x) for x in a.pos], 'position of the antenna')
            if p.reader_tx_power == c23.FLOOR or p.field_lifetime == np.inf:
                continue
            ref = link(c, a, rec.tag)
            g, ok = ref.gain(p.tag_pos, p.field_lifetime, True)
            if ok:
                close(p.reader_tag_pl, g, f'gain of antenna {i}', 0, 1e-3)
            if p.tag_rx_power != c23.FLOOR:
                close(p.reader_rx_power, p.tag_tx_power + p.tag_reader_pl +
                      ref.fixed, 'power at the reader', 0, 1e-6)
        for r in rec.inventory_history:
            eq([float(x) for x in r.reader_antenna_pos],
               [float(x) for x in made[r.antenna_index].pos],
               'antenna of a reading')
    ctx.nt(len(used) > 1)
    ctx.label(f'{n} antennas', 'first' if c['first'] else 'goes on')


def link(c, antenna, tag):
    return c23.Link({
        'frequency': 860e6, 'speed': c['speed'],
        'reader_pos': [float(x) for x in antenna.pos],
        'reader_dir': [0, 0, -1], 'tag_dir': [0, 0, 1],
        'doppler': c['doppler'], 'wall': 'reflection', 'eps': 15.0,
        'sigma': .03, 'polarization_loss': -3.0,
        'reader_gain': antenna.gain, 'reader_loss': antenna.cable_loss,
        'tag_gain': tag.antenna.gain, 'tag_loss': tag.antenna.cable_loss})


PROPERTY = Property(
    'C31',
    'Runs of readers with one to four antennas and a power cycle; the '
    'antenna of every power record against the order of switching, its '
    'position, gain and path.  Non-trivial: records of more than one '
    'antenna.',
    [Part('run', strategy, body, 140, 2500, shards=8)],
    ['Records at the very moment of switching may belong to either antenna; '
     'nothing is said of the order when switching and turning off coincide '
     'to 1e-9 s.'])
