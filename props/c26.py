"""Tags made by a generator."""
import math

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
import pysim.models.rfid.objects as objects
from pysim.models.rfid.objects import Generator, Model
from harness.core import Part, Property, eq, req
from . import rfid_sim as rs

HEX = '0123456789ABCDEF'
FIELDS = ('velocity', 'sensitivity', 'modulation_loss', 's1_persistence',
          's2_persistence', 's3_persistence')


@st.composite
def strategy(draw):
    prefix = st.text(HEX, max_size=6)
    num = st.floats(-50, 50)
    vec = st.lists(st.integers(-5, 5).map(float), min_size=3, max_size=3)
    digits = st.one_of(st.integers(0, 3), st.integers(4, 24))
    c = {'epc_prefix': draw(prefix), 'tid_prefix': draw(prefix),
         'epc_digits': draw(digits), 'tid_digits': draw(digits),
         'n': draw(st.one_of(st.integers(1, 40), st.integers(200, 600),
                             st.sampled_from([17, 257, 4099]))),
         'pos0': draw(vec), 'direction': draw(vec), 'antenna': draw(vec),
         'gain': draw(num), 'loss': draw(num),
         'fields': {k: draw(num) for k in FIELDS},
         'travel': draw(st.floats(.1, 100)),
         'speed': draw(st.floats(.1, 50)),
         'odd': draw(st.integers(0, 3)), 'nudge': draw(vec)}
    return c


def numbers(tags, attr, prefix, digits):
    out = []
    for tag in tags:
        value = getattr(tag, attr)
        req(isinstance(value, str) and value.startswith(prefix) and
            len(value) == len(prefix) + digits and
            all(x in HEX + 'abcdef' for x in value),
            '%s is %r (prefix %r, %r more digits)', attr, value, prefix,
            digits)
        out.append(value[len(prefix):].upper())
    # all different while there are enough digits, all used otherwise
    space = 16 ** digits
    eq(len(set(out)), min(len(out), space), f'different {attr}s of '
       f'{len(out)} tags')
    for i in range(0, len(out) - space, max(1, len(out) // 5)):
        eq(len(set(out[i:i + space])), space, f'different {attr}s in a row')
    return out


def body(c, ctx):
    g = Generator()
    g.epc_prefix, g.tid_prefix = c['epc_prefix'], c['tid_prefix']
    # lengths that are no whole number of digits are rounded up
    odd = min(c['odd'], 4 * c['epc_digits'])
    g.epc_bitlen = 4 * (len(c['epc_prefix']) + c['epc_digits']) - odd
    odd = min(c['nudge'][0] % 4, 4 * c['tid_digits'])
    g.tid_bitlen = int(4 * (len(c['tid_prefix']) + c['tid_digits']) - odd)
    g.pos0 = np.array(c['pos0'])
    g.direction = np.array(c['direction'])
    g.tag_antenna_direction = np.array(c['antenna'])
    g.antenna_gain, g.cable_loss = c['gain'], c['loss']
    for k, v in c['fields'].items():
        setattr(g, k, v)
    model, other = Model(), Model()
    tags = []
    for i in range(c['n']):
        tag = g.create_tag(model if i % 3 else other)
        tags.append(tag)
        # what happens to a tag does not touch the generator
        if i % 2:
            tag.pos += np.array(c['nudge'])
            tag.direction[0] += 1.0
            tag.antenna.direction_theta[1] += 1.0
    numbers(tags, 'epc', c['epc_prefix'], c['epc_digits'])
    numbers(tags, 'tid', c['tid_prefix'], c['tid_digits'])
    ids = [t.tag_id for t in tags]
    eq(len(set(ids)), len(ids), 'different tag ids')
    for i, tag in enumerate(tags[:50]):
        moved = np.array([0.0, 0.0, 0.0]) if i % 2 == 0 else None
        if moved is not None:
            eq([float(x) for x in tag.pos], c['pos0'], 'position of a tag')
            eq([float(x) for x in tag.direction], c['direction'],
               'direction of a tag')
            eq([float(x) for x in tag.antenna.direction_theta], c['antenna'],
               'direction of the antenna')
        eq((tag.antenna.gain, tag.antenna.cable_loss), (c['gain'], c['loss']),
           'gain and loss of the antenna')
        for k, v in c['fields'].items():
            eq(getattr(tag, k), v, k)
        eq((tag.state.name, tag.power, tag.tx_power), ('OFF', None, None),
           'a new tag')
        for bank, want in ((std.MemoryBank.EPC, tag.epc),
                           (std.MemoryBank.TID, tag.tid),
                           (std.MemoryBank.USER, None)):
            eq(tag.bank_data(bank), want, f'bank {bank}')
    g.travel_distance, g.velocity = c['travel'], c['speed']
    req(math.isclose(g.lifetime, c['travel'] / c['speed'], rel_tol=1e-12),
        'lifetime %r', g.lifetime)
    calls = []
    g.set_interval(lambda *a: calls.append(a) or 2.5, 1, 'x')
    eq((g.interval, g.interval, calls), (2.5, 2.5, [(1, 'x')] * 2),
       'interval from a function with arguments')
    ctx.nt(c['n'] > 16 and min(c['epc_digits'], c['tid_digits']) > 0)
    ctx.label('carry' if c['n'] > 16 else 'no carry')


def counter_strategy():
    # runs of the largest digit are where a number carries
    piece = st.one_of(st.text(HEX, max_size=3),
                      st.integers(1, 12).map(lambda n: 'F' * n))
    return st.fixed_dictionaries({
        'text': st.lists(piece, max_size=4).map(''.join),
        'steps': st.integers(1, 40)})


def counter_body(c, ctx):
    """The number in an identifier, from the states a long run gets to."""
    inc = getattr(objects, 'inc_hex_string', None)
    if inc is None:
        return
    text, n = c['text'], len(c['text'])
    value = int(text or '0', 16)
    for _ in range(c['steps']):
        text = inc(text)
        value = (value + 1) % 16 ** n
        eq(text.upper(), f'{value:0{n}X}' if n else '', 'next number')
    ctx.nt(c['text'].endswith('FF'))


def same_epc_strategy():
    return rs.settings_strategy(max_tags=6)


def run_body(c, ctx):
    c = dict(c, num_tags=c['num_tags'] + 18, interval=.004, words=3,
             travel=.5, speed=31.0)
    tr = rs.run(c)
    tags = [r.tag for r in tr.result[1].statistics.tags_history]
    eq(len({t.epc for t in tags}), c['num_tags'], 'identifiers in a run')
    eq(len({t.tid for t in tags}), c['num_tags'], 'TID banks in a run')
    eq({(len(t.epc), len(t.tid)) for t in tags}, {(24, 12)}, 'digits')
    owner = {t.epc.upper(): t for t in tags}
    seen = 0
    for cmd in tr.commands:
        for _, frame in cmd.delivered:
            if isinstance(frame.reply, std.AckReply):
                epc = ''.join('%02X' % b for b in frame.reply.epc)
                req(owner.get(epc) is cmd.replies[0][0],
                    'identifier %s does not tell who sent it', epc)
                seen += 1
    ctx.nt(seen > 1)


PROPERTY = Property(
    'C26',
    'Generators with arbitrary prefixes, lengths and settings, up to 4099 '
    'tags each; and whole runs.  Non-trivial: more than 16 tags and digits '
    'left for the number; more than one identifier received in a run.',
    [Part('generator', strategy, body, 500, shards=4),
     Part('counter', counter_strategy, counter_body, 400, shards=1),
     Part('run', same_epc_strategy, run_body, 60, 800, shards=4)],
    ['Prefixes no longer than the identifier.'])
