"""Generators and an independent reference for the RFID link (EPC Class 1 Gen2):
bit fields of commands, PIE and tag-frame durations, link timing."""
import contextlib
from fractions import Fraction

from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std

DR = {'8': std.DivideRatio.DR_8, '64/3': std.DivideRatio.DR_643}
DR_VALUE = {'8': 8.0, '64/3': 64 / 3}
ENC = {'FM0': std.TagEncoding.FM0, 'M2': std.TagEncoding.M2,
       'M4': std.TagEncoding.M4, 'M8': std.TagEncoding.M8}
M_VALUE = {'FM0': 1, 'M2': 2, 'M4': 4, 'M8': 8}
SEL = {'ALL': std.SelFlag.ALL, '~SL': std.SelFlag.NOT_SEL,
       'SL': std.SelFlag.SEL}
SESSION = {'S0': std.Session.S0, 'S1': std.Session.S1,
           'S2': std.Session.S2, 'S3': std.Session.S3}
TARGET = {'A': std.InventoryFlag.A, 'B': std.InventoryFlag.B}
BANK = {'RESERVED': std.MemoryBank.RESERVED, 'EPC': std.MemoryBank.EPC,
        'TID': std.MemoryBank.TID, 'USER': std.MemoryBank.USER}
TEMP = {'nominal': std.TempRange.NOMINAL, 'extended': std.TempRange.EXTENDED}

keys = lambda d: st.sampled_from(sorted(d))     # noqa: E731
rn16 = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 0xFFFF]))
word_ptrs = st.one_of(st.integers(0, 300),
                      st.sampled_from([0, 127, 128, 16383, 16384, 2 ** 21]),
                      st.integers(0, 2 ** 30))


@st.composite
def link(draw):
    """Reader link parameters inside the ranges of the standard."""
    tari = draw(st.one_of(st.sampled_from([6.25, 12.5, 18.75, 25.0]),
                          st.floats(6.25, 25.0))) * 1e-6
    rtcal = tari * draw(st.floats(2.5, 3.0))
    trcal = rtcal * draw(st.floats(1.1, 3.0))
    delim = draw(st.one_of(st.just(12.5), st.floats(11.9, 13.1))) * 1e-6
    return {'tari': tari, 'rtcal': rtcal, 'trcal': trcal, 'delim': delim,
            'dr': draw(keys(DR)), 'm': draw(keys(ENC)),
            'trext': draw(st.booleans())}


@st.composite
def command(draw, kinds=('Query', 'QueryRep', 'QueryAdjust', 'Ack', 'ReqRN',
                         'Read')):
    kind = draw(st.sampled_from(list(kinds)))
    c = {'kind': kind}
    if kind == 'Query':
        c.update(dr=draw(keys(DR)), m=draw(keys(ENC)),
                 trext=draw(st.booleans()), sel=draw(keys(SEL)),
                 session=draw(keys(SESSION)), target=draw(keys(TARGET)),
                 q=draw(st.integers(0, 15)), crc=draw(st.integers(0, 31)))
    elif kind == 'QueryRep':
        c.update(session=draw(keys(SESSION)))
    elif kind == 'QueryAdjust':
        c.update(session=draw(keys(SESSION)),
                 updn=draw(st.sampled_from([-1, 0, 1])))
    elif kind == 'Ack':
        c.update(rn=draw(rn16))
    elif kind == 'ReqRN':
        c.update(rn=draw(rn16), crc=draw(rn16))
    else:
        c.update(bank=draw(keys(BANK)), word_ptr=draw(word_ptrs),
                 word_count=draw(st.integers(0, 255)), rn=draw(rn16),
                 crc=draw(rn16))
    return c


def build_command(c):
    k = c['kind']
    if k == 'Query':
        return std.Query(dr=DR[c['dr']], m=ENC[c['m']], trext=c['trext'],
                         sel=SEL[c['sel']], session=SESSION[c['session']],
                         target=TARGET[c['target']], q=c['q'], crc=c['crc'])
    if k == 'QueryRep':
        return std.QueryRep(session=SESSION[c['session']])
    if k == 'QueryAdjust':
        return std.QueryAdjust(session=SESSION[c['session']], updn=c['updn'])
    if k == 'Ack':
        return std.Ack(c['rn'])
    if k == 'ReqRN':
        return std.ReqRN(rn=c['rn'], crc=c['crc'])
    return std.Read(bank=BANK[c['bank']], word_ptr=c['word_ptr'],
                    word_count=c['word_count'], rn=c['rn'], crc=c['crc'])


SET = {'dr': DR, 'm': ENC, 'sel': SEL, 'session': SESSION, 'target': TARGET,
       'bank': BANK}
FIELDS = {'Query': ('dr', 'm', 'trext', 'sel', 'session', 'target', 'q',
                    'crc'),
          'QueryRep': ('session',), 'QueryAdjust': ('session', 'updn'),
          'Ack': ('rn',), 'ReqRN': ('rn', 'crc'),
          'Read': ('bank', 'word_ptr', 'word_count', 'rn', 'crc')}
CLASSES = {'Query': std.Query, 'QueryRep': std.QueryRep,
           'QueryAdjust': std.QueryAdjust, 'Ack': std.Ack,
           'ReqRN': std.ReqRN, 'Read': std.Read}
# name of the system-wide default of a field of a command
DEFAULT = {'dr': 'divide_ratio', 'm': 'tag_encoding', 'trext': 'trext',
           'sel': 'sel', 'session': 'session', 'target': 'target', 'q': 'Q',
           'rn': 'default_rn', 'bank': 'read_default_bank',
           'word_ptr': 'read_default_word_ptr',
           'word_count': 'read_default_word_count'}


def default_name(kind, field):
    if field == 'crc':
        return 'default_crc5' if kind == 'Query' else 'default_crc16'
    return DEFAULT.get(field)


@contextlib.contextmanager
def defaults(**values):
    """The system-wide default parameters, for a while."""
    before = {k: getattr(std.stdParams, k) for k in values}
    try:
        for k, v in values.items():
            setattr(std.stdParams, k, v)
        yield
    finally:
        for k, v in before.items():
            setattr(std.stdParams, k, v)


OTHER = {
    'tari': 'tari', 'rtcal': 'rtcal', 'trcal': 'trcal', 'delim': 'delim',
    'dr': 'divide_ratio', 'm': 'tag_encoding', 'trext': 'trext'}


def under(strategy, body):
    """A case that gives every parameter must not depend on the system-wide
    defaults: some of the cases run with all of them changed."""
    other = st.fixed_dictionaries({
        'link': link(), 'Q': st.integers(1, 15), 'sel': keys(SEL),
        'session': keys(SESSION), 'target': keys(TARGET), 'bank': keys(BANK),
        'read_default_word_ptr': st.integers(1, 300),
        'read_default_word_count': st.integers(1, 255),
        'temp': keys(TEMP), 'default_epc': st.sampled_from(
            ['5A' * 3, 'C3' * 30]), 'default_read_data': st.just('3C' * 6),
        'default_rn': st.integers(1, 0xFFFF),
        'default_crc5': st.integers(1, 31),
        'default_crc16': st.integers(1, 0xFFFF)})

    def strategy_():
        return st.tuples(strategy(), st.one_of(st.none(), other))

    def body_(case, ctx):
        case, d = case
        changed = {}
        if d is not None:
            changed = {k: v for k, v in d.items()
                       if hasattr(std.stdParams, k)}
            changed.update((OTHER[k], field_value(k, v))
                           for k, v in d['link'].items())
            changed.update(
                sel=SEL[d['sel']], session=SESSION[d['session']],
                target=TARGET[d['target']], temp_range=TEMP[d['temp']],
                read_default_bank=BANK[d['bank']])
        with defaults(**changed):
            body(case, ctx)
        ctx.label('other defaults' if changed else 'usual defaults')
    return strategy_, body_


def field_value(field, value):
    return SET[field][value] if field in SET else value


# --- reference -------------------------------------------------------------
def bits(value, n):
    return ''.join('1' if value >> i & 1 else '0' for i in range(n - 1, -1, -1))


def ref_ebv(value):
    blocks = [value & 127]
    value >>= 7
    while value:
        blocks.append(value & 127)
        value >>= 7
    out = []
    for i, b in enumerate(reversed(blocks)):
        more = i < len(blocks) - 1
        out.append(('1' if more else '0') + bits(b, 7))
    return ''.join(out)


def ref_encode(c):
    k = c['kind']
    ses = lambda: bits(int(c['session'][1]), 2)     # noqa: E731
    if k == 'Query':
        return ('1000' + {'8': '0', '64/3': '1'}[c['dr']] +
                {'FM0': '00', 'M2': '01', 'M4': '10', 'M8': '11'}[c['m']] +
                ('1' if c['trext'] else '0') +
                {'ALL': '00', '~SL': '10', 'SL': '11'}[c['sel']] + ses() +
                {'A': '0', 'B': '1'}[c['target']] + bits(c['q'], 4) +
                bits(c['crc'], 5))
    if k == 'QueryRep':
        return '00' + ses()
    if k == 'QueryAdjust':
        return '1001' + ses() + {1: '110', 0: '000', -1: '011'}[c['updn']]
    if k == 'Ack':
        return '01' + bits(c['rn'], 16)
    if k == 'ReqRN':
        return bits(0xC1, 8) + bits(c['rn'], 16) + bits(c['crc'], 16)
    return (bits(0xC2, 8) +
            {'RESERVED': '00', 'EPC': '01', 'TID': '10',
             'USER': '11'}[c['bank']] +
            ref_ebv(c['word_ptr']) + bits(c['word_count'], 8) +
            bits(c['rn'], 16) + bits(c['crc'], 16))


def ref_command_duration(lk, encoded, query):
    """PIE: preamble (Query) or frame-sync (others), then the bits."""
    n1 = encoded.count('1')
    n0 = len(encoded) - n1
    t = lk['delim'] + lk['tari'] + lk['rtcal'] + (lk['trcal'] if query else 0)
    return t + n0 * lk['tari'] + n1 * (lk['rtcal'] - lk['tari'])


def ref_preamble_bits(m, trext):
    if m == 'FM0':
        return 18 if trext else 6
    return 22 if trext else 10


def ref_blf(lk):
    return DR_VALUE[lk['dr']] / lk['trcal']


def ref_reply_duration(lk, n_bits):
    """Preamble, the bits of the reply, and the closing dummy bit."""
    total = ref_preamble_bits(lk['m'], lk['trext']) + n_bits + 1
    return total * M_VALUE[lk['m']] / ref_blf(lk)


# Frequency tolerance, table 6.9 of the standard: upper bounds of TRcal, us
FRT = {
    ('64/3', 'nominal'): [(33.3, None), (66.7, .22), (83.3, .12),
                          (133.3, .10), (200, .07), (225, .05)],
    ('64/3', 'extended'): [(33.3, None), (66.7, .22), (83.3, .15),
                           (133.3, .12), (200, .07), (225, .05)],
    ('8', 'nominal'): [(17.2, None), (25, .19), (31.25, .12), (50, .10),
                       (75, .07), (200, .04)],
    ('8', 'extended'): [(17.2, None), (25, .19), (31.25, .15), (50, .10),
                        (75, .07), (200, .04)],
}
FRT_POINTS = {
    ('64/3', 'nominal'): {33.3: .15, 66.7: .10, 83.3: .10},
    ('64/3', 'extended'): {33.3: .15, 66.7: .15, 83.3: .10},
    ('8', 'nominal'): {25.0: .10, 31.25: .10, 50.0: .07},
    ('8', 'extended'): {25.0: .15, 31.25: .10, 50.0: .07},
}


def ref_frt(trcal, dr, temp):
    """None if TRcal is near, but not at, a border of the table (the table
    has single points there, the code 1% bands) or outside of the table."""
    us = trcal * 1e6
    for p, v in FRT_POINTS[dr, temp].items():
        if abs(us - p) <= 1e-6 * p:
            return v
    for bound, v in FRT[dr, temp]:
        if abs(us - bound) <= 0.011 * bound:
            return None
        if us < bound:
            return v
    return None


def ref_t1(lk, temp):
    """(min, max) or None"""
    frt = ref_frt(lk['trcal'], lk['dr'], temp)
    if frt is None:
        return None
    nominal = max(lk['rtcal'], 10 * lk['trcal'] / DR_VALUE[lk['dr']])
    return nominal * (1 - frt) - 2e-6, nominal * (1 + frt) + 2e-6


def pri(lk):
    return lk['trcal'] / DR_VALUE[lk['dr']]


def exact(x):
    return Fraction(x)
