import random

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.calculate_params as cp
from harness.core import (Part, Property, close, eq, one_at_a_time,
                          req)
from . import rfid_common as rc

REL = 1e-9


def chunks_strategy():
    return st.fixed_dictionaries({
        'words': st.one_of(st.integers(0, 64), st.integers(0, 10 ** 6)),
        'chunks': st.one_of(st.integers(1, 20), st.integers(1, 10 ** 4))})


def chunks_body(case, ctx):
    words, k = case['words'], case['chunks']
    one, last = cp.calculate_chunks(words, k)
    if k == 1:
        eq((one, last), (words, 0), 'a single chunk')
    else:
        eq(one, words // k, 'words in a chunk')
        eq((k - 1) * one + last, words, 'words in all chunks')
        req(last >= one, 'the last chunk is shorter: %r < %r', last, one)
    ctx.nt(k > 1 and words % k)


def ids_strategy():
    return st.fixed_dictionaries({
        'size': st.one_of(st.integers(0, 20), st.integers(0, 20000)),
        'seed': st.integers(0, 2 ** 32 - 1)})


def ids_body(case, ctx):
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    n = case['size']
    text = cp.random_hex_string(n)
    eq(len(text), 2 * n, f'digits of {n} random bytes')
    data = bytes.fromhex(text)
    eq(p_bits(text), 8 * n, 'bits of a tag memory of this contents')
    if n >= 10000:      # a value is missing with probability < 256 * e**-39
        eq(len(set(data)), 256, 'values of random bytes')
        ctx.nt()
    elif n >= 12:
        req(len(set(data)) > 1, 'all bytes are the same: %r', text)


def p_bits(text):
    return std.ReadReply(text).bitlen - std.ReadReply('').bitlen


def strategy():
    return st.fixed_dictionaries({
        'tari': st.one_of(st.sampled_from([6.25, 12.5, 18.75, 25.0]),
                          st.floats(6.25, 25.0)),
        'dr': rc.keys(rc.DR), 'm': rc.keys(rc.ENC), 'trext': st.booleans(),
        'words': st.integers(1, 64), 'chunks': st.integers(1, 12),
        'bers': st.lists(st.floats(0, .5), min_size=1, max_size=5),
        'scenario': st.sampled_from([1, 2, 3]),
        'n': st.integers(1, 10 ** 5),
    })


def body(case, ctx):
    chunks = min(case['chunks'], case['words'])
    one, last = cp.calculate_chunks(case['words'], chunks)
    dr, m, trext = rc.DR[case['dr']], rc.ENC[case['m']], case['trext']
    params = cp.build_messages_df(case['tari'], m, dr, trext, chunks, one,
                                  last)
    tari = case['tari'] * 1e-6
    rtcal = tari * 2.75
    lk = {'tari': tari, 'rtcal': rtcal, 'trcal': rtcal * 1.95,
          'delim': 12.5e-6, 'dr': case['dr'], 'm': case['m'],
          'trext': trext}
    # --- commands and replies of one reading of a tag
    commands = {
        'Query': {'kind': 'Query', 'dr': case['dr'], 'm': case['m'],
                  'trext': trext, 'sel': 'ALL', 'session': 'S0',
                  'target': 'A', 'q': 4, 'crc': 0x15},
        'QueryRep': {'kind': 'QueryRep', 'session': 'S0'},
        'Ack': {'kind': 'Ack', 'rn': 0x5555},
        'Req_RN': {'kind': 'ReqRN', 'rn': 0x5555, 'crc': 0x5555},
        'Read': {'kind': 'Read', 'bank': 'TID', 'word_ptr': 0,
                 'word_count': 4, 'rn': 0x5555, 'crc': 0x5555}}
    t_cmd = {k: rc.ref_command_duration(lk, rc.ref_encode(c), k == 'Query')
             for k, c in commands.items()}
    for k, v in t_cmd.items():
        close(params[k], v, f'duration of {k}', REL)
    sizes = [one] if chunks == 1 else [one] * (chunks - 1) + [last]
    bits = {'RN16': 16, 'EPC+PC+CRC': 16 + 96 + 16, 'Handle': 32}
    data = [33 + 16 * w for w in sizes]
    around = rc.ref_preamble_bits(case['m'], trext) + 1
    eq(params['Query_len'], len(rc.ref_encode(commands['Query'])),
       'length of Query')
    for k, n in bits.items():
        close(params[k], rc.ref_reply_duration(lk, n), f'duration of {k}',
              REL)
        eq(params[k + '_len'], n + around, f'length of {k}')
    eq(len(params['Data']), chunks, 'number of data replies')
    for i, n in enumerate(data):
        close(params['Data'][i], rc.ref_reply_duration(lk, n),
              f'duration of data reply {i}', REL)
    eq([int(n) for n in params['Data_len']], [n + around for n in data],
       'lengths of data replies')
    # --- probabilities
    bers = np.array(case['bers'])
    probs = cp.prepare_probs(params, chunks, bers, len(bers))
    eq(len(probs), len(bers), 'number of points')
    lens = [n + around for n in (16, 128, 32)] + [n + around for n in data]
    for ber, row in zip(case['bers'], probs):
        eq(len(row), len(lens), 'number of probabilities')
        for p, n in zip(row, lens):
            close(float(p), (1 - ber) ** n, f'probability of {n} bits', 1e-9,
                  1e-300)
    # --- times
    times = cp.prepare_times(params, probs, chunks)
    eq(len(times), len(probs), 'number of rows of times')
    ref = rc.ref_t1(lk, 'nominal')
    t1 = ref[1] if ref else std.link_t1_max(rtcal=lk['rtcal'],
                                            trcal=lk['trcal'], dr=dr)
    gap = t1 + 20 * rc.pri(lk) + 2e-5
    want = [gap + t_cmd['Query'] + rc.ref_reply_duration(lk, 16),
            gap + t_cmd['Ack'] + rc.ref_reply_duration(lk, 128),
            gap + t_cmd['Req_RN'] + rc.ref_reply_duration(lk, 32)]
    want += [gap + t_cmd['Read'] + rc.ref_reply_duration(lk, n) for n in data]
    for row in times:
        eq(len(row), len(want), 'number of times')
        for i, (a, b) in enumerate(zip(row, want)):
            close(a, b, f'time of exchange {i}', 1e-8)
    d = cp.create_dicts(probs, times, chunks, case['scenario'], case['n'])
    eq(d, {'probability': probs, 'processing_time': times,
           'max_transmisions': case['n'], 'chunks_number': chunks,
           'scenario': case['scenario']}, 'parameters of simulations')
    ctx.nt(chunks > 1)
    ctx.label('T1 by the table' if ref else 'T1 near a border of the table')


PROPERTY = Property(
    'C13',
    'Splittings of words into chunks; link parameters, chunk splittings and '
    'bit error rates, the derived durations, lengths, probabilities and '
    'times against an independent reference of the air interface; '
    'non-trivial: several chunks.',
    [Part('chunks', chunks_strategy, chunks_body, 3000, shards=1),
     Part('params', strategy, body, 1500, shards=4),
     Part('one', *one_at_a_time(strategy, body), 80, 1500, shards=1),
     Part('identifiers', ids_strategy, ids_body, 400, shards=1)])
