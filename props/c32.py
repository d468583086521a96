"""The whole experiment of experiments/analitical_graphs.ipynb."""
import math
import random

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.analitical_model as am
import pysim.models.tag_time.calculate_params as cp
import pysim.models.tag_time.cli as tt_cli
import pysim.models.tag_time.mc as mc
from harness.core import Part, Property, close, eq
from . import rfid_common as rc
from .c10 import moments
from .c11 import first, second


def strategy(ber, n):
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 2, 3]),
        'tari': st.sampled_from([6.25, 12.5, 18.75, 25.0]),
        'dr': rc.keys(rc.DR), 'm': rc.keys(rc.ENC), 'trext': st.booleans(),
        'per_chunk': st.integers(1, 8), 'chunks': st.integers(1, 6),
        'curves': st.integers(1, 3),
        'bers': st.lists(ber, min_size=1, max_size=3),
        'n': n, 'seed': st.integers(0, 2 ** 32 - 1)})


def experiment(c, words, chunks):
    """Times (ms) of one curve by the three models."""
    dr, m = rc.DR[c['dr']], rc.ENC[c['m']]
    bers = np.array(c['bers'])
    one, last = cp.calculate_chunks(words, chunks)
    params = cp.build_messages_df(c['tari'], m, dr, c['trext'], chunks, one,
                                  last)
    probs = cp.prepare_probs(params, chunks, bers, len(bers))
    times = cp.prepare_times(params, probs, chunks)
    by_mc = mc.run_multiple_models(c['scenario'], probs, times, c['n'])
    series = tt_cli.run_multiple_simulation(dict(cp.create_dicts(
        probs, times, chunks, c['scenario'], c['n']), jobs=2))
    by_sim = [s.sim_time / c['n'] * 1000 for s in series]
    phases = am.convert_data_for_analitica(probs, times)
    return am.run_analitica(c['scenario'], phases, chunks), by_mc, by_sim


def reference(c, words, chunks, ber):
    """Phases (probability, time) of one reading, from the air interface."""
    tari = c['tari'] * 1e-6
    lk = {'tari': tari, 'rtcal': tari * 2.75, 'trcal': tari * 2.75 * 1.95,
          'delim': 12.5e-6, 'dr': c['dr'], 'm': c['m'], 'trext': c['trext']}
    commands = [
        {'kind': 'Query', 'dr': c['dr'], 'm': c['m'], 'trext': c['trext'],
         'sel': 'ALL', 'session': 'S0', 'target': 'A', 'q': 4, 'crc': 0x15},
        {'kind': 'Ack', 'rn': 0x5555},
        {'kind': 'ReqRN', 'rn': 0x5555, 'crc': 0x5555},
        {'kind': 'Read', 'bank': 'TID', 'word_ptr': 0, 'word_count': 4,
         'rn': 0x5555, 'crc': 0x5555}]
    bits = [16, 16 + 96 + 16, 32, 33 + 16 * (words // chunks)]
    around = rc.ref_preamble_bits(c['m'], c['trext']) + 1
    ref = rc.ref_t1(lk, 'nominal')
    t1 = ref[1] if ref else std.link_t1_max(
        rtcal=lk['rtcal'], trcal=lk['trcal'], dr=rc.DR[c['dr']])
    gap = t1 + 20 * rc.pri(lk) + 2e-5
    return [((1 - ber) ** (n + around), gap + rc.ref_command_duration(
        lk, rc.ref_encode(cmd), cmd['kind'] == 'Query') +
        rc.ref_reply_duration(lk, n)) for cmd, n in zip(commands, bits)]


def body(c, ctx):
    np.random.seed(c['seed'])
    random.seed(c['seed'])
    chunks = c['chunks'] if c['scenario'] == 3 else 1
    for curve in range(1, c['curves'] + 1):
        words = c['per_chunk'] * curve * chunks
        exact, by_mc, by_sim = experiment(c, words, chunks)
        eq([len(exact), len(by_mc), len(by_sim)], [len(c['bers'])] * 3,
           'numbers of points')
        for i, ber in enumerate(c['bers']):
            ph = reference(c, words, chunks, ber)
            if c['scenario'] == 1:
                want = float(first(ph))
                var = moments(1, [p for p, _ in ph], [t for _, t in ph],
                              1)[1]
            else:
                long = ph[:3] + ph[3:] * chunks
                want = float(second(long))
                var = sum(t * t * (1 - p) / p / p for p, t in long)
            what = f'{words} words in {chunks} chunks, BER {ber}'
            close(exact[i], want * 1000, f'analytical time, {what}', 1e-7)
            tol = 9000 * math.sqrt(max(var, 0) / c['n'])
            close(by_mc[i], want * 1000, f'Monte-Carlo time, {what}', 1e-7,
                  tol)
            close(by_sim[i], want * 1000, f'simulated time, {what}', 1e-7,
                  tol)
            ctx.nt(ber > 0 or chunks > 1)
    ctx.label(f'scenario {c["scenario"]}')


def quiet():
    return strategy(st.just(0.0), st.sampled_from([1, 3, 10]))


def noisy():
    return strategy(st.one_of(st.just(0.0), st.floats(1e-4, 1e-3),
                              st.sampled_from([1e-3, 2e-3])), st.just(300))


PROPERTY = Property(
    'C32',
    'Reading experiments from the parameters of the link (Tari, DR, '
    'encoding, words, chunks, scenario, bit error rates) through the '
    'analytical, Monte-Carlo and simulation models, against an independent '
    'expectation: exactly without errors, within 9 sigma with them; '
    'non-trivial: errors, or several chunks.',
    [Part('without errors', quiet, body, 150, shards=3),
     Part('with errors', noisy, body, 120, thorough=3000, shards=5)])
