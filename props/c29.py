"""Which replies reach the reader."""
import math

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Transaction
from harness.core import Part, Property, eq, req
from . import rfid_common as rc
from . import rfid_sim as rs
from . import tag_common as tc


def sane(count, p, what):
    """Number of successes among independent events; 6.5 sigma."""
    p = np.asarray(p, dtype=float)
    mean, dev = p.sum(), math.sqrt((p * (1 - p)).sum())
    slack = 6.5 * dev + 20 * (1 if dev < 5 else 0) * (dev > 1e-6) + 1e-6
    req(abs(count - mean) <= slack, '%s: %d, expected %.2f +- %.2f', what,
        count, mean, slack)


# --- one transaction many times ----------------------------------------------
def reply_of(kind, size):
    if kind == 'rn':
        return std.QueryReply(0x1234), 16
    if kind == 'epc':
        return std.AckReply('AB' * 2 * size), 32 + 16 * size
    if kind == 'handle':
        return std.ReqRNReply(0x7777), 32
    return std.ReadReply('C0DE' * size), 33 + 16 * size


@st.composite
def draw_strategy(draw):
    return {'link': draw(rc.link()),
            'kinds': draw(st.lists(st.tuples(
                st.sampled_from(['rn', 'epc', 'handle', 'data']),
                st.integers(1, 20)), min_size=0, max_size=7).map(
                    lambda x: x if len(x) < 4 else x[:1])),
            'on': draw(st.sampled_from([True] * 5 + [False])),
            't': draw(st.one_of(st.just(0.0), st.floats(0, 3))),
            'speed': draw(st.sampled_from([1e-9, 10.0, 31.0])),
            'y': draw(st.sampled_from([0.0, 1.5, -2.0])),
            'snr': draw(st.one_of(
                st.integers(8, 30), st.integers(0, 50))),
            'ber': draw(st.sampled_from(['rayleigh', 'awgn'])),
            'seed': draw(st.integers(0, 2 ** 32 - 1))}


N = 1500


def ratio(lk, db):
    """Signal to noise, dB, that gives db for a symbol."""
    return db - 10 * math.log10(
        rc.M_VALUE[lk['m']] / rc.ref_blf(lk) * 1.2e6)


def draw_body(c, ctx):
    lk = c['link']
    kinds = [tuple(k) for k in c['kinds']]

    def scenario(sim):
        model = sim.context = conf.create_model(conf.Settings(
            ber_distribution=c['ber'], speed=c['speed'], use_doppler=True,
            tari=lk['tari'], rtcal_tari_mul=lk['rtcal'] / lk['tari'],
            trcal_rtcal_mul=lk['trcal'] / lk['rtcal'], dr=rc.DR[lk['dr']],
            encoding=rc.ENC[lk['m']], trext=lk['trext']))
        reader, medium = model.reader, model.medium
        reader.kernel = sim
        frame = reader.turn_on()
        replies = []
        bits = None
        for i, (kind, size) in enumerate(kinds):
            tag = model.generators[0].create_tag(model)
            tag.kernel = sim
            tag.setup(0.0)
            tag.pos = np.array([5.0, c['y'] + .3 * i, 0.0])
            if c['on']:
                tag.set_power(0.0, -5.0)
                tag.receive(std.ReaderFrame(
                    std.ReaderPreamble(lk['tari'], lk['rtcal'], lk['trcal']),
                    std.Query(dr=rc.DR[lk['dr']], m=rc.ENC[lk['m']],
                              trext=lk['trext'], q=0)))
                reader.noise = float(medium.estimate_reader_rx_power(
                    reader, tag, c['t'])) - ratio(lk, c['snr'])
            reply, bits = reply_of(kind, size)
            eq(reply.bitlen, bits, f'length of the reply {kind}')
            replies.append((tag, std.TagFrame(std.create_tag_preamble(
                rc.ENC[lk['m']], lk['trext']), reply)))
        t = Transaction(medium, reader, frame, replies, 0.0)
        eq(len(t.replies), len(replies), 'replies of the transaction')
        tc.seed(c['seed'])
        got = [t.received_tag_frame(medium, c['t'])
               for _ in range(N if len(replies) == 1 else 30)]
        for x in got:
            eq(len(x), 4, 'parts of the result')
        if len(replies) != 1:
            req(all(y is None for x in got for y in x), 'something is '
                'received from %d replies', len(replies))
            return None
        snr = medium.estimate_reader_rx_snr(reader, replies[0][0],
                                            [replies[0][0]], c['t'])
        ber = float(medium.estimate_reader_rx_ber(
            reader, replies[0][0], [replies[0][0]], snr))
        hits = [x for x in got if x[1] is not None]
        for x in hits:
            req(x[0] is replies[0][0] and x[1] is replies[0][1],
                'another frame is received')
            eq((float(x[2]), float(x[3])), (float(snr), ber), 'SNR and BER')
        for x in got:
            if x[1] is None:
                eq(x, (None,) * 4, 'a lost reply')
        p = (1 - ber) ** bits
        sane(len(hits), [p] * N, f'received of {N} (BER {ber}, {bits} bits)')
        return p
    p = tc.in_sim(scenario)
    ctx.nt(p is not None and .02 < p < .98)
    ctx.label('none' if p is None else 'lost' if p < .02 else
              'received' if p > .98 else 'sometimes')


# --- runs --------------------------------------------------------------------
QUERIES = (std.Query, std.QueryRep, std.QueryAdjust)


def check_replies(tr):
    """Who is received; -> numbers of commands by the number of replies."""
    kinds = [0, 0, 0]
    last = {n - 1 for _, n in tr.cut} | {len(tr.commands) - 1}
    for i, cmd in enumerate(tr.commands):
        n = len(cmd.replies)
        kinds[min(n, 2)] += 1
        req(len(cmd.delivered) <= 1, '%d replies received at once',
            len(cmd.delivered))
        if n != 1:
            eq(cmd.delivered, [], f'received of {n} replies')
        for _, frame in cmd.delivered:
            req(frame is cmd.replies[0][1], 'a reply that was not sent')
        nxt = tr.commands[i + 1].command if i + 1 < len(tr.commands) \
            and i not in last else None
        if nxt is None:
            continue
        got = cmd.delivered[0][1].reply if cmd.delivered else None
        what = f'{nxt} after {cmd.command} with ' \
               f'{got if got is not None else f"{n} replies, none received"}'
        if isinstance(nxt, std.Ack):
            req(isinstance(got, std.QueryReply), 'unexpected %s', what)
            eq(nxt.rn, got.rn, f'number in {what}')
        elif isinstance(nxt, std.ReqRN):
            req(isinstance(got, std.AckReply), 'unexpected %s', what)
            eq(nxt.rn, cmd.command.rn, f'number in {what}')
        elif isinstance(nxt, std.Read):
            req(isinstance(got, std.ReqRNReply), 'unexpected %s', what)
            eq(nxt.rn, got.rn, f'number in {what}')
        else:
            req(not isinstance(got, std.QueryReply), 'a received number is '
                'not acknowledged: %s', what)
    return kinds


def run_body(c, ctx):
    tr = rs.run(c)
    kinds = check_replies(tr)
    for cmd in tr.commands:
        # only the acknowledged tag answers
        if not isinstance(cmd.command, QUERIES):
            for tag, before, _, reply in cmd.heard:
                req(reply is None or before in (
                    'REPLY', 'ACKNOWLEDGED', 'SECURED'),
                    'a tag in state %s answers to %s', before, cmd.command)
    ctx.nt(kinds[1] > 3)
    ctx.label(*[n for n, k in zip(['empty', 'single', 'collision'], kinds)
                if k])


@st.composite
def noisy_strategy(draw):
    c = draw(rs.script_strategy())
    c['offset'] = draw(st.one_of(st.integers(8, 30), st.integers(0, 40)))
    c['doppler'] = False
    c['dist'] = draw(st.sampled_from(['random', 'single']))
    if c['dist'] == 'single':
        c['strong'] = [1, 1, 0, 1, 2][:draw(st.integers(1, 5))]
    c['adjust'] = draw(st.sampled_from([False, False, True]))
    return c


def noisy_body(c, ctx):
    """Tags at rest: the BER is the same all the time."""
    tr = rs.run_script(dict(c, noise=-300.0, switch_power=False), 30)
    model, t = tr.model, tr.stats.sim_time
    tag = [x for x in model.tags if x.tag_id == 100][0]
    rx = model.medium.estimate_reader_rx_power(model.reader, tag, t)
    noise = float(rx) - ratio(rs.link_of(c), c['offset'])
    tr = rs.run_script(dict(c, noise=noise), 700)
    kinds = check_replies(tr)
    # the ratio is the same in the run without power switching
    model.reader.noise = noise
    ber = float(model.medium.estimate_reader_rx_ber(
        model.reader, tag, [tag], model.medium.estimate_reader_rx_snr(
            model.reader, tag, [tag], t)))
    last = {n - 1 for _, n in tr.cut} | {len(tr.commands) - 1}
    single = [cmd for i, cmd in enumerate(tr.commands)
              if len(cmd.replies) == 1 and i not in last]
    p = [(1 - ber) ** cmd.replies[0][1].reply.bitlen for cmd in single]
    sane(sum(bool(cmd.delivered) for cmd in single), p,
         f'received of {len(single)} single replies (BER {ber})')
    ctx.nt(sum(.02 < x < .98 for x in p) > 20)
    ctx.label(*[n for n, k in zip(['empty', 'single', 'collision'], kinds)
                if k])


PROPERTY = Property(
    'C29',
    'Transactions with 0-2 replies of all kinds repeated 1500 times at SNR '
    'up to 50 dB; whole runs and runs with scripted tags at rest. '
    'Counts of received replies are within 6.5 sigma of (1 - BER)^bits, '
    'collisions are never received, the next command suits what was '
    'received.  Non-trivial: the probability is in 0.02..0.98 (for over 20 '
    'replies in a scripted run); more than three single replies in a run.',
    [Part('draw', draw_strategy, draw_body, 360, 5000, shards=4),
     Part('run', rs.settings_strategy, run_body, 60, 1500, shards=4),
     Part('crowd', rs.crowd_strategy, run_body, 20, 400, shards=4),
     Part('noisy', noisy_strategy, noisy_body, 120, 2500, shards=4)],
    ['The probability of a wrong alarm of a count is below 1e-9.'])
