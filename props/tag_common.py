"""A tag driven by commands and power levels, and its reference model."""
import random

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Model, Tag
from pysim.sim import build_simulation, run_simulation
from harness.core import eq, req
from . import rfid_common as rc

TARI, RTCAL = 12.5e-6, 12.5e-6 * 3
SESSIONS = ['S0', 'S1', 'S2', 'S3']
hexs = lambda n: st.integers(0, n).flatmap(         # noqa: E731
    lambda k: st.binary(min_size=2 * k, max_size=2 * k)).map(
        lambda b: b.hex().upper())


def in_sim(fn, context=None):
    """Call fn(sim) inside a simulation; return its result."""
    out = []
    run_simulation(build_simulation(
        'tag', init=lambda sim: out.append(fn(sim)),
        context=context if context is not None else Model()))
    return out[0]


def seed(n):
    np.random.seed(n % 2 ** 32)
    random.seed(n)


def make_tag(sim, settings=None, tag_id=7):
    s = settings or {}
    tag = Tag(tag_id)
    tag.kernel = sim
    tag.epc = s.get('epc', 'AAAA' + '00' * 10)
    tag.tid = s.get('tid')
    tag.user_mem = s.get('user')
    tag.sensitivity = s.get('sensitivity', -18.0)
    tag.pos = np.array([5.0, 0.0, 0.0])
    tag.velocity = 1.0
    tag.direction = np.array([0, 1, 0])
    for k in ('s1_persistence', 's2_persistence', 's3_persistence'):
        if k in s:
            setattr(tag, k, s[k])
    sim.context.statistics.create_tag_record(tag)
    return tag


def reader_frame(cmd, trcal=RTCAL * 2):
    if isinstance(cmd, std.Query):
        return std.ReaderFrame(
            std.ReaderPreamble(TARI, RTCAL, trcal), cmd)
    return std.ReaderFrame(std.ReaderSync(TARI, RTCAL), cmd)


@st.composite
def op(draw, power=True, q_max=4):
    kinds = (['query'] * 4 + ['rep'] * 4 + ['adjust'] * 2 + ['ack'] * 4 +
             ['reqrn'] * 3 + ['read'] * 2 + (['power'] * 2 if power else []))
    k = draw(st.sampled_from(kinds))
    o = {'op': k}
    ses = st.sampled_from(['S0', 'S0', 'S0', 'S1', 'S2', 'S3'])
    if k == 'query':
        o.update(session=draw(ses),
                 target=draw(st.sampled_from(['A', 'A', 'B', 'cur'])),
                 sel=draw(st.sampled_from(['ALL', 'ALL', '~SL', 'SL'])),
                 q=draw(st.one_of(st.integers(0, q_max), st.integers(0, 1),
                                  st.integers(0, 15),
                                  st.sampled_from([14, 15]))),
                 dr=draw(rc.keys(rc.DR)), m=draw(rc.keys(rc.ENC)),
                 trext=draw(st.booleans()),
                 trcal=draw(st.floats(1.1, 3.0)) * RTCAL)
    elif k in ('rep', 'adjust'):
        o['session'] = draw(st.one_of(st.just('cur'), ses))
        if k == 'adjust':
            o['updn'] = draw(st.sampled_from([-1, 0, 1]))
    elif k in ('ack', 'reqrn', 'read'):
        o['rn'] = draw(st.one_of(st.just(0), st.just(0),
                                 st.integers(1, 0xFFFF)))    # xor mask
        if k == 'read':
            o.update(bank=draw(rc.keys(rc.BANK)),
                     ptr=draw(st.integers(0, 6)),
                     count=draw(st.integers(1, 6)))
    else:
        o.update(level=draw(st.one_of(
            st.none(), st.sampled_from([-20.0, -18.0, -10.0, -10.0]),
            st.floats(-40, 10))),
            dt=draw(st.one_of(st.floats(0, 5), st.sampled_from(
                [0.0, 1.0, 2.0, 2.5]))))
    return o


@st.composite
def tag_settings(draw):
    return {
        'epc': draw(hexs(8)),
        'tid': draw(st.one_of(st.none(), hexs(10))),
        'user': draw(st.one_of(st.none(), hexs(10))),
        'sensitivity': draw(st.sampled_from([-18.0, -12.5])),
        's1_persistence': draw(st.sampled_from([0.5, 2.0])),
        's2_persistence': draw(st.sampled_from([1.0, 2.0])),
        's3_persistence': draw(st.sampled_from([1.0, 4.0])),
    }


class TagModel:
    """What the standard (as far as the simulator models it) says."""

    def __init__(self, settings):
        self.s = settings
        self.state = 'OFF'
        self.flags = {s: 'A' for s in SESSIONS}
        self.known = {s: True for s in SESSIONS}
        self.session = None
        self.counter = None
        self.rn = None
        self.q = None
        self.link = None
        self.off_since = 0.0
        self.visited = set()

    def persistence(self, s):
        return self.s.get(f'{s.lower()}_persistence', 2.0)

    # Every handler gets what the tag answered and what it shows afterwards;
    # random choices of the tag (slot, RN16) are taken from there.
    def power(self, level, time):
        sens = self.s.get('sensitivity', -18.0)
        if self.state == 'OFF':
            if level is not None and level > sens:
                dt = time - self.off_since
                for s in SESSIONS:
                    if s == 'S0' or dt > self.persistence(s):
                        self.flags[s] = 'A'
                self.state = 'READY'
                self.session = None
        elif level is None or level < sens:
            self.state = 'OFF'
            self.session = None
            self.off_since = time

    def invert(self):
        self.flags[self.session] = 'BA'['AB'.index(self.flags[self.session])]


def settle(m, now):
    """A pause equal to a persistence time is not specified: make it longer."""
    if m.state == 'OFF' and any(
            abs(now - m.off_since - m.persistence(s)) < 1e-9
            for s in SESSIONS[1:]):
        return now + 1e-3
    return now


FLAG_NAME = {std.InventoryFlag.A: 'A', std.InventoryFlag.B: 'B'}


def shown_flags(tag):
    return {s: FLAG_NAME[tag.sessions[rc.SESSION[s]]] for s in SESSIONS}


def rn_reply(tag, frame, what):
    req(frame is not None, '%s: no reply', what)
    req(isinstance(frame.reply, std.QueryReply), '%s: replied %r', what,
        type(frame.reply).__name__)
    req(0 <= frame.reply.rn <= 0xFFFF, 'RN16 is %r', frame.reply.rn)
    eq(tag.rn, frame.reply.rn, 'RN16 of the tag and of its reply')
    return frame.reply.rn


def step(m, tag, o, now):
    """Apply one operation to the tag and to the model, compare."""
    k = o['op']
    if k == 'power':
        tag.set_power(now, o['level'])
        was = m.state
        m.power(o['level'], now)
        if was == 'OFF' or m.state == 'OFF':
            pass
        if m.state == 'OFF':
            req(tag.power is None, 'power of a switched off tag: %r',
                tag.power)
            req(tag.tx_power is None, 'transmitted power of a switched off '
                'tag: %r', tag.tx_power)
        else:
            eq(tag.power, o['level'], 'received power')
            eq(tag.tx_power, o['level'] + tag.modulation_loss,
               'transmitted power')
        frame, what = None, f'power {o["level"]}'
        expected_reply = None
    else:
        expected_reply = None
        if k == 'query':
            target = (m.flags[o['session']] if o['target'] == 'cur'
                      else o['target'])
            cmd = std.Query(
                dr=rc.DR[o['dr']], m=rc.ENC[o['m']], trext=o['trext'],
                sel=rc.SEL[o['sel']], session=rc.SESSION[o['session']],
                target=rc.TARGET[target], q=o['q'])
            what = f'Query({o["session"]},{target},{o["sel"]},q={o["q"]}) ' \
                   f'in {m.state}'
            frame = tag.receive(reader_frame(cmd, o['trcal']))
            if m.state != 'OFF':
                if m.state in ('ACKNOWLEDGED', 'SECURED') and \
                        o['session'] == m.session:
                    m.invert()
                if (m.flags[o['session']] == target and o['sel'] != 'SL'):
                    m.session, m.q = o['session'], o['q']
                    m.link = (o['dr'], o['m'], o['trext'], o['trcal'])
                    draw_slot(m, tag, frame, what)
                    expected_reply = m.state == 'REPLY'
                else:
                    m.state = 'READY'
                    m.session = None
        elif k == 'rep':
            s = (m.session or 'S0') if o['session'] == 'cur' else o['session']
            what = f'QueryRep({s}) in {m.state}, counter {m.counter}'
            frame = tag.receive(reader_frame(std.QueryRep(rc.SESSION[s])))
            if m.state != 'OFF' and s == m.session:
                if m.state in ('ARBITRATE', 'REPLY'):
                    m.counter -= 1
                    if m.counter == 0 and m.state == 'ARBITRATE':
                        m.state = 'REPLY'
                        m.rn = rn_reply(tag, frame, what)
                        expected_reply = True
                    else:
                        m.state = 'ARBITRATE'
                elif m.state in ('ACKNOWLEDGED', 'SECURED'):
                    m.invert()
                    m.state = 'READY'
                    m.session = None
        elif k == 'adjust':
            s = (m.session or 'S0') if o['session'] == 'cur' else o['session']
            what = f'QueryAdjust({s},{o["updn"]}) in {m.state}, q={m.q}'
            frame = tag.receive(reader_frame(
                std.QueryAdjust(rc.SESSION[s], o['updn'])))
            if m.state != 'OFF' and s == m.session:
                if m.state in ('ARBITRATE', 'REPLY'):
                    if 0 <= m.q + o['updn'] <= 15:
                        m.q += o['updn']
                        draw_slot(m, tag, frame, what)
                    else:       # the range of Q is left: not specified
                        m.counter = tag.slot_counter
                        m.state = 'REPLY' if frame else 'ARBITRATE'
                        if frame:
                            m.rn = rn_reply(tag, frame, what)
                    expected_reply = m.state == 'REPLY'
                elif m.state in ('ACKNOWLEDGED', 'SECURED'):
                    m.invert()
                    m.state = 'READY'
                    m.session = None
        else:
            rn = (tag.rn ^ o['rn']) if m.rn is None else (m.rn ^ o['rn'])
            good = o['rn'] == 0
            if k == 'ack':
                what = f'ACK({"own" if good else "foreign"}) in {m.state}'
                frame = tag.receive(reader_frame(std.Ack(rn)))
                if m.state == 'REPLY':
                    if good:
                        m.state = 'ACKNOWLEDGED'
                        req(frame is not None and
                            isinstance(frame.reply, std.AckReply),
                            '%s: no EPC', what)
                        eq(frame.reply.get_epc_string().upper(),
                           tag.epc.upper(), 'EPC sent')
                        expected_reply = True
                    else:
                        m.state = 'ARBITRATE'
            elif k == 'reqrn':
                what = f'Req_RN({"own" if good else "foreign"}) in {m.state}'
                frame = tag.receive(reader_frame(std.ReqRN(rn)))
                if m.state in ('ACKNOWLEDGED', 'SECURED') and good:
                    m.state = 'SECURED'
                    req(frame is not None and
                        isinstance(frame.reply, std.ReqRNReply),
                        '%s: no handle', what)
                    eq(tag.rn, frame.reply.rn, 'handle of the tag')
                    req(0 <= tag.rn <= 0xFFFF, 'handle %r', tag.rn)
                    m.rn = tag.rn
                    expected_reply = True
            else:
                what = f'Read({"own" if good else "foreign"}, {o["bank"]}) ' \
                       f'in {m.state}'
                frame = tag.receive(reader_frame(std.Read(
                    rc.BANK[o['bank']], o['ptr'], o['count'], rn=rn)))
                data = {'EPC': tag.epc, 'TID': tag.tid, 'USER': tag.user_mem,
                        'RESERVED': None}[o['bank']]
                if m.state == 'SECURED' and good and data is not None:
                    req(frame is not None and
                        isinstance(frame.reply, std.ReadReply),
                        '%s: no data', what)
                    want = data[4 * o['ptr']:4 * (o['ptr'] + o['count'])]
                    eq(frame.reply.get_memory_string(), want.upper(),
                       f'words {o["ptr"]}+{o["count"]} of {o["bank"]}')
                    eq(frame.reply.rn, m.rn, 'handle in the reply to Read')
                    expected_reply = True
    req((frame is not None) == bool(expected_reply),
        '%s: %s', what, 'an unexpected reply ' + type(
            getattr(frame, 'reply', None)).__name__
        if frame is not None else 'no reply')
    eq(tag.state.name, m.state, f'state after {what}')
    eq(shown_flags(tag), m.flags, f'session flags after {what}')
    if m.state in ('ARBITRATE', 'REPLY'):
        eq(tag.q, m.q, f'Q of the tag after {what}')
    if frame is not None and m.link:
        dr, enc, trext, trcal = m.link
        eq(tag.encoding, rc.ENC[enc], 'encoding')
        eq(frame.preamble.encoding, rc.ENC[enc], 'encoding of the reply')
        eq(bool(frame.preamble.extended), trext, 'TRext of the reply')
        eq(bool(tag.trext), trext, 'TRext')
        blf = rc.DR_VALUE[dr] / trcal
        req(abs(tag.blf - blf) <= 1e-9 * blf, 'BLF is %r, not %r', tag.blf,
            blf)
    m.visited.add(m.state)
    return frame


def draw_slot(m, tag, frame, what):
    req(0 <= tag.slot_counter < 2 ** m.q, '%s: the tag drew slot %r', what,
        tag.slot_counter)
    m.counter = tag.slot_counter
    if m.counter == 0:
        m.state = 'REPLY'
        m.rn = rn_reply(tag, frame, what)
    else:
        m.state = 'ARBITRATE'


def run_program(case):
    """-> the model at the end"""
    seed(case['seed'])

    def body(sim):
        tag = make_tag(sim, case['settings'])
        m = TagModel(case['settings'])
        tag.setup(0.0)
        now = 0.0
        eq(tag.state.name, 'OFF', 'first state')
        eq(shown_flags(tag), m.flags, 'first flags')
        for o in case['ops']:
            if o['op'] == 'power':
                now = settle(m, now + o['dt'])
            step(m, tag, o, now)
        return m
    return in_sim(body)
