"""Whole RFID simulations with a trace of everything said on the air.

The trace is taken through public methods only: an extra tag that hears every
command and never answers, the methods create_tag/receive/timeout wrapped on
the instances, and the listeners of the reader."""
import random

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as handlers
from pysim.models.rfid.objects import Tag
from pysim.sim import build_simulation, run_simulation
from harness.core import req
from . import rfid_common as rc


@st.composite
def settings_strategy(draw, max_tags=8, adjust=None, power_stats=None):
    return {
        'seed': draw(st.integers(0, 2 ** 32 - 1)),
        'num_tags': draw(st.integers(1, max_tags)),
        'interval': draw(st.sampled_from([.02, .03, .05, .11, .4, 1.0])),
        'speed': draw(st.sampled_from([5.0, 10.0, 20.0, 31.0])),
        'distance': draw(st.sampled_from([.5, 1.0, 1.7])),
        'travel': draw(st.sampled_from([.7, 1.5, 2.5])),
        'tari': draw(st.sampled_from([6.25, 12.5, 18.75, 25.0])),
        'rtcal_mul': draw(st.sampled_from([2.5, 2.75, 3.0])),
        'trcal_mul': draw(st.sampled_from([1.2, 1.95, 2.5, 3.0])),
        'dr': draw(rc.keys(rc.DR)), 'm': draw(rc.keys(rc.ENC)),
        'trext': draw(st.booleans()), 'temp': draw(rc.keys(rc.TEMP)),
        'q': draw(st.integers(0, 5)),
        'adjust': draw(st.booleans()) if adjust is None else adjust,
        'delta': draw(st.sampled_from([.1, .2, .35, .5, .8])),
        'session': draw(rc.keys(rc.SESSION)),
        'strategy': draw(st.sampled_from(['const', 'switch'])),
        'target': draw(st.sampled_from(['A', 'A', 'A', 'B'])),
        'per_target': draw(st.integers(1, 3)),
        'switch_power': draw(st.sampled_from([True, True, True, False])),
        'on': draw(st.sampled_from([.013, .0501, .2, 2.0])),
        'off': draw(st.sampled_from([.004, .0202, .1, 0.0])),
        'read_tid': draw(st.sampled_from([True, True, False])),
        'words': draw(st.integers(0, 24)),
        'noise': draw(st.sampled_from([-80.0, -80.0, -65.0, -52.0])),
        'ber': draw(st.sampled_from(['rayleigh', 'awgn'])),
        'persistence': draw(st.sampled_from([.01, 2.0, 2.0, 0.0])),
        'update': draw(st.sampled_from([.01, .0037, .05])),
        'power_stats': draw(st.booleans()) if power_stats is None
        else power_stats,
        'doppler': draw(st.booleans()),
        'delim': draw(st.sampled_from([12.5, 12.5, 11.9, 13.1])),
    }


@st.composite
def crowd_strategy(draw, **kw):
    """Many tags: many in the field at once, or one after the other."""
    c = draw(settings_strategy(power_stats=False, **kw))
    c['num_tags'] = draw(st.sampled_from([20, 33, 70, 110, 150]))
    c['noise'] = -80.0
    together = draw(st.booleans()) and c['num_tags'] < 100
    c['interval'] = draw(st.sampled_from(
        [.0004, .0011, .004] if together else [.006, .011]))
    c['speed'] = draw(st.sampled_from([5.0, 10.0]) if together else
                      st.sampled_from([20.0, 31.0]))
    c['travel'] = .7
    c['distance'] = draw(st.sampled_from([.35, .5]))
    c['m'] = draw(st.sampled_from(['FM0', 'FM0', 'M2', 'M4']))
    c['off'] = .004
    c['on'] = max(c['on'], .05)
    c['words'] = min(c['words'], 6)
    if c['target'] != 'A':
        c['target'] = 'A'
    if together:
        c['q'] = draw(st.sampled_from([0, 2, 4, 6]))
    return c


def make_settings(c, **kw):
    s = dict(
        tari=c['tari'] * 1e-6, delim=c.get('delim', 12.5) * 1e-6,
        rtcal_tari_mul=c['rtcal_mul'],
        trcal_rtcal_mul=c['trcal_mul'], temp=rc.TEMP[c['temp']],
        speed=c['speed'], initial_distance_to_reader=c['distance'],
        travel_distance=c['travel'], update_interval=c['update'],
        reader_noise=c['noise'], ber_distribution=c['ber'],
        use_doppler=c['doppler'], reader_switch_power=c['switch_power'],
        reader_power_on_duration=c['on'], reader_power_off_duration=c['off'],
        read_tid_bank=c['read_tid'], tid_word_size=c['words'],
        encoding=rc.ENC[c['m']], dr=rc.DR[c['dr']],
        session=rc.SESSION[c['session']], trext=c['trext'], q=c['q'],
        use_query_adjust=c['adjust'], adjust_delta=c['delta'],
        target=rc.TARGET[c['target']], target_strategy=c['strategy'],
        rounds_per_target=c['per_target'],
        s1_persistence=c['persistence'], s2_persistence=c['persistence'],
        s3_persistence=c['persistence'],
        generation_interval=(lambda: c['interval'],), num_tags=c['num_tags'],
        collect_power_statistics=c['power_stats'])
    for k, v in c.get('extra', {}).items():
        s[k] = np.asarray(v) if isinstance(v, list) else v
    s.update(kw)
    return conf.Settings(**s)


def link_of(c):
    tari = c['tari'] * 1e-6
    rtcal = tari * c['rtcal_mul']
    return {'tari': tari, 'rtcal': rtcal, 'trcal': rtcal * c['trcal_mul'],
            'delim': c.get('delim', 12.5) * 1e-6, 'dr': c['dr'], 'm': c['m'],
            'trext': c['trext']}


class Command:
    """One command of the reader and what followed."""

    def __init__(self, time, frame, state, q, q_fp, round_slot):
        self.time, self.frame, self.state = time, frame, state
        self.command = frame.command
        self.q, self.q_fp = q, q_fp
        self.round_slot = round_slot
        self.heard = []         # (tag, state before, state after, reply)
        self.delivered = []     # replies received by the reader
        self.quality = None     # (SNR, BER) of the reply, when delivered
        self.timeout = False
        self.snapshot = []      # (tag id, state, q) just before
        self.observed = False   # the observer has heard it
        self.now = lambda: time

    def same(self, frame):
        """Is it still this one (a frame may be sent more than once)?"""
        return self.frame is frame and self.now() == self.time

    @property
    def replies(self):
        return [(t, r) for t, _, _, r in self.heard if r is not None]


class Trace:
    def __init__(self):
        self.commands = []
        self.on, self.off = [], []
        self.born, self.gone = [], []   # (time, tag)
        self.cut = []                   # (time, number of commands so far)
        self.rounds = []                # ('+'/'-', index)
        self.slots = []
        self.result = None              # (stats, context, None)
        self.model = None
        self.observer = None
        self.errors = []
        self.note = None                # describes the command on the air

    def current(self, frame):
        """The command on the air; whoever hears it first notes it down."""
        cmd = self.commands[-1] if self.commands else None
        if cmd is None or not cmd.same(frame):
            cmd = self.note(frame)
            if self.commands:
                req(self.commands[-1].observed, 'a tag got a command that '
                    'another one did not get')
            self.commands.append(cmd)
        return cmd


def instrument_tag(tag, tr, sim):
    real = tag.receive

    def receive(frame):
        cmd = tr.current(frame)
        before = tag.state.name
        reply = real(frame)
        cmd.heard.append((tag, before, tag.state.name, reply))
        return reply
    tag.receive = receive


def watch(model, tr, sim):
    """Called inside the simulation, after start_simulation()."""
    reader = model.reader
    tr.model = model
    obs = Tag(-1, sim)
    obs.kernel = sim
    obs.pos = np.array([5.0, 5000.0, 0.0])
    obs.velocity = 0.0
    obs.direction = np.array([0, 1, 0])
    obs.antenna.direction_theta = np.array([0, 0, 1])
    obs.last_pos_update = 0.0
    tr.observer = obs

    def note(frame):
        rnd = reader.inventory_round
        cmd = Command(sim.time, frame, str(reader.state), reader.q,
                      reader.q_fp, (rnd.index, rnd.slot.index))
        cmd.snapshot = [(t.tag_id, t.state.name, t.q, str(t.power))
                        for t in model.tags if t is not obs]
        cmd.now = lambda: sim.time
        return cmd

    def observe(frame):
        tr.current(frame).observed = True
        return None
    tr.note = note
    obs.receive = observe
    model.tags.insert(0, obs)
    model.statistics.create_tag_record(obs)

    for gen in model.generators:
        create = gen.create_tag

        def create_tag(m, create=create):
            tag = create(m)
            instrument_tag(tag, tr, sim)
            tr.born.append((sim.time, tag))
            return tag
        gen.create_tag = create_tag

    close = model.statistics.close_tag_record

    def close_tag_record(tag):
        tr.gone.append((sim.time, tag))
        return close(tag)
    model.statistics.close_tag_record = close_tag_record

    receive, timeout = reader.receive, reader.timeout

    def reader_receive(frame):
        cmd = tr.commands[-1]
        cmd.delivered.append((sim.time, frame))
        if len(cmd.replies) == 1:
            tag = cmd.replies[0][0]
            snr = model.medium.estimate_reader_rx_snr(reader, tag, [tag],
                                                      sim.time)
            cmd.quality = (snr, model.medium.estimate_reader_rx_ber(
                reader, tag, [tag], snr))
        return receive(frame)

    def reader_timeout():
        tr.commands[-1].timeout = True
        return timeout()
    reader.receive, reader.timeout = reader_receive, reader_timeout
    reader.power_on_listeners.add(lambda: tr.on.append(sim.time))

    def off():
        tr.off.append(sim.time)
        tr.cut.append((sim.time, len(tr.commands)))
    reader.power_off_listeners.add(off)
    reader.round_start_listeners.add(
        lambda i: tr.rounds.append(('+', i, sim.time)))
    reader.round_finish_listeners.add(
        lambda i: tr.rounds.append(('-', i, sim.time)))
    reader.slot_start_listeners.add(
        lambda i, j: tr.slots.append(('+', i, j)))
    reader.slot_finish_listeners.add(
        lambda i, j: tr.slots.append(('-', i, j)))


def seed(n):
    np.random.seed(n % 2 ** 32)
    random.seed(n)


def run(c, settings=None, prepare=None, trace=True, before=None, **limits):
    """Run the simulation of a case; -> Trace"""
    tr = Trace()
    model = conf.create_model(settings or make_settings(c))
    tr.model = model
    if before:
        before(model)
    seed(c['seed'])

    def init(sim):
        if trace:
            handlers.start_simulation(sim)
            watch(model, tr, sim)
        else:
            handlers.start_simulation(sim)
        if prepare:
            prepare(sim, model, tr)

    if not limits:
        limits = dict(max_sim_time=horizon(c) + 5)
    tr.result = run_simulation(build_simulation(
        'RFID', init=init, context=model, **limits))
    tr.stats = tr.result[0]
    return tr


def horizon(c):
    return c['num_tags'] * c['interval'] + c['travel'] / c['speed']


# --- scripted air ----------------------------------------------------------
@st.composite
def script_strategy(draw, adjust=None, links=False):
    c = draw(settings_strategy(max_tags=1, adjust=adjust,
                               power_stats=False))
    c['q'] = draw(st.one_of(st.integers(0, 15),
                            st.sampled_from([0, 1, 14, 15])))
    c['switch_power'] = draw(st.sampled_from([True, False]))
    c['on'] = draw(st.sampled_from([.013, .0501, .2]))
    c['noise'] = draw(st.sampled_from([-300.0, -300.0, 300.0]))
    c['strong'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=60))
    mode = draw(st.sampled_from(['mix', 'mix', 'busy', 'idle', 'runs']))
    if mode == 'busy':
        c['strong'] = [max(2, x) if i % 5 else x
                       for i, x in enumerate(c['strong'])]
    elif mode == 'idle':
        c['strong'] = [0 if i % 5 else x for i, x in enumerate(c['strong'])]
    elif mode == 'runs':
        c['strong'] = [x for x in c['strong'][:8] for _ in range(12)]
    if links and draw(st.booleans()):
        c['links'] = draw(st.lists(st.fixed_dictionaries({
            'dr': rc.keys(rc.DR), 'm': rc.keys(rc.ENC),
            'trext': st.booleans(),
            'trcal_mul': st.sampled_from([1.2, 1.95, 2.5, 3.0])}),
            min_size=3, max_size=3))
    c['stop_at'] = draw(st.integers(0, 3))  # which access step is not answered
    return c


def run_script(c, n_events=260):
    """No generated tags: three tags answer to each slot as the script says
    (that many of them at once)."""
    settings = make_settings(c, num_tags=10 ** 6,
                             generation_interval=(lambda: 1e6,),
                             update_interval=1e6, reader_power=90.0,
                             tag_sensitivity=-1000.0)
    state = {'i': -1, 'cmd': None, 'n': 0, 'rn': 0, 'access': 0}

    def prepare(sim, model, tr):
        def answers(k, cmd):
            if (cmd, sim.time) != state['cmd']:
                state['cmd'] = cmd, sim.time
                if isinstance(cmd, (std.Query, std.QueryRep,
                                    std.QueryAdjust)):
                    state['i'] += 1
                    state['n'] = c['strong'][state['i'] % len(c['strong'])]
                else:
                    state['access'] += 1
                state['rn'] = (state['rn'] * 31 + 7919) % 65536
            lk = link_of_tag(c, k)
            preamble = std.create_tag_preamble(rc.ENC[lk['m']], lk['trext'])
            if isinstance(cmd, (std.Query, std.QueryRep, std.QueryAdjust)):
                if k >= state['n']:
                    return None
                reply = std.QueryReply((state['rn'] + k) % 65536)
                if state['n'] > 1 and c.get('links'):
                    # a collision, maybe with replies of different lengths
                    reply = [reply, std.AckReply('5A' * 7),
                             std.ReqRNReply(5)][(k + state['rn']) % 3]
            elif k > 0 or (c['stop_at'] and
                           state['access'] % (c['stop_at'] + 1) == 0):
                return None
            elif isinstance(cmd, std.Ack):
                reply = std.AckReply('AA%02X' % (state['rn'] % 256) * 4)
            elif isinstance(cmd, std.ReqRN):
                reply = std.ReqRNReply(state['rn'])
            else:
                reply = std.ReadReply('5A3C' * cmd.word_count)
            return std.TagFrame(preamble, reply)

        for k in range(3):
            tag = Tag(100 + k, sim)
            tag.kernel = sim
            tag.pos = np.array([5.0, .1 * k, 0.0])
            tag.velocity = 0.0
            tag.direction = np.array([0, 1, 0])
            tag.antenna.direction_theta = np.array([0, 0, 1])
            tag.sensitivity = -1000.0
            tag.last_pos_update = 0.0
            model.tags.append(tag)
            model.statistics.create_tag_record(tag)
            _blf(tag, link_of_tag(c, k))
            tag.receive = (lambda frame, k=k, tag=tag: _heard(
                tr, tag, frame, answers(k, frame.command)))

    return run(c, settings, prepare, max_num_events=n_events)


def _heard(tr, tag, frame, reply):
    tr.current(frame).heard.append((tag, None, None, reply))
    return reply


def link_of_tag(c, k):
    """Scripted tags may have links of their own, as of earlier rounds."""
    lk = link_of(c)
    if c.get('links'):
        own = c['links'][k]
        lk.update(dr=own['dr'], m=own['m'], trext=own['trext'],
                  trcal=lk['rtcal'] * own['trcal_mul'])
    return lk


def _blf(tag, lk):
    """Let the tag learn the link from a Query, as a real one does."""
    tag.setup(0.0, powered_on=True)
    tag.receive(std.ReaderFrame(
        std.ReaderPreamble(lk['tari'], lk['rtcal'], lk['trcal']),
        std.Query(dr=rc.DR[lk['dr']], m=rc.ENC[lk['m']],
                  trext=lk['trext'], q=0)))
    tag.setup(0.0)
