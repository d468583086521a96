from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Antenna, Listeners, Reader
from harness.core import Part, Property, close, eq, req
from . import rfid_common as rc
from . import tag_common as tc


@st.composite
def strategy(draw):
    lk = draw(rc.link())
    ops = draw(st.lists(st.one_of(
        st.sampled_from(['timeout'] * 6 + ['reply'] * 8 + ['off', 'on']),
    ), min_size=1, max_size=60))
    return {
        'link': lk, 'temp': draw(rc.keys(rc.TEMP)),
        'q': draw(st.integers(0, 4)), 'session': draw(rc.keys(rc.SESSION)),
        'sel': draw(rc.keys(rc.SEL)), 'target': draw(rc.keys(rc.TARGET)),
        'strategy': draw(st.sampled_from(['const', 'switch', 'switch'])),
        'per_target': draw(st.integers(1, 4)),
        'read_tid': draw(st.booleans()), 'words': draw(st.integers(1, 64)),
        'power': draw(st.floats(10, 40)),
        'pause': draw(st.sampled_from([None, None, .1, .25, 2.0, 0.0])),
        'ops': ops, 'rns': draw(st.lists(rc.rn16, min_size=1, max_size=6)),
    }


def make_reader(c, sim):
    r = Reader(sim)
    lk = c['link']
    r.tari, r.rtcal, r.trcal = lk['tari'], lk['rtcal'], lk['trcal']
    r.delim = lk['delim']
    r.dr, r.tag_encoding = rc.DR[lk['dr']], rc.ENC[lk['m']]
    r.trext = lk['trext']
    r.temp = rc.TEMP[c['temp']]
    r.q = c['q']
    r.session, r.sel = rc.SESSION[c['session']], rc.SEL[c['sel']]
    r.target = rc.TARGET[c['target']]
    r.target_strategy, r.rounds_per_target = c['strategy'], c['per_target']
    r.read_tid_bank, r.read_tid_words_num = c['read_tid'], c['words']
    r.max_power = c['power']
    if c.get('pause') is None:
        r.power_control_mode = Reader.PowerControlMode.ALWAYS_ON
    else:
        r.power_control_mode = Reader.PowerControlMode.PERIODIC
        r.power_off_duration = c['pause']
    return r


class ReaderModel:
    def __init__(self, c):
        self.c = c
        self.state = 'OFF'
        self.round = self.slot = None
        self.next_round = 0
        self.rounds_on = 0
        self.events = []
        self.cmd = None

    def finish_slot(self):
        self.events.append(('slot-', self.round, self.slot))

    def finish_round(self):
        self.events.append(('round-', self.round))

    def next_slot(self):
        if self.round is not None:
            self.finish_slot()
            if self.slot + 1 < 2 ** self.c['q']:
                self.slot += 1
                self.events.append(('slot+', self.round, self.slot))
                return self.go('QREP', {'kind': 'QueryRep',
                                        'session': self.c['session']})
            self.finish_round()
        self.round, self.slot = self.next_round, 0
        self.next_round += 1
        self.events += [('round+', self.round), ('slot+', self.round, 0)]
        c, lk = self.c, self.c['link']
        target = c['target']
        if c['strategy'] == 'switch':
            target = 'AB'[self.rounds_on // c['per_target'] % 2]
        self.rounds_on += 1
        return self.go('QUERY', {
            'kind': 'Query', 'dr': lk['dr'], 'm': lk['m'],
            'trext': lk['trext'], 'sel': c['sel'], 'session': c['session'],
            'target': target, 'q': c['q'], 'crc': 0})

    def go(self, state, cmd):
        self.events.append(('state', self.state, state))
        self.state, self.cmd = state, cmd

    def turn_on(self):
        self.events.append(('on',))
        self.rounds_on = 0
        self.next_slot()

    def turn_off(self):
        self.events.append(('off',))
        if self.state != 'OFF':
            self.events.append(('state', self.state, 'OFF'))
            self.finish_slot()
            self.finish_round()
            self.state = 'OFF'
            self.round = self.slot = None
        self.cmd = None

    def reply(self, rn):
        if self.state in ('QUERY', 'QREP'):
            self.go('ACK', {'kind': 'Ack', 'rn': rn})
            self.rn = rn
        elif self.state == 'ACK' and self.c['read_tid']:
            self.go('REQRN', {'kind': 'ReqRN', 'rn': self.rn, 'crc': 0})
        elif self.state == 'REQRN':
            self.go('READ', {'kind': 'Read', 'bank': 'TID', 'word_ptr': 0,
                             'word_count': self.c['words'], 'rn': rn,
                             'crc': 0})
        else:
            self.next_slot()


def body(c, ctx):
    lk = c['link']
    seen = set()

    def run(sim):
        r = make_reader(c, sim)
        m = ReaderModel(c)
        log = []
        r.state_change_listeners.add(
            lambda old, new: log.append(('state', str(old), str(new))))
        r.round_start_listeners.add(lambda i: log.append(('round+', i)))
        r.round_finish_listeners.add(lambda i: log.append(('round-', i)))
        r.slot_start_listeners.add(lambda i, j: log.append(('slot+', i, j)))
        r.slot_finish_listeners.add(lambda i, j: log.append(('slot-', i, j)))
        r.power_on_listeners.add(lambda: log.append(('on',)))
        r.power_off_listeners.add(lambda: log.append(('off',)))
        rns = iter(c['rns'] * 60)

        def check(frame, what):
            eq(str(r.state), m.state, f'state after {what}')
            eq(sorted(log, key=str), sorted(m.events, key=str),
               f'notifications of {what}')
            order(log, what)
            log.clear()
            m.events.clear()
            if m.state == 'OFF':
                req(frame is None, 'a command from a switched off reader')
                req(r.power is None and r.tx_power is None,
                    'power of a switched off reader: %r', r.power)
                req(r.inventory_round is None, 'a round goes on')
                req(r.time_last_turned_on is None, 'a switched off reader '
                    'was last turned on at %r', r.time_last_turned_on)
                eq(r.state.get_timeout(r), c['pause'],
                   'how long the reader stays off')
                return
            eq(r.power, c['power'], 'power')
            eq((r.inventory_round.index, r.inventory_round.slot.index),
               (m.round, m.slot), 'round and slot')
            enc = rc.ref_encode(m.cmd)
            eq(frame.command.encode(), enc, f'command after {what}')
            query = m.cmd['kind'] == 'Query'
            eq(isinstance(frame.preamble, std.ReaderPreamble), query,
               f'full preamble of {m.cmd["kind"]}')
            d = rc.ref_command_duration(lk, enc, query)
            close(frame.duration, d, f'duration of {m.cmd["kind"]}')
            t1 = std.link_t1_max(rtcal=lk['rtcal'], trcal=lk['trcal'],
                                 dr=rc.DR[lk['dr']], temp=rc.TEMP[c['temp']])
            close(r.state.get_timeout(r), d + t1,
                  f'timeout of {m.cmd["kind"]}')

        m.turn_on()
        check(r.turn_on(), 'turning on')
        for op in c['ops']:
            what = f'{op} in {m.state}'
            seen.add(m.state)
            if op == 'off':
                m.turn_off()
                check(r.turn_off(), what)
            elif op == 'on':
                if m.state != 'OFF':
                    continue
                m.turn_on()
                check(r.turn_on(), what)
            elif op == 'timeout':
                if m.state == 'OFF':
                    continue
                m.next_slot()
                check(r.timeout(), what)
            else:
                rn = next(rns)
                kind = {'QUERY': std.QueryReply, 'QREP': std.QueryReply,
                        'OFF': std.QueryReply, 'ACK': lambda x: std.AckReply(
                            'AA%04X' % x), 'REQRN': std.ReqRNReply,
                        'READ': lambda x: std.ReadReply('%04X' % x)}[m.state]
                frame = std.TagFrame(std.create_tag_preamble(
                    rc.ENC[lk['m']], lk['trext']), kind(rn))
                if m.state != 'OFF':
                    m.reply(rn)
                check(r.receive(frame), what)
    tc.in_sim(run)
    ctx.nt(len(seen) >= 3)
    ctx.label(c['strategy'], *sorted(seen))


def order(log, what):
    """slot ends, round ends, round starts, slot starts"""
    rank = {'slot-': 0, 'round-': 1, 'round+': 2, 'slot+': 3}
    got = [rank[e[0]] for e in log if e[0] in rank]
    req(got == sorted(got), 'notifications of %s come as %r', what, log)


def long_strategy():
    return st.fixed_dictionaries({
        'q': st.one_of(*[st.integers(0, 9)] * 7, st.integers(10, 15)),
        'per_target': st.integers(1, 5),
        'strategy': st.sampled_from(['const', 'switch']),
        'rounds': st.one_of(st.integers(1, 12), st.sampled_from(
            [40, 150, 400])),
        'off_after': st.integers(0, 600),
        # which slots have an answer: every so many, how far the access goes
        'busy': st.sampled_from([0, 0, 1, 2, 3, 7]),
        'depth': st.integers(1, 4)})


def long_body(c, ctx):
    """Few answers or none: rounds of 2^Q slots, targets in turn."""
    conf = dict(c, link={'tari': 12.5e-6, 'rtcal': 37.5e-6, 'trcal': 75e-6,
                         'delim': 12.5e-6, 'dr': '8', 'm': 'M2',
                         'trext': False},
                temp='nominal', session='S1', sel='ALL', target='B',
                read_tid=True, words=4, power=30.0)

    def run(sim):
        r = make_reader(conf, sim)
        preamble = std.create_tag_preamble(std.TagEncoding.M2, False)
        replies = [std.QueryReply(0x1234), std.AckReply('AAAA0001'),
                   std.ReqRNReply(0x4321), std.ReadReply('5A3C' * 4)]
        kinds = [std.Ack, std.ReqRN, std.Read]
        n_slots = min(c['rounds'] * 2 ** c['q'], max(1500, 2 ** c['q'] + 2))
        before = 0          # rounds so far
        for start in range(2):
            frame = r.turn_on()
            n = min(n_slots, c['off_after']) if start == 0 else n_slots
            for i in range(n + 1):
                query = i % 2 ** c['q'] == 0
                eq((r.inventory_round.index, r.inventory_round.slot.index),
                   (before + i // 2 ** c['q'], i % 2 ** c['q']),
                   'round and slot')
                eq(isinstance(frame.command, std.Query), query,
                   f'slot {i} with Q={c["q"]} starts with Query')
                if query:
                    k = i // 2 ** c['q']
                    want = 'B' if c['strategy'] == 'const' else \
                        'AB'[k // c['per_target'] % 2]
                    eq(frame.command.target, rc.TARGET[want],
                       f'target of round {k}')
                    eq(frame.command.q, c['q'], 'Q')
                else:
                    req(isinstance(frame.command, std.QueryRep),
                        'slot %d starts with %s', i, frame.command)
                    eq(frame.command.session, std.Session.S1, 'session')
                answers = 0
                if c['busy'] and i % c['busy'] == 0:
                    answers = 1 + (i + c['depth']) % 4
                for k in range(answers):
                    frame = r.receive(std.TagFrame(preamble, replies[k]))
                    if k < 3:
                        eq(type(frame.command), kinds[k],
                           f'command after answer {k} in slot {i}')
                        eq((r.inventory_round.index,
                            r.inventory_round.slot.index),
                           (before + i // 2 ** c['q'], i % 2 ** c['q']),
                           'round and slot of an access')
                if answers < 4:
                    frame = r.timeout()
            req(r.turn_off() is None, 'a command when turned off')
            before += (n + 1) // 2 ** c['q'] + 1
    tc.in_sim(run)
    ctx.nt(c['rounds'] > 1)
    ctx.label(c['strategy'], 'answers' if c['busy'] else 'silence')


def listeners_strategy():
    return st.lists(st.one_of(
        st.tuples(st.just('add'), st.dictionaries(
            st.sampled_from(['a', 'b', 'c']), st.integers(0, 9))),
        st.tuples(st.just('once'), st.just({})),
        st.tuples(st.just('remove'), st.integers(-1, 12)),
        st.tuples(st.just('clear'), st.none()),
        st.tuples(st.just('call'), st.dictionaries(
            st.sampled_from(['a', 'b', 'd']), st.integers(10, 19)))),
        min_size=2, max_size=25).map(lambda x: [list(y) for y in x])


def listeners_body(case, ctx):
    ls, model, n, calls, called = Listeners(), [], 0, 0, []
    once = set()
    ids = []
    for op, arg in case:
        if op == 'add':
            def fn(*args, _n=n, **kw):
                called.append((_n, args, kw))
            ident = ls.add(fn, **arg)
            req(ident not in ids, 'identifier %r is given twice', ident)
            ids.append(ident)
            model.append((ident, n, arg))
            n += 1
        elif op == 'once':      # a listener that removes itself
            box = []

            def fn(*args, _n=n, _box=box, **kw):
                called.append((_n, args, kw))
                ls.remove(_box[0])
            box.append(ls.add(fn))
            ids.append(box[0])
            model.append((box[0], n, {}))
            once.add(box[0])
            n += 1
        elif op == 'remove':
            ident = ids[arg] if 0 <= arg < len(ids) else -100
            ls.remove(ident)
            model = [x for x in model if x[0] != ident]
        elif op == 'clear':
            ls.clear()
            model = []
        else:
            called.clear()
            ls.call(calls, 'x', **arg)
            eq(called, [(k, (calls, 'x'), {**arg, **own})
                        for _, k, own in model], f'call {calls}')
            calls += 1
            ctx.nt(len(model) > 1)
            model = [x for x in model if x[0] not in once]


def antennas_strategy():
    return st.fixed_dictionaries({
        'n': st.integers(1, 5), 'first': st.booleans(),
        'ops': st.lists(st.sampled_from(['next', 'next', 'cycle']),
                        max_size=15)})


def antennas_body(c, ctx):
    def run(sim):
        r = Reader(sim)
        r.tag_encoding = std.TagEncoding.M2
        r.always_start_with_first_antenna = c['first']
        r.read_tid_words_num = 2
        ants = [Antenna() for _ in range(c['n'])]
        eq([r.attach_antenna(a) for a in ants], list(range(c['n'])),
           'indexes of antennas')
        eq(r.num_antennas, c['n'], 'number of antennas')
        k = 0
        r.turn_on()
        for op in c['ops']:
            if op == 'next':
                k = (k + 1) % c['n']
                req(r.select_next_antenna() is ants[k], 'not antenna %d', k)
            else:
                r.turn_off()
                r.turn_on()
                k = 0 if c['first'] else k
            eq(r.antenna_index, k, 'antenna')
            req(r.antenna is ants[k], 'not antenna %d', k)
        for i, a in enumerate(ants):
            req(r.get_antenna(i) is a, 'get_antenna(%d)', i)
            eq(a.index, i, 'index')
        ctx.nt(c['n'] > 1 and len(c['ops']) > 2)
    tc.in_sim(run)


REPLIES = ('rn', 'epc', 'handle', 'data', 'other')
FITS = {'QUERY': 'rn', 'QREP': 'rn', 'QADJUST': 'rn', 'ACK': 'epc', 'REQRN': 'handle', 'READ': 'data'}


def misfit_strategy():
    return st.fixed_dictionaries({
        'reach': st.integers(0, 7), 'rn': rc.rn16, 'again': st.booleans(),
        'reply': st.sampled_from(REPLIES + REPLIES[:2])})


def misfit_body(c, ctx):
    """A reply that cannot come in the state of the reader is an error."""
    conf = dict(link={'tari': 12.5e-6, 'rtcal': 37.5e-6, 'trcal': 75e-6,
                      'delim': 12.5e-6, 'dr': '8', 'm': 'M4',
                      'trext': False},
                temp='nominal', session='S2', sel='ALL', target='A', q=1,
                read_tid=True, words=4, power=30.0, strategy='const',
                per_target=1)

    def frame(kind):
        reply = {'rn': std.QueryReply, 'handle': std.ReqRNReply,
                 'epc': lambda x: std.AckReply('AA%04X' % x),
                 'data': lambda x: std.ReadReply('%04X' % x),
                 'other': lambda x: std.Reply(std.ReplyType.QUERY_REPLY)
                 }[kind](c['rn'])
        return std.TagFrame(std.create_tag_preamble(
            std.TagEncoding.M4, False), reply)

    def run(sim):
        r = make_reader(conf, sim)
        if c['reach']:
            r.turn_on()
        if c['reach'] == 6:
            r.timeout()
        elif c['reach'] == 7:
            r.set_state(Reader.State.QAdjust)
        for kind in ('rn', 'epc', 'handle')[:max(0, c['reach'] - 2)]:
            if c['reach'] < 6:
                r.receive(frame(kind))
        state = str(r.state)
        if state == 'OFF' and c['reply'] == 'other':
            return
        fits = FITS.get(state) in (c['reply'], None)
        for _ in range(1 + c['again']):
            before = str(r.state), r.last_rn
            try:
                out = r.receive(frame(c['reply']))
            except Exception as e:
                req(not fits or c['reply'] == 'other',
                    '%s in %s raised %r', c['reply'], state, e)
                eq((str(r.state), r.last_rn), before,
                   f'state after {c["reply"]} in {state}')
            else:
                req(fits and c['reply'] != 'other', '%s in %s is taken',
                    c['reply'], state)
                eq(out is None, state == 'OFF', 'no command')
                break
        ctx.label(state)
        ctx.nt(not fits)
    tc.in_sim(run)


PROPERTY = Property(
    'C20',
    'A reader is turned on and off, gets replies and timeouts in random '
    'order; its commands, state, rounds, slots, notifications and timeouts '
    'are compared with a reference.  Non-trivial: three different states met '
    '(program), several rounds (long), several listeners called, several '
    'antennas switched.',
    [
        Part('program', strategy, body, 2000, shards=4),
        Part('long', long_strategy, long_body, 150, shards=2),
        Part('listeners', listeners_strategy, listeners_body, 600, shards=1),
        Part('misfits', misfit_strategy, misfit_body, 200, shards=1),
        Part('antennas', antennas_strategy, antennas_body, 300, shards=1),
    ],
    ['Replies of a type the state does not expect are not sent to a reader '
     'that is on: no tag gives them.'])
