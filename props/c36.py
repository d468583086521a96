"""The log of a run against what happened in it; texts of objects."""
import logging
import random
import re

import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
import pysim.models.pingpong.handlers as pp_handlers
import pysim.models.tag_time.handlers as tt_handlers
from pysim.models.rfid.objects import Antenna, Tag
from pysim.models.tag_time.objects import Config as TagConfig
from pysim.sim import build_simulation, run_simulation
from harness.core import Part, Property, close, eq, req
from . import c08, c14, rfid_common as rc, rfid_sim as rs

EPS = 1e-9


class Log(logging.Handler):
    """Collects (simulated time, message)."""

    def __init__(self):
        super().__init__(1)
        self.rows = []
        self.watch = []     # called with every (time, message)

    def emit(self, record):
        row = (record.simTime, record.getMessage())
        self.rows.append(row)
        for fn in self.watch:
            fn(*row)

    def attach(self, name):
        logger = logging.getLogger(name)
        logger.setLevel(1)
        logger.addHandler(self)

    def detach(self, name):
        logging.getLogger(name).removeHandler(self)

    def find(self, pattern):
        """-> [(time, groups)] of the messages that match."""
        rx = re.compile(pattern)
        return [(t, m.groups()) for t, s in self.rows
                for m in [rx.search(s)] if m]


def same(got, want, what):
    """Lists of (time, groups): times nearly, groups exactly equal."""
    eq([x[1] for x in got], [tuple(map(str, x[1])) for x in want], what)
    for (a, g), (b, _) in zip(got, want):
        close(a, b, f'time of {what} {g}', EPS, EPS)


# --- RFID -------------------------------------------------------------------
@st.composite
def rfid_strategy(draw, crowd=False):
    c = draw(rs.crowd_strategy() if crowd else
             rs.settings_strategy(max_tags=6, power_stats=False))
    c['power_stats'] = not crowd and draw(st.integers(0, 4)) == 4
    c['wait'] = draw(st.sampled_from([.0031, .0113, .047, .21]))
    c['others'] = draw(st.sampled_from([[], [], [6.0], [1.5, 3.0]]))
    return c


def parts(text):
    """The fields of a description; all values are texts."""
    return dict(re.findall(
        r'(\w+) ?= ?(\[[^]]*\]|\S*?)(?=,|$)', text))


def describes(tag, text, what):
    have = parts(text)
    want = {'id': tag.tag_id, 'state': tag.state.name, 'pos': tag.pos,
            'power': tag.power, 'S0': tag.s0, 'S1': tag.s1, 'S2': tag.s2,
            'S3': tag.s3, 'SL': tag.sl, 'M': tag.encoding}
    if 'RN' in have:
        want.update({'q': tag.q, 'current_slot': tag.slot_counter,
                     'CNT': tag.slot_counter, 'RN': tag.rn})
    else:
        want.update({'EPC': tag.epc, 'TID': tag.tid, 'TRext': tag.trext,
                     'velocity': f'{tag.velocity:.3f}',
                     'direction': tag.direction})
    for k, v in want.items():
        eq(have.get(k), str(v), f'{k} in the text of {what}')


NUM = r'(-?\d+)'


def rfid_body(c, ctx):
    log = Log()
    seen = {'states': [], 'antennas': [], 'slots': []}
    state, powered, tags, model_of = {}, {}, {}, []
    state_checks = [0]

    def watch(t, msg):
        m = re.search(rf'received power=(\S+) from tag {NUM}', msg)
        if m:
            power = model_of[0].transaction.reader_rx_power_map
            eq(m[1], str(power.get(tags[m[2]])), 'received power in the log')
            stats = model_of[0].statistics
            if stats.use_power_statistics and m[1] != 'None':
                # the last moment at which powers were estimated
                last = stats.get_tag_record(tags[m[2]]).power_mapping[-1]
                eq(m[1], str(last.reader_rx_power),
                   'received power in the log by the power records')
        m = re.search(rf'switched antenna #{NUM}', msg)
        if m:
            eq(int(m[1]), model_of[0].reader.antenna_index,
               'antenna in the log')
            seen['antennas'].append(int(m[1]))
        m = re.search(rf'tag {NUM} state changed: (\w+) --> (\w+)', msg)
        if m:
            n, a, b = m.groups()
            eq(a, state.get(n, 'OFF'), f'state of tag {n} left, by the log')
            state[n] = b
        m = re.search(rf'tag {NUM} powered (on|off)', msg)
        if m:
            n, on = m.groups()
            req(powered.get(n, 'off') != on, 'tag %s powered %s twice', n, on)
            powered[n] = on

    def check(tag):
        n = str(tag.tag_id)
        eq(state.get(n, 'OFF'), tag.state.name, f'state of tag {n} in the log')
        eq(powered.get(n, 'off') == 'on', tag.state.name != 'OFF',
           f'power of tag {n} in the log')
        state_checks[0] += 1
        if state_checks[0] % (3 if c['num_tags'] < 20 else 17) == 0:
            describes(tag, tag.describe(), 'description')
            describes(tag, str(tag), 'tag')

    def prepare(sim, model, tr):
        log.watch.append(watch)
        log.attach('RFID')
        reader = model.reader
        model_of.append(model)
        for x in c['others']:
            a = Antenna()
            a.pos = np.array([x, 0, 4])
            a.direction_theta = np.array([0, 0, -1])
            reader.attach_antenna(a)
        reader.state_change_listeners.add(lambda a, b: seen['states'].append(
            (sim.time, (a, b))))
        reader.slot_start_listeners.add(lambda i, j: seen['slots'].append(
            (sim.time, (j,))))
        for gen in model.generators:
            create = gen.create_tag

            def create_tag(m, create=create):
                tag = create(m)
                tags[str(tag.tag_id)] = tag
                receive, set_power = tag.receive, tag.set_power

                def hear(frame):
                    check(tag)
                    if c['others']:
                        eq(reader.antenna_index, seen['antennas'][-1],
                           'last antenna in the log')
                    before = len(log.rows)
                    reply = receive(frame)
                    check(tag)
                    new = [m.groups() for _, s in log.rows[before:] for m in [
                        re.search(rf'Метка {NUM} выбрала номер слота: (\d+)',
                                  s)] if m]
                    took_part = isinstance(frame.command, std.Query) and \
                        tag.state in (Tag.State.ARBITRATE, Tag.State.REPLY)
                    eq(new, [(str(tag.tag_id), str(tag.slot_counter))]
                       if took_part else [], 'slot chosen by the tag')
                    return reply

                def power(time, value):
                    check(tag)
                    set_power(time, value)
                    check(tag)
                tag.receive, tag.set_power = hear, power
                return tag
            gen.create_tag = create_tag

    try:
        tr = rs.run(c, rs.make_settings(
            c, reader_antenna_switching_interval=c['wait']), prepare=prepare)
    finally:
        log.detach('RFID')

    same(log.find(r'reader state changed: (\w+) --> (\w+)'), seen['states'],
         'reader state changes')
    same(log.find(r'reader turned (ON|OFF)'),
         sorted([(t, ('ON',)) for t in tr.on] +
                [(t, ('OFF',)) for t in tr.off]), 'power switches')
    same(log.find(r'ROUND #(\d+) STARTED'),
         [(t, (i,)) for s, i, t in tr.rounds if s == '+'], 'rounds')
    same(log.find(r'SLOT #(\d+) STARTED'), seen['slots'], 'slots')
    life = c['travel'] / c['speed']
    born = log.find(rf'\(\+\) tag {NUM} created for (\S+)s: (.*)')
    same([(t, g[:1]) for t, g in born],
         [(t, (tag.tag_id,)) for t, tag in tr.born], 'births of tags')
    for (_, g), (_, tag) in zip(born, tr.born):
        close(float(g[1]), life, 'life of a tag in the log')
        for value in (f'id={tag.tag_id}', tag.epc, tag.tid):
            req(value in g[2], '%s is not in %r', value, g[2])
    same(log.find(rf'\(x\) tag {NUM} died'),
         [(t, (tag.tag_id,)) for t, tag in tr.gone], 'deaths of tags')

    # exchanges: one record of every finished one
    done, collisions, adjusted = [], [], []
    for i, cmd in enumerate(tr.commands):
        cut = [t for t, n in tr.cut if n == i + 1]
        if cut or i + 1 == len(tr.commands):
            continue
        after = tr.commands[i + 1]
        done.append((cmd, after.time))
        if len(cmd.replies) > 1:
            collisions.append((after.time, ()))
        if isinstance(after.command, std.QueryAdjust):
            adjusted.append((after.time, (
                'увеличил' if after.q > cmd.q else 'уменьшил', cmd.q,
                after.q)))
    ends = log.find(r'finished transaction: (.*)')
    # the run may stop at the end of an exchange that starts no other
    req(len(done) <= len(ends) <= len(done) + 1,
        '%d exchanges in the log, %d in the run', len(ends), len(done))
    for (t, (text,)), (cmd, end) in zip(ends, done):
        close(t, end, 'time of the end of an exchange', EPS, EPS)
        req(str(cmd.command) in text, 'no command %s in %r', cmd.command,
            text)
        for tag, frame in cmd.replies:
            req(str(frame.reply) in text, 'no reply %s in %r', frame.reply,
                text)
        eq(sorted(re.findall(rf'from {NUM}', text)),
           sorted(str(tag.tag_id) for tag, _ in cmd.replies),
           'tags that replied')
        m = re.search(r'duration=([\d.e+-]+)', text)
        req(m, 'no duration in %r', text)
        close(float(m[1]), end - cmd.time, 'duration of an exchange', 0, 2e-9)
    n = len(collisions)
    hit = log.find(r'^Коллизия!')
    same(hit[:n] if len(hit) == n + 1 and len(ends) > len(done) else hit,
         collisions, 'collisions')
    same(log.find(rf'Считыватель (увеличил|уменьшил) Q с {NUM} до {NUM}'),
         adjusted, 'adjustments of Q')

    gone = {tag: t for t, tag in tr.gone}
    ids, data, heard = [], [], []
    for cmd in tr.commands:
        for t, frame in cmd.delivered:
            r, tag = frame.reply, cmd.replies[0][0]
            text = ''.join('%02X' % b for b in (
                r.epc if isinstance(r, std.AckReply) else
                r.memory if isinstance(r, std.ReadReply) else []))
            if isinstance(r, std.ReadReply):
                heard.append((t, (text,)))
            if abs(gone.get(tag, 1e9) - t) <= EPS:
                continue        # leaves at this very moment
            if t < gone.get(tag, 1e9):
                row = (t, (text, tag.tag_id))
                if isinstance(r, std.AckReply):
                    ids.append(row)
                elif isinstance(r, std.ReadReply):
                    data.append(row)
    edge = list(gone.values())

    def clear(rows):
        return [r for r in rows if all(abs(r[0] - t) > EPS for t in edge)]
    for what, rx, rows in (
            ('identifiers', r'tag data: EPC=(\w*), .*from tag ' + NUM, ids),
            ('data', r'Received TID: memory=(\w*), .*from tag ' + NUM, data)):
        same(clear(log.find(rx)), clear(rows), f'{what} received')
    same(log.find(r'received TID=(\w*)'), heard, 'data heard by the reader')
    report(tr.model.statistics, ctx)
    ctx.nt(bool(ids))
    ctx.label(*[name for name, flag in (
        ('identified', ids), ('data', data), ('collisions', collisions),
        ('Q adjusted', adjusted), ('power cycles', len(tr.on) > 1)) if flag])


def report(stats, ctx):
    """The text of the statistics."""
    text = stats.to_long_string()
    eq(re.findall(r'num_tags_created = (\d+)', text),
       [str(stats.num_tags_created)], 'tags created in the report')
    eq(re.findall(r'num_rounds_attained = (\d+)', text),
       [str(r.num_rounds_attained) for r in stats.tags_history],
       'rounds of the tags in the report')
    eq(re.findall(r'Tag id=(-?\d+)', text),
       [str(r.tag.tag_id) for r in stats.tags_history], 'tags in the report')
    at = 0
    for rec in stats.tags_history:
        for r in rec.inventory_history + rec.power_mapping:
            at = text.find(str(r), at)
            req(at >= 0, 'no record %s in its place of the report', r)
            at += len(str(r))
        for r in rec.inventory_history:
            have = parts(str(r).strip('()'))
            for k, v in (('round', r.round_index), ('ant', r.antenna_index),
                         ('tag_pos', r.tag_pos), ('BER', r.ber),
                         ('ant_pos', r.reader_antenna_pos), ('SNR', r.snr),
                         ('read_tid', r.read_tid)):
                eq(have.get(k), str(v), f'{k} of a reading in the report')
        for r in rec.power_mapping[:40]:
            have = dict(re.findall(r'(\w+)= *(\[[^]]*\]|[^,]*)', str(r)))
            for k, v, digits in (
                    ('time', r.time, 9), ('t_on', r.field_lifetime, 9),
                    ('tag_rx_power', r.tag_rx_power, 2),
                    ('tag_tx_power', r.tag_tx_power, 2),
                    ('reader_rx_power', r.reader_rx_power, 2),
                    ('reader_tx_power', r.reader_tx_power, 2),
                    ('SNR', r.snr, 4), ('BER', r.ber, 6),
                    ('PLrt', r.reader_tag_pl, 2),
                    ('PLtr', r.tag_reader_pl, 2)):
                close(float(have[k]), float(v), f'{k} in the report', 0,
                      .5000001 * 10 ** -digits)
            for k, v in (('antenna_index', r.reader_antenna_index),
                         ('tag_pos', r.tag_pos),
                         ('antenna_pos', r.reader_antenna_pos)):
                eq(have[k].strip(), str(v), f'{k} in the report')
    if any(r.power_mapping for r in stats.tags_history):
        ctx.label('power records in the report')


# --- ping-pong --------------------------------------------------------------
def ping_body(case, ctx):
    log = Log()

    def init(sim, cfg):
        log.attach('PingPong')
        pp_handlers.initialize(sim, cfg)
    random.seed(case['seed'])
    try:
        stats, model, res = run_simulation(build_simulation(
            'PingPong', init=init, init_args=(c08.config(case),),
            fin=pp_handlers.finalize))
    finally:
        log.detach('PingPong')
    kinds = [('ping', r'sending ping #(\d+)'), ('lost', r'ping lost'),
             ('reached', r'ping successfully reached'),
             ('served', r'server sent pong'),
             ('travel', r'packet travel'),
             ('good', r'client received pong \(good\)'),
             ('bad', r'client received wrong pong'),
             ('end', r'reached max pings \((\d+)\), stopping')]
    got = []
    for t, msg in log.rows:
        for k, rx in kinds:
            m = re.search(rx, msg)
            if m:
                got.append((t, k, *map(int, m.groups())))
    # the history the log tells
    t, number, i = 0.0, None, 0
    counts = {'ping': 0, 'lost': 0, 'good': 0}

    def take(kind):
        nonlocal i
        req(i < len(got), 'the log ends before %r at %r', kind, t)
        row = got[i]
        eq(row[1], kind, f'record {i} of the log')
        close(row[0], t, f'time of {kind}', EPS, EPS)
        i += 1
        return row
    while i < len(got) and got[i][1] != 'end':
        row = take('ping')
        req(number is None or row[2] == number + 1,
            'ping #%d after #%r', row[2], number)
        number = row[2]
        counts['ping'] += 1
        take('travel')
        t += case['channel']
        req(i < len(got) and got[i][1] in ('lost', 'reached'),
            'no fate of ping #%d', number)
        if take(got[i][1])[1] == 'lost':
            counts['lost'] += 1
        else:
            t += case['service']
            take('served')
            take('travel')
            t += case['channel']
            take('good')
            counts['good'] += 1
        t += case['interval']
    eq(take('end')[2], case['pings'], 'number of pings at the end')
    eq(i, len(got), 'records')
    eq(counts['ping'], case['pings'], 'pings in the log')
    close(counts['lost'] / counts['ping'], res.miss_rate, 'share of lost '
          'pings in the log', 1e-9, 1e-12)
    close(stats.sim_time, t, 'end of the log', EPS, EPS)
    ctx.nt(counts['lost'] > 0 and counts['good'] > 0)


# --- tag reading -------------------------------------------------------------
NAMES = ['Arbitrate', 'Reply', 'Acknowledged', 'Secured', 'Final']


def reading_strategy():
    return st.fixed_dictionaries({
        'scenario': st.sampled_from([1, 2, 3]),
        'chunks': st.integers(1, 5), 'n': st.integers(1, 12),
        'probs': st.lists(st.sampled_from([1.0, .9, .6, .4]), min_size=4,
                          max_size=4),
        'times': st.lists(st.integers(1, 64).map(lambda x: x / 8),
                          min_size=4, max_size=4),
        'seed': st.integers(0, 2 ** 32)})


def reading_body(c, ctx):
    log = Log()

    def init(sim, cfg):
        log.attach('Tag')
        tt_handlers.initialize(sim, cfg)
    random.seed(c['seed'])
    try:
        stats, model, _ = run_simulation(build_simulation(
            'Tag', init=init, init_args=(TagConfig(
                probability=tuple(c['probs']),
                processing_time=tuple(c['times']), max_transmisions=c['n'],
                chunks_number=c['chunks'], scenario=c['scenario']),)))
    finally:
        log.detach('Tag')
    rows = [(t, k, m.groups()) for t, msg in log.rows for k, rx in (
        ('try', r'отправка пакета № (\d+)'),
        ('new', r'Создан пакет с номером: (\d+)'),
        ('fail', r'Неудачная передача пакета № (\d+)'),
        ('ok', r'Изменение состояния метки с (\w+)'),
        ('now', r'Состояние изменено на (\w+)'),
        ('sent', r'Отправлено заявок: (\d+)'),
        ('end', r'reached max pings \((\d+)\), stopping'))
        for m in [re.search(rx, msg)] if m]
    # replay the chain of phases by the log
    t, phase, chunk, i = 0.0, 0, 0, 0
    sent = fails = 0
    number = None
    while True:
        what = f'record {i} of the log'

        def take(kind):
            nonlocal i
            req(i < len(rows), 'the log ends before %r', kind)
            eq(rows[i][1], kind, what)
            close(rows[i][0], t, f'time of {kind}', EPS, EPS)
            i += 1
            return rows[i - 1][2][0]
        if phase == 0:
            k = int(take('new'))
            req(number is None or k == number + 1, 'packet %d after %r', k,
                number)
            number = k
        if i < len(rows) and rows[i][1] == 'end':
            eq(int(take('end')), c['n'], 'readings at the end')
            break
        eq(int(take('try')), number, 'number of the packet sent')
        req(i < len(rows) and rows[i][1] in ('ok', 'fail'),
            'no outcome of the attempt before record %d', i)
        ok = rows[i][1] == 'ok'
        if ok:
            eq(take('ok'), NAMES[phase], 'phase that succeeded')
        else:
            eq(int(take('fail')), number, 'number of the packet that failed')
            fails += 1
        t += c['times'][phase]
        if not ok:
            if c['scenario'] == 1:
                phase = 0
                eq(take('now'), NAMES[0], 'phase after a failure')
            continue
        if c['scenario'] == 3 and phase == 3 and chunk + 1 < c['chunks']:
            chunk += 1
        else:
            phase, chunk = phase + 1, 0
        if phase < 4:
            eq(take('now'), NAMES[phase], 'phase after a success')
            continue
        sent += 1
        last = i < len(rows) and rows[i][1] == 'now'
        for kind in ('now', 'sent') if last else ('sent', 'now'):
            eq(take(kind), NAMES[4] if kind == 'now' else str(sent),
               'end of a reading: ' + kind)
        phase = 0
    eq(i, len(rows), 'records')
    eq(sent, c['n'], 'readings in the log')
    close(stats.sim_time, t, 'end of the log', EPS, EPS)
    ctx.nt(fails > 0)
    ctx.label(f'scenario {c["scenario"]}')


# --- texts ------------------------------------------------------------------
def text_strategy():
    reply = st.fixed_dictionaries({
        'kind': st.sampled_from(['rn', 'epc', 'handle', 'data']),
        'rn': rc.rn16, 'crc': rc.rn16, 'pc': rc.rn16,
        'data': st.lists(st.integers(0, 255), max_size=12),
        'header': st.booleans()})
    return st.fixed_dictionaries({
        'commands': c14.near_strategy(), 'replies': st.tuples(reply, reply),
        'm': rc.keys(rc.ENC), 'trext': st.booleans(),
        'changed': st.sampled_from(['rn', 'crc', 'pc', 'data', 'header'])})


def make_reply(r):
    if r['kind'] == 'rn':
        return std.QueryReply(r['rn']), ['rn']
    if r['kind'] == 'epc':
        return std.AckReply(list(r['data']), r['pc'], r['crc']), \
            ['data', 'pc', 'crc']
    if r['kind'] == 'handle':
        return std.ReqRNReply(r['rn'], r['crc']), ['rn', 'crc']
    return std.ReadReply(list(r['data']), r['rn'], r['crc'], r['header']), \
        ['data', 'rn', 'crc', 'header']


def number_in(text, value):
    return any(int(x, 16) == value for x in re.findall(
        r'0x([0-9A-Fa-f]+)', text)) or any(
        int(x) == value for x in re.findall(r'(?<![\w.])\d+(?![\w.])', text))


def text_body(case, ctx):
    a, b = case['commands']
    cmds = [rc.build_command(x) for x in (a, b)]
    texts = [str(x) for x in cmds]
    eq(texts[0] == texts[1], a == b, f'same text for {a} and {b}')
    for d, text in zip((a, b), texts):
        for k in ('rn', 'crc', 'q', 'word_ptr', 'word_count'):
            if d.get(k) is not None:
                req(number_in(text, d[k]), '%s %d is not in %r', k, d[k],
                    text)
        for k in ('session', 'sel', 'target'):
            if d.get(k) is not None and k in d:
                req(str(rc.field_value(k, d[k])) in text,
                    '%s %s is not in %r', k, d[k], text)
    # one field of a reply changed
    r, other = case['replies']
    reply, fields = make_reply(r)
    key = case['changed']
    changed = dict(r, **{key: other[key]})
    text = str(reply)
    differ = key in fields and r[key] != other[key]
    eq(str(make_reply(changed)[0]) != text, differ,
       f'other text for another {key} of the reply {r["kind"]}')
    for k in ('rn', 'crc', 'pc'):
        if k in fields:
            req(number_in(text, r[k]), '%s %d is not in %r', k, r[k], text)
    if 'data' in fields:
        req(''.join('%02X' % x for x in r['data']) in text.upper(),
            'the data are not in %r', text)
    # frames
    pre = std.create_tag_preamble(rc.ENC[case['m']], case['trext'])
    frame = str(std.TagFrame(pre, reply))
    req(text in frame and str(pre) in frame, 'the reply is not in %r', frame)
    req(str(rc.ENC[case['m']]) in str(pre) and
        number_in(str(pre), pre.bitlen), 'the encoding is not in %r', str(pre))
    sync = std.ReaderSync(12.5e-6, 37.5e-6)
    frame = str(std.ReaderFrame(sync, cmds[0]))
    req(texts[0] in frame and str(sync) in frame,
        'the command is not in %r', frame)
    ctx.nt(a != b or differ)
    ctx.label(a['kind'], r['kind'])


PROPERTY = Property(
    'C36',
    'Runs of the three models with the log at full level, read back as '
    'simulated times and messages: RFID runs of up to six tags, one to three '
    'antennas, any modulation, session, Q adjustment and power switching, '
    'against listeners and an independent trace; ping-pong and reading runs, '
    'the log replayed as a history; commands, replies and frames, two of a '
    'kind that differ in one field at most. Non-trivial: a tag is '
    'identified, pings are lost and answered, a phase fails, or two objects '
    'differ in one field.',
    [Part('rfid', rfid_strategy, rfid_body, 160, 2500, shards=8),
     Part('crowd', lambda: rfid_strategy(crowd=True), rfid_body, 20, 300,
          shards=4),
     Part('ping-pong', c08.strategy, ping_body, 400),
     Part('reading', reading_strategy, reading_body, 300),
     Part('texts', text_strategy, text_body, 1500)],
    ['the wording of the messages is that of the pinned commit'])
