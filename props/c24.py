"""Statistics of a run against the trace of what happened."""
import numpy as np
from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Reader, Statistics, Tag
from harness.core import Part, Property, close, eq, req
from . import rfid_sim as rs

EPS = 1e-9


@st.composite
def strategy(draw):
    c = draw(rs.settings_strategy(max_tags=12))
    c['intervals'] = draw(st.one_of(
        st.just([c['interval']]),
        st.lists(st.sampled_from([.005, .02, .05, .13, .3]), min_size=2,
                 max_size=6)))
    c['interval'] = max(c['intervals'])
    return c


@st.composite
def crowd_strategy(draw):
    c = draw(rs.crowd_strategy())
    c['intervals'] = [c['interval'] * k for k in draw(st.lists(
        st.sampled_from([.5, 1, 1, 3]), min_size=1, max_size=5))]
    c['interval'] = max(c['intervals'])
    return c


def intervals(c):
    state = {'i': -1}

    def following(values, shift):
        state['i'] += 1
        return values[(state['i'] + shift) % len(values)]
    return (following, c['intervals'], 0)


def accesses(tr):
    """-> [(command with the delivered EPC, tag, read)] in order."""
    out = []
    for cmd in tr.commands:
        if isinstance(cmd.command, (std.Query, std.QueryRep,
                                    std.QueryAdjust)):
            current = None
        for t, frame in cmd.delivered:
            eq(len(cmd.replies), 1, 'tags that replied to the command whose '
               'reply was received')
            tag, sent = cmd.replies[0]
            req(sent is frame, 'the reader received a frame nobody sent')
            if isinstance(frame.reply, std.AckReply):
                current = [cmd, tag, None, t]
                out.append(current)
            elif isinstance(frame.reply, std.ReadReply):
                req(current is not None and current[1] is tag,
                    'data of a tag that is not being accessed')
                current[2] = t
    return out


def body(c, ctx):
    tr = rs.run(c, rs.make_settings(c, generation_interval=intervals(c)))
    stats = tr.result[1].statistics
    n = c['num_tags']
    life = c['travel'] / c['speed']

    # tags come and go as configured; the run ends with the last of them
    eq(len(tr.born), n, 'tags created')
    eq(stats.num_tags_created, n, 'tags created, by the statistics')
    at, k = 0.0, 0
    births = []
    for t, tag in tr.born:
        at += c['intervals'][k % len(c['intervals'])]
        k += 1
        close(t, at, f'time of birth of tag {k}', EPS, EPS)
        births.append(t)
    eq([x[1] for x in tr.gone], [x[1] for x in tr.born],
       'tags that left, in order')
    for (t, tag), (t1, _) in zip(tr.born, tr.gone):
        close(t1, t + life, 'time of leaving', EPS, EPS)
        path = float(tag.pos[1]) + c['distance']
        req(c['travel'] - c['speed'] * (c['update'] + EPS) - EPS <= path <=
            c['travel'] + 1e-6, 'a tag left after %r m of %r', path,
            c['travel'])
    close(tr.stats.sim_time, births[-1] + life, 'end of the run', EPS, EPS)
    eq(tr.stats.exit_reason.name, 'STOPPED', 'end of the run')
    eq([r.tag for r in stats.tags_history], [t for _, t in tr.born],
       'tags in the statistics')
    eq([t for t in tr.model.tags if t is not tr.observer], [],
       'tags left in the model')

    # what was read and when
    born = {tag: t for t, tag in tr.born}
    gone = {tag: t for t, tag in tr.gone}
    done = accesses(tr)
    rounds, ids, tids = [], 0, 0
    for rec in stats.tags_history:
        tag = rec.tag
        mine = [a for a in done if a[1] is tag and a[3] <= gone[tag] + EPS]
        # a reply delivered at the very moment of leaving: either is right
        edge = [a for a in mine if a[3] >= gone[tag] - EPS]
        got = rec.inventory_history
        req(len(mine) - len(edge) <= len(got) <= len(mine),
            'tag %d was inventoried %d times, but has %d records',
            born[tag], len(mine), len(got))
        for r, (cmd, _, read, t) in zip(got, mine):
            eq(r.round_index, cmd.round_slot[0], 'round of the reading')
            eq(r.antenna_index, 0, 'antenna of the reading')
            if read is None or abs(read - gone[tag]) > EPS:
                eq(r.read_tid, read is not None and read < gone[tag],
                   'data read with the identifier')
            y = c['speed'] * (t - born[tag]) - c['distance']
            req(y - c['speed'] * (c['update'] + EPS) - EPS <= r.tag_pos[1] <=
                y + 1e-6, 'position of the tag %r, expected %r',
                r.tag_pos[1], y)
            eq([float(x) for x in r.reader_antenna_pos], [5.0, 0.0, 5.0],
               'position of the antenna')
            req(0 <= r.ber <= .5 and r.snr >= 0, 'BER %r, SNR %r', r.ber,
                r.snr)
            eq((float(r.snr), float(r.ber)), tuple(map(float, cmd.quality)),
               'SNR and BER of the reading')
        ids += bool(got)
        tids += any(r.read_tid for r in got)
        attained = sum(
            1 for cmd in tr.commands if isinstance(cmd.command, std.Query)
            for t, _, after, _ in cmd.heard
            if t is tag and after in ('ARBITRATE', 'REPLY'))
        eq(rec.num_rounds_attained, attained, 'rounds of the tag')
        rounds.append(attained)
    close(float(stats.inventory_probability()), ids / n,
          'share of identified tags')
    close(float(stats.read_tid_probability()), tids / n,
          'share of tags with data')
    close(float(stats.average_rounds_per_tag()), float(np.mean(rounds)),
          'rounds per tag')
    for cmd, tag, read, t in done:
        eq(''.join('%02X' % b for b in cmd.delivered[0][1].reply.epc),
           tag.epc.upper(), 'identifier received')
    if not c['read_tid'] or not c['words']:
        eq(tids, 0, 'tags with data when it is not asked for')
    ctx.nt(ids > 0)
    ctx.label(*[name for name, flag in (
        ('identified', ids), ('data read', tids), ('all identified', ids == n),
        ('repeatedly', any(len(r.inventory_history) > 1
                           for r in stats.tags_history)),
        ('left during an access', any(
            a[2] is not None and a[3] < gone[a[1]] < a[2] for a in done)))
        if flag])


def shares_strategy():
    """Records of tags, some of which have not left yet."""
    return st.lists(st.fixed_dictionaries({
        'rounds': st.integers(0, 5), 'gone': st.booleans(),
        'reads': st.lists(st.booleans(), max_size=4),
        'open': st.sampled_from([None, None, True, False]),
        'q': st.integers(0, 3)}), min_size=1, max_size=8).filter(
            lambda x: any(t['gone'] for t in x))


def shares_body(case, ctx):
    stats = Statistics()
    stats.num_tags_created = 0
    ends = []
    for i, t in enumerate(case):
        tag = Tag(i)
        stats.num_tags_created += 1
        rec = stats.create_tag_record(tag)
        req(stats.get_tag_record(tag) is rec, 'the record of a tag')
        rec.num_rounds_attained = t['rounds']
        rec.num_qadjust_attained = t['q']
        reader = Reader()
        for j, read in enumerate(t['reads']):
            r = rec.new_tag_read_record(reader, j)
            r.read_tid = read
            rec.close_tag_read_record()
        rec.close_tag_read_record()     # nothing is open
        if t['open'] is not None:
            rec.new_tag_read_record(reader, 99).read_tid = t['open']
        ends.append((tag, rec))
    gone = [(t, e) for t, e in zip(case, ends) if t['gone']]
    for t, (tag, rec) in gone:
        stats.close_tag_record(tag)
        eq(stats.get_tag_record(tag), None, 'the record of a tag that left')
    eq([r.tag for r in stats.tags_history], [e[0] for _, e in gone],
       'tags in the statistics')
    for t, (tag, rec) in zip(case, ends):
        n = len(t['reads']) + (t['gone'] and t['open'] is not None)
        eq(len(rec.inventory_history), n, 'readings of a tag')
        eq([r.round_index for r in rec.inventory_history[:len(t['reads'])]],
           list(range(len(t['reads']))), 'rounds of the readings')
    reads = [t['reads'] + ([] if t['open'] is None else [t['open']])
             for t, _ in gone]
    n = len(gone)
    close(float(stats.inventory_probability()), sum(map(bool, reads)) / n,
          'share of identified tags')
    close(float(stats.read_tid_probability()), sum(map(any, reads)) / n,
          'share of tags with data')
    close(float(stats.average_rounds_per_tag()),
          sum(t['rounds'] for t, _ in gone) / n, 'rounds per tag')
    eq(list(stats.average_changing_q()), [t['q'] for t, _ in gone],
       'adjustments')
    ctx.nt(n > 1 and any(reads))


PROPERTY = Property(
    'C24',
    'Whole runs with generated settings (number and times of tags, speed, '
    'power switching, link, rounds, sessions, noise); the statistics and the '
    'course of the run are compared with a trace of every command and reply.'
    '  Non-trivial: at least one tag was identified; several tags left, some '
    'identified (shares).',
    [Part('run', strategy, body, 220, 4000, shards=8),
     Part('crowd', crowd_strategy, body, 20, 500, shards=4),
     Part('shares', shares_strategy, shares_body, 400, 4000, shards=1)],
    ['Tags are generated with positive intervals, fly along Y and the run '
     'ends by the number of tags.  A reply that arrives at the very moment '
     'its tag leaves may or may not count.'])
