from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, close, eq, req
from . import rfid_sim as rs
from . import tag_common as tc

ADJUSTING = (std.Query, std.QueryRep)


def replay(tr, c, ctx):
    """The adjustment of Q, command by command."""
    q, fp = c['q'], float(c['q'])
    cuts = {n for _, n in tr.cut}     # commands after which power went off
    ups = downs = holds = 0
    cmds = tr.commands
    req(cmds, 'no commands at all')
    eq(cmds[0].q, q, 'Q of the first command')
    for n, (a, b) in enumerate(zip(cmds, cmds[1:]), 1):
        step = 0
        if c['adjust'] and isinstance(a.command, ADJUSTING) and \
                n not in cuts:
            if len(a.replies) > 1:
                if q < 15:
                    fp = min(15, fp + c['delta'])
                    step = 1
            elif not a.delivered and q > 0:
                fp = max(0, fp - c['delta'])
                step = -1
        is_adjust = isinstance(b.command, std.QueryAdjust)
        if step and abs(round(fp) - q) == 1:
            eq(round(fp) - q, step, 'direction')
            q += step
            req(is_adjust, 'QueryAdjust is due (floating Q %r), but %s is '
                'sent', fp, type(b.command).__name__)
            eq(b.command.updn, step, 'direction of QueryAdjust')
            eq(b.command.session, rs.rc.SESSION[c['session']], 'session')
            ups += step > 0
            downs += step < 0
        else:
            req(not is_adjust, 'QueryAdjust is sent (Q=%d, floating Q %r, '
                'after %d replies, %d received)', q, fp, len(a.replies),
                len(a.delivered))
            holds += step != 0
        eq(b.q, q, 'Q')
        req(0 <= b.q <= 15, 'Q is %r', b.q)
        if c['adjust']:
            close(b.q_fp, fp, 'floating Q', abs_=1e-9)
        if isinstance(b.command, std.Query):
            eq(b.command.q, q, 'Q of Query')
    if not c['adjust']:
        eq(ups + downs, 0, 'adjustments')
    # a round with no adjustment, not cut by the power, has 2^Q slots
    start, slots, whole = None, 0, False
    for n, a in enumerate(cmds, 1):
        if isinstance(a.command, std.Query):
            if whole:
                eq(slots, 2 ** start, f'slots of a round with Q={start}')
            start, slots, whole = a.q, 0, True
        slots += isinstance(a.command, ADJUSTING)
        if n in cuts or isinstance(a.command, std.QueryAdjust):
            whole = False
    ctx.label(*['up'] * (ups > 0), *['down'] * (downs > 0))
    return ups, downs, holds


def mostly(cases):
    """Mostly with the adjustment."""
    return cases.map(lambda c: dict(
        c, adjust=c['adjust'] or c['seed'] % 4 > 0))


def script_body(case, ctx):
    tr = rs.run_script(case)
    ups, downs, holds = replay(tr, case, ctx)
    ctx.nt(ups + downs > 1)


def body(case, ctx):
    if case['adjust']:
        case = dict(case, q=max(case['q'], 1))
    tr = rs.run(case)
    ups, downs, holds = replay(tr, case, ctx)
    # every tag taking part in a round has the same Q as the reader
    counted, busy = {}, 0
    for cmd in tr.commands:
        if isinstance(cmd.command, std.QueryAdjust):
            for tag, before, after, reply in cmd.heard:
                if before in ('ARBITRATE', 'REPLY'):
                    counted[tag.tag_id] = counted.get(tag.tag_id, 0) + 1
    for i, cmd in enumerate(tr.commands):
        ids = {t.tag_id: (b, a) for t, b, a, _ in cmd.heard}
        for tag_id, state, q, _ in cmd.snapshot:
            if isinstance(cmd.command, std.Query):
                continue      # a new round: the tag will learn its Q
            if state in ('ARBITRATE', 'REPLY') and tag_id in ids:
                # just before: an adjustment is being announced to the tag
                was = q + (cmd.command.updn if isinstance(
                    cmd.command, std.QueryAdjust) else 0)
                eq(was, cmd.q, f'Q of tag {tag_id} with that of the reader')
                busy += 1
    records = {r.tag.tag_id: r for r in tr.model.statistics.tags_history}
    for tag_id, r in records.items():
        eq(r.num_qadjust_attained, counted.get(tag_id, 0),
           f'adjustments counted for tag {tag_id}')
    changes = tr.model.statistics.average_changing_q()
    eq(sorted(changes), sorted(counted.get(i, 0) for i in records),
       'list of adjustments')
    ctx.nt(busy > 0 and (ups + downs > 0 or not case['adjust']))
    ctx.label('tags adjusted' if counted else 'no tags adjusted')


# --- tags alone, with any Q ---------------------------------------------------
@st.composite
def heard_strategy(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append({'op': 'query', 'session': draw(st.sampled_from(
            tc.SESSIONS)), 'target': 'A', 'sel': 'ALL', 'q': draw(st.one_of(
                st.sampled_from([0, 1, 2, 13, 14, 15]), st.integers(0, 15))),
            'dr': '8', 'm': 'FM0', 'trext': False, 'trcal': 2 * tc.RTCAL})
        for _ in range(draw(st.integers(1, 16))):
            k = draw(st.integers(0, 11))
            ops.append(
                {'op': 'rep', 'session': 'cur'} if k < 2 else
                {'op': 'ack', 'rn': 0} if k == 2 else
                {'op': 'adjust', 'updn': draw(st.sampled_from([-1, 1])),
                 'session': draw(st.sampled_from(['cur'] * 4 +
                                                 tc.SESSIONS))})
    return {'seed': draw(st.integers(0, 2 ** 32 - 1)), 'ops': ops,
            'tags': draw(st.integers(1, 3))}


def heard_body(c, ctx):
    """Each tag has the Q and the count of the adjustments it received."""
    tc.seed(c['seed'])
    limit = set()

    def body(sim):
        stats = sim.context.statistics
        tags = [(tc.make_tag(sim, {}, i), tc.TagModel({}))
                for i in range(c['tags'])]
        low, high = [0] * len(tags), [0] * len(tags)
        for tag, m in tags:
            tag.setup(0.0)
            tc.step(m, tag, {'op': 'power', 'level': 0.0}, 0.0)
        for o in c['ops']:
            for i, (tag, m) in enumerate(tags):
                if o['op'] == 'adjust' and m.state in ('ARBITRATE', 'REPLY') \
                        and o['session'] in ('cur', m.session):
                    inside = 0 <= m.q + o['updn'] <= 15
                    low[i] += inside    # one out of the range may not count
                    high[i] += 1
                    limit.add(inside)
                tc.step(m, tag, o, 0.0)
            for i, (tag, m) in enumerate(tags):
                n = stats.get_tag_record(tag).num_qadjust_attained
                req(low[i] <= n <= high[i], 'tag %d received %r adjustments, '
                    '%r are counted', i, (low[i], high[i]), n)
    tc.in_sim(body)
    ctx.nt(True in limit)
    ctx.label('a limit of Q' if False in limit else 'inside the range')


PROPERTY = Property(
    'C21',
    'Whole runs, with real tags and with scripted numbers of answers; the Q '
    'of every command, the adjusting commands and the Q of every tag are '
    'compared with a reference of the adjustment.  Non-trivial: Q is '
    'adjusted, and (real tags) tags were in a round.',
    [Part('heard', heard_strategy, heard_body, 600, shards=2),
     Part('script', lambda: mostly(rs.script_strategy()), script_body,
          240, shards=4),
     Part('tags', lambda: mostly(rs.settings_strategy(power_stats=False)),
          body, 130, shards=4),
     Part('crowd', lambda: mostly(rs.crowd_strategy()), body, 20, 400,
          shards=4)],
    ['The step is below 1 and the initial floating Q is the initial Q.'])
