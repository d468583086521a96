"""Timing of transactions."""
import numpy as np

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, eq, req
from . import rfid_common as rc
from . import rfid_sim as rs

EPS = 1e-9


def durations(c, cmd):
    """(duration of the transaction, time of the replies or None)"""
    lk = rs.link_of(c)
    query = isinstance(cmd.command, std.Query)
    d = rc.ref_command_duration(lk, cmd.command.encode(), query)
    kw = dict(rtcal=lk['rtcal'], trcal=lk['trcal'], dr=rc.DR[c['dr']],
              temp=rc.TEMP[c['temp']])
    t1 = rc.ref_t1(lk, c['temp']) or (std.link_t1_min(**kw),
                                      std.link_t1_max(**kw))
    if not cmd.replies:
        return d + t1[1], None
    reply = max(rc.ref_reply_duration(
        rs.link_of_tag(c, t.tag_id - 100) if c.get('links') else lk,
        r.reply.bitlen) for t, r in cmd.replies)
    t2 = 20 * rc.pri(lk)
    return max(d + t1[0] + reply + t2, d + 2 * lk['rtcal']), d + t1[0]


def near(a, b):
    return abs(a - b) <= EPS * (1 + abs(b))


def check_timing(c, tr):
    """Commands follow one another at the time the protocol says, unless the
    reader is turned off; -> numbers of commands with 0, 1, more replies."""
    kinds = [0, 0, 0]
    end = tr.stats.sim_time
    cuts = dict()
    for t, n in tr.cut:
        cuts[n] = t
    eq(len(cuts), len(tr.cut), 'a reader turned off without commands between')
    for i, cmd in enumerate(tr.commands):
        kinds[min(2, len(cmd.replies))] += 1
        d, _ = durations(c, cmd)
        done = cmd.time + d
        what = f'{type(cmd.command).__name__} at {cmd.time!r} with ' \
               f'{len(cmd.replies)} replies'
        if i + 1 in cuts:
            t_off = cuts[i + 1]
            req(t_off <= done + EPS, 'the transaction of %s should have '
                'finished at %r, but the next event of the reader is '
                'turning off at %r', what, done, t_off)
            req(not cmd.delivered or abs(cmd.delivered[0][0] - t_off) < EPS,
                'a reply to %s was delivered', what)
        elif i + 1 < len(tr.commands):
            nxt = tr.commands[i + 1]
            req(near(nxt.time, done), 'the command after %s comes at %r, '
                'expected %r', what, nxt.time, done)
        else:
            req(end <= done + EPS, 'no command after %s (ended at %r)', what,
                end)
        for t, _ in cmd.delivered:
            req(near(t, done), 'the reply to %s was delivered at %r, '
                'expected %r', what, t, done)
    return kinds


def check_power_cycle(c, tr):
    end = tr.stats.sim_time
    if not c['switch_power']:
        eq(tr.off, [], 'times a reader that is always on was turned off')
        req(all(t == 0.0 for t in tr.on), 'turned on at %r', tr.on)
        return
    # the first turning on comes before the listeners or at time 0
    on = [t for t in tr.on if t > 0]
    t = 0.0
    for i in range(max(len(on), len(tr.off)) + 1):
        t_off = t + c['on']
        if i < len(tr.off):
            req(near(tr.off[i], t_off), 'turned off at %r, expected %r',
                tr.off[i], t_off)
        else:
            req(t_off >= end - EPS, 'not turned off at %r (ended at %r)',
                t_off, end)
            break
        t = t_off + c['off']
        if i < len(on):
            req(near(on[i], t), 'turned on at %r, expected %r', on[i], t)
        else:
            req(t >= end - EPS, 'not turned on at %r (ended at %r)', t, end)
            break
    on = [0.0] + on
    for cmd in tr.commands:
        k = max(i for i, x in enumerate(on) if x <= cmd.time + EPS)
        req(k >= len(tr.off) or cmd.time <= tr.off[k] + EPS,
            'a command at %r, while the reader is off since %r', cmd.time,
            tr.off[k] if k < len(tr.off) else None)
    starts = {min((x.time for x in tr.commands if x.time >= t - EPS),
                  default=None) for t in on}
    for t in on:
        req(t >= end - EPS or any(s is not None and near(s, t)
                                  for s in starts),
            'no command when turned on at %r', t)


def sim_body(c, ctx):
    tr = rs.run(c)
    kinds = check_timing(c, tr)
    check_power_cycle(c, tr)
    if c['power_stats']:
        check_power_times(c, tr)
    ctx.nt(kinds[1] > 3)
    ctx.label('power statistics' if c['power_stats'] else 'no statistics',
              'collisions' if kinds[2] else 'no collisions',
              'cut' if tr.cut else 'not cut')


def check_power_times(c, tr):
    """Powers are sampled when the reader is turned on or off, at every
    update interval, when a tag appears and when replies start."""
    end = tr.stats.sim_time
    times = list(tr.off) + [t for t in tr.on]
    k = 1
    t = c['update']
    while t <= end + EPS:
        times.append(t)
        t += c['update']
        k += 1
    cuts = {n: t for t, n in tr.cut}
    for i, cmd in enumerate(tr.commands):
        d, start = durations(c, cmd)
        if start is not None:
            t = cmd.time + start
            if i + 1 in cuts and t >= cuts[i + 1] - EPS:
                continue
            times.append(t)
    times = np.array(sorted(times))
    gone = {tag.tag_id: t for t, tag in tr.gone}
    for rec in tr.model.statistics.tags_history:
        tag = rec.tag
        born = next(t for t, x in tr.born if x is tag)
        died = gone[tag.tag_id]
        got = np.array([p.time for p in rec.power_mapping])
        req(len(got) and near(got[0], born), 'no power record at the birth '
            'of tag %r (%r)', tag.tag_id, born)
        got = got[(got > born + 1e-7) & (got < died - 1e-7)]
        want = times[(times > born + 1e-7) & (times < died - 1e-7)]
        if len(got) != len(want) or (
                len(got) and np.max(np.abs(got - want)) > 1e-7):
            n = min(len(got), len(want))
            bad = next((i for i in range(n)
                        if abs(got[i] - want[i]) > 1e-7), n)
            req(False, 'power records of tag %r: %d instead of %d; number %d '
                'is at %r, expected %r', tag.tag_id, len(got), len(want),
                bad, got[bad] if bad < len(got) else None,
                want[bad] if bad < len(want) else None)


def script_body(c, ctx):
    tr = rs.run_script(c)
    kinds = check_timing(c, tr)
    check_power_cycle(c, tr)
    ctx.nt(kinds[1] + kinds[2] >= 3)
    ctx.label(*[n for n, k in zip(['empty', 'single', 'collision'], kinds)
                if k])


PROPERTY = Property(
    'C25',
    'Whole simulations with random link, population and power cycle, and '
    'readers whose slots are answered by a script.  The time of every '
    'command, delivery, power sample and power switch is recomputed.  '
    'Non-trivial: more than three single replies (simulation), at least '
    'three answered commands (script).',
    [
        Part('simulation', rs.settings_strategy, sim_body, 110,
             thorough=3000, shards=8),
        Part('crowd', rs.crowd_strategy, sim_body, 20, thorough=400,
             shards=4),
        Part('script', lambda: rs.script_strategy(links=True), script_body, 300, thorough=8000,
             shards=4),
    ],
    ['Times are compared to 1e-9 s; power samples closer than 1e-7 s to the '
     'birth or the death of a tag are not checked.',
     'The tolerance of T1 near the borders of its table is taken from the '
     'code (see C16).'])
