from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, close, eq, req
from . import rfid_common as rc

REL = 1e-9


@st.composite
def timing_strategy(draw):
    lk = draw(rc.link())
    temp = draw(rc.keys(rc.TEMP))
    mode = draw(st.integers(0, 3))
    if mode == 0:       # TRcal on a point of the table
        us = draw(st.sampled_from(sorted(rc.FRT_POINTS[lk['dr'], temp])))
        lk['trcal'] = us * 1e-6
    elif mode == 1:     # anywhere in the table
        lk['trcal'] = draw(st.floats(17.2, 225)) * 1e-6
    return {'link': lk, 'temp': temp}


def args(c):
    lk = c['link']
    return dict(rtcal=lk['rtcal'], trcal=lk['trcal'], dr=rc.DR[lk['dr']],
                temp=rc.TEMP[c['temp']])


def timing_body(c, ctx):
    lk, temp = c['link'], c['temp']
    kw = args(c)
    dr = kw['dr']
    pri = rc.pri(lk)
    close(std.get_pri(lk['trcal'], dr), pri, 'Tpri', REL)
    frt = rc.ref_frt(lk['trcal'], lk['dr'], temp)
    got_frt = std.get_frt(trcal=lk['trcal'], dr=dr, temp_range=kw['temp'])
    req(0 < got_frt <= .22, 'FrT is %r', got_frt)
    if frt is not None:
        close(got_frt, frt, f'FrT at TRcal={lk["trcal"]}', REL)
    else:
        frt = got_frt
    nominal = max(lk['rtcal'], 10 * pri)
    t1 = nominal * (1 - frt) - 2e-6, nominal * (1 + frt) + 2e-6
    ref = {1: t1, 2: (3 * pri, 20 * pri), 3: (0.0, float('inf')),
           4: (2 * lk['rtcal'], float('inf')), 5: (t1[0], .02),
           6: (t1[0], .02), 7: (max(20 * pri, 250e-6), .02)}
    everything = std.link_t(**kw)
    eq(len(everything), 7, 'number of timings')
    for n in range(1, 8):
        lo, hi = std.min_link_t(n, **kw), std.max_link_t(n, **kw)
        close(lo, ref[n][0], f'min T{n}', REL)
        close(hi, ref[n][1], f'max T{n}', REL)
        req(0 <= lo < hi, 'T%d: [%r, %r]', n, lo, hi)
        eq(tuple(std.link_t(n, **kw)), (lo, hi), f'link_t({n})')
        eq(tuple(everything[n - 1]), (lo, hi), f'link_t()[{n - 1}]')
    eq(std.min_link_t(None, **kw), [std.min_link_t(n, **kw)
                                    for n in range(1, 8)], 'all minima')
    eq(std.max_link_t(None, **kw), [std.max_link_t(n, **kw)
                                    for n in range(1, 8)], 'all maxima')
    t2 = dict(trcal=lk['trcal'], dr=dr)
    for name, got, want in [
            ('t1_min', std.link_t1_min(**kw), ref[1][0]),
            ('t1_max', std.link_t1_max(**kw), ref[1][1]),
            ('t2_min', std.link_t2_min(**t2), ref[2][0]),
            ('t2_max', std.link_t2_max(**t2), ref[2][1]),
            ('t3', std.link_t3(), 0.0),
            ('t4', std.link_t4(lk['rtcal']), ref[4][0]),
            ('t5_min', std.link_t5_min(**kw), ref[5][0]),
            ('t5_max', std.link_t5_max(), .02),
            ('t6_min', std.link_t6_min(**kw), ref[6][0]),
            ('t6_max', std.link_t6_max(), .02),
            ('t7_min', std.link_t7_min(**t2), ref[7][0]),
            ('t7_max', std.link_t7_max(), .02)]:
        close(got, want, f'link_{name}', REL)
    for n in (0, 8, -1):
        for fn in (std.min_link_t, std.max_link_t, std.link_t):
            try:
                fn(n, **kw)
            except ValueError:
                continue
            req(False, 'T%d exists', n)
    ctx.nt(rc.ref_frt(lk['trcal'], lk['dr'], temp) is not None)
    ctx.label(lk['dr'], temp, 'RTcal rules' if lk['rtcal'] > 10 * pri
              else 'Tpri rules')


op = st.fixed_dictionaries({
    'bank': rc.keys(rc.BANK), 'word_ptr': st.integers(0, 200),
    'word_count': st.integers(1, 64)})


def slot_strategy():
    return st.fixed_dictionaries({
        'link': rc.link(), 'temp': rc.keys(rc.TEMP),
        'sel': rc.keys(rc.SEL), 'session': rc.keys(rc.SESSION),
        'target': rc.keys(rc.TARGET), 'q': st.integers(0, 15),
        'rn': rc.rn16, 'crc5': st.integers(0, 31), 'crc16': rc.rn16,
        'epc': st.integers(1, 62), 'is_first': st.booleans(),
        'ops': st.lists(op, max_size=4),
        # operations repeated: the same object again
        'again': st.lists(st.integers(0, 3), max_size=3)})


def operations(c):
    """The operations of a slot and their descriptions."""
    ops = []
    for o in c['ops']:
        x = std.TagReadOp()
        x.bank, x.word_ptr, x.word_count = (rc.BANK[o['bank']],
                                            o['word_ptr'], o['word_count'])
        ops.append(x)
    about = list(c['ops'])
    for i in c.get('again', ()) if ops else ():
        about.append(about[i % len(c['ops'])])
        ops.append(ops[i % len(c['ops'])])
    return ops, about


def slot_body(c, ctx):
    lk = c['link']
    dr = rc.DR[lk['dr']]
    t1 = std.link_t1_min(**args(c)), std.link_t1_max(**args(c))
    t2 = 3 * rc.pri(lk)
    t4 = 2 * lk['rtcal']
    ops, about = operations(c)

    def cmd(**kw):
        return rc.ref_command_duration(lk, rc.ref_encode(kw),
                                       kw['kind'] == 'Query')

    first = cmd(kind='Query', dr=lk['dr'], m=lk['m'], trext=lk['trext'],
                sel=c['sel'], session=c['session'], target=c['target'],
                q=c['q'], crc=c['crc5']) if c['is_first'] else \
        cmd(kind='QueryRep', session=c['session'])
    rep = lambda n: rc.ref_reply_duration(lk, n)    # noqa: E731
    ref = {'EMPTY': first + max(t1[1], t4)}
    ref['COLLISION'] = first + max(t1[0] + rep(16) + t2, t4)
    ref['INVENTORY'] = ref['COLLISION'] + cmd(kind='Ack', rn=c['rn']) + max(
        t1[0] + rep(32 + 8 * c['epc']) + t2, t4)
    ref['ACCESS'] = ref['INVENTORY'] + sum(
        cmd(kind='Read', rn=c['rn'], crc=c['crc16'], **o) +
        max(t1[0] + rep(33 + 16 * o['word_count']) + t2, t4)
        for o in about)
    common = dict(access_ops=ops, tari=lk['tari'], rtcal=lk['rtcal'],
                  trcal=lk['trcal'], delim=lk['delim'], dr=dr,
                  temp=rc.TEMP[c['temp']], epc=c['epc'],
                  is_first=c['is_first'])
    for name, want in ref.items():
        kind = std.SlotType[name]
        full = dict(m=rc.ENC[lk['m']], trext=lk['trext'],
                    sel=rc.SEL[c['sel']], session=rc.SESSION[c['session']],
                    target=rc.TARGET[c['target']], q=c['q'], crc5=c['crc5'],
                    crc16=c['crc16'], **common)
        got = std.slot_duration(kind, rn=c['rn'], **full)
        close(got, want, f'{name} slot', REL)
        lo = std.slot_duration_min(kind, **common)
        hi = std.slot_duration_max(kind, **common)
        eps = 1e-12
        req(lo <= got * (1 + eps) and got <= hi * (1 + eps),
            '%s slot: %r is not in [%r, %r]', name, got, lo, hi)
        any_rn = std.slot_duration(kind, **full)
        req(lo <= any_rn * (1 + eps) and any_rn <= hi * (1 + eps),
            '%s slot, random RN: %r is not in [%r, %r]', name, any_rn, lo, hi)
    no_ops = dict(full, access_ops=None)
    close(std.slot_duration(std.SlotType.ACCESS, rn=c['rn'], **no_ops),
          ref['INVENTORY'], 'ACCESS slot without operations', REL)
    ctx.nt(bool(ops))
    ctx.label(f'ops={len(ops)}', 'first' if c['is_first'] else 'next')


NAMES = {'tari': 'tari', 'rtcal': 'rtcal', 'trcal': 'trcal', 'delim': 'delim',
         'dr': 'divide_ratio', 'temp': 'temp_range', 'm': 'tag_encoding',
         'trext': 'trext', 'sel': 'sel', 'session': 'session',
         'target': 'target', 'q': 'Q', 'crc5': 'default_crc5',
         'crc16': 'default_crc16'}


def omit_strategy():
    return st.fixed_dictionaries({
        'given': slot_strategy(), 'defaults': slot_strategy(),
        'omit': st.sets(st.sampled_from(sorted(NAMES))).map(sorted),
        'slot': st.sampled_from([t.name for t in std.SlotType])})


def flat(c):
    lk = c['link']
    v = dict(tari=lk['tari'], rtcal=lk['rtcal'], trcal=lk['trcal'],
             delim=lk['delim'], dr=rc.DR[lk['dr']], m=rc.ENC[lk['m']],
             trext=lk['trext'], temp=rc.TEMP[c['temp']],
             q=c['q'], crc5=c['crc5'], crc16=c['crc16'])
    v.update((k, rc.field_value(k, c[k]))
             for k in ('sel', 'session', 'target'))
    return v


def omit_body(case, ctx):
    """A parameter left out is the system-wide default of that moment."""
    given, d = flat(case['given']), flat(case['defaults'])
    omit = case['omit']
    c = case['given']
    full = dict(given, **{k: d[k] for k in omit})
    part = {k: v for k, v in given.items() if k not in omit}
    ops = operations(c)[0]
    link = lambda a: {k: v for k, v in a.items()     # noqa: E731
                      if k in ('rtcal', 'trcal', 'dr', 'temp')}
    slot = dict(slot_type=std.SlotType[case['slot']], rn=c['rn'],
                epc=c['epc'], access_ops=ops, is_first=c['is_first'])
    table = lambda a: std.get_elementary_timings(     # noqa: E731
        crc=3, **{k: v for k, v in a.items() if k not in ('crc5', 'crc16')})
    want = [std.link_t(**link(full)), std.slot_duration(**slot, **full),
            table(full)]
    with rc.defaults(**{NAMES[k]: d[k] for k in NAMES}):
        for n, t in enumerate(want[0], 1):
            eq(std.link_t(n, **link(part)), t, f'T{n}, {omit} omitted')
        close(std.slot_duration(**slot, **part), want[1],
              f'{case["slot"]} slot, {omit} omitted', REL)
        got = table(part)
        eq({k: v for k, v in got.items() if v != want[2][k]}, {},
           f'table, {omit} omitted')
    ctx.nt(bool(omit))
    ctx.label(case['slot'])


@st.composite
def one_strategy(draw):
    return {'a': draw(slot_strategy()), 'b': draw(slot_strategy()),
            'near': draw(st.floats(.97, 1.03))}


def one_body(case, ctx):
    """Nothing but one parameter differs from one question to the next."""
    a, b = case['a'], case['b']
    lk, two = a['link'], dict(b['link'])
    two['tari'] = lk['tari'] * case['near']
    two['rtcal'] = lk['rtcal'] * case['near']
    two['trcal'] *= lk['rtcal'] / b['link']['rtcal']
    changed = [dict(a, **{k: b[k]}) for k in sorted(a) if k != 'link']
    changed += [dict(a, link=dict(lk, **{k: two[k]})) for k in sorted(lk)]
    for c in changed:
        for x in (a, c):
            timing_body(x, ctx)
            slot_body(x, ctx)
    ctx.nt(a['ops'] != b['ops'])


PROPERTY = Property(
    'C16',
    'Link parameters over the ranges of the standard, TRcal also on the '
    'points of the frequency-tolerance table.  Non-trivial: TRcal further '
    'than 1.1% from the borders of the table, or exactly on its points '
    '(timings); at least one access operation (slots); a parameter left to '
    'its default (omit).',
    [
        Part('timings', *rc.under(timing_strategy, timing_body), 4000, shards=4),
        Part('slots', *rc.under(slot_strategy, slot_body), 1500, shards=4),
        Part('one', one_strategy, one_body, 60, 1200, shards=1),
        Part('omit', omit_strategy, omit_body, 1200, shards=2),
    ],
    ['Within 1.1% of a border of the frequency-tolerance table (except at '
     'its points) the tolerance is taken from the code.'])
