from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, close, eq, req
from . import rfid_common as rc

REL = 1e-9


def frame_strategy():
    return st.fixed_dictionaries({'link': rc.link(), 'command': rc.command()})


def frame_body(case, ctx):
    lk, c = case['link'], case['command']
    cmd = rc.build_command(c)
    query = c['kind'] == 'Query'
    expected = rc.ref_command_duration(lk, rc.ref_encode(c), query)
    kw = dict(tari=lk['tari'], rtcal=lk['rtcal'], trcal=lk['trcal'],
              delim=lk['delim'])
    sync = std.ReaderSync(tari=lk['tari'], rtcal=lk['rtcal'],
                          delim=lk['delim'])
    preamble = std.ReaderPreamble(**kw)
    close(sync.duration, lk['delim'] + lk['tari'] + lk['rtcal'], 'frame-sync',
          REL)
    close(preamble.duration, sync.duration + lk['trcal'], 'preamble', REL)
    head = preamble if query else sync
    frame = std.ReaderFrame(head, cmd)
    close(frame.duration, expected, f'duration of {c["kind"]}', REL)
    close(frame.duration, frame.preamble_duration + frame.body_duration,
          'preamble and body', REL)
    close(frame.preamble_duration, head.duration, 'preamble of the frame',
          REL)
    # the same bits given as text
    close(std.ReaderFrame(head, rc.ref_encode(c)).duration, expected,
          'duration of the bits', REL)
    close(std.reader_frame_duration(cmd, **kw), expected,
          f'reader_frame_duration of {c["kind"]}', REL)
    close(std.reader_frame_duration(rc.ref_encode(c), **kw), expected,
          'reader_frame_duration of the bits', REL)
    close(helper(c, lk), expected, f'helper for {c["kind"]}', REL)
    close(by_code(c, lk), expected, f'command_duration {c["kind"]}', REL)
    ctx.nt(True)
    ctx.label(c['kind'])


def helper(c, lk):
    k = c['kind']
    t = dict(tari=lk['tari'], rtcal=lk['rtcal'], delim=lk['delim'])
    if k == 'QueryAdjust':
        return std.query_adjust_duration(
            session=rc.SESSION[c['session']], updn=c['updn'], **t)
    t['trcal'] = lk['trcal']
    if k == 'Query':
        return std.query_duration(
            dr=rc.DR[c['dr']], m=rc.ENC[c['m']], trext=c['trext'],
            sel=rc.SEL[c['sel']], session=rc.SESSION[c['session']],
            target=rc.TARGET[c['target']], q=c['q'], crc=c['crc'], **t)
    if k == 'QueryRep':
        return std.query_rep_duration(session=rc.SESSION[c['session']], **t)
    if k == 'Ack':
        return std.ack_duration(rn=c['rn'], **t)
    if k == 'ReqRN':
        return std.reqrn_duration(rn=c['rn'], crc=c['crc'], **t)
    return std.read_duration(
        bank=rc.BANK[c['bank']], word_ptr=c['word_ptr'],
        word_count=c['word_count'], rn=c['rn'], crc=c['crc'], **t)


CODES = {'Query': std.CommandCode.QUERY, 'QueryRep': std.CommandCode.QUERY_REP,
         'Ack': std.CommandCode.ACK, 'ReqRN': std.CommandCode.REQ_RN,
         'Read': std.CommandCode.READ,
         'QueryAdjust': std.CommandCode.QUERY_ADJUST}


def by_code(c, lk):
    k = c['kind']
    t = dict(tari=lk['tari'], rtcal=lk['rtcal'], delim=lk['delim'],
             trcal=lk['trcal'])
    names = {'dr': rc.DR, 'm': rc.ENC, 'sel': rc.SEL, 'session': rc.SESSION,
             'target': rc.TARGET, 'bank': rc.BANK}
    for f, v in c.items():
        if f == 'kind':
            continue
        if f == 'crc':
            f = 'crc5' if k == 'Query' else 'crc16'
        t[f] = names[f][v] if f in names else v
    return std.command_duration(CODES[k], **t)


def tag_strategy():
    return st.fixed_dictionaries({
        'link': rc.link(),
        'n': st.one_of(st.integers(0, 3), st.integers(0, 128)),
        'kind': st.sampled_from(['rn', 'epc', 'handle', 'read'])})


def tag_body(case, ctx):
    lk, n, k = case['link'], case['n'], case['kind']
    n_bits = {'rn': 16, 'epc': 32 + 8 * n, 'handle': 32,
              'read': 33 + 16 * n}[k]
    reply = {'rn': lambda: std.QueryReply(n),
             'epc': lambda: std.AckReply('5A' * n),
             'handle': lambda: std.ReqRNReply(n),
             'read': lambda: std.ReadReply('0F' * (2 * n))}[k]()
    dr, enc = rc.DR[lk['dr']], rc.ENC[lk['m']]
    blf = rc.ref_blf(lk)
    m = rc.M_VALUE[lk['m']]
    expected = rc.ref_reply_duration(lk, n_bits)
    pre_bits = rc.ref_preamble_bits(lk['m'], lk['trext'])
    close(std.get_blf(dr, lk['trcal']), blf, 'BLF', REL)
    close(std.tag_bitrate(dr, lk['trcal'], enc), blf / m, 'bit rate', REL)
    preamble = std.create_tag_preamble(enc, lk['trext'])
    eq(preamble.bitlen, pre_bits, 'bits of the preamble')
    eq(preamble.encoding, enc, 'encoding of the preamble')
    eq(std.tag_preamble_bitlen(enc, lk['trext']), pre_bits,
       'tag_preamble_bitlen')
    close(preamble.get_duration(blf), pre_bits * m / blf, 'preamble', REL)
    close(std.tag_preamble_duration(blf, enc, lk['trext']),
          pre_bits * m / blf, 'tag_preamble_duration', REL)
    frame = std.TagFrame(preamble, reply)
    eq(reply.bitlen, n_bits, 'bits of the reply')
    eq(frame.bitlen, pre_bits + n_bits + 1, 'bits of the frame')
    close(frame.get_body_duration(blf), n_bits * m / blf, 'body', REL)
    close(frame.get_duration(blf), expected, 'frame', REL)
    close(std.tag_frame_duration(reply, blf, enc, lk['trext']), expected,
          'tag_frame_duration', REL)
    a = (dr, lk['trcal'], enc, lk['trext'])
    h, code = {
        'rn': (lambda: std.query_reply_duration(*a),
               std.ReplyType.QUERY_REPLY),
        'epc': (lambda: std.ack_reply_duration(*a, epc_bytelen=n),
                std.ReplyType.ACK_REPLY),
        'handle': (lambda: std.reqrn_reply_duration(*a),
                   std.ReplyType.REQRN_REPLY),
        'read': (lambda: std.read_reply_duration(*a, words_count=n),
                 std.ReplyType.READ_REPLY)}[k]
    close(h(), expected, f'duration helper, {k}', REL)
    close(std.reply_duration(code, *a, epc_bytelen=n, words_count=n),
          expected, f'reply_duration, {k}', REL)
    ctx.nt(n > 0 or k in ('rn', 'handle'))
    ctx.label(k, lk['m'], 'trext' if lk['trext'] else 'short')


def table_strategy():
    return st.fixed_dictionaries({
        'link': rc.link(), 'temp': rc.keys(rc.TEMP),
        'sel': rc.keys(rc.SEL), 'session': rc.keys(rc.SESSION),
        'target': rc.keys(rc.TARGET), 'q': st.integers(0, 15),
        'bank': rc.keys(rc.BANK), 'word_ptr': rc.word_ptrs,
        'word_count': st.integers(0, 255), 'rn': rc.rn16,
        'crc': st.integers(0, 31), 'epc': st.integers(1, 40),
        'mem': st.integers(0, 40)})


def table_body(c, ctx):
    lk = c['link']
    t = std.get_elementary_timings(
        tari=lk['tari'], rtcal=lk['rtcal'], trcal=lk['trcal'],
        delim=lk['delim'], temp=rc.TEMP[c['temp']], dr=rc.DR[lk['dr']],
        m=rc.ENC[lk['m']], trext=lk['trext'], sel=rc.SEL[c['sel']],
        session=rc.SESSION[c['session']], target=rc.TARGET[c['target']],
        q=c['q'], bank=rc.BANK[c['bank']], word_ptr=c['word_ptr'],
        word_count=c['word_count'], rn=c['rn'], crc=c['crc'],
        epc='5A' * c['epc'], mem='C3' * c['mem'])
    cmds = {
        'Query': dict(c, kind='Query', **{k: lk[k]
                                          for k in ('dr', 'm', 'trext')}),
        'QueryRep': dict(c, kind='QueryRep'), 'ACK': dict(c, kind='Ack'),
        'ReqRN': dict(c, kind='ReqRN'), 'Read': dict(c, kind='Read')}
    for name, cmd in cmds.items():
        close(t[name], rc.ref_command_duration(
            lk, rc.ref_encode(cmd), name == 'Query'), f'table: {name}', REL)
    for name, n in {'RN16': 16, 'Response': 32 + 8 * c['epc'], 'Handle': 32,
                    'Data': 33 + 8 * c['mem']}.items():
        close(t[name], rc.ref_reply_duration(lk, n), f'table: {name}', REL)
    for key, v in {'Tari': lk['tari'], 'RTcal': lk['rtcal'],
                   'TRcal': lk['trcal'], 'Delim': lk['delim'], 'Q': c['q'],
                   'TRext': lk['trext'], 'WordPtr': c['word_ptr'],
                   'WordCount': c['word_count'], 'DR': rc.DR[lk['dr']],
                   'M': rc.ENC[lk['m']], 'Target': rc.TARGET[c['target']],
                   'Session': rc.SESSION[c['session']],
                   'Sel': rc.SEL[c['sel']], 'Bank': rc.BANK[c['bank']],
                   'TempRange': rc.TEMP[c['temp']]}.items():
        eq(t[key], v, f'table: {key}')
    kw = dict(rtcal=lk['rtcal'], trcal=lk['trcal'], dr=rc.DR[lk['dr']],
              temp=rc.TEMP[c['temp']])
    for n in range(1, 8):
        close(t[f'T{n}(min)'], std.min_link_t(n, **kw), f'T{n}(min)', REL)
        close(t[f'T{n}(max)'], std.max_link_t(n, **kw), f'T{n}(max)', REL)
    # the printed table has the same numbers, in microseconds
    shown = {}
    for line in std.prettify_elementary_timings(t).splitlines():
        k, v = line.split(':', 1)
        shown[k.strip()] = v.strip()
    req(set(shown) == set(t), 'printed table: %r', sorted(set(shown) ^ set(t)))
    for k, v in shown.items():
        if v.endswith(' us'):
            close(float(v[:-3]), t[k] * 1e6, f'printed {k}', REL, 1e-8)
        else:
            eq(v, str(t[k]), f'printed {k}')
    ctx.nt(True)
    ctx.label(lk['m'], c['temp'])


LINK = {'tari': 'tari', 'rtcal': 'rtcal', 'trcal': 'trcal', 'delim': 'delim',
        'dr': 'divide_ratio', 'm': 'tag_encoding', 'trext': 'trext'}


def default_strategy():
    """Leave a random subset of the parameters to their defaults, which are
    the standard ones or changed for the case."""
    return st.fixed_dictionaries({
        'link': rc.link(), 'given': st.sets(st.sampled_from(
            sorted(LINK))).map(sorted), 'command': rc.command(),
        'defaults': st.one_of(st.none(), rc.link()),
        'n': st.integers(0, 40), 'epc': st.integers(0, 40),
        'words': st.booleans()})


def default_body(case, ctx):
    d = case['defaults']
    changed = {} if d is None else {
        LINK[k]: rc.field_value(k, v) for k, v in d.items()}
    if d is not None:
        changed['read_default_word_count'] = case['n']
        changed['default_epc'] = '5A' * case['epc']
    with rc.defaults(**changed):
        check_defaults(case, ctx)
    if d is not None:
        check_defaults(case, ctx)


def check_defaults(case, ctx):
    d = std.stdParams
    lk = dict(case['link'])
    kw = {}
    for n in LINK:
        if n in case['given']:
            kw[n] = rc.field_value(n, lk[n])
            continue
        v = getattr(d, LINK[n])
        lk[n] = next(k for k, x in rc.SET[n].items() if x is v) \
            if n in rc.SET else v
    c = case['command']
    cmd = rc.build_command(c)
    reader = {k: v for k, v in kw.items()
              if k in ('tari', 'rtcal', 'trcal', 'delim')}
    expected = rc.ref_command_duration(lk, rc.ref_encode(c),
                                       c['kind'] == 'Query')
    close(std.reader_frame_duration(cmd, **reader), expected,
          'with defaults', REL)
    blf = rc.ref_blf(lk)
    pick = lambda *names: {k: kw[k] for k in names if k in kw}  # noqa: E731
    close(std.get_blf(**pick('dr', 'trcal')), blf, 'BLF with defaults', REL)
    tag = pick('m', 'trext')
    if 'm' in tag:
        tag['encoding'] = tag.pop('m')
    n = rc.ref_preamble_bits(lk['m'], lk['trext'])
    mv = rc.M_VALUE[lk['m']]
    eq(std.tag_preamble_bitlen(**tag), n, 'preamble bits with defaults')
    with_blf = dict(tag)
    if 'dr' in kw or 'trcal' in kw:
        with_blf['blf'] = blf
    close(std.tag_preamble_duration(**with_blf), n * mv / blf,
          'preamble with defaults', REL)
    close(std.tag_frame_duration(std.QueryReply(5), **with_blf),
          (n + 17) * mv / blf, 'frame with defaults', REL)
    tag.update(pick('dr', 'trcal'))
    epc, words = ((case['epc'], case['n']) if case['words'] else
                  (len(d.default_epc) // 2, d.read_default_word_count))
    e = {'epc_bytelen': epc} if case['words'] else {}
    w = {'words_count': words} if case['words'] else {}
    for name, got, bits in [
            ('RN16', std.query_reply_duration(**tag), 16),
            ('handle', std.reqrn_reply_duration(**tag), 32),
            ('EPC', std.ack_reply_duration(**tag, **e), 32 + 8 * epc),
            ('data', std.read_reply_duration(**tag, **w), 33 + 16 * words),
            ('reply: EPC', std.reply_duration(
                std.ReplyType.ACK_REPLY, **tag, **e), 32 + 8 * epc),
            ('reply: data', std.reply_duration(
                std.ReplyType.READ_REPLY, **tag, **w), 33 + 16 * words)]:
        close(got, (n + bits + 1) * mv / blf, f'{name} with defaults', REL)
    ctx.nt(0 < len(case['given']) < len(LINK))
    ctx.label('defaults changed' if case['defaults'] else 'as they are')


def miller_strategy():
    return st.tuples(st.lists(st.sampled_from([2, 4, 8]), min_size=1,
                              max_size=5), st.booleans(),
                     st.floats(4e4, 7e5), st.integers(0, 30)).map(list)


def miller_body(case, ctx):
    """A preamble whose encoding and extension are changed."""
    ms, trext, blf, n = case
    p = std.MillerPreamble(ms[0], trext)
    frame = std.TagFrame(p, std.AckReply('00' * n))
    for i, m in enumerate(ms):
        p.m = m
        p.extended = ext = trext ^ bool(i & 1)
        bits = 22 if ext else 10
        eq((p.m, p.encoding, p.bitlen), (m, rc.ENC[f'M{m}'], bits),
           'preamble')
        close(p.get_duration(blf), bits * m / blf, 'preamble', REL)
        eq(frame.bitlen, bits + 33 + 8 * n, 'bits of the frame')
        close(frame.get_duration(blf), (bits + 33 + 8 * n) * m / blf,
              'frame', REL)
    ctx.nt(len(set(ms)) > 1)


@st.composite
def one_strategy(draw):
    kind = draw(st.sampled_from(['Query', 'QueryRep', 'QueryAdjust', 'Ack',
                                 'ReqRN', 'Read']))
    return {'link': draw(rc.link()), 'link2': draw(rc.link()),
            'near': draw(st.floats(.97, 1.03)),
            'a': draw(rc.command(kinds=(kind,))),
            'b': draw(rc.command(kinds=(kind,))),
            'tag': draw(tag_strategy()), 'n': draw(st.integers(0, 128))}


def one_body(c, ctx):
    """Nothing but one parameter differs from one question to the next."""
    lk, two = c['link'], dict(c['link2'])
    # a few percent, so that the lengths stay in order
    two['tari'] = lk['tari'] * c['near']
    two['rtcal'] = lk['rtcal'] * c['near']
    for k in sorted(lk):
        one = dict(lk, **{k: two[k]})
        for link in (lk, one):
            frame_body({'link': link, 'command': c['a']}, ctx)
            tag_body(dict(c['tag'], link=link), ctx)
    for k in sorted(c['a']):
        frame_body({'link': lk, 'command': dict(c['a'], **{k: c['b'][k]})},
                   ctx)
    for n in (c['tag']['n'], c['n']):
        tag_body(dict(c['tag'], link=lk, n=n), ctx)
    ctx.nt(c['a'] != c['b'])


PROPERTY = Property(
    'C15',
    'Link parameters over the ranges of the standard with every command and '
    'reply; durations against a PIE and tag-frame reference, through objects '
    'and through helpers.  Non-trivial: a reply with data, some but not all '
    'parameters left to defaults; all other cases.',
    [
        Part('command', *rc.under(frame_strategy, frame_body), 3000, shards=3),
        Part('reply', *rc.under(tag_strategy, tag_body), 2000, shards=2),
        Part('one', one_strategy, one_body, 400, shards=1),
        Part('table', *rc.under(table_strategy, table_body), 1500, shards=2),
        Part('defaults', default_strategy, default_body, 1500, shards=2),
        Part('miller', *rc.under(miller_strategy, miller_body), 500, shards=1),
    ],
    ['Durations are compared to a relative precision of 1e-9.'])
