from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, eq, req
from . import rfid_common as rc


def encode_body(c, ctx):
    cmd = rc.build_command(c)
    expected = rc.ref_encode(c)
    eq(cmd.encode(), expected, f'bits of {c["kind"]}')
    eq(cmd.bitlen, len(expected), 'bitlen')
    eq(cmd.encode(), expected, 'bits, encoded again')
    req(str(cmd), 'no text')
    ctx.nt(c['kind'] in ('Query', 'Read') or any(
        c.get(k) not in (None, 0, 'S0') for k in c if k != 'kind'))
    ctx.label(c['kind'])


def pair_strategy():
    return st.tuples(rc.command(), rc.command()).map(list)


def pair_body(case, ctx):
    """Different commands have different bits."""
    a, b = case
    ea, eb = (rc.build_command(c).encode() for c in case)
    eq(ea == eb, a == b, f'same bits for {a} and {b}')
    # no command is the beginning of another one
    if a['kind'] != b['kind']:
        req(not ea.startswith(eb) and not eb.startswith(ea),
            '%r is a prefix of %r', *sorted([ea, eb], key=len))
    ctx.nt(a['kind'] == b['kind'])
    ctx.label('same kind' if a['kind'] == b['kind'] else 'different kinds')


def near_strategy():
    @st.composite
    def near(draw):
        a = draw(rc.command())
        other = draw(rc.command((a['kind'],)))
        key = draw(st.sampled_from([k for k in sorted(a) if k != 'kind']))
        b = dict(a)
        b[key] = other[key]
        return [a, b]
    return near()


def edit_strategy():
    """A command, then the same object with other values in its fields."""
    @st.composite
    def edit(draw):
        a = draw(rc.command())
        steps = []
        for _ in range(draw(st.integers(1, 4))):
            other = draw(rc.command((a['kind'],)))
            steps.append({k: other[k] for k in draw(st.sets(
                st.sampled_from(rc.FIELDS[a['kind']]), min_size=1).map(
                    sorted))})
        return [a, steps]
    return edit()


def edit_body(case, ctx):
    c, steps = dict(case[0]), case[1]
    cmd = rc.build_command(c)
    changed = False
    for step in [{}] + steps:
        before = rc.ref_encode(c)
        for k, v in step.items():
            setattr(cmd, k, rc.field_value(k, v))
            c[k] = v
        expected = rc.ref_encode(c)
        changed = changed or expected != before
        eq(cmd.bitlen, len(expected), f'bitlen after {step}')
        eq(cmd.encode(), expected, f'bits after {step}')
    ctx.nt(changed)
    ctx.label(c['kind'])


def omit_strategy():
    """Some of the fields left to the system-wide defaults."""
    @st.composite
    def omit(draw):
        c = draw(rc.command())
        d = draw(rc.command((c['kind'],)))
        names = [f for f in rc.FIELDS[c['kind']] if f != 'updn']
        return {'given': c, 'defaults': d,
                'omit': draw(st.sets(st.sampled_from(names)).map(sorted)),
                'none': draw(st.booleans()), 'twice': draw(st.booleans())}
    return omit()


def omit_body(case, ctx):
    c, d, omit = dict(case['given']), case['defaults'], case['omit']
    kind = c['kind']
    changed = {rc.default_name(kind, f): rc.field_value(f, d[f])
               for f in rc.FIELDS[kind] if f != 'updn'}
    kw = {f: rc.field_value(f, c[f]) for f in rc.FIELDS[kind]
          if f not in omit}
    full = dict(kw)
    if case['none'] or kind == 'Ack':
        full.update({f: None for f in omit})
    for f in omit:
        c[f] = d[f]
    with rc.defaults(**changed):
        cmd = rc.CLASSES[kind](**full)
        eq(cmd.encode(), rc.ref_encode(c), f'bits of {kind}, {omit} omitted')
    if case['twice']:       # and with the defaults as they were
        for f in omit:
            v = getattr(std.stdParams, rc.default_name(kind, f))
            c[f] = next(k for k, x in rc.SET[f].items() if x is v) \
                if f in rc.SET else v
        eq(rc.CLASSES[kind](**full).encode(), rc.ref_encode(c),
           f'bits of {kind} with the original defaults')
    ctx.nt(bool(omit))
    ctx.label(kind)


def ints_strategy():
    return st.tuples(st.one_of(st.integers(0, 2 ** 40),
                               st.integers(0, 40).map(lambda n: 2 ** n),
                               st.integers(1, 40).map(lambda n: 2 ** n - 1)),
                     st.integers(1, 24)).map(list)


def ints_body(case, ctx):
    v, n = case
    eq(std.encode_ebv(v), rc.ref_ebv(v), f'EBV of {v}')
    e = std.encode_ebv(v)
    groups = [e[i:i + 8] for i in range(0, len(e), 8)]
    eq([g[0] for g in groups], ['1'] * (len(groups) - 1) + ['0'],
       'extension bits')
    eq(int(''.join(g[1:] for g in groups), 2), v, 'EBV decoded')
    eq(std.encode_int(v, n), rc.bits(v % 2 ** n, n), f'{v} in {n} bits')
    eq(std.encode_word(v), rc.bits(v % 65536, 16), 'word')
    eq(std.encode_byte(v), rc.bits(v % 256, 8), 'byte')
    ctx.nt(v >= 128)
    ctx.label(f'blocks={len(groups)}')


def replies_strategy():
    return st.fixed_dictionaries({
        'data': st.lists(st.integers(0, 255), max_size=70),
        'form': st.sampled_from(['hex', 'HEX', 'list', 'tuple', 'bytes',
                                 'iterator']),
        'rn': rc.rn16, 'crc': rc.rn16, 'pc': rc.rn16})


def as_form(data, form):
    return {'hex': lambda: bytes(data).hex(),
            'HEX': lambda: bytes(data).hex().upper(),
            'list': lambda: list(data), 'tuple': lambda: tuple(data),
            'bytes': lambda: bytes(data),
            'iterator': lambda: iter(data)}[form]()


def replies_body(c, ctx):
    data = c['data']
    eq(list(std.to_bytes(as_form(data, c['form']))), data, 'to_bytes')
    ack = std.AckReply(as_form(data, c['form']), pc=c['pc'], crc=c['crc'])
    eq(list(ack.epc), data, 'EPC')
    eq(ack.bitlen, 32 + 8 * len(data), 'bits of the reply to ACK')
    eq((ack.pc, ack.crc), (c['pc'], c['crc']), 'PC and CRC')
    eq(ack.get_epc_string(), bytes(data).hex().upper(), 'EPC text')
    eq(ack.get_epc_string('-'), '-'.join('%02X' % b for b in data),
       'EPC text with a separator')
    rd = std.ReadReply(as_form(data, c['form']), rn=c['rn'], crc=c['crc'])
    eq(list(rd.memory), data, 'memory')
    eq(rd.bitlen, 33 + 8 * len(data), 'bits of the reply to Read')
    eq((rd.rn, rd.crc), (c['rn'], c['crc']), 'RN and CRC')
    eq(rd.get_memory_string(), bytes(data).hex().upper(), 'memory text')
    q = std.QueryReply(c['rn'])
    eq((q.rn, q.bitlen), (c['rn'], 16), 'RN16 reply')
    h = std.ReqRNReply(c['rn'], c['crc'])
    eq((h.rn, h.crc, h.bitlen), (c['rn'], c['crc'], 32), 'handle reply')
    eq([r.reply_type for r in (q, ack, h, rd)],
       [std.ReplyType.QUERY_REPLY, std.ReplyType.ACK_REPLY,
        std.ReplyType.REQRN_REPLY, std.ReplyType.READ_REPLY], 'reply types')
    # a reply keeps what it was given, whatever becomes of the argument
    for make, get in ((std.AckReply, lambda r: r.epc),
                      (std.ReadReply, lambda r: r.memory)):
        source = list(data)
        r = make(source)
        n = r.bitlen
        source.append(1)
        source[0] ^= 255
        eq((list(get(r)), r.bitlen), (data, n),
           'the reply, its argument changed afterwards')
    ctx.nt(len(data) > 1)
    ctx.label(c['form'])


def bad_strategy():
    bad = st.one_of(st.integers(256, 10 ** 6), st.integers(-10 ** 6, -1),
                    st.just('x'), st.just(None), st.just(1.5))
    return st.one_of(
        st.tuples(st.lists(st.integers(0, 255), max_size=6), bad,
                  st.lists(st.integers(0, 255), max_size=6)).map(
            lambda t: t[0] + [t[1]] + t[2]),
        st.integers(), st.just(None),
        st.sampled_from(['0', 'ABC', 'xy', '1G']))


def illegal_strategy():
    n = st.one_of(st.integers(-20, 20), st.integers())
    return st.one_of(
        st.tuples(st.just('m'), n.filter(lambda v: v not in (1, 2, 4, 8))),
        st.tuples(st.just('miller'), n.filter(lambda v: v not in (2, 4, 8))),
        st.tuples(st.just('updn'), n.filter(lambda v: v not in (-1, 0, 1)))
    ).map(list)


def illegal_body(case, ctx):
    """Values that have no code are rejected and change nothing."""
    what, v = case
    p = None
    try:
        if what == 'm':
            r = std.TagEncoding.get(v)
        elif what == 'updn':
            cmd = std.QueryAdjust(std.Session.S2)
            cmd.updn = v
            r = cmd.encode()
        else:
            p = std.MillerPreamble(4)
            p.m = v
            r = p.encoding
    except ValueError:
        if p is not None:
            eq((p.m, p.encoding), (4, std.TagEncoding.M4), 'the preamble')
            try:
                std.MillerPreamble(v)
            except ValueError:
                pass
            else:
                req(False, 'a Miller preamble with M = %d', v)
        ctx.nt(True)
        ctx.label(what)
        return
    req(False, '%s = %r gave %s', what, v, r)


def bad_body(case, ctx):
    try:
        r = std.to_bytes(case)
    except ValueError:
        ctx.nt(True)
        ctx.label(type(case).__name__)
        return
    req(False, 'to_bytes(%r) gave %r instead of ValueError', case, r)


PROPERTY = Property(
    'C14',
    'Every command with every combination of its fields, against a bit-level '
    'reference written from the standard; replies with arbitrary contents; '
    'illegal byte data; fields changed after encoding; fields left to '
    'defaults that change; values without a code.  Non-trivial: a command with a field that is not its '
    'default, two commands of one kind, an EBV of several blocks, more than '
    'one byte of data.',
    [
        Part('encode', *rc.under(rc.command, encode_body), 4000, shards=3),
        Part('near', *rc.under(near_strategy, pair_body), 1500, shards=1),
        Part('pairs', *rc.under(pair_strategy, pair_body), 1500, shards=1),
        Part('ints', ints_strategy, ints_body, 1500, shards=1),
        Part('replies', *rc.under(replies_strategy, replies_body), 1000, shards=1),
        Part('edit', *rc.under(edit_strategy, edit_body), 2000, shards=1),
        Part('omit', omit_strategy, omit_body, 2000, shards=1),
        Part('illegal', illegal_strategy, illegal_body, 500, shards=1),
        Part('bad', bad_strategy, bad_body, 500, shards=1),
    ])
