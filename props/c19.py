import random

from hypothesis import strategies as st

import pysim.models.rfid.epcstd as std
from harness.core import Part, Property, eq, req
from . import rfid_common as rc
from . import tag_common as tc


def strategy():
    mem = tc.hexs(70)
    return st.fixed_dictionaries({
        'epc': mem, 'tid': st.one_of(mem, mem, st.none()),
        'user': st.one_of(mem, mem, st.none()),
        'seed': st.integers(0, 2 ** 32 - 1), 'trext': st.booleans(),
        'm': rc.keys(rc.ENC),
        'reads': st.lists(st.fixed_dictionaries({
            'bank': rc.keys(rc.BANK), 'ptr': st.integers(0, 80),
            'count': st.integers(1, 80), 'rn': st.sampled_from([0, 0, 0, 1])
        }), min_size=1, max_size=8)})


def body(c, ctx):
    tc.seed(c['seed'])
    data = {'EPC': c['epc'], 'TID': c['tid'], 'USER': c['user'],
            'RESERVED': None}
    seen = set()

    def run(sim):
        tag = tc.make_tag(sim, c)
        tag.setup(0.0)
        tag.set_power(0.0, 0.0)

        def ask(cmd):
            return tag.receive(tc.reader_frame(cmd))

        rn = ask(std.Query(q=0, m=rc.ENC[c['m']], trext=c['trext'])).reply.rn
        # not before the tag is secured
        for r in c['reads'][:1]:
            req(ask(read(r, rn)) is None, 'Read answered in reply state')
        ack = ask(std.Ack(rn))
        eq(ack.reply.get_epc_string(), c['epc'], 'EPC')
        eq(ack.bitlen, rc.ref_preamble_bits(c['m'], c['trext']) + 33 +
           4 * len(c['epc']), 'bits of the reply to ACK')
        for r in c['reads'][:1]:
            req(ask(read(r, rn)) is None, 'Read answered when acknowledged')
        handle = ask(std.ReqRN(rn)).reply.rn
        for r in c['reads']:
            frame = ask(read(r, handle))
            content = data[r['bank']]
            if content is None or r['rn']:
                req(frame is None, 'Read of %s with a %s handle answered',
                    r['bank'], 'wrong' if r['rn'] else 'right')
                continue
            req(frame is not None, 'Read of %s is not answered', r['bank'])
            words = [content[i:i + 4] for i in range(0, len(content), 4)]
            want = words[r['ptr']:r['ptr'] + r['count']]
            eq(frame.reply.get_memory_string(), ''.join(want),
               f'words {r["ptr"]}..{r["ptr"] + r["count"] - 1} of '
               f'{r["bank"]}')
            eq(frame.reply.bitlen, 33 + 16 * len(want), 'bits of the reply')
            eq(frame.reply.rn, handle, 'handle in the reply')
            eq(tag.state.name, 'SECURED', 'state after Read')
            seen.add('part' if want and want != words else
                     'all' if want else 'nothing')
            if r['ptr'] and want:
                seen.add('with an offset')
        eq((tag.epc, tag.tid, tag.user_mem), (c['epc'], c['tid'], c['user']),
           'memory after the reads')

    def read(r, rn):
        return std.Read(rc.BANK[r['bank']], r['ptr'], r['count'],
                        rn=rn ^ r['rn'])
    tc.in_sim(run)
    ctx.nt('part' in seen)
    ctx.label(*(sorted(seen) or ['no data']))


@st.composite
def large_strategy(draw):
    """Memory of hundreds of words, read beyond the first byte of a pointer."""
    sizes = [draw(st.one_of(st.integers(100, 900),
                            st.sampled_from([127, 128, 129, 255, 256, 257])))
             for _ in range(3)]
    place = st.one_of(st.integers(0, 1000), st.sampled_from(
        [127, 128, 129, 255, 256, 257, 383, 384, 511, 512, 16383, 16384]))
    return {'sizes': sizes, 'seed': draw(st.integers(0, 2 ** 32 - 1)),
            'trext': False, 'm': draw(rc.keys(rc.ENC)),
            'reads': draw(st.lists(st.fixed_dictionaries({
                'bank': st.sampled_from(['EPC', 'TID', 'USER']),
                'ptr': place, 'rn': st.just(0),
                'count': st.one_of(st.integers(1, 255), st.sampled_from(
                    [127, 128, 129, 254, 255]))}), min_size=2, max_size=8))}


def large_body(c, ctx):
    rng = random.Random(c['seed'])
    body(dict(c, **{k: rng.randbytes(2 * n).hex().upper()
                    for k, n in zip(('epc', 'tid', 'user'), c['sizes'])}),
         ctx)


PROPERTY = Property(
    'C19',
    'A secured tag with random memory is read at random places.  '
    'Non-trivial: a read returned some, but not all, words of a bank.',
    [Part('read', strategy, body, 2500, shards=6),
     Part('large', large_strategy, large_body, 600, shards=2)])
