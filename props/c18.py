from hypothesis import strategies as st

from harness.core import Part, Property, eq, req
from . import rfid_common as rc
from . import tag_common as tc

AWAY = [0.0, 0.2, 0.49, 0.51, 1.0, 1.5, 1.99, 2.01, 3.0, 5.0]


@st.composite
def strategy(draw):
    """Inventory the tag in some session (its flag turns), switch it off and
    on with some pause."""
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(['turn', 'turn', 'off', 'power']))
        if k == 'turn':
            steps.append({'do': 'turn', 'session': draw(st.sampled_from(
                tc.SESSIONS)), 'by': draw(st.sampled_from(
                    ['rep', 'adjust', 'query'])),
                'secured': draw(st.booleans())})
        elif k == 'off':
            steps.append({'do': 'off', 'on': draw(st.floats(0, 3)),
                          'pause': draw(st.one_of(
                              st.sampled_from(AWAY), st.floats(0, 6))),
                          'level': draw(st.sampled_from([None, -100.0]))})
        else:
            steps.append({'do': 'power', 'dt': draw(st.floats(0, 4)),
                          'rel': draw(st.sampled_from(
                              [-3.0, -1e-6, 0.0, 1e-6, 3.0, None]))})
    return {'settings': {
        'sensitivity': draw(st.sampled_from([-18.0, -11.0, 0.0])),
        's1_persistence': draw(st.sampled_from([0.0, 0.5, 2.0, 2.0])),
        's2_persistence': draw(st.sampled_from([0.0, 1.0, 2.0, 3.5])),
        's3_persistence': draw(st.sampled_from([0.0, 0.25, 2.0, 4.0]))},
        'steps': steps, 'seed': draw(st.integers(0, 2 ** 32 - 1))}


def body(case, ctx):
    tc.seed(case['seed'])
    sens = case['settings']['sensitivity']
    turned = set()

    def run(sim):
        tag = tc.make_tag(sim, case['settings'])
        m = tc.TagModel(case['settings'])
        tag.setup(0.0)
        now = 0.0

        def power(level, time):
            tc.step(m, tag, {'op': 'power', 'level': level}, time)

        power(sens + 5, now)
        for s in case['steps']:
            if s['do'] == 'power':
                now = tc.settle(m, now + s['dt'])
                power(None if s['rel'] is None else sens + s['rel'], now)
            elif s['do'] == 'off':
                now += s['on']
                if m.state != 'OFF':
                    power(s['level'], now)
                now += s['pause']
                now = tc.settle(m, now)
                power(sens + 1, now)
            else:
                if m.state == 'OFF':
                    continue
                ses = s['session']
                q = {'op': 'query', 'session': ses, 'target': 'cur',
                     'sel': 'ALL', 'q': 0, 'dr': '8', 'm': 'M2',
                     'trext': False, 'trcal': tc.RTCAL * 2}
                if m.state in ('ACKNOWLEDGED', 'SECURED'):
                    tc.step(m, tag, {'op': 'rep', 'session': 'cur'}, now)
                before = m.flags[ses]
                tc.step(m, tag, q, now)
                eq(m.state, 'REPLY', 'state of a tag asked with its flag')
                tc.step(m, tag, {'op': 'ack', 'rn': 0}, now)
                if s['secured']:
                    tc.step(m, tag, {'op': 'reqrn', 'rn': 0}, now)
                if s['by'] == 'query':
                    tc.step(m, tag, dict(q, target=before), now)
                else:
                    tc.step(m, tag, {'op': s['by'], 'session': ses,
                                     'updn': 0}, now)
                req(m.flags[ses] != before, 'flag %s was not inverted', ses)
                turned.add(ses)
        return m
    tc.in_sim(run)
    ctx.nt(bool(turned) and any(s['do'] == 'off' for s in case['steps']))
    ctx.label(*(sorted(turned) or ['none']))


def value_strategy():
    return st.tuples(st.sampled_from(tc.SESSIONS), st.floats(0, 10),
                     st.floats(0, 10), st.sampled_from(['A', 'B', None])
                     ).map(list)


def value_body(case, ctx):
    """The rule itself, at any interval and persistence."""
    s, interval, persistence, stored = case
    flag = None if stored is None else rc.TARGET[stored]
    got = rc.SESSION[s].power_on_value(interval, persistence, flag)
    want = 'A' if s == 'S0' or stored is None or interval > persistence \
        else stored
    if interval == persistence:
        return
    eq(got, rc.TARGET[want], f'{s}: {stored} after {interval} s without '
       f'power, kept for {persistence} s')
    for f in 'AB':
        eq(rc.TARGET[f].invert(), rc.TARGET['BA'['AB'.index(f)]],
           f'inverted {f}')
    for name, sl, want in [('ALL', False, True), ('ALL', True, True),
                           ('SL', True, True), ('SL', False, False),
                           ('~SL', True, False), ('~SL', False, True)]:
        eq(bool(rc.SEL[name].match(sl)), want, f'Sel {name} for SL={sl}')
    ctx.nt(stored == 'B')
    ctx.label(s)


PROPERTY = Property(
    'C18',
    'Tags are inventoried in random sessions, lose and regain power after '
    'pauses around the persistence times, and get power around their '
    'sensitivity.  Non-trivial: a flag was turned and the power was lost '
    '(programs); flag B was stored (rule).',
    [
        Part('program', strategy, body, 3000, shards=5),
        Part('rule', value_strategy, value_body, 600, shards=1),
    ],
    ['A pause equal to the persistence time is not covered.'])
