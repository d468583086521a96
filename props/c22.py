import cmath
import math

import numpy as np
from hypothesis import strategies as st
from scipy import integrate

import pysim.models.rfid.channel as chan
from harness.core import (Part, Property, close, eq, one_at_a_time,
                          req)


def vec(v):
    return np.array(v, dtype=float)


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


# --- rays ------------------------------------------------------------------
def number(lo, hi):
    return st.one_of(st.floats(lo, hi), st.integers(math.ceil(lo),
                                                    math.floor(hi)).map(float))


@st.composite
def geometry(draw):
    def pos():
        return [draw(number(.2, 30)), draw(number(-40, 40)),
                draw(number(-20, 20))]

    def direction():
        v = draw(st.one_of(
            st.sampled_from([[0, 0, 1], [0, 0, -1], [0, 1, 0], [0, -1, 0],
                             [1, 0, 0], [-1, 0, 0]]),
            st.lists(st.integers(-9, 9), min_size=3, max_size=3)))
        return unit(v) if any(v) else [0.0, 0.0, 1.0]
    tx, rx = pos(), pos()
    if sum((a - b) ** 2 for a, b in zip(tx, rx)) < .25:
        rx[2] += 3.0
    return {
        'tx': tx, 'rx': rx, 'tx_dir': direction(), 'rx_dir': direction(),
        'face': draw(st.booleans()),
        'tx_vel': [0.0, draw(number(-40, 40)), draw(number(-5, 5))],
        'rx_vel': [0.0, draw(number(-40, 40)), draw(number(-5, 5))],
        'time': draw(st.one_of(st.just(0.0), st.floats(0, 3))),
        'wavelen': draw(st.sampled_from([.3486, .125, .7, .3276])),
        'eps': draw(number(1.5, 30)), 'sigma': draw(number(0, 2)),
        'pol': draw(st.one_of(st.sampled_from([0.0, .5, 1.0]),
                              st.floats(0, 1))),
        'r': [draw(st.floats(-1, 1)), draw(st.floats(-1, 1))],
        'shift': [draw(number(-30, 30)), draw(number(-30, 30))],
    }


def setup(c):
    c = dict(c)
    if c['face']:           # antennas look at each other, more or less
        d = unit([b - a for a, b in zip(c['tx'], c['rx'])])
        c['tx_dir'] = unit([x + .3 * y for x, y in zip(d, c['tx_dir'])])
        c['rx_dir'] = unit([-x + .3 * y for x, y in zip(d, c['rx_dir'])])
    return c


def dipole(cos):
    if cos <= 1e-9:
        return 0.0
    cos = min(cos, 1.0)
    s = math.sqrt(1 - cos * cos)
    return abs(math.sin(math.pi / 2 * cos * cos / (1 + s)) / cos)


def fresnel(cos, pol, eps, sigma, wavelen):
    eta = eps - 60j * wavelen * sigma
    s = math.sqrt(max(0.0, 1 - cos * cos))
    root = cmath.sqrt(eta - cos * cos)
    par = (s - root) / (s + root)
    per = (s - root / eta) / (s + root / eta)
    return pol * par + (1 - pol) * per


def two_rays(c, coefficient, time=None):
    """Complex amplitude: the direct ray and the one from the wall x = 0."""
    tx, rx = c['tx'], c['rx']
    image = [-rx[0], rx[1], rx[2]]
    k = 2 * math.pi / c['wavelen']
    time = c['time'] if time is None else time
    vel = [b - a for a, b in zip(c['tx_vel'], c['rx_vel'])]
    total, parts = 0.0, []
    for n, point in enumerate((rx, image)):
        path = [b - a for a, b in zip(tx, point)]
        d = math.sqrt(dot(path, path))
        u = [x / d for x in path]
        # the direction in which the ray comes to the receiver, reversed
        back = [-x for x in u] if n == 0 else [u[0], -u[1], -u[2]]
        g = dipole(dot(u, c['tx_dir'])) * dipole(dot(back, c['rx_dir']))
        r = 1.0 if n == 0 else coefficient(abs(u[0]))
        a = r * g / d
        parts.append(abs(a))
        total += a * cmath.exp(-1j * k * (d - time * dot(u, vel)))
    return total / (2 * k), sum(parts) / (2 * k), parts


def call(c, reflection, swap=False, **kw):
    a, b = ('rx', 'tx') if swap else ('tx', 'rx')
    d = dict(time=c['time'], ground_reflection=reflection,
             wavelen=c['wavelen'], tx_pos=vec(c[a]),
             tx_dir_theta=vec(c[a + '_dir']), tx_dir_phi=vec([1, 0, 0]),
             tx_velocity=vec(c[a + '_vel']), tx_rp=chan.rp_dipole,
             rx_pos=vec(c[b]), rx_dir_theta=vec(c[b + '_dir']),
             rx_dir_phi=vec([1, 0, 0]), rx_velocity=vec(c[b + '_vel']),
             rx_rp=chan.rp_dipole, polarization=c['pol'],
             conductivity=c['sigma'], permittivity=c['eps'])
    d.update(kw)
    return chan.two_ray_pathloss(**d)


def near(a, b, scale, what):
    req(abs(a - b) <= 1e-6 * scale + 1e-13,
        '%s: %r, expected %r', what, a, b)


def rays_body(case, ctx):
    c = setup(case)
    fixed = complex(*c['r'])
    lit = 0
    for name, refl, coef in (
            ('given coefficient', lambda **kw: fixed, lambda cos: fixed),
            ('constant', chan.reflection_constant, lambda cos: -1.0),
            ('wall', chan.reflection, lambda cos: fresnel(
                cos, c['pol'], c['eps'], c['sigma'], c['wavelen']))):
        want, bound, parts = two_rays(c, coef)
        lit += all(parts)
        got = complex(call(c, refl))
        # the pattern loses digits next to its zero
        wide = bound + .2 / (2 * math.pi / c['wavelen']) / math.dist(
            c['tx'], c['rx'])
        near(got, want, wide, f'amplitude, {name}')
        req(abs(got) <= bound + 1e-6 * wide + 1e-13,
            'amplitude %r above the sum of rays %r', abs(got), bound)
        power = abs(got) ** 2
        close(float(call(c, refl, crutch=True)), power, 'power', 1e-6, 1e-18)
        log = float(call(c, refl, log=True))
        if power > 1.0001e-15:
            close(log, 10 * math.log10(power), 'path gain, dB', 0, 1e-6)
        elif power < .9999e-15:
            eq(log, -math.inf, 'path gain of no signal')
        # the same link, moved along the wall, mirrored, or reversed
        dy, dz = c['shift']
        moved = dict(c, tx=[c['tx'][0], c['tx'][1] + dy, c['tx'][2] + dz],
                     rx=[c['rx'][0], c['rx'][1] + dy, c['rx'][2] + dz])
        scale = wide * 1e3
        near(complex(call(moved, refl)), got, scale, f'moved, {name}')
        for axis in (1, 2):
            m = {k: [-x if i == axis else x for i, x in enumerate(c[k])]
                 for k in ('tx', 'rx', 'tx_dir', 'rx_dir', 'tx_vel',
                           'rx_vel')}
            near(complex(call(dict(c, **m), refl)), got, scale,
                 f'mirrored, {name}')
        still = dict(c, time=0.0)
        a, b = complex(call(still, refl)), complex(call(still, refl, True))
        near(b, a, scale, f'reversed, {name}')
    ctx.nt(lit > 0)
    ctx.label('both rays' if lit else 'a ray is not seen')


def apart(c):
    return math.dist(c['tx'], c['rx']) >= .5


def friis_strategy():
    return st.fixed_dictionaries({
        'd': st.floats(.3, 300), 'x': number(.2, 30),
        'wavelen': st.floats(.05, 2)})


def friis_body(case, ctx):
    c = {'tx': [case['x'], 0.0, case['d']], 'rx': [case['x'], 0.0, 0.0],
         'tx_dir': [0, 0, -1], 'rx_dir': [0, 0, 1], 'tx_vel': [0, 0, 0],
         'rx_vel': [0, 0, 0], 'time': 0.0, 'wavelen': case['wavelen'],
         'pol': .5, 'eps': 15.0, 'sigma': .03}
    want = 20 * math.log10(case['wavelen'] / (4 * math.pi * case['d']))
    close(float(call(c, lambda **kw: 0.0, log=True)), want,
          'free space path gain', 0, 1e-6)
    # a wall that reflects nothing
    if 4 * case['x'] ** 2 > 1e-3 * case['d'] ** 2:
        close(float(call(dict(c, eps=1.0, sigma=0.0), chan.reflection,
                         log=True)), want, 'path gain without a contrast',
              0, 1e-3)
    ctx.nt(True)


# --- reflection and patterns ----------------------------------------------
def reflection_strategy():
    return st.fixed_dictionaries({
        'cos': st.one_of(st.floats(-1, 1), st.sampled_from(
            [0.0, 1.0, -1.0, .5])),
        'pol': st.one_of(st.sampled_from([0.0, .5, 1.0, 0, 1]),
                         st.floats(0, 1)),
        'eps': st.floats(1.01, 80), 'sigma': st.floats(0, 1e4),
        'wavelen': st.floats(.05, 2)})


def reflection_body(c, ctx):
    kw = dict(polarization=c['pol'], permittivity=c['eps'],
              conductivity=c['sigma'], wavelen=c['wavelen'])
    got = complex(chan.reflection(cosine=c['cos'], **kw))
    want = fresnel(c['cos'], c['pol'], c['eps'], c['sigma'], c['wavelen'])
    near(got, want, 1.0, 'reflection')
    req(abs(got) <= 1 + 1e-9, '|r| = %r', abs(got))
    near(complex(chan.reflection(cosine=-c['cos'], **kw)), got, 1.0, '-cos')
    over = math.copysign(1 + 2e-16, c['cos'])
    near(complex(chan.reflection(cosine=over, **kw)),
         fresnel(1.0, c['pol'], c['eps'], c['sigma'], c['wavelen']), 1.0,
         'cosine rounded above one')
    eq(complex(chan.reflection_constant(cosine=c['cos'], **kw)), -1,
       'constant reflection')
    ctx.nt(c['cos'] not in (0, 1, -1))


def pattern_strategy():
    return st.fixed_dictionaries({
        'cos': st.one_of(st.floats(-1, 1), st.floats(1e-5, 1),
                         st.sampled_from([0.0, 1.0, -1.0, .5])),
        'tilt': st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 1.0])),
        'wavelen': st.sampled_from([.3, .125]),
        'width': st.floats(.01, .5), 'length': st.floats(.01, .5)})


def pattern_body(c, ctx):
    cos, t = c['cos'], c['tilt']
    got = float(chan.rp_dipole(azimuth=cos))
    close(got, dipole(cos), f'dipole at cosine {cos}', 1e-6, 1e-7)
    req(0 <= got <= 1 + 1e-12, 'dipole %r', got)
    eq(float(chan.rp_isotropic(azimuth=cos)), 1.0, 'isotropic')
    patch = float(chan.rp_patch(a_cos=cos, t_cos=t, wavelen=c['wavelen'],
                                width=c['width'], length=c['length']))
    want = 0.0
    if cos >= 1e-9:
        a, ts = math.sqrt(1 - cos * cos), math.sqrt(1 - t * t)
        x = math.pi / c['wavelen'] * c['width'] * a * ts
        y = math.pi / c['wavelen'] * c['length'] * a * t
        want = abs((math.sin(x) / x if x else 1) * math.cos(y)) * \
            math.sqrt(t * t + cos * cos * ts * ts)
    close(patch, want, 'patch', 1e-6, 1e-6)
    ctx.nt(0 < cos < 1)


# --- power, SNR, BER --------------------------------------------------------
def ber_strategy():
    return st.fixed_dictionaries({
        'snr': st.one_of(st.floats(1e-6, 50), st.floats(-60, 90).map(
            lambda x: 10 ** (x / 10))),
        'weak': st.floats(-200, -20).map(lambda x: 10 ** (x / 10)),
        'factor': st.floats(1.0, 100),
        'power': st.floats(-120, 40), 'noise': st.floats(-120, 0),
        'm': st.sampled_from([1, 2, 4, 8]),
        'symbol': st.floats(1e-6, 3e-5), 'preamble': st.floats(1e-6, 1e-3),
        'bandwidth': st.sampled_from([1.2e6, 6e5])})


def awgn(s):
    q = math.erfc(math.sqrt(s / 2)) / 2
    return 2 * q * (1 - q)


def ber_body(c, ctx):
    s = c['snr']
    ray, gauss = float(chan.ber(s)), float(chan.ber(s, 'awgn'))
    close(gauss, awgn(s), 'BER', 1e-6, 1e-12)
    # a fading channel: the average over exponentially distributed SNR
    cut = min(60.0, 80 / s) if s < 1e6 else None
    if cut is not None:
        mean = integrate.quad(lambda x: awgn(s * x) * math.exp(-x), 0,
                              min(1.0, cut), limit=200)[0]
        if cut > 1:
            mean += integrate.quad(lambda x: awgn(s * x) * math.exp(-x),
                                   1.0, cut, limit=200)[0]
        close(ray, mean, f'average BER for SNR {s}', 1e-4, 1e-7)
    eq(float(chan.ber(s, 'rayleigh')), ray, 'the default distribution')
    for d in ('rayleigh', 'awgn'):
        x, y = float(chan.ber(s, d)), float(chan.ber(s * c['factor'], d))
        req(-1e-12 <= x <= .5, 'BER %r', x)
        req(y <= x + 1e-12, 'BER grows with SNR: %r, %r', x, y)
        eq(float(chan.ber(0.0, d)), .5, 'BER without a signal')
    diff = c['power'] - c['noise']
    close(float(chan.snr(c['power'], c['noise'])), 10 ** (diff / 10), 'SNR')
    full = float(chan.snr_full(
        snr=s, miller=c['m'], symbol=c['symbol'], preamble=c['preamble'],
        bandwidth=c['bandwidth']))
    ang = (s * c['preamble'] * c['bandwidth']) ** -.5
    top = c['m'] * s * c['symbol'] * c['bandwidth']
    close(full, top * math.cos(ang) ** 2, 'SNR of a symbol', 1e-9,
          top * 1e-9)
    for weak in (0.0, c['weak']):
        v = float(chan.snr_full(
            snr=weak, miller=c['m'], symbol=c['symbol'],
            preamble=c['preamble'], bandwidth=c['bandwidth']))
        req(0 <= v <= c['m'] * weak * c['symbol'] * c['bandwidth'] *
            (1 + 1e-9), 'SNR of a symbol: %r with SNR %r', v, weak)
    for dbm in (False, True):
        v = float(chan.from_log(c['power'], dbm=dbm))
        close(v, 10 ** ((c['power'] - 30 * dbm) / 10), 'from decibels')
        if v > 1e-15:
            close(float(chan.to_log(v, dbm=dbm)), c['power'], 'decibels',
                  1e-9, 1e-9)
        close(float(chan.to_power(complex(3 * v, -4 * v), log=False)),
              25 * v * v, 'power')
    eq(float(chan.to_log(0.0)), -math.inf, 'decibels of nothing')
    ctx.nt(1e-3 < ray < .499)


PROPERTY = Property(
    'C22',
    'Positions, antenna directions, velocities along the wall, materials: '
    'the two-ray amplitude against an independent computation, its '
    'symmetries and bounds; the Fresnel coefficient, antenna patterns, SNR '
    'and BER against references.  Non-trivial: both rays are seen by both '
    'antennas; a cosine strictly inside its range; BER not near 0 and 0.5.',
    [Part('rays', geometry, rays_body, 800, shards=4),
     Part('friis', friis_strategy, friis_body, 500, shards=1),
     Part('reflection', reflection_strategy, reflection_body, 1500,
          shards=1),
     Part('patterns', pattern_strategy, pattern_body, 1500, shards=1),
     Part('ber', ber_strategy, ber_body, 800, shards=2),
     Part('one-rays', *one_at_a_time(geometry, rays_body, apart), 25, 600,
          shards=1),
     Part('one-reflection',
          *one_at_a_time(reflection_strategy, reflection_body), 200, 4000,
          shards=1),
     Part('one-patterns', *one_at_a_time(pattern_strategy, pattern_body),
          200, 4000, shards=1),
     Part('one-ber', *one_at_a_time(ber_strategy, ber_body), 60, 1200,
          shards=1)],
    ['The wall is the plane x = 0 and nothing moves across it (as in the '
     'model); a material is given, and the coefficient is compared up to the '
     'sign of the cosine.'])
