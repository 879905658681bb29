"""P01: tracking follows the longitudinal equations of motion."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils.tomo_config import AppConfig
from vt import gen
from vt.api import Sub, call, close, need, same

RULE = ('generated per-turn voltages, phases, drift coefficients and '
        'accelerations, particle set, profile count, turns per profile and '
        'start profile; non-trivial: at least one tracked turn')


def expect(c, a, scalar):
    ph12 = c['phi12'] if scalar else a['phi12']
    q = c['q']
    return gen.model_track(a['dphi'], a['denergy'], a['vrf1'] * q,
                           a['vrf2'] * q, a['phi0'], a['deltaE0'],
                           a['drift_coef'], ph12, c['hratio'], c['dturns'],
                           c['rec'], c['nprof'])


def compare(xp, yp, X, Y, c, what, rel=1e-9):
    es = np.max(np.abs(Y)) + c['V'] * abs(c['q'])
    ps = np.max(np.abs(X)) + 1
    close(xp, X, what + ': phase at the profiles', rtol=0, atol=rel * ps)
    close(yp, Y, what + ': energy at the profiles', rtol=0, atol=rel * es)


def label(c):
    return (f'rec {"first" if c["rec"] == 0 else "last" if c["rec"] == c["nprof"] - 1 else "inner"}'
            f', {"1 profile" if c["nprof"] == 1 else "profiles"}')


def done(c):
    return c['nprof'] > 1, label(c)


def run_array(c):
    a = gen.track_arrays(c)
    X, Y = expect(c, a, False)
    xp = np.zeros((c['nprof'], c['nparts']))
    yp = np.zeros_like(xp)
    r = call(libtomo.kick_and_drift, xp, yp, a['denergy'].copy(),
             a['dphi'].copy(), a['vrf1'] * c['q'], a['vrf2'] * c['q'],
             a['phi0'], a['deltaE0'], a['drift_coef'], a['phi12'],
             c['hratio'], c['dturns'], c['rec'], 0, a['nturns'], c['nparts'])
    compare(r[0], r[1], X, Y, c, 'native tracking')
    return done(c)


def run_long(c):
    """Many turns: each stretch between profiles, from the recorded state
    (rounding errors grow without bound over thousands of turns)."""
    a = gen.track_arrays(c)
    n, d, q = c['nprof'], c['dturns'], c['q']
    m = gen.stub_machine(c, a, a['phi12'].copy())
    xp, yp = call(Tracking(m).track, c['rec'], (a['dphi'], a['denergy']))
    same(xp[c['rec']], a['dphi'], 'phases at the start profile')
    same(yp[c['rec']], a['denergy'], 'energies at the start profile')
    for k in range(n - 1):
        s = slice(k * d, (k + 1) * d + 1)
        fwd = k >= c['rec']
        j = k if fwd else k + 1
        X, Y = gen.model_track(
            xp[j], yp[j], a['vrf1'][s] * q, a['vrf2'][s] * q, a['phi0'][s],
            a['deltaE0'][s], a['drift_coef'][s], a['phi12'][s], c['hratio'],
            d, 0 if fwd else 1, 2)
        compare(xp[k:k + 2], yp[k:k + 2], X, Y, c,
                f'profiles {k} to {k + 1} of {n}')
    return done(c)


def run_scalar(c):
    a = gen.track_arrays(c)
    X, Y = expect(c, a, True)
    q = c['q']
    way = c['way']
    xp = np.zeros((c['nprof'], c['nparts']))
    yp = np.zeros_like(xp)
    base = (xp, yp, a['denergy'].copy(), a['dphi'].copy(), a['vrf1'] * q,
            a['vrf2'] * q)
    args = (a['phi0'], a['deltaE0'], a['drift_coef'], c['phi12'], c['hratio'],
            c['dturns'])
    if way == 'scalar':
        r = call(libtomo.kick_and_drift, *base, *args, c['rec'], 0,
                 a['nturns'], c['nparts'])
    elif way == 'machine':
        m = gen.stub_machine(c, a)
        r = call(libtomo.kick_and_drift, *base, m, c['rec'], 0, a['nturns'],
                 c['nparts'])
    elif way == 'wrapper-machine':
        m = gen.stub_machine(c, a)
        r = call(tomolib_wrappers.kick_and_drift, *base, c['rec'],
                 a['nturns'], c['nparts'], machine=m)
    else:
        r = call(tomolib_wrappers.kick_and_drift, *base, c['rec'],
                 a['nturns'], c['nparts'], phi0=a['phi0'],
                 deltaE0=a['deltaE0'], omega_rev0=np.ones(3),
                 drift_coef=a['drift_coef'], phi12=c['phi12'],
                 h_ratio=c['hratio'], dturns=c['dturns'])
    compare(r[0], r[1], X, Y, c, way)
    nt, lab = done(c)
    return nt, way + ', ' + lab


def run_track(c):
    a = gen.track_arrays(c)
    scalar = c['scalar']
    X, Y = expect(c, a, scalar)
    m = gen.stub_machine(c, a, c['phi12'] if scalar else a['phi12'].copy())
    t = call(Tracking, m)
    d0, e0 = a['dphi'].copy(), a['denergy'].copy()
    rec = c['rec'] - c['nprof'] if c['neg'] else c['rec']
    seen = []
    cb = (lambda i, n: seen.append((i, n))) if c['cb'] else None
    xp, yp = call(t.track, rec, (d0, e0), callback=cb)
    compare(xp, yp, X, Y, c, 'Tracking.track')
    same(xp[c['rec']], a['dphi'], 'start profile holds the given phases')
    same(yp[c['rec']], a['denergy'], 'start profile holds the given energies')
    same(d0, a['dphi'], "caller's phases unchanged")
    same(e0, a['denergy'], "caller's energies unchanged")
    same(t.init_dphi, a['dphi'], 'init_dphi')
    same(t.init_denergy, a['denergy'], 'init_denergy')
    if c['cb']:
        n = a['nturns']
        need(seen == [(i, n) for i in range(1, n + 1)],
             f'callback: expected one call per turn 1..{n}, got {seen[:8]}...')
    nt, lab = done(c)
    return nt, f'{"scalar" if scalar else "array"} phi12, {lab}'


def run_hybrid(c):
    a = gen.track_arrays(c)
    X, Y = expect(c, a, True)
    m = gen.stub_machine(c, a)
    t = call(Tracking, m)
    xp, yp = call(t.kick_and_drift, a['denergy'].copy(), a['dphi'].copy(),
                  a['vrf1'] * c['q'], a['vrf2'] * c['q'], c['rec'])
    compare(xp, yp, X, Y, c, 'hybrid Tracking.kick_and_drift')
    return done(c)


def run_single(c):
    """Single precision: same map, single-precision rounding only."""
    a = gen.track_arrays(c)
    scalar = c['scalar']
    m = gen.stub_machine(c, a, c['phi12'] if scalar else
                         a['phi12'].astype(np.float32))
    AppConfig.set_single_precision()
    try:
        t = call(Tracking, m)
        xp, yp = call(t.track, c['rec'], (a['dphi'], a['denergy']))
    finally:
        AppConfig.set_double_precision()
    need(xp.dtype == np.float32 and yp.dtype == np.float32,
         f'single precision asked for, got {xp.dtype}, {yp.dtype}')
    b = {k: (v.astype(np.float32) if isinstance(v, np.ndarray) else v)
         for k, v in a.items()}
    X, Y = gen.model_track(b['dphi'], b['denergy'],
                           (a['vrf1'] * c['q']).astype(np.float32),
                           (a['vrf2'] * c['q']).astype(np.float32), b['phi0'],
                           b['deltaE0'], b['drift_coef'],
                           np.float32(c['phi12']) if scalar else b['phi12'],
                           c['hratio'], c['dturns'], c['rec'], c['nprof'])
    n = a['nturns']
    compare(xp, yp, X, Y, c, 'single precision tracking',
            rel=2e-5 * (1 + n) ** 0.5 * (1 + 0.3 * n))
    nt, lab = done(c)
    return nt, lab


def run_steps(c):
    a = gen.track_arrays(c)
    q, n = c['q'], c['nparts']
    turn = c['turn'] % (a['nturns'] + 1)
    m = gen.stub_machine(c, a)
    mod = tomolib_wrappers if c['wrap'] else libtomo
    v1, v2 = a['vrf1'] * q, a['vrf2'] * q
    s = 1 if c['up'] else -1
    d, e = a['dphi'].copy(), a['denergy'].copy()
    r = call(mod.kick, m, e, d, v1, v2, n, turn, c['up'])
    p = a['dphi'] + a['phi0'][turn]
    k = (v1[turn] * np.sin(p) + v2[turn] * np.sin(
        c['hratio'] * (p - c['phi12'])) - a['deltaE0'][turn])
    sc = np.max(np.abs(a['denergy'])) + c['V'] * abs(q)
    close(r, a['denergy'] + s * k, 'kick', rtol=0, atol=1e-12 * sc)
    same(d, a['dphi'], 'kick leaves the phases')
    d, e = a['dphi'].copy(), a['denergy'].copy()
    r = call(mod.drift, e, d, a['drift_coef'], n, turn, c['up'])
    close(r, a['dphi'] - s * a['drift_coef'][turn] * a['denergy'], 'drift',
          rtol=1e-12, atol=1e-12)
    same(e, a['denergy'], 'drift leaves the energies')
    return True, f'{"up" if c["up"] else "down"}'


def with_(base, **extra):
    @st.composite
    def s(draw):
        c = draw(base)
        for k, v in extra.items():
            c[k] = draw(v)
        return c
    return s()


B = st.booleans()
big = gen.track_case(max_prof=14, max_dturns=13, max_parts=300)
SUBS = [
    Sub('native', big, run_array, quick=500, shards=2, rule=RULE),
    Sub('long', gen.track_case(max_prof=150, max_dturns=40, max_parts=5),
        run_long, quick=60, rule=RULE + '; thousands of turns'),
    Sub('many', with_(gen.track_case(max_prof=4, max_dturns=4),
                      nparts=st.one_of(st.integers(2000, 20000),
                                       st.integers(2000, 100000))),
        run_array, quick=60, threads=7, rule=RULE + '; thousands of '
        'particles'),
    Sub('scalar', with_(gen.track_case(), way=gen.few(
        'scalar', 'machine', 'wrapper-machine', 'wrapper')), run_scalar,
        quick=500, rule=RULE + '; entry point drawn'),
    Sub('track', with_(gen.track_case(max_prof=12, max_dturns=10),
                       scalar=B, neg=B, cb=B), run_track, quick=500,
        shards=2, rule=RULE + '; index from either end, callback on/off'),
    Sub('hybrid', gen.track_case(), run_hybrid, quick=300, rule=RULE),
    Sub('single', with_(gen.track_case(max_prof=6, max_dturns=6), scalar=B),
        run_single, quick=300, rule=RULE + '; single precision'),
    Sub('steps', with_(gen.track_case(), turn=st.integers(0, 500), up=B,
                       wrap=B), run_steps, quick=300,
        rule='one kick and one drift at a drawn turn and direction'),
]
