"""P22: RF voltage, slope and potential agree with each other."""
import types

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils import physics as ph
from vt import gen
from vt.api import Sub, call, close, need, same
from props.p01 import with_

RULE = ('RF programmes with one or two ramped harmonics, field ramp, charge '
        'sign, constant or per-turn phase difference, drawn turn and phases; '
        'non-trivial: second harmonic or field ramp present')
L = np.longdouble
GX, GW = np.polynomial.legendre.leggauss(40)


def volt(p, v1, v2, h, p12):
    return v1 * np.sin(L(p)) + v2 * np.sin(h * (L(p) - p12))


def slope(p, v1, v2, h, p12):
    return v1 * np.cos(L(p)) + h * v2 * np.cos(h * (L(p) - p12))


def prog(c):
    r = np.random.default_rng([c['seed'], 71])
    n = c['n']
    a = dict(v1=c['V'] * (1 + .3 * r.uniform(-1, 1, n)),
             v2=c['V'] * c['r2'] * (1 + .3 * r.uniform(-1, 1, n)),
             bdot=c['bd'] * r.uniform(.5, 1, n),
             phi0=r.uniform(-3, 3, n),
             p12=(c['p12'] + .3 * r.uniform(-1, 1, n)) if c['arr']
             else c['p12'])
    return a


def run_formula(c):
    a = prog(c)
    t = c['turn'] % c['n']
    p12 = a['p12'][t] if c['arr'] else a['p12']
    p, h, R, rho, q = c['phi'], c['h'], c['R'], c['rho'], c['q']
    v1, v2, bd = a['v1'][t], a['v2'][t], a['bdot'][t]
    gain = 2 * np.pi * R * rho * bd * np.sign(q)
    s = c['V'] * (1 + c['r2'] * h) + abs(gain)
    tol = dict(rtol=0, atol=1e-12 * s)
    close(call(ph.rfvolt_rf1, p, v1, bd, R, rho, q),
          volt(p, v1, 0, 1, 0) - gain, 'first harmonic voltage', **tol)
    close(call(ph.drfvolt_rf1, p, v1), slope(p, v1, 0, 1, 0),
          'first harmonic slope', **tol)
    V = volt(p, v1, v2, h, p12) - gain
    dV = slope(p, v1, v2, h, p12)
    close(call(ph.rf_voltage, p, v1, v2, bd, h, p12, R, rho, q), V,
          'voltage', **tol)
    close(call(ph.drf_voltage, p, v1, v2, h, p12), dV, 'slope', **tol)
    P = np.array([p, p + .1, -p])
    close(call(ph.rf_voltage, P, v1, v2, bd, h, p12, R, rho, q),
          volt(P, v1, v2, h, p12) - gain, 'voltage of several phases', **tol)
    close(call(ph.drf_voltage, P, v1, v2, h, p12), slope(P, v1, v2, h, p12),
          'slope of several phases', **tol)
    close(call(ph.rf_voltage_at_phase, float(p), float(v1), float(v2),
               float(h), float(p12)), volt(p, v1, v2, h, p12),
          'voltage without gain', **tol)
    m = types.SimpleNamespace(
        vrf1_at_turn=a['v1'], vrf2_at_turn=a['v2'], bdot=a['bdot'],
        phi12=np.full(c['n'], a['p12']) if not c['arr'] else a['p12'],
        h_ratio=h, mean_orbit_rad=R, bending_rad=rho, q=q, phi0=a['phi0'])
    for f, w in ((ph.rfvolt_rf1_pmch, volt(p, v1, 0, 1, 0) - gain),
                 (ph.drfvolt_rf1_pmch, slope(p, v1, 0, 1, 0)),
                 (ph.rf_voltage_pmch, V), (ph.drf_voltage_pmch, dV)):
        close(call(f, p, m, t), w, f.__name__, **tol)
    # linear voltage programmes
    tm = np.sort(np.random.default_rng([c['seed'], 72]).uniform(-1, 1,
                                                                c['n']))
    d1, d2 = c['V'] * c['d1'], c['V'] * c['r2'] * c['d2']
    m = types.SimpleNamespace(
        vrf1=c['V'], vrf1dot=d1, vrf2=c['V'] * c['r2'], vrf2dot=d2,
        time_at_turn=tm, phi12=p12, h_ratio=h, mean_orbit_rad=R,
        bending_rad=rho, q=q, bdot=bd)
    v1, v2 = c['V'] + d1 * tm[t], m.vrf2 + d2 * tm[t]
    close(call(ph.vrft, c['V'], d1, tm[t]), v1, 'vrft', rtol=1e-12)
    close(call(ph.vrft, c['V'], d1, tm), c['V'] + d1 * tm, 'vrft of times',
          rtol=1e-12, atol=1e-12 * c['V'])
    for f, w in ((ph.rfvolt_rf1_mch, volt(p, v1, 0, 1, 0) - gain),
                 (ph.drfvolt_rf1_mch, slope(p, v1, 0, 1, 0)),
                 (ph.rf_voltage_mch, volt(p, v1, v2, h, p12) - gain),
                 (ph.drf_voltage_mch, slope(p, v1, v2, h, p12))):
        close(call(f, p, m, t), w, f.__name__, **tol)
    close(call(ph.rf_voltage_at_phase, float(p), float(m.vrf1), float(d1),
               float(m.vrf2), float(d2), float(h), float(p12), tm, t),
          volt(p, v1, v2, h, p12), 'voltage at a turn', **tol)
    return c['r2'] > 0 or c['bd'] != 0, 'array' if c['arr'] else 'scalar'


def run_potential(c):
    """Potential difference over a bunch is the integral of the voltage."""
    a = prog(c)
    t = c['turn'] % c['n']
    ref = c['ref'] % c['n']
    if c['same']:
        ref = t
    p12 = a['p12'][ref] if c['arr'] else a['p12']
    p, h, ln = c['phi'], c['h'], c['len']
    kinds = {'array': np.asarray, 'list': list, 'tuple': tuple}
    arg = kinds[c['seq']](a['p12']) if c['arr'] else a['p12']
    s = c['V'] * (1 + c['r2'] * h) * (1 + ln)
    x = p + ln * (GX + 1) / 2
    I = (volt(x, a['v1'][ref], a['v2'][ref], h, p12) * GW).sum() * ln / 2
    keep = a['v1'].copy(), a['v2'].copy(), a['phi0'].copy()
    # the voltage at the synchronous phase belongs to rf_turn
    want = ln * volt(a['phi0'][t], a['v1'][t], a['v2'][t], h, p12) - I
    got = call(ph.phase_low, p, ln, a['v1'], a['v2'], a['phi0'], h,
               arg, t, ref)
    close(got, want, 'potential', rtol=0, atol=1e-10 * s)
    p12 = a['p12'][t] if c['arr'] else a['p12']
    d = (volt(p, a['v1'][t], a['v2'][t], h, p12)
         - volt(p + ln, a['v1'][t], a['v2'][t], h, p12))
    got = call(ph.dphase_low, p, ln, a['v1'], a['v2'], h, arg, t)
    close(got, d, 'slope of the potential', rtol=0, atol=1e-12 * s)
    m = types.SimpleNamespace(vrf1_at_turn=a['v1'], vrf2_at_turn=a['v2'],
                              phi0=a['phi0'], h_ratio=h, phi12=arg)
    close(call(ph.dphase_low_mch, p, m, ln, t), d, 'dphase_low_mch', rtol=0,
          atol=1e-12 * s)
    I = (volt(x, a['v1'][t], a['v2'][t], h, p12) * GW).sum() * ln / 2
    close(call(ph.phase_low_mch, p, m, ln, t),
          ln * volt(a['phi0'][t], a['v1'][t], a['v2'][t], h, p12) - I,
          'phase_low_mch', rtol=0, atol=1e-10 * s)
    close(call(ph.phase_low, p, 0.0, a['v1'], a['v2'], a['phi0'], h,
               arg, t, t), 0, 'bunch without length', atol=1e-12 * s)
    for k, v in zip(('v1', 'v2', 'phi0'), keep):
        same(a[k], v, k)
    return c['r2'] > 0, 'array' if c['arr'] else 'scalar'


def run_synch(c):
    """Synchronous phase of a machine at any turn."""
    p = gen.machine_params(c)
    try:
        m = Machine(*p['args'], **p['kw'])
    except ValueError:
        return False, 'no bucket'
    if not np.all(np.isfinite(m.phi0)):
        return False, 'no bucket'
    t = c['turn'] % len(m.phi0)
    lo, up = call(ph.find_phi_lower_upper, m, t)
    close(up - lo, 2 * np.pi, 'phase range', rtol=1e-12)
    focus = np.sign(c['q'] * (c['gt'] - m.e0[t] / m.e_rest))
    close((lo + up) / 2, 0 if focus > 0 else np.pi, 'middle of the range',
          rtol=1e-12, atol=1e-12)
    try:
        f = ph.find_synch_phase_mch(m, t, lo, up)
    except ValueError:
        return False, 'no bucket'
    V = abs(p['V']) + abs(p['v2'])
    gain = 2 * np.pi * c['R'] * p['rho'] * p['bdot'] * np.sign(c['q'])
    v1 = p['V'] + p['v1dot'] * m.time_at_turn[t]
    v2 = p['v2'] + p['v2dot'] * m.time_at_turn[t]
    res = volt(f, v1, v2, c['hr'], c['phi12']) - gain
    need(abs(res) < 1e-6 * V, f'voltage {float(res / V):.3g} V at the '
         'synchronous phase is not the gain')
    close(call(ph.b_to_e, m), np.hypot(
        c['q'] * p['b0'] * p['rho'] * gen.C, c['A']), 'energy from field',
        rtol=1e-12)
    close(call(ph.lorentz_beta, m, t), np.sqrt(
        (m.e0[t] - c['A']) * (m.e0[t] + c['A'])) / m.e0[t], 'beta',
        rtol=1e-9)
    return c['r2'] > 0 or c['ss'] != 0, 'below' if focus > 0 else 'above'


case = st.fixed_dictionaries(dict(
    n=st.integers(1, 9), turn=st.integers(0, 20), ref=st.integers(0, 20),
    same=st.booleans(), V=gen.logfl(1e2, 1e7),
    r2=gen.few(0.0, 0.3, 1.0), h=gen.few(1.0, 2.0, 3.0, 0.5, 2.5),
    bd=gen.few(0.0, 1.0, -2.0, 0.1), R=gen.logfl(1, 1000),
    rho=gen.logfl(1, 300), q=gen.few(1, -1, 54, -2), arr=st.booleans(),
    p12=st.one_of(gen.few(0.0), gen.fl(-3.2, 3.2)), phi=gen.fl(-7, 7),
    d1=gen.fl(-1, 1), d2=gen.fl(-1, 1), len=gen.fl(0, 6.28), seed=gen.SEED,
    seq=gen.few('array', 'array', 'list', 'tuple')))
SUBS = [
    Sub('formula', case, run_formula, quick=1500, rule=RULE),
    Sub('potential', case, run_potential, quick=2000, rule=RULE),
    Sub('synch', with_(gen.machine_case(wild=True), turn=st.integers(0, 200)),
        run_synch, quick=1000, rule=RULE),
]
