"""P04: the machine's turn-by-turn programme obeys its defining relations."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography.tracking.machine import Machine
from vt import gen
from vt.api import Sub, Violation, call, close, known, need, same
from props.p01 import with_

C = gen.C
RULE = ('machines drawn over energy, transition energy, species, size, '
        'harmonic, one or two RF systems, acceleration, voltage slopes and '
        'reference frame; non-trivial: more than one turn')
KEYS = ('time_at_turn', 'phi0', 'e0', 'beta0', 'deltaE0', 'eta0',
        'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn')


def make(c, p, **kw):
    k = dict(p['kw'])
    k.update(kw)
    return Machine(*p['args'], **k)


def tame(c):
    """The total RF force is monotonic around the stationary phase."""
    return c['r2'] * c['hr'] <= 0.45 and abs(c['ss']) <= 0.3


def build(c, p, **kw):
    try:
        m = make(c, p, **kw)
    except ValueError as e:
        if 'synchronous phase' in str(e) and not tame(c):
            return None
        raise Violation(f'Machine raised {type(e).__name__}: {e}')
    except Exception as e:
        raise Violation(f'Machine raised {type(e).__name__}: {e}')
    if not kw.get('vat_now', True):
        return m
    if not np.all(np.isfinite(m.phi0)) or not np.all(np.isfinite(m.e0)):
        if tame(c):
            raise Violation('Machine: per-turn values are not finite')
        return None
    return m


def laws(c, p, m, mref):
    R, V, q = c['R'], p['V'], c['q']
    n = (c['nprof'] - 1) * c['dturns'] + 1
    i0 = mref * c['dturns']
    for k in KEYS:
        need(np.shape(getattr(m, k)) == (n,),
             f'{k}: shape {np.shape(getattr(m, k))}, expected ({n},)')
    e = np.sqrt((q * m.b0 * p['rho'] * C) ** 2 + c['A'] ** 2)
    close(m.e0[i0], e, 'energy at the reference frame', rtol=1e-12)
    close(m.beta0, np.sqrt(1 - (c['A'] / m.e0) ** 2), 'beta0', rtol=1e-9)
    close(m.time_at_turn[i0], 0, 'time at the reference frame', atol=0)
    T = 2 * np.pi * R / (m.beta0 * C)
    close(np.diff(m.time_at_turn), T[:-1], 'time between turns', rtol=0,
          atol=1e-10 * T[0] + 1e-14 * n * T[0])
    v1 = m.vrf1 + m.vrf1dot * m.time_at_turn
    v2 = m.vrf2 + m.vrf2dot * m.time_at_turn
    close(m.vrf1_at_turn, v1, 'first RF voltage', rtol=1e-12, atol=1e-12 * V)
    close(m.vrf2_at_turn, v2, 'second RF voltage', rtol=1e-12, atol=1e-12 * V)
    rf = v1 * np.sin(m.phi0) + v2 * np.sin(c['hr'] * (m.phi0 - c['phi12']))
    gain = 2 * np.pi * R * p['rho'] * p['bdot']      # per unit of charge
    close(rf * np.sign(q), np.full(n, gain),
          'RF voltage at the synchronous phase = voltage the field ramp needs',
          rtol=0, atol=1e-6 * V)
    d = v1 * np.cos(m.phi0) + v2 * c['hr'] * np.cos(
        c['hr'] * (m.phi0 - c['phi12']))
    if tame(c):
        eta = (1 - m.beta0 ** 2) - c['gt'] ** -2
        need(np.all(q * eta * d > 0),
             lambda: f'synchronous phase {m.phi0[:4]} is not stable: '
                     f'q*eta*dV/dphi = {(q * eta * d)[:4]}')
        need(np.all(np.abs(np.diff(m.phi0)) < 0.2), 'phi0 jumps')
    close(np.diff(m.e0), q * rf[1:], 'energy gain per turn = charge * RF '
          'voltage at the synchronous phase', rtol=0,
          atol=1e-6 * V * abs(q) + 4e-16 * e)
    close(m.eta0, (1 - m.beta0 ** 2) - c['gt'] ** -2, 'phase slip factor',
          rtol=1e-9, atol=1e-12)
    close(m.drift_coef, 2 * np.pi * c['h'] * m.eta0 / (m.e0 * m.beta0 ** 2),
          'drift coefficient', rtol=1e-9)
    close(m.omega_rev0, m.beta0 * C / R, 'revolution frequency', rtol=1e-11)
    # energy difference e0(n) - e0(n-1)
    tol = 1e-6 * V * abs(q) * 1e-3 + 1e-15 * e
    good = np.diff(m.e0)
    if i0 == 0 or n == 1:
        close(m.deltaE0[1:], good, 'deltaE0', rtol=0, atol=tol)
        close(m.deltaE0[0], 0, 'deltaE0[0]', atol=tol)
    else:
        close(m.deltaE0[i0 + 1:], good[i0:], 'deltaE0 above the reference '
              'frame', rtol=0, atol=tol)
        need(np.isfinite(m.deltaE0[0]), 'deltaE0[0]')
        lo = m.deltaE0[1:i0 + 1]
        if np.all(np.abs(lo - good[:i0]) <= tol):
            return
        # the recorded finding: below the reference frame the forward
        # difference is stored, and zero at the reference frame itself
        bad = np.append(good[:i0], 0.0)
        close(m.deltaE0[:i0 + 1], bad, 'deltaE0 up to the reference frame '
              '(neither e0(n)-e0(n-1) nor the recorded finding)', rtol=0,
              atol=tol)
        known('KF-DELTAE', 'deltaE0 below the reference frame')


def run_laws(c):
    p = gen.machine_params(c)
    m = build(c, p)
    if m is None:
        return False, 'no bucket'
    laws(c, p, m, c['mref'])
    need(m.synch_part_y == c['nbins'] / 2.0, 'synch_part_y')
    return m.e0.size > 1, (f'{"above" if c["gamma"] > c["gt"] else "below"} '
                           f'transition, ref {"0" if c["mref"] == 0 else ">0"}'
                           f', {"accelerating" if c["ss"] else "stationary"}')


def run_redo(c):
    """Values depend on the parameters only, not on earlier calculations."""
    p = gen.machine_params(c)
    fresh = build(c, p)
    if fresh is None:
        return False, 'no bucket'
    c2 = dict(c, mref=c['mref2'] % c['nprof'], ss=c['ss2'],
              nprof=c['nprof'], v=c['v'] * c['vf'])
    p2 = gen.machine_params(c2)
    m = build(c2, p2, vat_now=c['now'])
    if m is None:
        return False, 'no bucket'
    m.vrf1, m.vrf1dot, m.vrf2 = p['V'], p['v1dot'], p['v2']
    m.vrf2dot, m.bdot, m.b0 = p['v2dot'], p['bdot'], p['b0']
    m.machine_ref_frame = c['mref']
    for _ in range(c['times']):
        call(m.values_at_turns)
    for k in KEYS:
        same(getattr(m, k), getattr(fresh, k), f'{k} after recalculation')
    return fresh.e0.size > 1, f'recalculated {c["times"]}x'


def run_frames(c):
    """The programme does not depend on which frame it is referenced to."""
    p = gen.machine_params(c)
    m = build(c, p, machine_ref_frame=0)
    if m is None or not tame(c):
        return False, 'no bucket'
    k = c['mref'] * c['dturns']
    pk = np.sqrt(m.e0[k] ** 2 - c['A'] ** 2)
    p2 = dict(p)
    a = list(p['args'])
    a[1] = m.vrf1_at_turn[k]
    a[4] = pk / (abs(c['q']) * p['rho'] * C)
    p2['args'] = tuple(a)
    m2 = build(c, p2, machine_ref_frame=c['mref'],
               vrf2=m.vrf2_at_turn[k])
    need(m2 is not None, 'no synchronous phase from another frame')
    n = m.e0.size
    V, q = p['V'], c['q']
    close(m2.e0, m.e0, 'e0 from another frame', rtol=1e-12,
          atol=2e-6 * V * abs(q) * n)
    close(m2.time_at_turn, m.time_at_turn - m.time_at_turn[k],
          'time from another frame', rtol=0, atol=1e-6 * n * p['trev'] *
          (1e-3 + c['v']))
    close(m2.phi0, m.phi0, 'phi0 from another frame', rtol=0, atol=1e-4)
    close(m2.vrf1_at_turn, m.vrf1_at_turn, 'voltage from another frame',
          rtol=1e-9)
    return n > 1 and c['mref'] > 0, 'frame moved'


DOC = dict(demax=-1e6, vrf2=0.0, vrf1dot=0.0, vrf2dot=0.0, phi12=0.0,
           h_ratio=1.0, h_num=1, q=1, g_coupling=None, zwall_over_n=None,
           pickup_sensitivity=None, self_field_flag=False, full_pp_flag=False,
           machine_ref_frame=0, beam_ref_frame=0, snpt=4, niter=20,
           filmstart=0, filmstop=1, filmstep=1, output_dir=None, bdot=0.0)
OWN = ('vrf2', 'vrf1dot', 'vrf2dot', 'bdot')        # not of every machine
OTHER = dict(demax=3.5e6, vrf2=1.25e3, vrf1dot=-2e4, vrf2dot=7e3, phi12=0.7,
             h_ratio=3.0, h_num=5, q=-1, g_coupling=1.5, zwall_over_n=50.0,
             pickup_sensitivity=0.36, self_field_flag=True, full_pp_flag=True,
             machine_ref_frame=2, beam_ref_frame=1, snpt=2, niter=7,
             filmstart=1, filmstop=2, filmstep=2, output_dir='/nowhere/',
             bdot=0.3)


def run_defaults(c):
    """Every optional parameter: the value given, or the documented one."""
    kw = {}
    other = {k: v for k, v in OTHER.items()}
    if c['zero']:            # a value that happens to be false is a value too
        other.update({k: type(v)() for k, v in OTHER.items()})
    for k in DOC:
        if k in c['given'] and not (c['programmed'] and k in OWN):
            kw['charge' if k == 'q' else k] = other[k]
    n, nb, dt = 4, c['nbins'], c['dtbin']
    if c['lim'][0] is not None:
        kw['min_dt'] = c['lim'][0] * nb * dt
    if c['lim'][1] is not None:
        kw['max_dt'] = c['lim'][1] * nb * dt
    if c['sx'] is not None:
        kw['synch_part_x'] = c['sx'] * nb
    before = dict(kw)
    if c['programmed']:
        from longitudinal_tomography.tracking.programs_machine import (
            ProgramsMachine)
        t = np.linspace(0, 1e-3, 5)
        m = call(ProgramsMachine, 12, np.array([t, np.full(5, 3e3)]),
                 np.array([t, np.full(5, 2e9)]), [2], 25.0, 8.0, 4.1, 938e6,
                 n, nb, dt, 5e-4, vat_now=False, **kw)
        fixed = dict(dturns=12, mean_orbit_rad=25.0, bending_rad=8.0,
                     trans_gamma=4.1, e_rest=938e6, nprofiles=n, nbins=nb,
                     dtbin=dt, harmonics=[2], t_ref=5e-4)
    else:
        m = call(Machine, 12, 3e3, 25.0, 8.0, 0.4, 4.1, 938e6, n, nb, dt,
                 vat_now=False, **kw)
        fixed = dict(dturns=12, vrf1=3e3, mean_orbit_rad=25.0,
                     bending_rad=8.0, b0=0.4, trans_gamma=4.1, e_rest=938e6,
                     nprofiles=n, nbins=nb, dtbin=dt)
    need(kw == before, 'the options given were changed')
    want = dict(fixed, synch_part_y=nb / 2.0)
    for k, d in DOC.items():
        if not (c['programmed'] and k in OWN):
            want[k] = other[k] if k in c['given'] else d
    if 'synch_part_x' in kw:
        want['synch_part_x'] = kw['synch_part_x']
    want['min_dt'] = kw.get('min_dt', 0.0)
    for k, v in want.items():
        got = getattr(m, k, 'missing')
        need((got is v) if v is None or isinstance(v, bool) else
             (got is not None and not isinstance(got, bool) and got == v),
             lambda: f'{k} is {got!r}, expected {v!r} '
                     f'({"given" if k in c["given"] else "documented"})')
    close(m.max_dt, kw.get('max_dt', nb * dt), 'max_dt', rtol=1e-13)
    if not c['programmed']:
        for k in ('fitted_synch_part_x', 'bunchlimit_low', 'bunchlimit_up'):
            need(getattr(m, k) is None, f'{k} before a fit')
        call(m.load_fitted_synch_part_x_ftn, tuple(c['fit']))
        got = [m.fitted_synch_part_x, m.bunchlimit_low, m.bunchlimit_up,
               m.synch_part_x]
        need(got == c['fit'] + c['fit'][:1], lambda: f'loading the fit '
             f'{c["fit"]} gives {got}')
    nb2 = nb + c['more']
    m.nbins = nb2
    need(m.nbins == nb2 and m.synch_part_y == nb2 / 2.0,
         'synch_part_y follows the number of bins')
    return len(DOC) > len(c['given']) > 0, (
        'programmed' if c['programmed'] else 'linear')


SUBS = [
    Sub('defaults', st.fixed_dictionaries(dict(
        programmed=st.booleans(),
        given=st.lists(st.sampled_from(sorted(DOC)), unique=True,
                       max_size=12),
        nbins=st.integers(8, 300), dtbin=gen.logfl(1e-11, 1e-7),
        lim=st.tuples(gen.few(None, None, 0.1, 0.25, 0.0),
                      gen.few(None, None, 0.8, 0.7, 0.0)).map(list),
        sx=gen.few(None, 0.3, 0.5, 0.0), zero=st.booleans(),
        fit=st.lists(gen.fl(-300, 300), min_size=3, max_size=3), more=st.integers(-7, 50))),
        run_defaults, quick=600, rule='any subset of the options; '
        'non-trivial: some given and some left out'),
    Sub('laws', gen.machine_case(max_prof=12, max_dturns=14, wild=True),
        run_laws,
        quick=3000, shards=3, rule=RULE),
    Sub('redo', with_(gen.machine_case(max_prof=6, max_dturns=6, wild=True),
                      mref2=st.integers(0, 5), ss2=gen.few(0.0, 0.2, -0.3),
                      vf=gen.few(1.0, 2.0), now=st.booleans(),
                      times=gen.few(1, 2, 3)), run_redo, quick=1000,
        rule='recalculation after changing parameters equals a fresh machine'),
    Sub('frames', gen.machine_case(max_prof=8, max_dturns=8, min_prof=2,
                                    wild=True),
        run_frames, quick=1200, rule='same machine referenced to two frames; '
        'non-trivial: a later frame with a bucket'),
]
