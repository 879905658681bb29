"""P05: a programmed machine follows the given programmes turn by turn."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.tracking import ProgramsMachine
from longitudinal_tomography.tracking.tracking import Tracking
from vt import gen
from props.p01 import with_
from vt.api import Sub, Violation, call, close, known, need, rejects, same

C = gen.C
RULE = ('momentum, voltage and phase programmes drawn as piecewise linear '
        'functions with uneven (also repeated) time stamps, one or two '
        'harmonics, both charge signs; non-trivial: the momentum changes or '
        'there are two harmonics')


@st.composite
def pcase(draw):
    nprof = draw(st.integers(2, 6))
    gamma = draw(gen.logfl(1.05, 8.0))
    gt = draw(gen.few(1.5, 4.1, 23.0))
    if abs(gt - gamma) / gamma < 0.2:
        gt = 1.6 * gamma
    h1 = draw(gen.few(1, 1, 2, 2, 7))
    hr = draw(gen.few(0, 2, 2, 3, 1.5, 2.5))
    return dict(nprof=nprof, dturns=draw(st.integers(1, 8)),
                mref=draw(st.integers(0, nprof - 1)), gamma=gamma, gt=gt,
                A=draw(gen.few(938.27231e6, 193.7e9)),
                q=draw(gen.few(1, 1, 54, -1)),
                R=draw(gen.logfl(5, 300)), rho_frac=draw(gen.fl(0.3, 0.9)),
                h1=h1, hr=hr if h1 == 2 else int(hr),
                v=draw(gen.logfl(1e-6, 3e-5)), r2=draw(gen.few(0.05, 0.15)),
                ss=draw(gen.few(0.0, 0.1, 0.3, -0.2)),
                vv=draw(gen.few(0.0, 0.05, 0.2)),
                way=draw(gen.few('phase', 'phase', 'scalar', 'array',
                                 'timed', 'calc')),
                pre=draw(st.integers(2, 30)),      # turns before the window
                dup=draw(st.booleans()),
                frac=draw(gen.fl(0.05, 0.95)),
                np=draw(st.integers(4, 14)), ph=draw(gen.fl(-0.5, 0.5)),
                poff=draw(gen.few(0, 0, 0, 1, -1, 2, -2)),
                start=draw(gen.few(0.0, 0.275, 1.3, -0.4, None, None)),
                seed=draw(gen.SEED))


def programs(c):
    r = np.random.default_rng([c['seed'], 5])
    beta = np.sqrt(1 - c['gamma'] ** -2)
    p0 = c['A'] * c['gamma'] * beta
    T = 2 * np.pi * c['R'] / (beta * C)
    V = c['v'] * c['A'] * c['gamma'] / abs(c['q'])
    nturns = c['nprof'] * c['dturns']
    # the window starts after the turns needed below the reference frame
    lead = c['pre'] + c['mref'] * c['dturns']
    span = (lead + nturns + 12) * 1.35 * T
    start = c['start']
    if start is None:                 # the reference time is zero
        start = -(lead + 1 + c['frac']) * T
    k = c['np']

    def stamps(first_flat=False):
        t = np.sort(r.uniform(0, 1, k)) * span
        t[0], t[-1] = 0.0, span
        if first_flat:
            t[1] = max(t[1], 3 * T)
            t = np.sort(t)
        return start + t
    tm = stamps(True)
    # gain per turn q*V*ss  ->  dp/dt = ss |q| V c / (2 pi R)
    slope = c['ss'] * abs(c['q']) * V * C / (2 * np.pi * c['R'])
    rate = slope * r.uniform(0.3, 1.0, k - 1)
    rate[0] = 0.0                     # flat for the first turns
    pm = p0 + np.concatenate([[0], np.cumsum(rate * np.diff(tm))])
    if c['dup']:
        j = int(r.integers(1, k - 1))
        tm, pm = np.insert(tm, j, tm[j]), np.insert(pm, j, pm[j])
    tv = stamps()
    v1 = V * (1 + c['vv'] * r.uniform(-1, 1, k))
    v2 = V * c['r2'] * (1 + c['vv'] * r.uniform(-1, 1, k))
    tp = stamps()
    ph1 = r.uniform(-0.2, 0.2, k) + c['ph']
    if c['way'] in ('phase', 'scalar', 'array', 'timed'):
        # the same RF field, with whole turns of the second system added
        ph1 = ph1 + 2 * np.pi * c.get('poff', 0)
    ph2 = r.uniform(-0.2, 0.2, k)
    if c['seed'] % 6 == 5 and c['way'] in ('phase', 'array', 'timed'):
        # a programme that steps by more than half a turn
        ph1 = ph1 + np.where(np.arange(k) >= k // 2, 4.5, 0.0)
        pha = ph1.copy()
    else:
        pha = np.interp(tv, tp, ph1)
    t_ref = start + (lead + 1 + c['frac']) * T
    return dict(V=V, T=T, p0=p0, nturns=nturns, t_ref=t_ref, tm=tm, pm=pm,
                tv=tv, v1=v1, v2=v2, tp=tp, ph1=ph1, ph2=ph2, pha=pha,
                rho=c['R'] * c['rho_frac'], nb=40)


def build(c, P, **kw):
    two = c['hr'] > 0
    vol = np.array([P['tv'], P['v1']] + ([P['v2']] if two else []))
    pha = np.array([P['tp'], P['ph1']] + ([P['ph2']] if two else []))
    k = dict(machine_ref_frame=c['mref'], h_num=c['h1'], charge=c['q'],
             synch_part_x=P['nb'] / 2)
    if c['way'] == 'phase':
        k['phase_function'] = pha
    elif c['way'] == 'scalar':
        k['phi12'] = c['ph'] + 2 * np.pi * c.get('poff', 0)
    elif c['way'] == 'array':
        k['phi12'] = P['pha'].copy()
    elif c['way'] == 'timed':
        k['phi12'] = np.array([P['tp'], P['ph1']])
    k.update(kw)
    return ProgramsMachine(
        c['dturns'], vol, np.array([P['tm'], P['pm']]),
        [c['h1'], int(c['h1'] * c['hr'])] if two else [c['h1']], c['R'], P['rho'],
        c['gt'], c['A'], c['nprof'], P['nb'], P['T'] / c['h1'] / P['nb'],
        P['t_ref'], **k)


def turn_times(c, P):
    """Times at the end of each turn, from the start of the programme."""
    circ = 2 * np.pi * c['R']

    def period(p):
        return circ / (C * p / np.hypot(p, c['A']))
    t = [P['tm'][0] + period(P['pm'][0])]
    p = [P['pm'][0]]
    while t[-1] < P['tm'][-1]:
        t.append(t[-1] + period(p[-1]))
        p.append(np.interp(t[-1], P['tm'], P['pm']))
    return np.array(t), np.array(p)


def run_follow(c):
    P = programs(c)
    t, p = turn_times(c, P)
    n, i0 = P['nturns'], c['mref'] * c['dturns']
    if np.min(np.abs(t - P['t_ref'])) < 1e-6 * P['T']:
        return False, 'reference time on a turn'
    j = int(np.searchsorted(t, P['t_ref'])) - i0
    if j < 0 or j + n > len(t) - 2:
        return False, 'window outside the programme'
    try:
        m = build(c, P)
        if c['way'] == 'calc':
            need(m.phi12 is None, 'phi12 should be left to calc_phi12')
            rejects(ValueError, m.find_synchronous_phase,
                    what='synchronous phase without phi12')
            if np.max(np.abs(2 * np.pi * P['rho'] * c['R'] * m.bdot
                             / m.vrf1_at_turn)) > 0.9:
                return False, 'no bucket'
            calc = []
            for mode in (2, 1, 0):
                m.calc_phi12(mode)
                calc.append(np.array(m.phi12, dtype=float))
            m.find_synchronous_phase()
    except Violation:
        raise
    except Exception as e:
        raise Violation(f'ProgramsMachine ({c["way"]}): raised '
                        f'{type(e).__name__}: {e}')
    tt, pp = t[j:j + n], p[j:j + n]
    E = np.hypot(pp, c['A'])
    beta = pp / E
    close(m.e0, E, 'energy = momentum programme at the turn times',
          rtol=1e-11)
    close(m.beta0, beta, 'beta0', rtol=1e-10)
    close(m.omega_rev0, beta * C / c['R'], 'omega_rev0', rtol=1e-10)
    eta = 1 - beta ** 2 - c['gt'] ** -2
    close(m.eta0, eta, 'eta0', rtol=1e-9, atol=1e-11)
    close(m.drift_coef, 2 * np.pi * c['h1'] * eta / (E * beta ** 2),
          'drift_coef', rtol=1e-8)
    V = P['V']
    tol = 1e-6 * V
    close(m.vrf1_at_turn, np.interp(tt, P['tv'], P['v1']), 'first voltage',
          rtol=0, atol=tol)
    two = c['hr'] > 0
    close(m.vrf2_at_turn, np.interp(tt, P['tv'], P['v2']) if two
          else np.zeros(n), 'second voltage', rtol=0, atol=tol)
    hr = float(c['hr']) if two else 1.0
    close(m.h_ratio, hr, 'h_ratio', rtol=1e-12)
    d = np.diff(m.time_at_turn)
    T = 2 * np.pi * c['R'] / (beta * C)
    lo, hi = np.minimum(T[:-1], T[1:]), np.maximum(T[:-1], T[1:])
    need(np.all((d >= lo * (1 - 1e-9)) & (d <= hi * (1 + 1e-9))),
         'time between turns is one revolution period')
    close(m.time_at_turn[i0], 0, 'time at the reference turn')
    # phase between the RF systems
    ph1 = np.interp(tt, P['tp'], P['ph1'])
    if c['way'] == 'phase' and two:
        want = (ph1 - np.interp(tt, P['tp'], P['ph2']) + np.pi) / hr
    elif c['way'] == 'scalar':
        want = np.full(n, c['ph'] + 2 * np.pi * c.get('poff', 0))
    elif c['way'] == 'array':
        want = np.interp(tt, P['tv'], P['pha'])
    elif c['way'] == 'timed':
        want = ph1
    else:
        want = np.asarray(m.phi12) * np.ones(n)
    close(np.asarray(m.phi12) * np.ones(n), want, f'phi12 ({c["way"]})',
          rtol=0, atol=1e-6)
    # the RF gives the energy that the momentum programme needs
    v2 = m.vrf2_at_turn
    ph12 = np.asarray(m.phi12) * np.ones(n)
    rf = (m.vrf1_at_turn * np.sin(m.phi0)
          + v2 * np.sin(hr * (m.phi0 - ph12))) * c['q']
    gain = np.gradient(pp, tt) * 2 * np.pi * c['R'] / C
    g = np.abs(np.diff(gain, prepend=gain[0], append=gain[-1]))
    slack = g[:-1] + g[1:]            # turns next to a corner of the programme
    close(rf, gain, 'charge * RF voltage at the synchronous phase = energy '
          'gain of the momentum programme', rtol=1e-3,
          atol=slack + 1e-5 * V * abs(c['q']) + 1e-9 * P['p0'] * 1e-4)
    if c['way'] == 'calc':
        v1 = m.vrf1_at_turn
        want = np.arcsin(np.clip(gain / (c['q'] * v1), -1, 1)) + np.pi / hr
        tol = 5 * (slack + 1e-5 * V * abs(c['q'])
                   + 1e-13 * P['p0']) / (abs(c['q']) * v1) + 1e-6
        for got, add, what in zip(calc, (-np.pi, 0, 0), (2, 1, 0)):
            close(got, want + add, f'calculated phi12, mode {what}', rtol=0,
                  atol=tol)
    d = (m.vrf1_at_turn * np.cos(m.phi0)
         + v2 * hr * np.cos(hr * (m.phi0 - ph12)))
    need(np.all(c['q'] * eta * d > 0), 'synchronous phase is not stable')
    # energy difference: e0(n) - e0(n-1), one value per turn
    diff = np.diff(m.e0)
    tol = 1e-15 * E.max() * 4
    if m.deltaE0.shape == (n,):
        close(m.deltaE0[1:], diff, 'deltaE0', rtol=0, atol=tol)
    else:
        need(m.deltaE0.shape == (n - 1,), f'deltaE0: {m.deltaE0.shape}')
        close(m.deltaE0, diff, 'deltaE0 (neither e0(n)-e0(n-1) nor the '
              'recorded finding)', rtol=0, atol=tol)
        known('KF-PM-DELTAE', 'deltaE0')
    return bool(two or np.ptp(pp) > 0), c['way']


def run_redo(c):
    P = programs(c)
    t, p = turn_times(c, P)
    j = int(np.searchsorted(t, P['t_ref'])) - c['mref'] * c['dturns']
    if j < 0 or j + P['nturns'] > len(t) - 2 or c['way'] == 'calc':
        return False, 'window outside the programme'
    a = call(build, c, P)
    b = call(build, c, P, vat_now=False)
    for _ in range(2):
        call(b.values_at_turns)
        for k in ('e0', 'phi0', 'beta0', 'deltaE0', 'drift_coef', 'eta0',
                  'omega_rev0', 'time_at_turn', 'vrf1_at_turn',
                  'vrf2_at_turn', 'phi12'):
            same(getattr(b, k), getattr(a, k), f'{k} after recalculation')
    rejects(ValueError, build, c, P, phi12=0.1,
            phase_function=np.array([P['tp'], P['ph1'], P['ph2']]),
            what='phi12 together with a phase programme')
    k = len(P['tv'])
    for bad in (np.zeros(k + 1), np.zeros((3, k)), np.zeros((1, k))):
        kw = dict(phi12=bad)
        if c['way'] == 'phase':
            kw['phase_function'] = None
        rejects((ValueError, IndexError), build, c, P,
                what=f'phi12 of shape {bad.shape}', **kw)
    return True, c['way']


def run_track(c):
    """Tracking in a programmed machine uses the programmes."""
    if c['dturns'] == 1:
        c = dict(c, dturns=2)        # see KF-PM-DELTAE
    P = programs(c)
    t, p = turn_times(c, P)
    j = int(np.searchsorted(t, P['t_ref'])) - c['mref'] * c['dturns']
    if j < 0 or j + P['nturns'] > len(t) - 2 or c['way'] == 'calc':
        return False, 'window outside the programme'
    m = call(build, c, P)
    r = np.random.default_rng([c['seed'], 6])
    dphi = r.uniform(-1, 1, 20)
    den = r.uniform(-1, 1, 20) * P['V'] * abs(c['q']) * 10
    rec = c['mref']
    d = m.deltaE0 if m.deltaE0.size == m.e0.size else np.append(m.deltaE0, 0)
    X, Y = gen.model_track(dphi, den, m.vrf1_at_turn * c['q'],
                           m.vrf2_at_turn * c['q'], m.phi0, d, m.drift_coef,
                           np.asarray(m.phi12) * np.ones(m.e0.size),
                           m.h_ratio, c['dturns'], rec, c['nprof'])
    xp, yp = call(Tracking(m).track, rec, (dphi, den))
    close(xp, X, 'tracked phases', rtol=0, atol=1e-8)
    close(yp, Y, 'tracked energies', rtol=0,
          atol=1e-9 * (np.abs(Y).max() + P['V'] * abs(c['q'])))
    return True, c['way']


def run_short(c):
    """Enough programme for the turns: all of them; otherwise an error."""
    P = programs(c)
    n = P['nturns']
    if c['early']:
        # around the first reference time that leaves room for the turns
        # below the reference frame
        P['t_ref'] = P['tm'][0] + max(
            0.1, c['mref'] * c['dturns'] + 1 + c['over']) * P['T']
    end = P['t_ref'] + (n - c['mref'] * c['dturns'] + (
        5 if c['early'] else c['over'])) * P['T']
    P['pm'] = np.append(P['pm'][P['tm'] < end],
                        np.interp(end, P['tm'], P['pm']))
    P['tm'] = np.append(P['tm'][P['tm'] < end], end)
    t, p = turn_times(c, P)
    have = int(np.sum(t <= end))
    if np.min(np.abs(t - end)) < 1e-6 * P['T'] or \
            np.min(np.abs(t - P['t_ref'])) < 1e-6 * P['T']:
        return False, 'on a turn'
    j = int(np.searchsorted(t, P['t_ref'])) - c['mref'] * c['dturns']
    if len(P['tm']) < 3:
        return False, 'window outside the programme'
    if j < 0:
        rejects((ValueError, IndexError), build, c, P,
                what=f'{-j} turns before the start of the programme')
        return True, 'too early'
    if j + n > have:
        rejects((ValueError, IndexError), build, c, P,
                what=f'programme for {have - j} of {n} turns')
        return True, 'too short'
    m = call(build, c, P)
    need(m.e0.shape == (n,) and m.vrf1_at_turn.shape == (n,),
         f'{m.e0.shape} turns, expected {n}')
    close(m.e0, np.hypot(p[j:j + n], c['A']), 'energy', rtol=1e-11)
    return True, 'long enough'


def run_harmonics(c):
    """One or two harmonics; anything else is refused."""
    P = programs(c)
    n = c['nh']
    vol = np.vstack([P['tv']] + [P['v1']] * max(n, 1))
    hs = [c['h1'] * (i + 1) for i in range(n)]

    def make():
        return ProgramsMachine(
            c['dturns'], vol, np.array([P['tm'], P['pm']]), hs, c['R'],
            P['rho'], c['gt'], c['A'], c['nprof'], P['nb'],
            P['T'] / c['h1'] / P['nb'], P['t_ref'], h_num=c['h1'],
            vat_now=c['now'], charge=c['q'], synch_part_x=P['nb'] / 2,
            phi12=0.0, machine_ref_frame=c['mref'])
    if n in (1, 2):
        if not c['now']:
            m = call(make)
            need(list(m.harmonics) == hs, 'harmonics')
        return False, 'accepted'
    rejects(ex.ArrayLengthError, make, what=f'{n} harmonics')
    return True, f'{n} harmonics'


SUBS = [
    Sub('harmonics', with_(pcase(), nh=st.integers(0, 4), now=st.booleans()),
        run_harmonics, quick=60, rule='number of harmonics'),
    Sub('short', with_(pcase(), over=gen.fl(-4, 4),
                       early=gen.few(False, False, True)),
        run_short, quick=1000,
        rule='momentum programme that ends near the last turn needed'),
    Sub('follow', pcase(), run_follow, quick=1500, shards=3, rule=RULE),
    Sub('redo', pcase(), run_redo, quick=400, rule='recalculated twice'),
    Sub('track', pcase(), run_track, quick=400,
        rule='tracked in the programmed machine'),
]
