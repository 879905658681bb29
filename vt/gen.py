"""Shared generators: every case is a JSON-able dict of drawn scalars; bulk
arrays are pure functions of the drawn sizes and the drawn integer 'seed'."""
import numpy as np
from hypothesis import strategies as st

C = 299792458.0
E_CHARGE = 1.602176634e-19

SEED = st.integers(0, 2**31 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def logfl(lo, hi):
    """Log-uniform positive float."""
    return fl(np.log10(lo), np.log10(hi)).map(lambda x: float(10.0 ** x))


def few(*vals):
    return st.sampled_from(list(vals))


# ---------------------------------------------------------------- tracking

@st.composite
def track_case(draw, max_prof=8, max_dturns=9, max_parts=60, min_prof=1):
    nprof = draw(st.integers(min_prof, max_prof))
    c = dict(
        nprof=nprof,
        dturns=draw(st.integers(1, max_dturns)),
        rec=draw(st.integers(0, nprof - 1)),
        nparts=draw(st.one_of(st.integers(1, 12),
                              st.integers(1, max_parts))),
        V=draw(logfl(1e2, 1e7)),
        r2=draw(few(0.0, 0.0, 0.5, 1.0, 0.25)),
        K=draw(logfl(1e-4, 0.1)) * draw(few(1, -1)),
        hratio=draw(few(1.0, 2.0, 3.0, 0.5, 2.5, 2)),
        phi12=draw(st.one_of(few(0.0, 0), fl(-3.2, 3.2))),
        acc=draw(few(0.0, 0.3, 0.9, -0.5)),
        q=draw(few(1, 1, -1, 2, 54)),
        jitter=draw(few(0.0, 0.2, 0.6)),
        extra=draw(few(0, 0, 1, 7)),
        seed=draw(SEED))
    return c


def track_arrays(c):
    """Per-turn arrays (voltages already multiplied by the charge)."""
    r = np.random.default_rng([c['seed'], 11])
    n = c['dturns'] * (c['nprof'] - 1) + 1 + c.get('extra', 0)
    j = c['jitter']

    def jit(x, spread=j):
        return x * (1 + spread * r.uniform(-1, 1, n))
    a = dict(
        vrf1=jit(np.full(n, c['V'])),
        vrf2=jit(np.full(n, c['V'] * c['r2'])),
        phi0=r.uniform(-0.6, 0.6) + j * r.uniform(-1, 1, n),
        deltaE0=jit(np.full(n, c['V'] * abs(c['q']) * c['acc'] * 0.3)),
        drift_coef=jit(np.full(n, c['K'] / (c['V'] * abs(c['q'])))),
        phi12=c['phi12'] + j * r.uniform(-1, 1, n))
    a['nturns'] = c['dturns'] * (c['nprof'] - 1)
    # particles: amplitude in energy such that the phase advance is moderate
    amp = r.choice([0.0, 1e-3, 1.0, 3.0, 30.0], size=c['nparts'])
    a['dphi'] = r.uniform(-3.2, 3.2, c['nparts'])
    a['denergy'] = (amp * r.uniform(-1, 1, c['nparts'])
                    * c['V'] * abs(c['q']) / np.sqrt(abs(c['K'])) * 0.2)
    return a


def model_track(dphi, denergy, v1, v2, phi0, dE0, drift, phi12, hratio,
                dturns, rec, nprof, dtype=np.longdouble):
    """Independent model: the symplectic kick/drift map of the longitudinal
    equations of motion, turn by turn, in extended precision."""
    T = dtype
    f = lambda x: np.asarray(x, dtype=T)                          # noqa
    v1, v2, phi0, dE0, drift = map(f, (v1, v2, phi0, dE0, drift))
    phi12 = f(phi12) if np.ndim(phi12) else np.full(len(v1), phi12, dtype=T)
    h = T(hratio)
    xp = np.zeros((nprof, len(dphi)), dtype=T)
    yp = np.zeros_like(xp)

    def kick(p, t):
        return (v1[t] * np.sin(p + phi0[t])
                + v2[t] * np.sin(h * (p + phi0[t] - phi12[t])) - dE0[t])
    last = (nprof - 1) * dturns
    p, e = f(dphi).copy(), f(denergy).copy()
    xp[rec], yp[rec] = p, e
    for t in range(rec * dturns + 1, last + 1):
        p = p - drift[t - 1] * e
        e = e + kick(p, t)
        if t % dturns == 0:
            xp[t // dturns], yp[t // dturns] = p, e
    p, e = f(dphi).copy(), f(denergy).copy()
    for t in range(rec * dturns, 0, -1):
        e = e - kick(p, t)
        p = p + drift[t - 1] * e
        if (t - 1) % dturns == 0:
            xp[(t - 1) // dturns], yp[(t - 1) // dturns] = p, e
    return xp.astype(float), yp.astype(float)


def stub_machine(c, a, phi12=None):
    """A real Machine object that carries the generated per-turn arrays."""
    from longitudinal_tomography.tracking.machine import Machine
    m = Machine(c['dturns'], c['V'], 25.0, 8.239, 0.15722, 4.1, 938.27e6,
                c['nprof'], 64, 1e-9, synch_part_x=10.0, charge=c['q'],
                h_ratio=c['hratio'], phi12=c['phi12'], vat_now=False)
    m.phi12 = c['phi12'] if phi12 is None else phi12
    for k in ('phi0', 'deltaE0', 'drift_coef'):
        setattr(m, k, a[k].copy())
    m.vrf1_at_turn, m.vrf2_at_turn = a['vrf1'].copy(), a['vrf2'].copy()
    return m


# --------------------------------------------------------- physical machines

@st.composite
def machine_case(draw, max_prof=8, max_dturns=12, max_bins=80, min_bins=8,
                 accel=True, ref=True, second=True, min_prof=1, wild=False):
    """Parameters of a machine whose bucket exists at every turn.

    wild: also close to transition, and with an RF system that is off at the
    reference frame or changes a lot."""
    nprof = draw(st.integers(min_prof, max_prof))
    gamma = draw(logfl(1.02, 20.0))
    gt = draw(fl(2.0, 25.0))
    if abs(gt - gamma) / gamma < 0.2:
        gt = gamma * draw(few(0.7, 1.5))
    c = dict(
        nprof=nprof, dturns=draw(st.integers(1, max_dturns)),
        nbins=draw(st.integers(min_bins, max_bins)),
        gamma=gamma, gt=gt,
        A=draw(few(938.27231e6, 938.27231e6, 193.7e9, 0.51099895e6)),
        q=draw(few(1, 1, 1, 54, -1)),
        R=draw(logfl(5.0, 700.0)), rho_frac=draw(fl(0.2, 0.9)),
        h=draw(few(1, 1, 2, 7, 21)),
        v=draw(logfl(3e-7, 3e-5)),      # qV / E0
        ss=draw(few(0.0, 0.2, 0.5, -0.3)) if accel else 0.0,
        r2=draw(few(0.0, 0.0, 0.2, 0.4)) if second else 0.0,
        hr=draw(few(2.0, 2.0, 3.0)) if second else 2.0,
        phi12=draw(few(0.0, 0.4, -1.1, 3.0)) if second else 0.0,
        v1dot=draw(few(0.0, 0.0, 1e-4, -1e-4)),  # per turn, relative
        v2dot=draw(few(0.0, 0.0, 1e-4, -1e-4)),
        mref=draw(st.integers(0, nprof - 1)) if ref else 0,
        bref=draw(st.integers(0, nprof - 1)) if ref else 0,
        binfrac=draw(fl(0.4, 1.6)),     # image width / RF period
        sx=draw(fl(0.2, 0.8)),
        snpt=draw(st.integers(1, 4)),
        full=draw(st.booleans()),
        demax=draw(few(-1e6, -1e6, -1.0, 0.5, 2.0)),
        cut=draw(few(0.0, 0.0, 0.1, 0.3)),
        seed=draw(SEED))
    if wild:
        near = draw(few(0, 0, 0, 1, -1))
        if near:
            turns = nprof * c['dturns']
            c['gt'] = gamma * (1 + near * (
                draw(few(1e-3, 3e-3, 1e-2)) + 2 * abs(c['ss']) * c['v']
                * turns))
        c['late2'] = draw(few(0, 0, 1, 2))
        c['steep'] = draw(few(0, 0, 0.2, -0.2))
    return c


def machine_params(c):
    """kwargs/args of the Machine constructor, derived from the case."""
    g = c['gamma']
    beta = np.sqrt(1 - 1 / g ** 2)
    rho = c['R'] * c['rho_frac']
    p = c['A'] * g * beta
    b0 = p / (abs(c['q']) * rho * C)
    V = c['v'] * c['A'] * g / abs(c['q'])
    trev = 2 * np.pi * c['R'] / (beta * C)
    v1dot = c['v1dot'] * V / trev
    v2 = c['r2'] * V
    v2dot = c['v2dot'] * v2 / trev
    turns = c['nprof'] * c['dturns']
    if c.get('late2') and c['r2']:
        # the second system is off at (or near) the reference frame
        v2dot = v2 / (trev * turns)
        v2 = 0.0 if c['late2'] == 1 else -v2dot * trev * c['late2']
    if c.get('steep'):
        v1dot = c['steep'] * V / (trev * turns)
    bdot = c['ss'] * V / (2 * np.pi * c['R'] * rho)
    nb = c['nbins']
    dtbin = c['binfrac'] * trev / c['h'] / nb
    return dict(args=(c['dturns'], V, c['R'], rho, b0, c['gt'], c['A'],
                      c['nprof'], nb, dtbin),
                kw=dict(vrf1dot=v1dot, vrf2=v2, vrf2dot=v2dot, bdot=bdot,
                        phi12=c['phi12'], h_ratio=c['hr'], h_num=c['h'],
                        charge=c['q'], machine_ref_frame=c['mref'],
                        beam_ref_frame=c['bref'], snpt=c['snpt'],
                        full_pp_flag=c['full'],
                        synch_part_x=c['sx'] * nb,
                        filmstart=0, filmstop=max(0, c['nprof'] - 1),
                        filmstep=1,
                        min_dt=c['cut'] * nb * dtbin,
                        max_dt=(1 - c['cut']) * nb * dtbin),
                V=V, trev=trev, beta=beta, rho=rho, b0=b0, bdot=bdot, v2=v2,
                v1dot=v1dot, v2dot=v2dot, dtbin=dtbin)
