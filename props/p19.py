"""P19: a reconstruction recovers the distribution behind the profiles."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography import shortcuts
from longitudinal_tomography.data import data_treatment as dtr
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
from vt import gen
from vt.api import Sub, call, close, need
from props.p01 import with_

RULE = ('synthetic bunches of drawn shape in a drawn bucket, measured over '
        'at least half a synchrotron period; non-trivial: the bunch fits '
        'the reconstruction area')


@st.composite
def case(draw):
    gamma = draw(gen.logfl(1.05, 15.0))
    gt = gamma * draw(gen.few(0.5, 0.7, 1.5, 2.5))
    if gt < 1.5:
        gt = gamma * 2.0
    nprof = draw(st.integers(12, 24))
    return dict(
        nprof=nprof, nbins=draw(st.integers(30, 44)), gamma=gamma, gt=gt,
        A=draw(gen.few(938.27231e6, 193.7e9)), q=draw(gen.few(1, 1, 54, -1)),
        R=draw(gen.logfl(20.0, 200.0)), rho_frac=0.5,
        h=draw(gen.few(1, 2, 7)), v=draw(gen.logfl(1e-6, 3e-5)),
        ss=draw(gen.few(0.0, 0.0, 0.2)), r2=draw(gen.few(0.0, 0.0, 0.3)),
        hr=2.0, phi12=0.0, v1dot=0.0, v2dot=0.0,
        mref=0, bref=0, binfrac=draw(gen.fl(0.95, 1.0)), sx=0.5, snpt=3,
        full=False, cut=0.0, periods=draw(gen.fl(0.5, 1.2)),
        rec=draw(st.integers(0, nprof - 1)),
        shape=draw(gen.few('gauss', 'two', 'shifted', 'ring')),
        size=draw(gen.fl(0.10, 0.16)), ang=draw(gen.fl(0, 6.28)),
        dturns=1, seed=draw(gen.SEED))


def build(c):
    p = gen.machine_params(c)
    phis = None
    kw = dict(p['kw'], demax=-1e6, filmstart=c['rec'], filmstop=c['nprof'])
    args = list(p['args'])
    m = Machine(*args, **kw)
    # synchrotron period -> turns between profiles
    s = abs(m.q * m.drift_coef[0]) * abs(
        m.vrf1_at_turn[0] * np.cos(m.phi0[0])
        + m.h_ratio * m.vrf2_at_turn[0]
        * np.cos(m.h_ratio * (m.phi0[0] - m.phi12)))
    turns = 2 * np.pi / np.sqrt(s)
    d = int(round(c['periods'] * turns / (c['nprof'] - 1)))
    if d < 1 or d * c['nprof'] > 2500:
        return None
    # the synchronous particle where its phase puts it in one RF period
    w = m.h_num * m.omega_rev0[0] * m.dtbin
    args[0] = d
    below = m.q * (m.trans_gamma - m.e0[0] / m.e_rest) > 0
    start = (-np.pi if below else 0.0)
    kw['synch_part_x'] = (m.phi0[0] - start) / w - (
        2 * np.pi / w - m.nbins) / 2
    return Machine(*args, **kw)


def drift(m, x, y, a, b):
    """Track (phase, energy) from profile a to profile b, own model."""
    q, t = m.q, a * m.dturns

    def kick(p, t):
        return (q * m.vrf1_at_turn[t] * np.sin(p + m.phi0[t])
                + q * m.vrf2_at_turn[t]
                * np.sin(m.h_ratio * (p + m.phi0[t] - m.phi12))
                - m.deltaE0[t])
    x, y = x.copy(), y.copy()
    while t < b * m.dturns:
        x -= m.drift_coef[t] * y
        t += 1
        y += kick(x, t)
    while t > b * m.dturns:
        y -= kick(x, t)
        t -= 1
        x += m.drift_coef[t] * y
    return x, y


def distance(c):
    m = build(c)
    if m is None or not np.all(np.isfinite(m.phi0)):
        return None, 'too slow'
    r = np.random.default_rng([c['seed'], 91])
    n = m.nbins
    info = PhaseSpaceInfo(m)
    try:
        info.find_binned_phase_energy_limits()
    except ex.TomoException:
        return None, 'no area'
    dE, xo = info.dEbin, info.xorigin
    # bunch in image coordinates (bins), around the synchronous point
    N = 12000
    s = c['size'] * n
    g = r.normal(0, 1, (2, N)) * s * np.array([[0.5], [0.4]])
    if c['shape'] == 'two':
        g *= 0.6
        g += np.where(r.random(N) < .5, 1, -1) * s * 0.9 * np.array(
            [[np.cos(c['ang'])], [np.sin(c['ang'])]])
    elif c['shape'] == 'shifted':
        g += s * 0.8 * np.array([[np.cos(c['ang'])], [np.sin(c['ang'])]])
    elif c['shape'] == 'ring':
        a = r.uniform(0, 2 * np.pi, N)
        rad = s * (1.2 + 0.12 * r.normal(0, 1, N))
        g = np.stack([rad * np.cos(a), rad * np.sin(a)])
    X = g[0] + m.synch_part_x
    Y = g[1] + n / 2
    w = m.h_num * m.omega_rev0 * m.dtbin
    k = c['rec']
    t0 = k * m.dturns
    ph = (X + xo) * w[t0] - m.phi0[t0]
    en = (Y - n / 2) * dE
    # inside the area at the start?
    i = np.floor(X).astype(int)
    ok = (i >= 0) & (i < n)
    jm = np.where(ok, info.jmax[np.clip(i, 0, n - 1)], 0)
    if np.mean(ok & (np.abs(Y - n / 2) < jm - n / 2)) < 0.99:
        return None, 'does not fit'
    prof = np.zeros((m.nprofiles, n))
    lost = 0
    for f in list(range(k, m.nprofiles)) + list(range(k - 1, -1, -1)):
        if f == k or f == k - 1:
            p_, e_, at = ph, en, k
        p_, e_ = drift(m, p_, e_, at, f)
        at = f
        tt = f * m.dturns
        b = np.floor((p_ + m.phi0[tt]) / w[tt] - xo)
        good = (b >= 0) & (b < n)
        lost = max(lost, 1 - good.mean())
        np.add.at(prof[f], b[good].astype(int), 1.0)
    if lost > 0.01:
        return None, 'leaves the image'
    prof *= 10.0 ** r.uniform(-3, 6)
    x, y = call(shortcuts.track, m, k)
    tomo = call(shortcuts.tomogram, prof, x, y, 30)
    _, _, d = call(dtr.phase_space, tomo, m, k)
    d = d.clip(0)
    d = d / d.sum()
    truth = np.zeros((n, n))
    j = np.floor(Y).astype(int)
    inside = ok & (j >= 0) & (j < n)
    np.add.at(truth, (i[inside], j[inside]), 1.0)
    truth /= truth.sum()

    def coarse(a, q=4):
        z = (-n) % q
        a = np.pad(a, ((0, z), (0, z)))
        h = a.shape[0] // q
        return a.reshape(h, q, h, q).sum((1, 3))
    l1 = 0.5 * np.abs(coarse(d) - coarse(truth)).sum()
    cx = np.arange(n)
    mom = [abs((d.sum(1) * cx).sum() - (truth.sum(1) * cx).sum()),
           abs((d.sum(0) * cx).sum() - (truth.sum(0) * cx).sum())]
    wf = prof / prof.sum(1)[:, None]
    pr = 0.5 * np.abs(d.sum(1) - wf[k]).sum()
    return (l1, max(mom), pr, tomo.diff), c['shape']


LIMITS = (0.45, 1.2, 0.4)


def run(c):
    v, label = distance(c)
    if v is None:
        return False, label
    l1, mom, pr, diff = v
    need(l1 < LIMITS[0] + (0.2 if c['r2'] else 0), f'{l1:.3f} of the beam is not where it was')
    need(mom < LIMITS[1], f'centre of the image is {mom:.2f} bins off')
    need(pr < LIMITS[2], f'projection differs by {pr:.3f} from the profile')
    need(diff[-1] < 0.75 * diff[0], f'discrepancy {diff[0]:.3g} -> '
         f'{diff[-1]:.3g}')
    return True, label


SUBS = [Sub('recover', case(), run, quick=320, shards=6, rule=RULE)]
