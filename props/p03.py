"""P03: tracking with self-fields."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.data.profiles import Profiles
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from props.p01 import with_
from vt import gen
from vt.api import Sub, call, close, known, need, rejects, same


def make(c):
    p = gen.machine_params(c)
    m = call(Machine, *p['args'], **p['kw'])
    r = np.random.default_rng([c['seed'], 5])
    w = r.uniform(0, 1, (c['nprof'], c['nbins'])) + 0.01
    pr = call(Profiles, m, m.dtbin, w)
    turns = np.arange(len(m.phi0))
    drad = m.h_num * m.omega_rev0 * m.dtbin
    phiwrap = float(np.ceil(m.nbins * drad.max() / (2 * np.pi)) * 2 * np.pi)
    wrap = int(np.ceil(np.max(phiwrap / drad))) + 1
    vs = r.uniform(-1, 1, (max(1, c['nprof'] - 1), wrap + 1))
    vs = vs * c['amp'] * p['V']
    pr.phiwrap, pr.wrap_length, pr.vself = phiwrap, wrap, vs
    # particles: anywhere in the image
    ntau = c['nparts']
    xo = r.uniform(-30, 30)
    q = abs(c['q'])
    e = (r.uniform(-1, 1, ntau) * q * p['V'] * 3
         / np.sqrt(np.max(np.abs(m.drift_coef)) * q * p['V'] + 1e-12) * 0.3)
    d = r.uniform(-3, 3, ntau)
    dEbin = float(np.max(np.abs(e)) / max(1, c['nbins'] // 2) + 1e-3)
    return m, pr, p, d, e, xo, dEbin, turns


def model(m, pr, d, e, xo, dEbin, rec, sign_down):
    v = pr.vself
    near = np.zeros(len(d), bool)

    def xc(dp, t):
        u = m.h_num * m.omega_rev0[t] * m.dtbin
        x = dp + m.phi0[t] - xo * u
        x = (x - pr.phiwrap * np.floor(x / pr.phiwrap)) / u
        f = np.abs(x - np.round(x))
        np.logical_or(near, f < 1e-6, out=near)
        w = pr.phiwrap / u
        np.logical_or(near, (x < 1e-6) | (x > w - 1e-6), out=near)
        return x

    def kick(dp, t):
        p = dp + m.phi0[t]
        return (m.q * m.vrf1_at_turn[t] * np.sin(p)
                + m.q * m.vrf2_at_turn[t] * np.sin(m.h_ratio * (p - m.phi12))
                - m.deltaE0[t])
    n = m.nprofiles
    X, Y = np.zeros((n, len(d))), np.zeros((n, len(d)))

    def put(k, x, en):
        X[k], Y[k] = x, en / dEbin + m.nbins / 2
    dp, en = d.copy(), e.copy()
    put(rec, xc(dp, rec * m.dturns), en)
    prof = rec
    for t in range(rec * m.dturns + 1, (n - 1) * m.dturns + 1):
        dp = dp - m.drift_coef[t - 1] * en
        x = xc(dp, t)
        en = en + kick(dp, t) + m.q * v[prof, x.astype(int) - 1]
        if t % m.dturns == 0:
            prof += 1
            put(prof, x, en)
    dp, en = d.copy(), e.copy()
    x, prof = X[rec], rec - 1
    for t in range(rec * m.dturns, 0, -1):
        en = en - kick(dp, t) + sign_down * m.q * v[prof, x.astype(int)]
        dp = dp + m.drift_coef[t - 1] * en
        x = xc(dp, t - 1)
        if (t - 1) % m.dturns == 0:
            put(prof, x, en)
            prof -= 1
    return X, Y, ~near


def tracker(m, pr, xo, dEbin):
    t = call(Tracking, m)
    call(t.enable_self_fields, pr)
    t.particles.xorigin, t.particles.dEbin = xo, dEbin
    return t


def run_model(c):
    m, pr, p, d, e, xo, dEbin, _ = make(c)
    rec = c['rec'] % c['nprof']
    t = tracker(m, pr, xo, dEbin)
    xp, yp = call(t.track, rec, (d.copy(), e.copy()))
    X, Y, ok = model(m, pr, d, e, xo, dEbin, rec, +1)
    X2, Y2, ok2 = model(m, pr, d, e, xo, dEbin, rec, -1)
    tolx = 1e-7 * (1 + np.max(np.abs(X)))
    toly = 1e-7 * (1 + np.max(np.abs(Y)))

    def fits(A, B, k, lo, hi):
        return bool(np.all(np.abs(xp[lo:hi, k] - A[lo:hi, k]) < tolx)
                    and np.all(np.abs(yp[lo:hi, k] - B[lo:hi, k]) < toly))
    close(xp[rec:, ok], X[rec:, ok], 'x towards later profiles', 0, tolx)
    close(yp[rec:, ok], Y[rec:, ok], 'y towards later profiles', 0, toly)
    if rec and ok.any() and c['amp']:
        if not (ok2.any() and fits(X2, Y2, ok2, 0, rec)):
            close(xp[:rec, ok], X[:rec, ok], 'x towards earlier profiles', 0,
                  tolx)
            close(yp[:rec, ok], Y[:rec, ok], 'y towards earlier profiles', 0,
                  toly)
            known('KF-SELF', 'backward tracking adds the self-field voltage')
    return (bool(ok.any()) and c['nprof'] > 1 and c['amp'] > 0,
            f'{"up+down" if 0 < rec < c["nprof"] - 1 else "up" if rec == 0 else "down"}')


def run_zero(c):
    """No self-fields: ordinary tracking, in image coordinates, wrapped."""
    c = dict(c, amp=0.0)
    m, pr, p, d, e, xo, dEbin, _ = make(c)
    rec = c['rec'] % c['nprof']
    t = tracker(m, pr, xo, dEbin)
    xp, yp = call(t.track, rec, (d.copy(), e.copy()))
    t2 = call(Tracking, m)
    a, b = call(t2.track, rec, (d.copy(), e.copy()))
    X, Y = call(pts.physical_to_coords, a, b, m, xo, dEbin)
    w = pr.phiwrap / (m.h_num * m.omega_rev0[::m.dturns][:c['nprof'], None]
                      * m.dtbin)
    dx = np.abs((xp - X) / w - np.round((xp - X) / w)) * w
    tol = 1e-7 * (1 + np.max(np.abs(X)))
    close(dx, np.zeros_like(dx), 'x against ordinary tracking', 0, tol)
    close(yp, Y, 'y against ordinary tracking', 0,
          1e-7 * (1 + np.max(np.abs(Y))))
    need(np.all(xp > -tol) and np.all(xp < w + tol),
         'positions not wrapped into one wrap length')
    return c['nprof'] > 1, 'zero field'


def run_flag(c):
    m, pr, p, d, e, xo, dEbin, _ = make(c)
    t = call(Tracking, m)
    need(t.self_field_flag is False, 'self-fields on by default')
    if c['drop'] == 'phiwrap':
        pr.phiwrap = None
    elif c['drop'] == 'vself':
        pr.vself = None
    else:
        pr.phiwrap = pr.vself = None
    rejects(expt.SelfFieldTrackingError, t.enable_self_fields, pr,
            what=f'{c["drop"]} missing')
    need(t.self_field_flag is False, 'self-fields on after a refused enable')
    x1, y1 = call(t.track, 0, (d.copy(), e.copy()))
    t2 = call(Tracking, m)
    x2, y2 = call(t2.track, 0, (d.copy(), e.copy()))
    same(x1, x2, 'tracking after a refused enable')
    same(y1, y2, 'tracking after a refused enable')
    return True, c['drop']


mc = gen.machine_case(max_prof=6, max_dturns=6, max_bins=60, ref=False)
case = with_(mc, rec=st.integers(0, 9), nparts=st.integers(1, 40),
             amp=gen.few(0.0, 1e-3, 0.05, 0.3, 1.0))
WIT = dict(nprof=2, dturns=1, nbins=8, gamma=2.0, gt=4.1, A=938.27231e6, q=1,
           R=25.0, rho_frac=0.3, h=1, v=1e-5, ss=0.0, r2=0.0, hr=2.0,
           phi12=0.0, v1dot=0.0, v2dot=0.0, mref=0, bref=0, binfrac=1.0,
           sx=0.5, snpt=1, full=False, demax=-1e6, cut=0.0, seed=1, rec=1,
           nparts=3, amp=0.3)
SUBS = [
    Sub('model', case, run_model, quick=600, shards=2, examples=[WIT],
        rule='physical machine, synthetic self-field voltages per bin and '
             'profile interval, drawn start profile; non-trivial: non-zero '
             'field, >1 profile and a particle that stays 1e-6 bins away '
             'from every bin edge (others are left out)'),
    Sub('zero', case, run_zero, quick=300,
        rule='zero self-field; non-trivial: >1 profile'),
    Sub('flag', with_(case, drop=gen.few('phiwrap', 'vself', 'both')),
        run_flag, quick=60, rule='missing self-field data'),
]
