"""P14: profiles: clipping, charge, self-fields, synchronous particle fit."""
import numpy as np
from hypothesis import strategies as st
from scipy import signal

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.data import data_treatment as dt
from longitudinal_tomography.data import pre_process as pp
from longitudinal_tomography.data.profiles import Profiles
from longitudinal_tomography.tracking.machine import Machine
from vt import gen
from vt.api import Sub, call, close, need, rejects, same
from props.p01 import with_

RULE = ('machines as in P04 with bunch-like or noisy profiles, pick-up '
        'sensitivity, coupling and impedance')


def machine(c, **kw):
    p = gen.machine_params(c)
    k = dict(p['kw'], pickup_sensitivity=c.get('pick', 0.3),
             g_coupling=c.get('g', 2.0), zwall_over_n=c.get('zw', 5.0), **kw)
    try:
        m = Machine(*p['args'], **k)
    except ValueError:
        return None
    return m if np.all(np.isfinite(m.phi0)) else None


def waterfall(c):
    r = np.random.default_rng([c['seed'], 61])
    n, P = c['nbins'], c['nprof']
    x = np.arange(n)
    w = np.exp(-0.5 * ((x - n / 2 - r.normal(0, n / 20, (P, 1)))
                       / (n / 8)) ** 2)
    w = w + c['noise'] * r.normal(0, 1, (P, n))
    w[:, n // 2] += 0.5
    if c['dtype']:          # as a digitiser delivers it
        w = np.round(w / np.abs(w).max() * 1000)
        return np.abs(w).astype('uint16') if c['dtype'] == 'uint16' else \
            w.astype(c['dtype'])
    return w * c['amp']


def run_load(c):
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    w = waterfall(c)
    w0 = w.copy()
    n0 = c['nbins']
    w = w[:, :max(1, n0 - c['less'])]
    m.nbins = n0
    P = call(Profiles, m, c['samp'], w)
    same(P.waterfall, np.where(w > 0, w, 0), 'clipped waterfall')
    need(m.nbins == w.shape[1], 'number of bins taken over')
    close(m.synch_part_y, w.shape[1] / 2, 'synch_part_y')
    need(P.profile_charge is None and P.sampling_time == c['samp'],
         'charge not yet known')
    rejects(ex.ProfileChargeNotCalculated, P.calc_self_fields,
            what='self-fields without charge')
    call(P.calc_profilecharge)
    e = 1.602176634e-19
    close(P.profile_charge, np.clip(w[c['bref']], 0, None).sum() * c['samp']
          / (e * c['pick']), 'charge', rtol=1e-12)
    P.waterfall[:] = 0
    same(w, w0[:, :w.shape[1]], "caller's waterfall")
    P = call(Profiles, m, c['samp'], w, 3.5)
    need(P.profile_charge == 3.5, 'given charge')
    # refused
    rejects(ex.WaterfallError, Profiles, m, c['samp'], 3.0, what='a number')
    rejects(ex.WaterfallError, Profiles, m, c['samp'],
            np.vstack([w, w[:1]]), what='one profile too many')
    if c['nprof'] > 1:
        rejects(ex.WaterfallError, Profiles, m, c['samp'], w[1:],
                what='one profile missing')
    for bad in (-np.abs(w * 1.0), np.zeros_like(w)):
        rejects(ex.WaterfallReducedToZero, Profiles, m, c['samp'], bad,
                what='nothing positive')
    return bool(np.any(w < 0)), 'negative values' if np.any(w < 0) else 'pos.'


def run_self(c):
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    w = waterfall(dict(c, dtype=''))
    if c['nbins'] < 7:
        return False, 'too short for the filter'
    pos = np.clip(w, 0, None)
    if np.any(pos.sum(axis=1) <= 0):
        return False, 'empty profile'
    P = call(Profiles, m, c['samp'], w)
    call(P.calc_profilecharge)
    Q = P.profile_charge
    r = np.random.default_rng([c['seed'], 62])
    given = r.normal(0, 1, w.shape)
    way = c['way']
    seen = []
    if way == 'given':
        call(P.calc_self_fields, given if c['alist'] else given.tolist())
        ds = given
    elif way == 'filter':
        def filt(a):
            seen.append(a.copy())
            a *= 2.0
            return a + given
        call(P.calc_self_fields, in_filter=filt)
        ds = 2 * pos + given
        same(seen[0], pos, 'what the filter is given')
        same(P.waterfall, pos, 'waterfall after filtering')
    else:
        call(P.calc_self_fields)
        ds = np.stack([signal.savgol_filter(row / row.sum(), 7, 4, deriv=1)
                       for row in pos])
    s = np.abs(ds).max()
    close(P.dsprofiles, ds, 'filtered profiles', rtol=0, atol=1e-12 * s)
    T = np.arange(c['nprof']) * c['dturns']
    last = (c['nprof'] - 1) * c['dturns'] - 1
    turn = last if m.bdot > 0 else 0
    d = m.h_num * m.omega_rev0[turn] * m.dtbin
    k = c['nbins'] * d / (2 * np.pi)
    if abs(k - round(k)) < 1e-9:
        return False, 'whole periods'
    wrap = np.ceil(k) * 2 * np.pi
    close(P.phiwrap, wrap, 'wrap phase')
    if abs(wrap / d - round(wrap / d)) > 1e-9:
        need(P.wrap_length == int(np.ceil(wrap / d)), f'wrap length '
             f'{P.wrap_length}, not {np.ceil(wrap / d)}')
    need(P.wrap_length >= c['nbins'], 'wrap length covers the image')
    b, om = m.beta0[T], m.omega_rev0[T]
    Z = (1 / b - b) * c['g'] * np.pi * 2e-7 * gen.C - c['zw']
    sfc = gen.E_CHARGE / om * Z / m.dtbin ** 2
    zt = (np.abs((1 / b - b) * c['g'] * np.pi * 2e-7 * gen.C)
          + abs(c['zw'])) * gen.E_CHARGE / om / m.dtbin ** 2
    v = 0.5 * Q * (sfc[:-1, None] * ds[:-1] + sfc[1:, None] * ds[1:])
    need(P.vself.shape == (c['nprof'] - 1, P.wrap_length + 1),
         f'shape of the self-field voltages {P.vself.shape}')
    n = c['nbins']
    if c['nprof'] > 1:
        close(P.vself[:, :n], v, 'self-field voltage', rtol=1e-9,
              atol=1e-10 * Q * s * zt.max())
        need(np.all(P.vself[:, n:] == 0), 'self-field outside the image')
    rejects(ex.FilteredProfilesError, P.calc_self_fields, given[:, 1:],
            what='wrong shape')
    rejects(ex.FilteredProfilesError, P.calc_self_fields, 3.0, what='number')
    rejects(ex.FilteredProfilesError, P.calc_self_fields,
            in_filter=lambda a: a[:, :-1], what='filter that drops a bin')
    rejects(ex.FilteredProfilesError, P.calc_self_fields,
            in_filter=lambda a: np.vstack([a, a[:1]]),
            what='filter that adds a profile')
    rejects(ex.FilteredProfilesError, P.calc_self_fields,
            np.vstack([given, given[:1]]), what='one profile too many')
    if c['nprof'] > 1:
        rejects(ex.FilteredProfilesError, P.calc_self_fields,
                in_filter=lambda a: a[1:], what='filter that drops a profile')
        rejects(ex.FilteredProfilesError, P.calc_self_fields, given[1:],
                what='one profile missing')
    return c['nprof'] > 1, way


# ------------------------------------------------------------------- fit
def feet(p):
    """Lines through the two bins on either side of the 15 % crossing."""
    thr = 0.15 * p.max()
    top = int(np.argmax(p))
    below = np.flatnonzero(p < thr)
    lo = below[below < top][-1] + 1
    up = below[below > top][0] - 1
    if lo < 2 or up + 3 > len(p):
        raise IndexError

    def root(i):
        x = np.arange(i, i + 4) + 0.5
        y = p[i:i + 4]
        b = ((x - x.mean()) * (y - y.mean())).sum() / \
            ((x - x.mean()) ** 2).sum()
        return x.mean() - y.mean() / b, b
    return root(lo - 2), root(up - 1), lo, up


def run_fit(c):
    c = dict(c, nbins=max(c['nbins'], 30), bdot0=0)
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    r = np.random.default_rng([c['seed'], 63])
    n = c['nbins']
    w = np.zeros((c['nprof'], n))
    x = np.arange(n) + 0.5
    mid = n * c['mid']
    wid = n * c['wid']
    sk = c['skew']
    s = np.where(x < mid, wid * (1 + sk), wid * (1 - sk))
    prof = np.exp(-0.5 * ((x - mid) / s) ** 2) if c['gauss'] else \
        np.clip(1 - ((x - mid) / (2.2 * s)) ** 2, 0, None)
    w += prof * r.uniform(0.5, 2, (c['nprof'], 1)) * c['amp']
    others = np.roll(w, 3, axis=1)
    w = np.where((np.arange(c['nprof']) == c['bref'])[:, None], w, others)
    w *= 1 + c['noise'] * r.uniform(-1, 1, w.shape)
    if c['adc']:        # few levels: a bin may lie exactly at 15 %
        w = np.round(w / w[c['bref']].max() * 20 * c['adc'])
        if c['adc'] == 4:
            w = np.clip(w, 0, 60000).astype(c['dtype'])
    try:
        (fl, bl), (fu, bu), lo, up = feet(w[c['bref']] * 1.0)
    except IndexError:
        return False, 'bunch not inside the image'
    if lo - 2 < 0 or up + 3 > n or bl <= 0 or bu >= 0:
        return False, 'bunch not inside the image'
    t = c['bref'] * c['dturns']
    drad = m.h_num * m.omega_rev0[t] * m.dtbin
    L = (fu - fl) * drad
    if not 0.05 < L < 2.5:
        return False, 'bunch length'
    w0 = w.copy()
    try:
        got, gl, gu = pp.fit_synch_part_x(w, m)
    except RuntimeError as e:
        need(m.vrf2_at_turn[t] != 0, lambda: f'fit failed: {e}')
        return False, 'no convergence'
    close([gl, gu], [fl, fu], 'tangent feet', rtol=1e-9, atol=1e-7)
    for fn in (pp.fit_synch_part_x, dt.fit_synch_part_x):
        P = Profiles(m, m.dtbin, w)
        close(call(fn, P), [got, gl, gu], 'fit through Profiles', rtol=1e-9)
    same(w, w0, "caller's waterfall")
    # the bunch ends lie on one trajectory about the synchronous phase
    v1, v2 = m.vrf1_at_turn[t], m.vrf2_at_turn[t]
    h, p12, p0 = m.h_ratio, m.phi12, m.phi0[t]

    def f(p):
        return (v1 * (np.cos(p + L) - np.cos(p))
                + v2 / h * (np.cos(h * (p + L - p12)) - np.cos(h * (p - p12)))
                + L * (v1 * np.sin(p0) + v2 * np.sin(h * (p0 - p12))))

    def df(p):
        return (-v1 * (np.sin(p + L) - np.sin(p))
                - v2 * (np.sin(h * (p + L - p12)) - np.sin(h * (p - p12))))
    phil = p0 - (got - fl) * drad
    if not -L - 1.0 < phil - p0 < 1.0:
        return False, 'other root'
    if abs(df(phil)) < 0.05 * L * abs(v1):
        return False, 'flat potential'
    q = phil
    for _ in range(4):
        q = q - f(q) / df(q)
    # scipy stops when a step is below 1e-4; the next is quadratically small
    need(abs(q - phil) < 1e-5, f'bunch ends at different potential: lower '
         f'phase {phil}, should be {q}; synchronous phase {p0}, bunch '
         f'length {L}')
    m.load_fitted_synch_part_x_ftn((got, gl, gu))
    need(m.synch_part_x == got and m.fitted_synch_part_x == got
         and m.bunchlimit_low == gl and m.bunchlimit_up == gu,
         'fit stored in the machine')
    if not m.bdot and v2 == 0:
        close(got, (fl + fu) / 2, 'stationary bucket: middle of the bunch',
              rtol=0, atol=1e-5 / drad)
    return True, 'ramped voltage' if c['v1dot'] else 'constant voltage'


pc = with_(gen.machine_case(min_bins=8, wild=True), pick=gen.logfl(1e-3, 10),
           g=gen.fl(0, 5), zw=gen.fl(-50, 50), samp=gen.logfl(1e-11, 1e-7),
           noise=gen.few(0.0, 0.02, 0.3), amp=gen.logfl(1e-3, 1e6),
           dtype=gen.few('', '', '', 'int64', 'int16', 'uint16'))
SUBS = [
    Sub('load', with_(pc, less=gen.few(0, 0, 1, 3)), run_load, quick=1500,
        shards=2, rule=RULE + '; non-trivial: negative values to clip'),
    Sub('self', with_(pc, way=gen.few('default', 'default', 'given',
                                      'filter'), alist=st.booleans()),
        run_self, quick=1500, shards=2,
        rule=RULE + '; non-trivial: two or more profiles'),
    Sub('fit', with_(gen.machine_case(min_bins=30, max_bins=200, wild=True),
                     mid=gen.fl(0.3, 0.7), wid=gen.fl(0.03, 0.12),
                     skew=gen.few(0.0, 0.0, 0.2, -0.3), gauss=st.booleans(),
                     noise=gen.few(0.0, 0.01), amp=gen.logfl(1e-3, 1e6),
                     adc=gen.few(0, 0, 0, 1, 4),
                     dtype=gen.few('int64', 'uint16', 'float')),
        run_fit, quick=4000, shards=3, rule=RULE + '; non-trivial: fit done'),
]
