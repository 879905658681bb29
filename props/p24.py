"""P24: the beam figures of utils.tomographics."""
import numpy as np
from hypothesis import strategies as st
from scipy import constants as const, integrate, optimize

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils import tomographics as tg
from vt import gen
from vt.api import Sub, Violation, call, close, need, rejects, same
from props.p01 import with_


# ------------------------------------------------------------ tangent feet
def run_feet(c):
    r = np.random.default_rng([c['seed'], 81])
    n = c['n']
    b = np.arange(n)
    mid, wid = n * c['mid'], max(n * c['wid'], 1.5)
    s = np.where(b < mid, wid * (1 + c['skew']), wid * (1 - c['skew']))
    if c['shape'] == 'gauss':
        y = np.exp(-0.5 * ((b - mid) / s) ** 2)
    elif c['shape'] == 'triangle':
        y = np.clip(1 - np.abs(b - mid) / (3 * s), 0, None)
    else:
        y = np.clip(1 - ((b - mid) / (2.5 * s)) ** 2, 0, None)
    if c['second']:
        y = y + c['second'] * np.roll(y, int(n * 0.2))
    y = (y + c['noise'] * r.uniform(-1, 1, n)) * c['amp']
    x = c['x0'] + c['dx'] * b
    top = y.max()
    if np.min(np.abs(y - 0.15 * top)) < 1e-7 * top:
        return False, 'on the threshold'
    above = np.flatnonzero(y >= 0.15 * top)
    lo, up = int(above[0]), int(above[-1])
    y0, x0 = y.copy(), x.copy()
    trf = c['trf'] * n * c['dx']

    def go(xx=x, yy=y, t=trf):
        return tg.foot_tangent_fit_dq(xx, yy, t, apply_filter=c['filt'])
    if lo < 3 or up + 3 >= n:
        rejects(ex.InvalidProfileError, go, what='profile that fills the '
                'window')
        return True, 'too long'

    def root(k):
        i = np.arange(k, k + 6)
        v = y[i] / top
        slope = ((i - i.mean()) * v).sum() / ((i - i.mean()) ** 2).sum()
        return i.mean() - v.mean() / slope, slope
    (a, sa), (z, sz) = root(lo - 3), root(up - 2)
    if abs(sa) < 1e-3 or abs(sz) < 1e-3:
        return False, 'flat'
    a, z = c['x0'] + c['dx'] * a, c['x0'] + c['dx'] * z
    tol = 1e-7 * c['dx'] + 1e-11 * abs(c['x0'])
    tol *= 1 + 1e-2 / min(abs(sa), abs(sz)) ** 2
    length = z - a
    if min(abs(length), abs(length - trf)) < 2 * tol + 1e-9 * trf:
        return False, 'on a limit'
    if not 0 <= length < trf:
        rejects(ex.InvalidProfileError, go, what=f'length {length} with RF '
                f'period {trf}')
        return True, 'beyond the period'
    got = call(go)
    close(got, [a, z], 'feet', rtol=0, atol=tol)
    same(y, y0, "caller's profile")
    same(x, x0, "caller's axis")
    return True, c['shape']


def profile(c):
    r = np.random.default_rng([c['seed'], 89])
    n = c['n']
    b = np.arange(n)
    mid, wid = n * c['mid'], max(n * c['wid'], 1.5)
    s = np.where(b < mid, wid * (1 + c['skew']), wid * (1 - c['skew']))
    if c['shape'] == 'gauss':
        y = np.exp(-0.5 * ((b - mid) / s) ** 2)
    else:
        y = np.clip(1 - np.abs(b - mid) / (3 * s), 0, None)
    return (y + c['noise'] * r.uniform(0, 1, n)) * c['amp']


def run_tangent(c):
    """Lines through the four bins around the crossing of the level."""
    y = profile(c)
    n = len(y)
    top, t = y.max(), int(np.argmax(y))

    def line(v, k):
        i = np.arange(k, k + 4)
        v = v[k:k + 4] / top
        b = ((i - i.mean()) * v).sum() / ((i - i.mean()) ** 2).sum()
        return i.mean() - v.mean() / b if abs(b) > 1e-3 else None
    y0 = y.copy()
    done = 0
    low = np.flatnonzero(y < 0.15 * top)
    le, ri = low[low < t], low[low > t]
    clear = np.min(np.abs(y - 0.15 * top)) > 1e-9 * top
    if clear and len(le) and len(ri) and le[-1] >= 1 and ri[0] + 2 <= n:
        a, z = line(y, le[-1] - 1), line(y, ri[0] - 2)
        if a is not None and z is not None:
            dx = c['dx']
            # half a bin outside the crossings with zero
            tol = 1e-9 * n
            got = call(tg.foot_tangent_fit, y, dx)
            close(np.array(got) / dx, [a - .5, z + .5], 'feet', rtol=0,
                  atol=tol)
            if c['one']:
                close(call(tg.foot_tangent_fit, y), [a - .5, z + .5],
                      'feet in bins', rtol=0, atol=tol)
            if np.sum(y == top) == 1:
                m = call(tg.foot_tangent_fit, y[::-1], dx)
                close(np.array(m) / dx, [n - 1.5 - z, n - .5 - a],
                      'feet of the mirrored profile', rtol=0, atol=tol)
            done = 1
    # the same for a falling curve above its least value, on a drawn axis
    v = y - y.min()
    top = v.max()
    lev = c['level']
    if not 0 < lev < 1:
        rejects(ValueError, tg.foot_tangent_fit_density, y, y, lev,
                what=f'level {lev}')
        return True, 'level refused'
    x = np.cumsum(np.random.default_rng([c['seed'], 88]).uniform(.1, 1, n))
    ri = np.flatnonzero(v < lev * top)
    ri = ri[ri > t]
    if np.min(np.abs(v - lev * top)) > 1e-9 * top and len(ri) and \
            ri[0] + 2 <= n and ri[0] >= 2:
        z = line(v, ri[0] - 2)
        if z is not None:
            want = np.interp(z + .5, np.arange(n), x)
            close(call(tg.foot_tangent_fit_density, y, x, lev), want,
                  'foot of the curve', rtol=0, atol=1e-9 * n)
            if lev == 0.15:
                close(call(tg.foot_tangent_fit_density, y, x), want,
                      'foot of the curve', rtol=0, atol=1e-9 * n)
            done = 1
    same(y, y0, "caller's profile")
    return bool(done), c['shape']


# ------------------------------------------------------------- image figures
def image(c):
    r = np.random.default_rng([c['seed'], 82])
    n = c['n']
    i = (np.arange(n) - n * c['cx']) / (n * c['sx'])
    j = (np.arange(n) - n * c['cy']) / (n * c['sy'])
    im = np.exp(-0.5 * (i[:, None] ** 2 + j[None, :] ** 2
                        + 2 * c['tilt'] * i[:, None] * j[None, :]))
    if c['noise']:
        im = im * r.uniform(0, 1, im.shape)
    if c['sparse']:
        im = im * (r.random(im.shape) < 0.3)
    if im.sum() <= 1e-3:
        im[r.integers(0, n), r.integers(0, n)] = 1.0
    return im / im.sum()


def run_rms(c):
    im = image(c)
    n, dt, dE = c['n'], c['dt'], c['dE']
    im0 = im.copy()
    with np.errstate(all='ignore'):
        e, mt, st_, me, se = call(tg.rms_params, im, dt, dE)
    same(im, im0, "caller's image")
    L = np.longdouble
    w = im.astype(L)
    k = np.arange(n, dtype=L)
    px, py = w.sum(axis=1), w.sum(axis=0)
    mx, my = (px * k).sum(), (py * k).sum()
    vx, vy = (px * (k - mx) ** 2).sum(), (py * (k - my) ** 2).sum()
    cov = (w * (k - mx)[:, None] * (k - my)[None, :]).sum()
    eps = 1e-13 * n * n
    close(mt, float(mx) * dt, 'mean time', rtol=1e-10, atol=1e-13 * n * dt)
    close(me, float(my - L(n) / 2) * dE, 'mean energy', rtol=1e-10,
          atol=1e-12 * n * dE)
    if min(vx, vy) < 100 * eps:
        return False, 'no spread'
    close(st_, float(np.sqrt(vx)) * dt, 'rms time', rtol=1e-9 + eps / vx)
    close(se, float(np.sqrt(vy)) * dE, 'rms energy', rtol=1e-9 + eps / vy)
    d = vx * vy - cov ** 2
    lim = 4 * eps * (vx + vy + np.abs(cov)) * 4
    if d < 100 * lim:
        return False, 'line'
    close(e, float(np.pi * dt * dE * np.sqrt(d)), 'rms emittance',
          rtol=float(1e-9 + lim / d))
    return True, 'tilted' if c['tilt'] else 'upright'


def run_density(c):
    """The densest cells that hold the fraction, to within one cell."""
    im = image(c)
    dt, dE, f = c['dt'], c['dE'], c['fraction']
    if not 0 < f < 1:
        rejects(ValueError, tg.emittance_density_calc, im, dt, dE, f,
                what=f'fraction {f}')
        return True, 'refused'
    im0 = im.copy()
    got = call(tg.emittance_density_calc, im, dt, dE, f) / (dt * dE)
    if f == 0.9:
        close(call(tg.emittance_density_calc, im, dt, dE), got * dt * dE,
              'default fraction')
    same(im, im0, "caller's image")
    v = np.sort(im.ravel())[::-1]
    cum = np.concatenate([[0], np.cumsum(v)])
    # cells whose density holds a little less / more than the fraction
    k = np.arange(cum.size)
    lo = np.interp(max(f - 1e-9, 0), cum, k)
    i = np.searchsorted(cum, min(f + 1e-9, cum[-1]), side='left')
    hi = min(float(i), float(v.size))
    need(lo - 1 - 1e-6 <= got <= hi + 1e-6,
         f'{f:.3f} of the density in {got} cells; {lo}..{hi} needed')
    p = np.random.default_rng([c['seed'], 83]).permutation(im.size)
    other = call(tg.emittance_density_calc, im.ravel()[p].reshape(im.shape),
                 dt, dE, f) / (dt * dE)
    g = min(f + c['step'], 0.999)
    more = call(tg.emittance_density_calc, im, dt, dE, g) / (dt * dE)
    if np.count_nonzero(v) > 1 and g < 0.99:
        close(other, got, 'rearranged image', rtol=1e-9, atol=1e-4)
    need(more >= got - 1e-6, 'a larger fraction needs more area')
    return np.count_nonzero(v) > 2, 'image'


# ---------------------------------------------------------------- contours
def machine(c):
    """A stationary bucket above transition, one RF system."""
    p = gen.machine_params(c)
    try:
        m = Machine(*p['args'], **p['kw'])
    except ValueError:
        return None, p
    if c.get('vary'):
        # another energy, and what follows from it, at every turn
        m.e0 = m.e0 * (1 + c['vary'] * np.arange(m.e0.size) / m.e0.size)
        m.beta0 = np.sqrt(1 - (m.e_rest / m.e0) ** 2)
        m.eta0 = (1 - m.beta0 ** 2) - m.trans_gamma ** -2
        m.omega_rev0 = m.beta0 * const.c / m.mean_orbit_rad
        m.drift_coef = (2 * np.pi * m.h_num * m.eta0
                        / (m.e0 * m.beta0 ** 2))
    return m, p


def well(m, c, turn):
    """Energy height of the contour that reaches `half` rad from its centre,
    as a function of the distance from the centre."""
    e0, eta = m.e0[turn], m.eta0[turn]
    b2 = 1 - (m.e_rest / e0) ** 2
    k = abs(m.q) * m.vrf1 * b2 * e0 / (np.pi * m.h_num * abs(eta))

    def height(phi, half):
        return np.sqrt(np.clip(k * (np.cos(phi) - np.cos(half)), 0, None))
    return height


def area(m, height, half, turn):
    # substitution phi = half sin(u) keeps the integrand smooth
    f = lambda u: height(half * np.sin(u), half) * half * np.cos(u)  # noqa
    v = integrate.quad(f, -np.pi / 2, np.pi / 2, limit=200)[0]
    return 2 * v / (m.h_num * m.omega_rev0[turn])


def run_matched(c):
    m, p = machine(c)
    if m is None:
        return False, 'no bucket'
    frame = c['frame'] % c['nprof']
    given = c['explicit']
    turn = (frame if given else c['mref']) * c['dturns']
    half = c['half']
    tau = 2 * half / (m.h_num * m.omega_rev0[turn])
    with np.errstate(all='ignore'):
        got = call(tg.matched_area_calc, m, tau, frame) if given else \
            call(tg.matched_area_calc, m, tau)
    want = area(m, well(m, c, turn), half, turn)
    close(float(np.ravel(got)[0]), want, 'matched area', rtol=c.get('tol',
                                                                    0.02))
    return True, 'frame given' if given else 'reference frame'


def run_clip(c):
    m, p = machine(c)
    if m is None:
        return False, 'no bucket'
    frame = c['frame'] % c['nprof']
    given = c['explicit']
    turn = (frame if given else c['mref']) * c['dturns']
    col = frame if given else c['mref']
    r = np.random.default_rng([c['seed'], 84])
    height = well(m, c, turn)
    per = 2 * np.pi / (m.h_num * m.omega_rev0[turn])
    n = c['grid']
    sx = 0.4 + 0.2 * c['sx']            # the image shows one bucket only
    # the axis may begin before or after the time zero of the machine
    off = c['off']
    t = (np.arange(n) + off) * per * c['span'] * min(
        0.5 / sx, 0.5 / (1 - sx)) / n
    m.synch_part_x = sx * n + off
    top = height(0, np.pi)
    dE = np.linspace(-1.1, 1.1, c['ngrid']) * top
    half = c['half']
    want = area(m, height, half, turn) if half < np.pi else \
        area(m, height, np.pi, turn) * 1.5
    np_ = c['parts']
    X = r.uniform(0, n - 1, (np_, c['nprof']))
    Y = r.uniform(0, c['ngrid'] - 1, (np_, c['nprof']))
    w = r.uniform(0.1, 1, np_)
    # a particle that is certainly inside
    X[0], Y[0] = sx * n, (c['ngrid'] - 1) / 2
    w0, X0, Y0 = w.copy(), X.copy(), Y.copy()
    with np.errstate(all='ignore'):
        k = dict(n_points_amplitude=c['amps'])
        if given:
            k['idx_frame'] = frame
        nw, h, idx = call(tg.tomo_weight_clipping, m, t, dE, X, Y, w, want,
                          **k)
    same(w, w0, "caller's weights")
    same(X, X0, 'phase coordinates')
    same(Y, Y0, 'energy coordinates')
    close(nw.sum(), w.sum(), 'sum of weights', rtol=1e-9)
    need(np.all(nw >= 0), 'negative weights')
    # the contour: the first of the amplitudes that holds the emittance
    phi = (t - m.synch_part_x * (t[1] - t[0])) * m.h_num * \
        m.omega_rev0[turn]
    lev = np.linspace(0, 1, c['amps']) * 2
    trap = None
    for a in lev:
        hh = np.arccos(np.clip(1 - a, -1, 1))
        mine = np.where(np.abs(phi) <= np.pi, height(phi, hh), 0)
        s = 2 * (mine.sum() - (mine[0] + mine[-1]) / 2) * \
            (phi[1] - phi[0]) / (m.h_num * m.omega_rev0[turn])
        if trap is not None and abs(s - want) < 1e-3 * want:
            return False, 'target on a contour'
        trap = s
        if s >= want:
            break
    inside = np.abs(phi) <= np.pi
    close(h[inside], mine[inside], 'contour height', rtol=0.0,
          atol=0.02 * top + 0.0)
    x, y = X[:, col], (Y[:, col] - (c['ngrid'] - 1) / 2) * (dE[1] - dE[0])
    i = np.floor(x).astype(int)
    hl = np.minimum.reduce([h[np.clip(i + d, 0, n - 1)] for d in (-1, 0, 1)])
    hu = np.maximum.reduce([h[np.clip(i + d, 0, n - 1)] for d in (-1, 0, 1)])
    out = np.abs(y) > hu * (1 + 1e-9) + 1e-9 * top
    ins = (np.abs(y) < hl * (1 - 1e-9) - 1e-9 * top)
    last = i >= n - 1
    need(np.all(nw[out & ~last] == 0), lambda: 'particles outside the '
         f'contour keep weights {nw[out & ~last][:5]}')
    if ins.any():
        f = (nw / w)[ins]
        close(f, np.full(f.size, f[0]), 'common factor inside', rtol=1e-9)
        need(f[0] >= 1 - 1e-9, f'factor {f[0]} inside')
        kept = nw > 0
        close((nw / w)[kept], np.full(kept.sum(), f[0]), 'common factor of '
              'all that is kept', rtol=1e-9)
    idx = np.asarray(idx)
    need(idx.dtype.kind == 'i' and idx.ndim == 1 and
         np.all((idx >= 0) & (idx < np_)), lambda: f'indices {idx[:5]}')
    need(np.all(nw[idx] > 0), 'an extreme particle has no weight')
    return bool(out.any() and ins.any()), f'{"full" if half >= np.pi else ""}'


def run_density_curve(c):
    """Density inside and on the contours of a bucket."""
    m, p = machine(c)
    if m is None:
        return False, 'no bucket'
    frame = c['frame'] % c['nprof']
    turn = (frame if c['explicit'] else c['mref']) * c['dturns']
    r = np.random.default_rng([c['seed'], 85])
    height = well(m, c, turn)
    w = m.h_num * m.omega_rev0[turn]
    n, ne = c['grid'], 2 * c['nhalf'] + 1
    sx = 0.4 + 0.2 * c['sx']
    t = (np.arange(n) + c['off']) * 2 * np.pi / w * c['span'] * min(
        0.5 / sx, 0.5 / (1 - sx)) / n
    m.synch_part_x = sx * n + c['off']
    top = height(0, np.pi)
    dE = np.linspace(-1.2, 1.2, ne) * top
    phi = (t - m.synch_part_x * (t[1] - t[0])) * w
    if c['kind'] == 'flat':
        im = np.full((n, ne), 0.7)
    elif c['kind'] == 'linear':
        im = r.uniform(0.5, 1, (n, 1)) + r.uniform(-.3, .3, (n, 1)) * dE / top
    else:
        im = r.uniform(0, 1, (n, ne))
    im *= c['amp']
    im0 = im.copy()
    k = dict(n_points_amplitude=c['amps'])
    if c['explicit']:
        k['idx_frame'] = frame
    with np.errstate(all='ignore'):
        em, loc, lo, hi, tot = call(tg.density_vs_emittance, m, im, t, dE, **k)
    same(im, im0, "caller's image")
    for a in (em, loc, lo, hi, tot):
        need(np.shape(a) == (c['amps'],), 'one value per amplitude')
    if c['seed'] % 8 == 0:
        k.pop('n_points_amplitude')
        with np.errstate(all='ignore'):
            one, two = (call(tg.density_vs_emittance, m, im, t, dE, **k, **x)
                        for x in ({}, dict(n_points_amplitude=100)))
        for a, b in zip(one, two):
            close(a, b, '100 amplitudes by default', rtol=1e-9)
    res = dE[1] - dE[0]
    done = 0
    for i, a in enumerate(np.linspace(0, 2, c['amps'])):
        if i == 0 or a > 1.9:
            continue
        half = np.arccos(1 - a)
        if np.min(np.abs(np.abs(phi) - half)) < 2e-3:
            continue
        h = height(phi, half)
        ins = np.abs(phi) < half
        if not ins.any():
            continue
        s = 2 * (h.sum() - (h[0] + h[-1]) / 2) * (phi[1] - phi[0]) / w
        close(em[i], s, 'emittance of the contour', rtol=0.01)
        inside, edge = 0.0, []
        for j in np.flatnonzero(ins):
            x = np.concatenate([[-h[j]], dE[np.abs(dE) < h[j]], [h[j]]])
            y = np.interp(x, dE, im[j])
            inside += np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)) / res
            edge.append((y[0], y[-1]))
        close(tot[i], inside / im.sum(), 'part of the density inside',
              rtol=0.01)
        edge = np.array(edge)
        tol = 0.02 * c['amp']
        close(loc[i], edge.mean(), 'mean density on the contour', rtol=0,
              atol=tol)
        close(lo[i], edge.min(), 'least density on the contour', rtol=0,
              atol=tol * (1 + ne / 10))
        close(hi[i], edge.max(), 'largest density on the contour', rtol=0,
              atol=tol * (1 + ne / 10))
        done += 1
    if em[0] == 0 and tot[0] == 0 and em[2] > em[1] * (1 + 1e-6) > 0:
        # nothing lies on the contour without area: the line through the
        # next two
        b = (loc[2] - loc[1]) / (em[2] - em[1])
        close([loc[0], lo[0], hi[0]], [loc[1] - b * em[1]] * 3,
              'density in the middle', rtol=1e-6, atol=1e-9 * c['amp'])
    return done > 2, c['kind']


STAT = gen.machine_case(max_prof=4, max_dturns=4, accel=False, second=False)


def above(c):
    c['vary'] = (0.0, 0.0, 0.3, 1.0)[c['seed'] % 4]
    g = c['gamma']
    if c['gt'] >= g:
        c['gt'], c['gamma'] = max(1.01, g), c['gt'] * 1.3
    c['v1dot'] = c['v2dot'] = 0.0
    c['q'] = abs(c['q'])
    return c


IM = dict(n=st.integers(2, 40), cx=gen.fl(0.2, 0.8), cy=gen.fl(0.2, 0.8),
          sx=gen.logfl(0.02, 0.5), sy=gen.logfl(0.02, 0.5),
          tilt=gen.few(0.0, 0.0, 0.5, -0.8), noise=st.booleans(),
          sparse=st.booleans(), dt=gen.logfl(1e-11, 1e-6),
          dE=gen.logfl(1e-1, 1e8), seed=gen.SEED)
SUBS = [
    Sub('feet', st.fixed_dictionaries(dict(
        n=st.integers(12, 150), mid=gen.fl(0.2, 0.8), wid=gen.fl(0.02, 0.2),
        skew=gen.few(0.0, 0.0, 0.3, -0.4),
        shape=gen.few('gauss', 'triangle', 'parabola'),
        second=gen.few(0.0, 0.0, 0.4), noise=gen.few(0.0, 0.0, 0.03),
        amp=gen.logfl(1e-6, 1e6), x0=gen.few(0.0, 0.0, 3.0, -40.0),
        dx=gen.logfl(1e-2, 1e2), trf=gen.few(0.3, 0.7, 1.0, 3.0),
        filt=st.booleans(), seed=gen.SEED)), run_feet, quick=2500,
        rule='profiles of drawn shape and position; non-trivial: judged'),
    Sub('tangent', st.fixed_dictionaries(dict(
        n=st.integers(8, 150), mid=st.one_of(gen.fl(0.2, 0.8),
                                             gen.fl(0.0, 0.2)),
        wid=gen.fl(0.02, 0.2), skew=gen.few(0.0, 0.0, 0.3, -0.4),
        shape=gen.few('gauss', 'triangle'), noise=gen.few(0.0, 0.0, 0.03),
        amp=gen.logfl(1e-6, 1e6), dx=gen.logfl(1e-12, 1e2), one=st.booleans(),
        level=st.one_of(gen.few(0.15, 0.15, 0.0, 1.0, -0.1, 1.5),
                        gen.fl(0.02, 0.9)), seed=gen.SEED)), run_tangent,
        quick=2500, rule='profiles of drawn shape and position; non-trivial: '
        'judged'),
    Sub('rms', st.fixed_dictionaries(IM), run_rms, quick=1500,
        rule='square normalised images; non-trivial: spread in both axes'),
    Sub('density', st.fixed_dictionaries(dict(
        IM, fraction=st.one_of(gen.fl(0.02, 0.98), gen.few(0.9, 0.9, 0.0,
                                                           1.0, -0.1, 1.5)),
        step=gen.fl(0, 0.3))), run_density, quick=1500,
        rule='square normalised images; non-trivial: three or more cells'),
    Sub('matched', with_(STAT.map(above), half=gen.fl(0.3, 2.7),
                         frame=st.integers(0, 5), explicit=st.booleans()),
        run_matched, quick=400, shards=2,
        rule='stationary buckets above transition and bunch lengths'),
    Sub('clip', with_(STAT.map(above), half=gen.few(0.5, 1.0, 1.8, 2.5, 4.0),
                      frame=st.integers(0, 5), explicit=st.booleans(),
                      grid=st.integers(24, 90), off=gen.few(0, 0, 4, -7, 2.5),
                      ngrid=st.integers(20, 80),
                      span=gen.fl(0.8, 1.0), parts=st.integers(1, 400),
                      amps=gen.few(30, 100)),
        run_clip, quick=400, shards=2, rule='particles in stationary buckets '
        'above transition, clipped to an emittance; non-trivial: particles '
        'on both sides'),
    Sub('curve', with_(STAT.map(above), frame=st.integers(0, 5),
                       explicit=st.booleans(), grid=st.integers(20, 60),
                       off=gen.few(0, 0, 4, -7, 2.5),
                       nhalf=st.integers(8, 30), span=gen.fl(0.8, 1.0),
                       kind=gen.few('flat', 'linear', 'noise'),
                       amp=gen.logfl(1e-6, 1e6), amps=gen.few(8, 15, 30)),
        run_density_curve, quick=160, shards=2, rule='images in stationary '
        'buckets above transition; non-trivial: three or more contours '
        'judged'),
]
