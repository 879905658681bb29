"""P16: beam quality figures of a phase space image."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography.data import post_process as pp
from vt import gen
from vt.api import Sub, call, close, known, need, rejects, same
from props.p01 import with_

RULE = ('phase space images of drawn shape (flat, peaked, sparse, single '
        'cell), scale, axes and beam energy; non-trivial: more than one '
        'filled cell')


@st.composite
def case(draw):
    return dict(nt=draw(st.integers(2, 24)), ne=draw(st.integers(2, 24)),
                kind=draw(gen.few('any', 'gauss', 'sparse', 'equal', 'one',
                                  'ties')),
                scale=draw(gen.logfl(1e-9, 1e12)),
                t0=draw(gen.fl(-3, 3)), e0=draw(gen.fl(-3, 3)),
                dt=draw(gen.logfl(1e-12, 1e-6)),
                de=draw(gen.logfl(1e-2, 1e8)), mass=draw(gen.logfl(1e5, 3e11)),
                gam=draw(gen.logfl(1.01, 1e4)),
                layout=draw(gen.few('C', 'F', 'strided')),
                fraction=draw(st.one_of(gen.fl(0, 100),
                                        gen.few(0, 0.0, 100, 100.0, 90, 95,
                                                50, 39.3))),
                seed=draw(gen.SEED))


def make(c):
    r = np.random.default_rng([c['seed'], 61])
    s = (c['nt'], c['ne'])
    k = c['kind']
    if k == 'gauss':
        a = np.exp(-((np.arange(s[0])[:, None] - s[0] / 2.2) / s[0] * 5) ** 2
                   - ((np.arange(s[1]) - s[1] / 1.9) / s[1] * 4) ** 2)
    else:
        a = r.uniform(0, 1, s)
    if k == 'sparse':
        a *= r.random(s) < .2
    if k == 'equal':
        a = np.ones(s)
    if k == 'ties':
        a = r.integers(0, 4, s).astype(float)
    if k == 'one':
        a = np.zeros(s)
    if a.sum() == 0:
        a[r.integers(s[0]), r.integers(s[1])] = 1.0
    a = a * c['scale']
    if c['layout'] == 'F':
        a = np.asfortranarray(a)
    elif c['layout'] == 'strided':
        b = np.full((s[0] * 2, s[1] * 3), 1e30)
        b[::2, ::3] = a
        a = b[::2, ::3]
    t = (np.arange(s[0]) + c['t0'] * s[0]) * c['dt']
    e = (np.arange(s[1]) + c['e0'] * s[1]) * c['de']
    return a, t, e


def std_true(h, b):
    h = np.asarray(h, float) / h.sum()
    x = b + (b[1] - b[0]) / 2
    m = (h * x).sum()
    return np.sqrt((h * (x - m) ** 2).sum())


def std_now(h, b):
    """The value with each bin compared to its own share of the mean."""
    h = np.asarray(h, float) / h.sum()
    x = b + (b[1] - b[0]) / 2
    return np.sqrt((h * (x * (1 - h)) ** 2).sum())


def judged(got, true, now, fid, what, size):
    tol = 1e-9 * abs(now) + 1e-12 * size
    if abs(got - true) <= tol + 1e-9 * abs(true):
        return
    if abs(got - now) <= tol:
        return known(fid, f'{what}: {got!r} instead of {true!r}')
    need(False, f'{what}: got {got!r}, expected {true!r} (or {now!r}, the '
         'listed finding)')


def figures(c):
    a, t, e = make(c)
    pt, pe = a.sum(1), a.sum(0)
    st_ = [f(pt, t) for f in (std_true, std_now)]
    se = [f(pe, e) for f in (std_true, std_now)]
    return a, t, e, st_, se


def dpp(s, E, m):
    s, E, m = (np.longdouble(v) for v in (s, E, m))
    p = np.sqrt(E * E - m * m)
    return float((np.sqrt((E + s) ** 2 - m * m) - p) / p)


def run_rms(c):
    a, t, e, st_, se = figures(c)
    keep = a.copy()
    E, m = c['mass'] * c['gam'], c['mass']
    S = np.abs(t).max() * np.abs(e).max() * np.pi
    eps = 1e-12 * E ** 2 / (E ** 2 - m ** 2)
    r = call(pp.emittance_rms, a, t, e)
    judged(r, np.pi * st_[0] * se[0], np.pi * st_[1] * se[1], 'KF-RMS',
           'emittance_rms', S)
    v = call(pp.rms_dpp, a.sum(0), e, E, m)
    judged(v, dpp(se[0], E, m), dpp(se[1], E, m), 'KF-RMS', 'rms_dpp',
           eps / 1e-12 + dpp(np.abs(e).max(), E, m))
    close(call(pp.emittance_rms, float(st_[0]), float(se[0])),
          np.pi * st_[0] * se[0], 'emittance_rms of two sigmas', rtol=1e-12)
    close(call(pp.rms_dpp, se[0], E, m), dpp(se[0], E, m),
          'rms_dpp of a sigma', rtol=1e-9, atol=eps)
    d = call(pp.post_process, a, t, e, E, m)
    need(sorted(d) == ['emittance_90', 'emittance_rms', 'rms_dp/p'],
         f'keys {sorted(d)}')
    close(d['emittance_rms'], r, 'post_process emittance_rms', rtol=1e-9)
    close(d['rms_dp/p'], v, 'post_process rms_dp/p', rtol=1e-9, atol=eps)
    close(d['emittance_90'], call(pp.emittance_90, a, t, e),
          'post_process emittance_90', rtol=1e-9)
    from scipy import constants as cc
    mp = cc.value('proton mass energy equivalent in MeV') * 1e6
    d = call(pp.post_process, a, t, e, mp * c['gam'])
    close(d['rms_dp/p'], call(pp.rms_dpp, a.sum(0), e, mp * c['gam'], mp),
          'proton mass by default', rtol=1e-9, atol=eps)
    same(a, keep, 'image')
    return np.count_nonzero(a) > 1, c['kind']


def run_frac(c):
    """The smallest area that holds the fraction."""
    a, t, e = make(c)
    keep = a.copy()
    f = c['fraction']
    s = np.sort(np.asarray(a, np.longdouble).ravel())[::-1]
    cum = np.cumsum(s) / s.sum()
    area = (t[1] - t[0]) * (e[1] - e[0])
    got = call(pp.emittance_fractional, a, t, e, fraction=f) if c['kw'] \
        else call(pp.emittance_90, a, t, e)
    if not c['kw']:
        f = 90
    n = got / area
    need(abs(n - round(n)) < 1e-6 * max(1, n),
         f'{n!r} cells is not a whole number')
    n = round(n)
    thr = f / 100
    lo = int(np.searchsorted(cum, thr - 1e-12)) + 1
    hi = min(int(np.searchsorted(cum, thr + 1e-12)) + 1, a.size)
    if f == 0:
        lo = 0
    need(lo - 1 <= n <= hi, f'{n} cells hold {f} % of the image; the '
         f'smallest number is {lo}' + (f'..{hi}' if hi > lo else ''))
    if n < lo:
        known('KF-FRACTION', f'{n} cells instead of {lo}')
    for bad in (-1e-9, 100.0000001, -5, 150):
        rejects(ValueError, pp.emittance_fractional, a, t, e, fraction=bad,
                what=f'fraction {bad}')
    same(a, keep, 'image')
    return np.count_nonzero(a) > 1, 'given' if c['kw'] else '90'


def run_rel(c):
    """Relations that do not need to know the value."""
    a, t, e = make(c)
    r = np.random.default_rng([c['seed'], 62])
    f = c['fraction']
    area = (t[1] - t[0]) * (e[1] - e[0])

    def frac(h, T=t, E=e, q=f):
        return call(pp.emittance_fractional, np.asarray(h), T, E, fraction=q)
    got = frac(a)
    s = np.sort(a.ravel())[::-1]
    cum = np.cumsum(s) / s.sum()
    edge = np.min(np.abs(cum - f / 100)) < 1e-9 or f == 100
    if not edge:
        close(frac(a * 3.7), got, 'image scaled', rtol=1e-9)
        p = r.permutation(a.ravel()).reshape(a.shape)
        close(frac(p), got, 'cells moved', rtol=1e-9)
        close(frac(np.pad(a, 2), np.arange(a.shape[0] + 4) * c['dt'],
                   np.arange(a.shape[1] + 4) * c['de']), got,
              'empty border', rtol=1e-6)
        close(frac(a, t * 2, e * 5), 10 * got, 'axes scaled', rtol=1e-9)
        close(frac(a[::-1, ::-1]), got, 'mirrored', rtol=1e-9)
    g = np.linspace(0, 100, 12)
    v = [frac(a, q=float(q)) for q in g]
    need(np.all(np.diff(v) >= -1e-9 * area), f'not monotone in the fraction: '
         f'{v}')
    need(v[0] == 0, 'zero per cent')
    E, m = c['mass'] * c['gam'], c['mass']
    d1 = [call(pp.rms_dpp, float(q) * c['de'], E, m) for q in range(4)]
    eps = 1e-13 * E ** 2 / (E ** 2 - m ** 2)
    need(abs(d1[0]) <= eps and np.all(np.diff(d1) >= -eps),
         'dp/p grows with the '
         'energy spread')
    S = 1e-12 * np.abs(t).max() * np.abs(e).max()
    close(call(pp.emittance_rms, a * 2.5, t, e),
          call(pp.emittance_rms, a, t, e), 'scaled image', rtol=1e-9, atol=S)
    close(call(pp.emittance_rms, a, t * 2, e * 5),
          10 * call(pp.emittance_rms, a, t, e), 'scaled axes', rtol=1e-9,
          atol=10 * S)
    close(call(pp.emittance_rms, np.ascontiguousarray(a.T), e, t),
          call(pp.emittance_rms, a, t, e), 'axes exchanged', rtol=1e-9,
          atol=S)
    rejects(ValueError, pp.emittance_rms, a, t[:-1], e, what='short time axis')
    rejects(ValueError, pp.emittance_rms, a, t, np.r_[e, e[-1]],
            what='long energy axis')
    rejects(ValueError, pp.rms_dpp, a.sum(0), e[:-1], E, m,
            what='short energy axis')
    return np.count_nonzero(a) > 1, 'edge' if edge else c['kind']


def run_types(c):
    """Integer and single precision images and axes, same figures."""
    r = np.random.default_rng([c['seed'], 64])
    a = r.integers(0, 120, (c['nt'], c['ne'])).astype(float)
    a[r.integers(c['nt']), r.integers(c['ne'])] += 7
    t = np.arange(c['nt']) * 2.0 + c['t0']
    e = np.arange(c['ne']) * 3.0 + c['e0']
    E, m = c['mass'] * c['gam'], c['mass']
    x = [v.astype(c['dtype']) if k in c['which'] else v
         for k, v in zip('ate', (a, t, e))]
    shapes = {'flat': (-1,), 'row': (1, -1), 'column': (-1, 1)}
    x[1] = x[1].reshape(shapes[c['tshape']])
    x[2] = x[2].reshape(shapes[c['eshape']])
    keep = [v.copy() for v in x]
    # single precision of the sums and squares
    close(call(pp.emittance_rms, *x), call(pp.emittance_rms, a, t, e),
          'emittance_rms', rtol=2e-4)
    close(call(pp.emittance_90, *x), call(pp.emittance_fractional, *x),
          'emittance_90', rtol=1e-12)
    s = [np.asarray(v).astype(c['dtype']).ravel()[0] for v in (3, 2)]
    close(call(pp.emittance_rms, *s), 6 * np.pi, 'emittance_rms of sigmas',
          rtol=1e-5)
    for f in (90, c['fraction']):
        got, want = (call(pp.emittance_fractional, *v, fraction=f)
                     for v in (x, (a, t, e)))
        need(np.ndim(got) == 0, 'emittance_fractional is no number')
        # a cell more or less where single precision decides
        close(got, want, f'emittance_fractional {f}', rtol=1e-5,
              atol=6 * (2.1 if 'f4' == c['dtype'] and 'a' in c['which']
                        else 0))
    close(call(pp.rms_dpp, x[0].sum(0), x[2], E, m),
          call(pp.rms_dpp, a.sum(0), e, E, m), 'rms_dpp', rtol=2e-4,
          atol=1e-12 / (c['gam'] - 1))
    d, w = (call(pp.post_process, *v, E, m) for v in (x, (a, t, e)))
    for k in ('emittance_rms', 'rms_dp/p'):
        need(np.ndim(d[k]) == 0, f'post_process {k} is no number')
        close(d[k], w[k], f'post_process {k}', rtol=2e-4,
              atol=1e-12 / (c['gam'] - 1) if k == 'rms_dp/p' else 0)
    for v, k, what in zip(x, keep, ('image', 'times', 'energies')):
        same(v, k, what)
    return True, c['dtype']


SUBS = [
    Sub('rms', case(), run_rms, quick=1500, shards=2, rule=RULE),
    Sub('fraction', with_(case(), kw=gen.few(True, True, False)), run_frac,
        quick=3000, shards=2, rule=RULE),
    Sub('relations', case(), run_rel, quick=800, shards=2, rule=RULE),
    Sub('types', st.fixed_dictionaries(dict(
        nt=st.integers(2, 20), ne=st.integers(2, 20),
        t0=st.integers(0, 40), e0=st.integers(0, 40),
        mass=gen.logfl(10, 1e9), gam=gen.logfl(1.1, 100),
        fraction=gen.few(0.0, 12.5, 39.3, 50.0, 77.7, 100.0),
        tshape=gen.few('flat', 'flat', 'row', 'column'),
        eshape=gen.few('flat', 'flat', 'row', 'column'),
        dtype=gen.few('f4', 'i4', 'u2', 'i2', 'f4', 'i8'),
        which=gen.few('a', 't', 'e', 'ate', 'te', 'at', 'ate'),
        seed=gen.SEED)), run_types, quick=800,
        rule='integer and single precision images and axes, axes as rows or '
             'columns'),
]
