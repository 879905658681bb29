"""P11: the phase space image is the histogram of the weighted particles."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.data import data_treatment as dt
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils import tomo_output as to
from vt import gen
from vt.api import Sub, call, close, need, rejects, same
from props.p01 import with_

RULE = ('binned particle tracks with drawn image size, weights (zero, equal, '
        'negative), profile, integer type and memory layout; non-trivial: '
        'more than one particle and cell')


@st.composite
def case(draw, maxp=60, maxb=40):
    nprof = draw(st.integers(1, 6))
    return dict(n=draw(st.integers(1, maxp)), nprof=nprof,
                rec=draw(st.integers(0, nprof - 1)), neg=draw(st.booleans()),
                nbins=draw(st.one_of(st.integers(1, 6),
                                     st.integers(1, maxb))),
                w=draw(gen.few('any', 'zeros', 'equal', 'huge', 'negative')),
                clump=draw(st.booleans()), itype=draw(gen.few('i4', 'i8')),
                layout=draw(gen.few('C', 'F', 'strided')),
                single=draw(st.booleans()),
                sx=draw(gen.fl(-20, 60)), sy=draw(gen.fl(-20, 60)),
                dtb=draw(gen.logfl(1e-12, 1e-6)),
                dEb=draw(gen.logfl(1e-3, 1e8)), seed=draw(gen.SEED))


def make(c):
    r = np.random.default_rng([c['seed'], 5])
    s = (c['n'], c['nprof'])
    nb = c['nbins']
    hi = max(1, nb // 3) if c['clump'] else nb
    x = r.integers(0, hi, s)
    y = r.integers(0, nb, s)
    if r.random() < .3:                       # corners
        x[0], y[0] = nb - 1, nb - 1
        x[-1], y[-1] = nb - 1, 0
    w = {'any': r.uniform(0, 1, c['n']), 'equal': np.ones(c['n']),
         'zeros': r.uniform(0, 1, c['n']) * (r.random(c['n']) < .5),
         'huge': 10.0 ** r.uniform(-3, 12, c['n']),
         'negative': r.normal(0.5, 1, c['n'])}[c['w']]
    if c['w'] == 'zeros' and not w.any():
        w[0] = 1.0
    out = []
    for a in (x, y):
        a = a.astype(c['itype'])
        if c['layout'] == 'F':
            a = np.asfortranarray(a)
        elif c['layout'] == 'strided':
            b = np.full((c['n'] * 2, c['nprof'] * 3), 10**6, a.dtype)
            b[::2, ::3] = a
            a = b[::2, ::3]
        out.append(a)
    return out[0], out[1], w


def model(x, y, w, nb):
    m = np.zeros((nb, nb), np.longdouble)
    np.add.at(m, (x, y), np.asarray(w, np.longdouble))
    return m.astype(float)


def run_image(c):
    x, y, w = make(c)
    nb, rec = c['nbins'], c['rec']
    idx = rec - c['nprof'] if c['neg'] else rec
    m = model(x[:, rec], y[:, rec], w, nb)
    tol = 1e-13 * np.abs(w).sum()
    x0, y0, w0 = x.copy(), y.copy(), w.copy()
    a = call(libtomo.make_phase_space, x[:, idx], y[:, idx], w, nb)
    close(a, m, 'image', rtol=0, atol=tol)
    t, E, d = call(dt.phase_space_from_coordinates, x[:, idx], y[:, idx], w,
                   nb, c['sx'], c['sy'], c['dtb'], c['dEb'])
    close(d, m, 'image from coordinates', rtol=0, atol=tol)
    k = np.arange(nb)
    close(t, [(i - c['sx']) * c['dtb'] for i in k], 'time axis', rtol=1e-12)
    close(E, [(i - c['sy']) * c['dEb'] for i in k], 'energy axis',
          rtol=1e-12)
    # the same through the objects
    mach = Machine(3, 8e3, 25.0, 8.239, 0.15722, 4.1, 938.27e6, c['nprof'],
                   nb, c['dtb'], synch_part_x=c['sx'], vat_now=False)
    wf = np.ones((c['nprof'], nb))
    tomo = call(Tomography, wf, x, y)
    tomo.weight = w
    mach.synch_part_y = c['sy']
    mach.dEbin = None
    rejects(ex.InputError, dt.phase_space, tomo, mach, idx,
            what='no energy binning')
    mach.dEbin = c['dEb']
    t2, E2, d2 = call(dt.phase_space, tomo, mach, idx)
    same(t2, t, 'time axis of phase_space')
    same(E2, E, 'energy axis of phase_space')
    close(d2, m, 'phase_space', rtol=0, atol=tol)
    if idx == 0:
        close(call(dt.phase_space, tomo, mach)[2], m, 'default profile',
              rtol=0, atol=tol)
    # normalised image
    pos = m.clip(0)
    if pos.sum() > 1e-9 * np.abs(w).sum():
        p = call(to.create_phase_space_image, x, y, w, nb, idx)
        close(p, pos / pos.sum(), 'normalised image', rtol=1e-9,
              atol=1e-12 * np.abs(w).sum() / pos.sum())
        need(p.min() >= 0, 'negative cell in the normalised image')
        close(p.sum(), 1.0, 'sum of the normalised image', rtol=1e-12)
        if c['w'] != 'negative':
            proj = np.zeros(nb)
            np.add.at(proj, x[:, rec], w)
            close(p.sum(axis=1), proj / w.sum(), 'projection of the image',
                  rtol=1e-9, atol=1e-13)
    if c['single'] and c['w'] != 'huge':
        s = call(libtomo.make_phase_space, x[:, idx].astype(np.int32),
                 y[:, idx].astype(np.int32), w.astype(np.float32), nb)
        close(s, m, 'single precision image', rtol=0,
              atol=3e-6 * np.abs(w).sum())
    same(x, x0, "caller's x")
    same(y, y0, "caller's y")
    same(w, w0, "caller's weights")
    return c['n'] > 1 and nb > 1, c['w']


def run_outside(c):
    x, y, w = make(c)
    x, y = (np.ascontiguousarray(v[:, c['rec']]) for v in (x, y))
    nb = c['nbins']
    k = c['which'] % c['n']
    v = {'below': -1 - c['far'], 'at': nb, 'above': nb + c['far'],
         'square': nb * nb + c['far'],
         'min': -2**31, 'max': 2**31 - 1}[c['bad']]
    (x if c['axis'] else y)[k] = v
    for what, fn, a in (
            ('make_phase_space', libtomo.make_phase_space, (x, y, w, nb)),
            ('phase_space_from_coordinates', dt.phase_space_from_coordinates,
             (x, y, w, nb, 1., 1., 1., 1.))):
        rejects(Exception, fn, *a, what=f'{what}: particle at {v} in an '
                f'image of {nb} bins')
    # the normalised image holds the particles that are inside
    m = np.zeros((nb, nb))
    i = np.arange(c['n']) != k
    np.add.at(m, (x[i], y[i]), np.asarray(w, float)[i])
    m = m.clip(0)
    if m.sum() <= 1e-6 * np.abs(w).sum():
        return False, 'nothing inside'
    got = call(to.create_phase_space_image, x[:, None], y[:, None], w, nb, 0)
    tol = 1e-5 if c['single'] else 1e-9
    close(got, m / m.sum(), 'image of the particles inside', rtol=tol,
          atol=tol * np.abs(w[i]).sum() / m.sum())
    return True, c['bad']


def run_macro(c):
    r = np.random.default_rng([c['seed'], 6])
    n1, n2 = c['n1'], c['n2']
    d = r.uniform(0, 1, (n1, n2)) * (r.random((n1, n2)) < c['fill'])
    d[r.integers(0, n1), r.integers(0, n2)] += 1.0
    # cells near the threshold
    d *= 10.0 ** r.choice([0, 0, -2, -5, -7], d.shape)
    d[0, -1] = max(d[0, -1], 0.5)
    d *= c['amp']
    t0, E0 = r.uniform(-5, 5), r.uniform(-5, 5)
    t = (np.arange(n1) - t0) * c['dtb']
    E = (np.arange(n2) - E0) * c['dEb']
    thr = c['thr']
    rel = d / d.sum()
    if np.any(np.abs(rel - thr) < 1e-9 * thr):
        return False, 'cell on the threshold'
    keep = rel >= thr
    if not keep.any():
        return False, 'nothing above the threshold'
    np.random.seed(c['seed'] % 2**32)
    kw = {} if thr == 1e-5 else dict(threshold=thr)
    d0 = d.copy()
    a, b = call(dt.density_to_macro, t, E, d, c['macro'], **kw)
    same(d, d0, "caller's density")
    need(np.shape(a) == (c['macro'],) and np.shape(b) == (c['macro'],),
         f'{c["macro"]} macro particles asked, {np.shape(a)} given')
    i = np.floor((a - t[0]) / c['dtb'] + 0.5)
    j = np.floor((b - E[0]) / c['dEb'] + 0.5)
    fi = (a - t[0]) / c['dtb'] + 0.5
    fj = (b - E[0]) / c['dEb'] + 0.5
    safe = (np.abs(fi - np.round(fi)) > 1e-6) & (np.abs(fj - np.round(fj))
                                                  > 1e-6)
    i, j = i[safe].astype(int), j[safe].astype(int)
    need(np.all((i >= 0) & (i < n1) & (j >= 0) & (j < n2)),
         'macro particle outside the image')
    need(np.all(keep[i, j]), 'macro particle in a cell without density')
    # frequencies: each cell within 8 sigma of its share
    p = np.where(keep, rel, 0)
    p = p / p.sum()
    cnt = np.zeros((n1, n2))
    np.add.at(cnt, (i, j), 1)
    N = len(i)
    lim = 8 * np.sqrt(N * p * (1 - p)) + 12
    w = np.abs(cnt - N * p) - lim
    need(np.all(w <= 0), lambda: f'share of cell '
         f'{np.unravel_index(np.argmax(w), w.shape)}: '
         f'{cnt.flat[np.argmax(w)]:.0f} of {N}, expected '
         f'{N * p.flat[np.argmax(w)]:.1f}')
    # spread evenly over the cell
    if N > 400:
        for f, nm in ((fi, 'time'), (fj, 'energy')):
            u = (f - np.floor(f))[safe]
            need(abs(u.mean() - 0.5) < 8 * np.sqrt(1 / 12 / N)
                 and u.max() - u.min() > 0.8,
                 f'{nm} offsets inside the cells: mean {u.mean()}, range '
                 f'{u.min()}..{u.max()}')
    return bool(keep.sum() > 1), f'threshold {thr:g}'


outs = with_(case(), which=st.integers(0, 100), axis=st.booleans(),
             far=st.integers(0, 200),
             bad=gen.few('below', 'at', 'above', 'square', 'min', 'max'))
SUBS = [
    Sub('image', case(), run_image, quick=3000, shards=3, rule=RULE),
    Sub('large', case(maxp=5000, maxb=300), run_image, quick=300, rule=RULE),
    Sub('outside', outs, run_outside, quick=1500,
        rule='one particle outside the image on one axis'),
    Sub('macro', st.fixed_dictionaries(dict(
        n1=st.integers(2, 12), n2=st.integers(2, 12),
        fill=gen.few(0.2, 0.6, 1.0), amp=gen.logfl(1e-6, 1e6),
        dtb=gen.logfl(1e-11, 1e-7), dEb=gen.logfl(1, 1e6),
        thr=gen.few(1e-5, 1e-5, 1e-3, 0.05), macro=gen.few(1, 50, 2000, 20000),
        seed=gen.SEED)), run_macro, quick=800, shards=2,
        rule='random densities sampled with the seeded numpy generator; '
             'non-trivial: more than one cell above the threshold'),
]
