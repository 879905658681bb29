"""P08: the reconstruction is the documented iteration."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.utils.tomo_config import AppConfig
from vt import gen, recmodel as rm
from vt.api import Sub, Violation, call, close, need, same
from props.p01 import with_

RULE = ('waterfalls of bunch shapes, noise, mostly empty bins and exact '
        'projections, with negative values; tracks smooth, random, clumped '
        'or still; iteration counts from 0; non-trivial: at least one '
        'iteration and two particles')


def run_code(way, x, w, niter, cb=None):
    """-> weights, diff, recreated, waterfall"""
    if way == 'native':
        n = rm.norm_wf(w).astype(float)
        r = libtomo.reconstruct(x, n, niter, w.shape[1], x.shape[0],
                                x.shape[1], callback=cb)
        return r[0], r[1], r[2], n
    if way == 'wrapper':
        n = rm.norm_wf(w).astype(float)
        r = tomolib_wrappers.reconstruct(x, n, niter, w.shape[1], x.shape[0],
                                         x.shape[1], False)
        return r[0], r[1], r[2], n
    t = Tomography(w, x)
    if way == 'hybrid':
        wt = t.run_hybrid(niter)
        return wt, t.diff, t.recreated, t.waterfall
    wt = t.run(niter, callback=cb)
    need(wt is t.weight, 'run returns the weights it stores')
    return wt, t.diff, t.recreated, t.waterfall


def run_model(c):
    x, w = rm.make(c)
    w0, x0 = w.copy(), x.copy()
    nw = rm.norm_wf(w)
    try:
        W, D, dif, R, scale = rm.reconstruct(x, nw, c['niter'])
    except rm.Unsure:
        return False, 'rounding decides'
    except rm.Reduced:
        try:
            r = run_code(c['way'], x, w, c['niter'])
        except (RuntimeError, ex.WaterfallReducedToZero):
            return True, 'reduced to zero'
        except Exception as e:
            raise Violation(f'weights vanish: {type(e).__name__}: {e}')
        if c['way'] == 'hybrid':
            return False, 'reduced to zero'
        raise Violation('all weights vanish, but the run returned '
                        f'{r[0][:5]}')
    seen = []
    cb = (lambda i, n: seen.append((i, n))) if c['cb'] else None
    wt, diff, rec, wf = call(run_code, c['way'], x, w, c['niter'], cb)
    s = float(max(scale, np.abs(W).max()))
    close(wf, nw.astype(float), 'waterfall: negative values cut, rows '
          'normalised', rtol=1e-12, atol=1e-15)
    tol = 1e-8
    close(wt, W[0].astype(float), 'particle weights', rtol=0, atol=tol * s)
    amp = s / float(W.sum())         # cancellation in the weights
    close(rec, R.astype(float), 'recreated waterfall', rtol=0,
          atol=tol * max(1.0, amp))
    close(diff, D.astype(float), 'discrepancy per iteration', rtol=0,
          atol=tol * max(1.0, amp))
    need(np.all(np.asarray(wt) >= 0), 'a weight is negative')
    if c['cb'] and c['way'] in ('native', 'run'):
        n = c['niter']
        need(seen == [(i, n) for i in range(1, n + 1)] + [(n, n)],
             f'callback sequence {seen[:6]}')
    same(w, w0, "caller's waterfall unchanged")
    same(x, x0, "caller's tracks unchanged")
    return c['niter'] > 0 and c['n'] > 1, f'{c["way"]}, {c["shape"]}'


def run_single(c):
    x, w = rm.make(c)
    nw = rm.norm_wf(w)
    try:
        W, D, dif, R, scale = rm.reconstruct(x, nw.astype(np.float32),
                                             c['niter'])
    except (rm.Unsure, rm.Reduced):
        return False, 'reduced'
    s = float(max(scale, np.abs(W).max()))
    if s / float(W.sum()) > 20:
        return False, 'cancellation'
    # how much rounding of single-precision size moves the result
    r = np.random.default_rng([c['seed'], 23])
    cond = 0.0
    for _ in range(3):
        pert = nw * (1 + 1e-6 * r.uniform(-1, 1, nw.shape))
        try:
            W2 = rm.reconstruct(x, pert, c['niter'])[0]
        except (rm.Unsure, rm.Reduced):
            return False, 'reduced'
        cond = max(cond, float(np.abs(W2 - W).max()))
    if cond > 0.003 * s:
        return False, 'ill-conditioned'
    AppConfig.set_single_precision()
    try:
        t = call(Tomography, w, x)
        wt = call(t.run, c['niter'])
    finally:
        AppConfig.set_double_precision()
    need(wt.dtype == np.float32 and t.diff.dtype == np.float32
         and t.recreated.dtype == np.float32, 'single precision results')
    k = 3e-5 * (1 + c['niter']) + 5 * cond / s
    close(wt, W[0].astype(float), 'single precision weights', rtol=0,
          atol=k * s)
    close(t.diff, D.astype(float), 'single precision discrepancy', rtol=0,
          atol=20 * k)
    close(t.recreated, R.astype(float), 'single precision waterfall', rtol=0,
          atol=20 * k)
    return c['niter'] > 0 and c['n'] > 1, c['shape']


def run_parts(c):
    """project and back_project alone, and the count per bin."""
    x, w = rm.make(c)
    n, P = x.shape
    nb = w.shape[1]
    r = np.random.default_rng([c['seed'], 22])
    wt = r.uniform(0, 1, n)
    flat = (x + nb * np.arange(P)).astype(np.int32)
    mod = tomolib_wrappers if c['wrap'] else libtomo
    rec0 = r.uniform(0, 1, (P, nb)) * c['acc']
    want = rec0.copy()
    np.add.at(want, (np.broadcast_to(np.arange(P), x.shape), x),
              np.broadcast_to(wt[:, None], x.shape))
    got = call(mod.project, rec0.copy(), flat, wt.copy(), n, P, nb)
    close(np.asarray(got).reshape(P, nb), want, 'project', rtol=1e-10,
          atol=1e-12)
    w0 = r.uniform(-1, 1, n) * c['acc']
    got = call(mod.back_project, w0.copy(), flat, w.flatten(), n, P)
    close(got, w0 + w[np.arange(P)[None, :], x].sum(axis=1), 'back_project',
          rtol=1e-10, atol=1e-10 * np.abs(w).max() * P)
    cnt = np.zeros((P, nb))
    np.add.at(cnt, (np.broadcast_to(np.arange(P), x.shape), x), 1)
    got = call(libtomo.count_particles_in_bins, np.zeros((P, nb)), x,
               n_profiles=P, n_particles=n, n_bins=nb)
    same(np.asarray(got).reshape(P, nb), cnt, 'particles per bin')
    return n > 1, 'wrapper' if c['wrap'] else 'native'


W = gen.few('run', 'run', 'native', 'wrapper', 'hybrid')
B = st.booleans()
SUBS = [
    Sub('model', with_(rm.case(), way=W, cb=B), run_model, quick=3000,
        shards=3, rule=RULE),
    Sub('large', with_(rm.case(maxp=3000, maxprof=20, maxbins=60, iters=20),
                       way=W, cb=B), run_model, quick=1200, shards=3,
        threads=4, rule=RULE),
    Sub('wide', with_(rm.case(maxp=30, maxprof=300, maxbins=300, iters=4),
                      way=W, cb=B), run_model, quick=300, rule=RULE +
        '; hundreds of profiles and bins'),
    Sub('single', rm.case(hard=False), run_single, quick=1500,
        rule=RULE + '; single precision'),
    Sub('parts', with_(rm.case(), wrap=B, acc=gen.few(0.0, 1.0)), run_parts,
        quick=800, rule='the projection steps alone'),
]
