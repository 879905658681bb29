"""P10: multi-bunch reconstruction."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tomography import tomography_multibunch as mb
from vt import gen, recmodel as rm
from vt.api import Sub, Violation, call, close, need, rejects, same
from props.p01 import with_

TM = [v for k, v in vars(mb).items() if isinstance(v, type)
      and k.startswith('Tomography') and v.__module__ == mb.__name__][0]
RULE = ('one to four bunches, each with its own offset and limits, tracks '
        'and waterfalls as in P08; non-trivial: two or more bunches and '
        'particles')


@st.composite
def case(draw, maxp=40, iters=6, maxprof=6, maxbins=14):
    c = draw(rm.case(maxp=maxp, maxprof=maxprof, maxbins=maxbins,
                     iters=iters))
    nb = draw(st.integers(1, 4))
    c['bunches'] = nb
    ints = lambda lo, hi: draw(st.one_of(                          # noqa
        st.integers(lo, hi).map(lambda v: [v] * nb),
        st.lists(st.integers(lo, hi), min_size=nb, max_size=nb)))
    c['gap'] = ints(-3, 6)
    c['tl'], c['tr'] = draw(st.one_of(
        st.just(([0] * nb, [0] * nb)), st.tuples(st.just(ints(0, 4)),
                                                 st.just(ints(0, 4)))))
    c['perm'] = draw(st.permutations(list(range(nb))))
    c['extra'] = draw(st.integers(0, 4))
    c['edge'] = draw(st.booleans())
    c['twice'] = nb > 1 and draw(st.integers(0, 7)) == 3
    c['nthr'] = draw(gen.few(1, 2, 5))
    c['kind'] = draw(gen.few('list', 'array', 'tuple'))
    c['again'] = draw(gen.few(0, 1, 3))
    return c


def make(c):
    B = c['nbins']                       # width of one bunch
    cent = [c['extra']]
    for g in c['gap'][1:]:
        cent.append(cent[-1] + max(1, B + g))
    if c.get('twice'):
        cent[-1] = cent[-2]           # two cuts of the same particles
    nbins = cent[-1] + B + c['extra']
    cent = [cent[k] for k in c['perm']]
    x, _ = rm.make(c, nbins=B)
    r = np.random.default_rng([c['seed'], 41])
    b = np.arange(nbins)
    w = np.zeros((c['nprof'], nbins))
    for i, o in enumerate(cent):
        if c['shape'] == 'made':
            ww = r.uniform(0, 1, c['n'])
            np.add.at(w, (np.broadcast_to(np.arange(c['nprof']), x.shape),
                          x + o), np.broadcast_to(ww[:, None], x.shape))
        else:
            w += r.uniform(0.3, 1) * np.exp(-0.5 * (
                (b - o - B / 2 - r.normal(0, 1, (c['nprof'], 1)))
                / (B / 5 + .3)) ** 2)
    if c['shape'] in ('noise', 'sparse'):
        w = w * r.uniform(0, 2, w.shape)
    if c['shape'] == 'sparse':
        w = w * (r.random(w.shape) < 0.6)
    w = w - c['neg'] * 0.3 * r.uniform(0, 1, w.shape)
    empty = np.clip(w, 0, None).sum(axis=1) <= 0
    w[empty] = 1.0
    half = (B - 1) // 2
    left = [o + min(t, half) for o, t in zip(cent, c['tl'])]
    right = [min(o + B - min(t, half), nbins) for o, t in zip(cent, c['tr'])]
    return x, w * c['amp'], nbins, cent, left, right


def masks_for(x, cent, left, right, strict):
    m = []
    for o, a, b in zip(cent, left, right):
        y = x + o
        m.append(np.all((y > a) & (y < b) if strict else
                        (y >= a) & (y <= b), axis=1))
    return np.array(m)


def model(c, x, w, nbins, cent, left, right, strict):
    masks = masks_for(x, cent, left, right, strict)
    nw = rm.norm_wf(w)
    W, D, dif, R, s = rm.reconstruct(x, nw, c['niter'], cent, masks)
    split = np.array([np.sqrt(np.mean(dif[:, :, a:b] ** 2, axis=(1, 2)))
                      for a, b in zip(left, right)])
    return W, D, split, R, float(max(s, np.abs(W).max())), masks


def run_model(c):
    x, w, nbins, cent, left, right = make(c)
    try:
        W, D, S, R, s, masks = model(c, x, w, nbins, cent, left, right, False)
    except rm.Unsure:
        return False, 'rounding decides'
    except rm.Reduced:
        rejects(RuntimeError, TM(w, x).run, cent, left, right, c['niter'],
                what='every weight vanishes')
        return True, 'reduced to zero'
    if c['niter'] > 8:
        # the iteration may amplify rounding: leave out what double precision
        # does not settle
        try:
            a, b = (rm.reconstruct(x, rm.norm_wf(w), c['niter'], cent, masks,
                                   t) for t in (np.float64, rm.L))
        except (rm.Unsure, rm.Reduced):
            return False, 'rounding decides'
        if np.abs(a[0] - b[0]).max() > 1e-12 * min(s, float(W.sum())) or \
                np.abs(a[2] - b[2]).max() > 1e-12:
            return False, 'amplifies rounding'
    t = call(TM, w, x)
    seen = []
    libtomo.set_num_threads(c['nthr'])
    kind = {'list': list, 'tuple': tuple, 'array': np.array}[c['kind']]
    cent, left, right = kind(cent), kind(left), kind(right)
    try:
        if c['again']:       # an earlier run leaves no trace
            try:
                t.run(cent[:1], left[:1], right[:1], c['again'])
            except RuntimeError:
                pass         # the first bunch alone may get no weight
        call(t.run, cent, left, right, c['niter'],
             callback=lambda i, n: seen.append((i, n)))
    finally:
        libtomo.set_num_threads(2)
    amp = max(1.0, s / float(W.sum()))
    close(t.weight_combined, W.ravel().astype(float),
          'weights of all bunches', rtol=0, atol=1e-8 * s)
    need(len(t.weight_split) == len(cent), 'one weight array per bunch')
    for k in range(len(cent)):
        close(t.weight_split[k], W[k].astype(float), f'weights of bunch {k}',
              rtol=0, atol=1e-8 * s)
        need(np.all(np.asarray(t.weight_split[k])[~masks[k]] == 0),
             f'bunch {k}: a particle outside the limits has a weight')
    close(t.recreated, R.astype(float), 'recreated waterfall', rtol=0,
          atol=1e-8 * amp)
    close(t.diff, D.astype(float), 'discrepancy', rtol=0, atol=1e-8 * amp)
    close(t.diff_split, S.astype(float), 'discrepancy per bunch', rtol=0,
          atol=1e-8 * amp)
    n = c['niter']
    need(seen == [(i, n) for i in range(1, n + 1)] + [(n, n)],
         f'callback sequence {seen[:5]}')
    return len(cent) > 1 and c['n'] > 1, f'{len(cent)} bunches'


def run_hybrid(c):
    c = dict(c, tl=[0] * c['bunches'])
    x, w, nbins, cent, left, right = make(c)
    # limits between the bins that particles use
    left = [v - 1 for v in left]
    if min(left) < 0:
        return False, 'limit below the image'
    right = [min(v, nbins) for v in right]
    try:
        W, D, S, R, s, masks = model(c, x, w, nbins, cent, left, right, True)
    except (rm.Unsure, rm.Reduced):
        return False, 'reduced to zero'
    t = call(TM, w, x)
    call(t.run_hybrid, np.array(cent), list(zip(left, right)), c['niter'])
    amp = max(1.0, s / float(W.sum()))
    close(t.weight_combined, W.ravel().astype(float), 'hybrid weights',
          rtol=0, atol=1e-8 * s)
    need(len(t.weight_split) == len(cent), 'one weight array per bunch')
    for k in range(len(cent)):
        close(t.weight_split[k], W[k].astype(float), 'hybrid weights of one '
              'bunch', rtol=0, atol=1e-8 * s)
    close(t.recreated, R.astype(float), 'hybrid recreated waterfall', rtol=0,
          atol=1e-8 * amp)
    close(t.diff, D.astype(float), 'hybrid discrepancy', rtol=0,
          atol=1e-8 * amp)
    close(t.diff_split, S.astype(float), 'hybrid discrepancy per bunch',
          rtol=0, atol=1e-8 * amp)
    # the older hybrid form of the single-bunch class
    if hasattr(Tomography, 'run_hybrid_multi'):
        o = call(Tomography, w, x)
        with contextlib.redirect_stdout(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = call(o.run_hybrid_multi, np.array(cent),
                       list(zip(left, right)), c['niter'])
        close(np.asarray(got), W.astype(float), 'run_hybrid_multi weights',
              rtol=0, atol=1e-8 * s)
        close(o.recreated, R.astype(float), 'run_hybrid_multi waterfall',
              rtol=0, atol=1e-8 * amp)
        close(o.diff, D.astype(float), 'run_hybrid_multi discrepancy',
              rtol=0, atol=1e-8 * amp)
    return len(cent) > 1 and c['n'] > 1, f'{len(cent)} bunches'


def run_one(c):
    """One bunch without limits is the ordinary reconstruction."""
    x, w = rm.make(c)
    try:
        W, D, _, R, s = rm.reconstruct(x, rm.norm_wf(w), c['niter'])
    except (rm.Unsure, rm.Reduced):
        return False, 'reduced to zero'
    s = float(max(s, np.abs(W).max()))
    a = call(Tomography, w, x)
    call(a.run, c['niter'])
    b = call(TM, w, x)
    call(b.run, [0], [0], [c['nbins']], c['niter'])
    amp = max(1.0, s / float(W.sum()))
    close(b.weight_combined, a.weight, 'weights of the only bunch', rtol=0,
          atol=1e-9 * s)
    close(b.diff, a.diff, 'discrepancy of the only bunch', rtol=0,
          atol=1e-9 * amp)
    close(b.diff_split[0], a.diff, 'split discrepancy of the only bunch',
          rtol=0, atol=1e-9 * amp)
    close(b.recreated, a.recreated, 'waterfall of the only bunch', rtol=0,
          atol=1e-9 * amp)
    rejects(ex.CoordinateError, call(TM, w).run, [0], [0], [c['nbins']],
            what='no tracks')
    # order of the bunches does not matter
    x, w, nbins, cent, left, right = make(c)
    try:
        s = model(c, x, w, nbins, cent, left, right, False)[4]
    except (rm.Unsure, rm.Reduced):
        return c['n'] > 1, 'one bunch'
    a, b = call(TM, w, x), call(TM, w, x)
    call(a.run, cent, left, right, c['niter'])
    call(b.run, cent[::-1], left[::-1], right[::-1], c['niter'])
    for k in range(len(cent)):
        close(b.weight_split[-1 - k], a.weight_split[k],
              'weights with the bunches in another order', rtol=0,
              atol=1e-8 * s)
    close(b.diff_split[::-1], a.diff_split, 'discrepancy per bunch in '
          'another order', rtol=0, atol=1e-7)
    return c['n'] > 1, 'one bunch, reordered bunches'


SUBS = [
    Sub('model', case(), run_model, quick=2000, shards=3, rule=RULE),
    Sub('more', case(maxp=12, iters=60), run_model, quick=300, rule=RULE),
    Sub('wide', case(maxp=300, iters=4, maxprof=120, maxbins=90), run_model,
        quick=300, rule=RULE + '; many profiles and bins'),
    Sub('hybrid', case(), run_hybrid, quick=800, rule=RULE),
    Sub('relations', case(), run_one, quick=800, rule=RULE),
]
