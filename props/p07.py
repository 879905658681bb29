"""P07: exactly the particles that leave the image are removed."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.tracking import particles as pts
from vt import gen
from vt.api import Sub, call, need, rejects, same

RULE = ('tracks with a drawn share of particles that leave the image at a '
        'drawn profile, below zero, at or above the width, or exactly on '
        'either edge; non-trivial: at least one particle is lost and one kept')


@st.composite
def case(draw, maxp=40, maxprof=8):
    return dict(nprof=draw(st.integers(1, maxprof)), n=draw(st.integers(1, maxp)),
                nbins=draw(gen.few(1, 2, 3, 10, 60)),
                lost=draw(gen.few(0.0, 0.1, 0.5, 1.0)),
                edge=draw(st.booleans()), ints=draw(st.booleans()),
                seed=draw(gen.SEED))


def tracks(c):
    r = np.random.default_rng([c['seed'], 7])
    s = (c['nprof'], c['n'])
    nb = c['nbins']
    x = r.uniform(0, nb, s)
    if c['edge']:
        m = r.random(s) < 0.3
        x[m] = r.choice([0.0, -0.0, np.nextafter(nb, 0), nb - 1,
                         1e-300], m.sum())
        x = np.clip(x, 0, np.nextafter(nb, 0))
    out = r.random(c['n']) < c['lost']
    bad = [nb, nb + 0.5, -1e-9, -0.5, -3.0, nb + 7, -np.inf, np.inf,
           np.nextafter(0, -1), 2.0 ** 31]
    for k in np.flatnonzero(out):
        for p in r.integers(0, c['nprof'], r.integers(1, 3)):
            x[p, k] = r.choice(bad)
    y = r.uniform(-2, nb + 2, s)
    if c['ints']:
        x = np.where(np.isfinite(x), np.floor(x), -1).astype(int)
        y = np.floor(y).astype(int)
    keep = np.all((x >= 0) & (x < nb), axis=0)
    return x, y, keep


def run(c):
    x, y, keep = tracks(c)
    a, b = x.copy(), y.copy()
    lab = ('integer' if c['ints'] else 'float')
    if not keep.any():
        rejects(ex.InvalidParticleError, pts.filter_lost, x, y, c['nbins'],
                what='every particle lost')
        rejects(ex.InvalidParticleError, pts.ready_for_tomography, x, y,
                c['nbins'], what='every particle lost')
        return False, lab + ', all lost'
    X, Y, n = call(pts.filter_lost, x, y, c['nbins'])
    same(X, a[:, keep], 'x of the particles that stay in the image')
    same(Y, b[:, keep], 'y of the particles that stay in the image')
    need(int(n) == int((~keep).sum()), f'lost count {n}, '
         f'{int((~keep).sum())} particles left the image')
    X, Y = call(pts.ready_for_tomography, x, y, c['nbins'])
    same(X, np.trunc(a[:, keep]).astype(int).T, 'bins (particle, profile)')
    same(Y, np.trunc(b[:, keep]).astype(int).T, 'energy bins')
    need(X.dtype.kind == 'i' and Y.dtype.kind == 'i', 'integer bins')
    same(x, a, "caller's x unchanged")
    same(y, b, "caller's y unchanged")
    # idempotent: nothing is lost the second time
    X2, Y2, n2 = call(pts.filter_lost, a[:, keep], b[:, keep], c['nbins'])
    need(int(n2) == 0 and X2.shape == (c['nprof'], int(keep.sum())),
         'filtering is not idempotent')
    return bool((~keep).any()), lab


SUBS = [Sub('filter', case(), run, quick=4000, shards=3, rule=RULE),
        Sub('wide', case(maxp=200, maxprof=300), run, quick=300, rule=RULE),
        Sub('large', case(maxp=20000), run, quick=150, rule=RULE)]
