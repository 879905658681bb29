"""Reference model of the iterative reconstruction, in extended precision."""
import numpy as np
from hypothesis import strategies as st

from . import gen

L = np.longdouble


class Reduced(Exception):
    """All weights vanished."""


class Unsure(Exception):
    """Rounding decides whether the weights vanish."""


def norm_wf(wf):
    w = np.clip(np.asarray(wf, L), 0, None)
    return w / w.sum(axis=1)[:, None]


def reconstruct(xp, wf, niter, offsets=(0,), masks=None, L=L):
    """wf: normalised waterfall. offsets: one per bunch. masks[b][particle].

    Returns weights (nb, npart), discrepancy (niter+1), the discarded
    difference waterfalls (niter+1, nprof, nbins) and the last projection."""
    xp = np.asarray(xp)
    n, nprof = xp.shape
    wf = np.asarray(wf, L)
    nbins = wf.shape[1]
    nb = len(offsets)
    rows = np.arange(nprof)[None, :]
    idx = [xp + o for o in offsets]
    count = np.zeros((nprof, nbins), L)
    for x in idx:
        np.add.at(count, (np.broadcast_to(rows, x.shape), x), L(1))
    recip = count.max() / np.where(count == 0, L(1), count)
    if masks is None:
        masks = np.ones((nb, n), bool)

    def back(d):
        return np.stack([d[rows, x].sum(axis=1) * m
                         for x, m in zip(idx, masks)])

    def project(w):
        r = np.zeros((nprof, nbins), L)
        for x, ww in zip(idx, w):
            np.add.at(r, (np.broadcast_to(rows, x.shape), x),
                      np.broadcast_to(ww[:, None], x.shape))
        return r

    def check(w):
        s, big = w.sum(), np.abs(w).max()
        if s <= 0:
            raise Reduced
        return w

    scale = L(0)
    w = check(np.clip(back(wf), 0, None))
    if w.sum() < 1e-12:
        raise Unsure
    diffs, discr = [], []
    for it in range(niter + 1):
        r = project(w)
        r = r / r.sum(axis=1)[:, None]
        d = wf - r
        diffs.append(d)
        discr.append(np.sqrt(np.mean(d ** 2)))
        if it == niter:
            break
        b = back(d * recip)
        scale = max(scale, np.abs(w).max(), np.abs(b).max())
        raw = w + b
        w = np.clip(raw, 0, None)
        if w.sum() <= 1e-10 * scale:
            # vanishing or not is a matter of rounding unless clearly negative
            # (weights that are masked out stay exactly zero)
            if np.all(raw[np.asarray(masks, bool)] < -1e-10 * scale):
                raise Reduced
            raise Unsure
    return w, np.array(discr), np.array(diffs), r, scale


@st.composite
def case(draw, maxp=60, maxprof=8, maxbins=20, iters=8, hard=True):
    return dict(n=draw(st.one_of(st.integers(1, 12), st.integers(1, maxp))),
                nprof=draw(st.integers(1, maxprof)),
                nbins=draw(st.integers(2, maxbins)),
                niter=draw(st.integers(0, iters)),
                shape=draw(gen.few('bunch', 'noise', 'sparse', 'made')),
                neg=draw(gen.few(0.0, 0.0, 0.2)) if hard else 0.0,
                amp=draw(gen.logfl(1e-6, 1e9)) if hard else 1.0,
                tracks=draw(gen.few('smooth', 'random', 'clump', 'still')),
                seed=draw(gen.SEED))


def make(c, nbins=None, width=None):
    """Particle tracks (n, nprof) and a measured waterfall (nprof, nbins)."""
    r = np.random.default_rng([c['seed'], 21])
    n, P = c['n'], c['nprof']
    nb = nbins or c['nbins']
    B = width or nb
    t = c['tracks']
    if t == 'smooth':
        a = r.uniform(0, B / 2, (n, 1))
        f = r.uniform(0, 2 * np.pi, (n, 1))
        x = B / 2 + a * np.cos(f + 0.5 * np.arange(P))
    elif t == 'random':
        x = r.uniform(0, B, (n, P))
    elif t == 'clump':
        x = B / 2 + r.normal(0, B / 10 + 0.2, (n, P))
    else:
        x = np.repeat(r.uniform(0, B, (n, 1)), P, axis=1)
    x = np.clip(np.floor(x), 0, B - 1).astype(np.int32)
    b = np.arange(nb)
    s = c['shape']
    if s == 'bunch':
        w = np.exp(-0.5 * ((b - nb / 2 - r.normal(0, 1, (P, 1)))
                           / (nb / 6 + 0.3)) ** 2)
    elif s == 'noise':
        w = r.uniform(0, 1, (P, nb))
    elif s == 'sparse':
        w = r.uniform(0, 1, (P, nb)) * (r.random((P, nb)) < 0.3)
    else:
        w = np.zeros((P, nb))
        ww = r.uniform(0, 1, n)
        np.add.at(w, (np.broadcast_to(np.arange(P), x.shape), x),
                  np.broadcast_to(ww[:, None], x.shape))
    if c.get('neg'):
        w = w - c['neg'] * r.uniform(0, 1, (P, nb))
    empty = np.clip(w, 0, None).sum(axis=1) <= 0
    w[empty, r.integers(0, nb)] = 1.0
    return x, w * c.get('amp', 1.0)
