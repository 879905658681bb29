"""P09: what the reconstruction result may and may not depend on."""
import io
import contextlib
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.tomography.tomography import Tomography
from vt import gen, recmodel as rm
from vt.api import Sub, Violation, call, close, need, rejects, same
from props.p01 import with_

RULE = 'tracks and waterfalls as in P08; non-trivial: two or more particles'


def outcome(w, x, niter, cb=None):
    try:
        t = Tomography(w, x)
        t.run(niter, callback=cb)
    except RuntimeError:
        return None
    except Exception as e:
        raise Violation(f'run raised {type(e).__name__}: {e}')
    return t


def skip(c, x, w):
    """True when rounding alone may decide between an error and a result."""
    try:
        W, _, _, _, scale = rm.reconstruct(x, rm.norm_wf(w), c['niter'])
    except (rm.Unsure, rm.Reduced):
        return True, 1.0
    return False, float(max(scale, np.abs(W).max()))


def run_meta(c):
    x, w = rm.make(c)
    bad, s = skip(c, x, w)
    if bad:
        return False, 'reduced to zero'
    r = np.random.default_rng([c['seed'], 31])
    a = outcome(w, x, c['niter'])
    need(a is not None, 'reduced to zero')
    k = c['kind']
    tol = dict(rtol=0, atol=1e-8 * s)
    amp = max(1.0, s / float(a.weight.sum()))
    dtol = dict(rtol=0, atol=1e-8 * amp)
    if k == 'particle order':
        p = r.permutation(c['n'])
        b = outcome(w, x[p], c['niter'])
        wb = np.empty(c['n'])
        wb[p] = b.weight
        rec = b.recreated
    elif k == 'profile order':
        p = r.permutation(c['nprof'])
        b = outcome(w[p], x[:, p], c['niter'])
        wb, rec = b.weight, np.empty_like(b.recreated)
        rec[p] = b.recreated
    elif k == 'mirror':
        b = outcome(w[:, ::-1], c['nbins'] - 1 - x, c['niter'])
        wb, rec = b.weight, b.recreated[:, ::-1]
    elif k == 'scale':
        f = float(10 ** r.uniform(-12, 12)) * 10 ** r.uniform(-3, 3, (
            c['nprof'], 1))
        b = outcome(w * f, x, c['niter'])
        wb, rec = b.weight, b.recreated
    elif k == 'negative':
        d = np.where(w <= 0, w - r.uniform(0, 5, w.shape), w)
        b = outcome(d, x, c['niter'])
        wb, rec = b.weight, b.recreated
    elif k == 'layout':
        W2 = np.asfortranarray(w)
        x2 = [np.asfortranarray(x), x.astype(float), x.astype(np.int64),
              np.repeat(x, 2, axis=0)[::2],
              x + r.uniform(0, 0.99, x.shape)][int(r.integers(5))]
        b = outcome(W2, x2, c['niter'])
        wb, rec = b.weight, b.recreated
    elif k == 'twins':
        # particles with the same track always carry the same weight
        p = np.concatenate([np.arange(c['n']), r.integers(0, c['n'], 5)])
        b = outcome(w, x[p], c['niter'])
        if b is None:
            return False, 'reduced to zero'
        close(b.weight[c['n']:], b.weight[p[c['n']:]],
              'equal tracks, equal weights', rtol=0,
              atol=1e-12 * b.weight.max())
        return True, k
    elif k == 'empty bins':
        e = int(r.integers(1, 6))
        left = int(r.integers(0, e + 1))
        ww = np.pad(w, ((0, 0), (left, e - left)))
        b = outcome(ww, x + left, c['niter'])
        wb = b.weight
        rec = b.recreated[:, left:left + c['nbins']]
        f = np.sqrt(c['nbins'] / (c['nbins'] + e))
        close(b.diff, a.diff * f, 'discrepancy with empty bins added', **dtol)
        close(wb, a.weight, 'weights with empty bins added', **tol)
        close(rec, a.recreated, 'waterfall with empty bins added', **dtol)
        return c['n'] > 1, k
    close(wb, a.weight, f'weights ({k})', **tol)
    close(rec, a.recreated, f'recreated waterfall ({k})', **dtol)
    close(b.diff, a.diff, f'discrepancy ({k})', **dtol)
    return c['n'] > 1, k


def run_valid(c):
    """What every result satisfies."""
    x, w = rm.make(c)
    w = np.asarray(w)
    x0, w0 = x.copy(), w.copy()
    t = outcome(w, x, c['niter'])
    same(x, x0, "the caller's tracks")
    same(w, w0, "the caller's waterfall")
    if t is None:
        return False, 'reduced to zero'
    P, nb = w.shape
    need(t.weight.shape == (c['n'],) and t.recreated.shape == (P, nb)
         and t.diff.shape == (c['niter'] + 1,), 'shapes of the result')
    need(np.all(np.isfinite(t.weight)) and np.all(t.weight >= 0)
         and t.weight.sum() > 0, 'weights are finite, non-negative, not all 0')
    need(np.all(t.recreated >= 0), 'recreated waterfall is negative')
    close(t.recreated.sum(axis=1), np.ones(P), 'recreated profiles have '
          'unit area', rtol=1e-9)
    close(t.waterfall.sum(axis=1), np.ones(P), 'measured profiles have '
          'unit area', rtol=1e-9)
    need(np.all(t.waterfall >= 0), 'waterfall is negative')
    pr = np.zeros((P, nb))
    np.add.at(pr, (np.broadcast_to(np.arange(P), x.shape), x),
              np.broadcast_to(t.weight[:, None], x.shape))
    close(t.recreated, pr / pr.sum(axis=1)[:, None],
          'the recreated waterfall is the projection of the weights',
          rtol=1e-9, atol=1e-12)
    close(t.diff[-1], np.sqrt(np.mean((t.waterfall - t.recreated) ** 2)),
          'last discrepancy is that of the result', rtol=1e-9, atol=1e-12)
    need(np.all(np.isfinite(t.diff)) and np.all(t.diff >= 0)
         and np.all(t.diff <= np.sqrt(2 / nb) + 1e-12),
         f'discrepancy out of range: {t.diff}')
    return c['n'] > 1, c['shape']


def run_threads(c):
    x, w = rm.make(c)
    bad, s = skip(c, x, w) if c['n'] < 400 else (False, None)
    if bad:
        return False, 'reduced to zero'
    res = []
    try:
        for k in c['threads']:
            libtomo.set_num_threads(k)
            res.append(outcome(w, x, c['niter']))
    finally:
        libtomo.set_num_threads(2)
    if res[0] is None or res[-1] is None:
        need(s is None or all(q is None for q in res),
             'outcome depends on the thread count')
        return False, 'reduced to zero'
    a = res[0]
    s = s or float(a.weight.max()) * 100
    for b in res[1:]:
        if b is None:
            return False, 'reduced to zero'
        close(b.weight, a.weight, f'weights with {c["threads"]} threads',
              rtol=0, atol=1e-8 * s)
        close(b.recreated, a.recreated, 'waterfall', rtol=0, atol=1e-7)
        close(b.diff, a.diff, 'discrepancy', rtol=0, atol=1e-7)
    return c['n'] > 1, f'{len(res)} thread counts'


def run_history(c):
    """One object used again and again, against fresh objects."""
    x, w = rm.make(c)
    t = call(Tomography, w, x)
    cur = x
    n = 0
    for op in c['ops']:
        if op[0] == 'run':
            f = outcome(w, cur, op[1])
            try:
                t.run(op[1])
                ok = True
            except RuntimeError:
                ok = False
            bad, s = skip(dict(c, niter=op[1]), cur, w)
            if bad:
                continue
            need(ok and f is not None, 'run failed after earlier runs')
            n += 1
            close(t.weight, f.weight, 'weights after earlier use', rtol=0,
                  atol=1e-9 * s)
            close(t.diff, f.diff, 'discrepancy after earlier use', rtol=0,
                  atol=1e-8)
            close(t.recreated, f.recreated, 'waterfall after earlier use',
                  rtol=0, atol=1e-8 * max(1, s / f.weight.sum()))
            # a longer run begins with the shorter one
        elif op[0] == 'prefix':
            a, b = sorted(op[1:])
            bad, s = skip(dict(c, niter=b), cur, w)
            if bad:
                continue
            n += 1
            p, q = outcome(w, cur, a), outcome(w, cur, b)
            close(p.diff, q.diff[:a + 1],
                  f'{a} iterations are the start of {b}', rtol=0, atol=1e-8)
        elif op[0] == 'tracks':
            r = np.random.default_rng([c['seed'], op[1]])
            cur = r.integers(0, c['nbins'], (op[2], c['nprof']))
            t.xp = cur
            need(t.nparts == op[2], 'number of particles follows the tracks')
        elif op[0] == 'bad tracks':
            r = np.random.default_rng([c['seed'], 77])
            m = op[2] or len(cur)
            y = r.integers(0, c['nbins'], (m, c['nprof'])).astype(
                float if op[1] % 2 else int)
            y[r.integers(m), r.integers(c['nprof'])] = op[1]
            before = {k: getattr(t, k) for k in ('weight', 'diff', 'nparts',
                                                 'nbins', 'nprofs')}
            if op[1] < 0 or op[1] >= c['nbins']:
                rejects(ex.XPOutOfImageWidthError, setattr, t, 'xp', y,
                        what=f'bin {op[1]} of {c["nbins"]}')
            y = y % c['nbins']
            # positions inside a bin, just outside the first and the last
            z = np.minimum(y + 0.5, np.nextafter(float(c['nbins']), 0))
            for v in (-0.5, -1e-6, -1e-300, c['nbins'], c['nbins'] + 0.25):
                z2 = np.array(z)
                z2[r.integers(m), r.integers(c['nprof'])] = v
                rejects(ex.XPOutOfImageWidthError, setattr, t, 'xp', z2,
                        what=f'position {v!r} in {c["nbins"]} bins')
            for bad, what in ((y[:, 1:], 'a profile too few'),
                              (np.hstack([y, y[:, :1]]), 'one too many'),
                              (y[0], 'one-dimensional tracks'),
                              (7, 'a number')):
                rejects(ex.CoordinateImportError, setattr, t, 'xp', bad,
                        what=what)
            for bad, what in ((cur[:, 1:], 'y: a profile too few'),
                              (np.vstack([cur, cur[:1]]), 'y: one particle '
                               'too many'), (7, 'y: a number')):
                rejects(ex.CoordinateImportError, setattr, t, 'yp', bad,
                        what=what)
            same(t.xp, cur, 'tracks kept after a refused assignment')
            for k, v in before.items():
                need(getattr(t, k) is v or getattr(t, k) == v,
                     f'{k} changed by a refused assignment')
        elif op[0] == 'inside':
            # a position anywhere inside a bin counts for this bin
            r = np.random.default_rng([c['seed'], op[1]])
            z = r.uniform(0, c['nbins'], (op[2], c['nprof']))
            z[0, 0] = np.nextafter(float(c['nbins']), 0)
            cur = np.floor(z).astype(int)
            t.xp = z
            same(t.xp, cur, 'bins of the positions given')
        elif op[0] == 'none':
            t.xp = None
            need(t.xp is None and t.nparts is None, 'tracks removed')
            rejects(ex.CoordinateError, t.run, 2, what='run without tracks')
            rejects(ex.CoordinateError, t.run_hybrid, 2,
                    what='run_hybrid without tracks')
            rejects(ex.CoordinateImportError, setattr, t, 'yp', cur,
                    what='y before x')
            t.xp = cur
            need(t.nparts == len(cur), 'tracks given again')
        elif op[0] == 'abort':
            def boom(i, m):
                if i >= op[1]:
                    raise KeyboardInterrupt
            try:
                t.run(5, callback=boom)
            except (KeyboardInterrupt, RuntimeError):
                pass
        elif op[0] == 'hybrid':
            try:
                t.run_hybrid(op[1])
            except ex.WaterfallReducedToZero:
                pass
        same(t.waterfall, rm_norm(w), 'measured waterfall kept')
    return n > 0, f'{len(c["ops"])} operations'


def rm_norm(w):
    return Tomography(w).waterfall


def run_verbose(c):
    x, w = rm.make(c)
    bad, s = skip(c, x, w)
    if bad:
        return False, 'reduced to zero'
    a = outcome(w, x, c['niter'])
    b = Tomography(w, x)
    with contextlib.redirect_stdout(io.StringIO()):
        call(b.run, c['niter'], verbose=True)
    close(b.weight, a.weight, 'weights of a verbose run', rtol=0,
          atol=1e-9 * s)
    t = call(Tomography, w)
    rejects(ex.CoordinateError, t.run, c['niter'], what='no tracks')
    rejects(ex.CoordinateError, t.run_hybrid, c['niter'], what='no tracks')
    t.xp = x
    call(t.run, c['niter'])
    close(t.weight, a.weight, 'weights with tracks given later', rtol=0,
          atol=1e-9 * s)
    return c['n'] > 1, 'run'


op = st.one_of(
    st.tuples(st.just('run'), st.integers(0, 6)),
    st.tuples(st.just('run'), st.integers(0, 6)),
    st.tuples(st.just('prefix'), st.integers(0, 8), st.integers(0, 8)),
    st.tuples(st.just('tracks'), st.integers(0, 999), st.integers(1, 30)),
    st.tuples(st.just('bad tracks'), st.integers(-5, 25),
              gen.few(0, 1, 3, 40)),
    st.tuples(st.just('inside'), st.integers(0, 999), st.integers(1, 30)),
    st.tuples(st.just('none')),
    st.tuples(st.just('abort'), st.integers(1, 5)),
    st.tuples(st.just('hybrid'), st.integers(0, 3))).map(list)

SUBS = [
    Sub('meta', with_(rm.case(), kind=gen.few(
        'particle order', 'profile order', 'mirror', 'scale', 'negative',
        'layout', 'twins', 'empty bins')), run_meta, quick=3000, shards=3,
        rule=RULE + '; the same problem put in another way'),
    Sub('valid', rm.case(maxp=400, maxprof=12, maxbins=40, iters=15),
        run_valid, quick=1500, rule=RULE),
    Sub('threads', with_(rm.case(maxp=3000, maxprof=30, maxbins=40),
                         threads=st.lists(st.integers(1, 16), min_size=2,
                                          max_size=4)), run_threads,
        quick=500, threads=8, rule=RULE + '; drawn thread counts'),
    Sub('many', with_(rm.case(maxp=60000, maxprof=5, maxbins=16, iters=3),
                      n=st.one_of(st.integers(2000, 20000),
                                  st.integers(2000, 400000)),
                      threads=gen.few([1, 8, 8], [8, 1, 5, 8], [8, 8, 3])),
        run_threads, quick=60, threads=8,
        rule=RULE + '; thousands of particles, drawn thread counts'),
    Sub('history', with_(rm.case(maxp=30), ops=st.lists(op, min_size=1,
                                                        max_size=8)),
        run_history, quick=1500, shards=2,
        rule='sequences of runs, track changes, refused changes, aborted '
             'runs; non-trivial: at least one judged run'),
    Sub('verbose', rm.case(maxp=20), run_verbose, quick=200, rule=RULE),
]
