"""P13: preparation of measured waterfalls."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.compat import fortran
from longitudinal_tomography.data import data_treatment as dt
from longitudinal_tomography.data import pre_process as pp
from longitudinal_tomography.utils import data_treatment as udt
from vt import gen
from vt.api import Sub, call, close, need, rejects, same
from props.p01 import with_
from props.p12 import rebinned

RULE = 'random waterfalls (bunch-like, noise, steps, constant, negative)'


@st.composite
def wcase(draw, minb=1, maxb=60, maxp=8):
    return dict(nprof=draw(st.integers(1, maxp)),
                nbins=draw(st.one_of(st.integers(minb, minb + 8),
                                     st.integers(minb, maxb))),
                kind=draw(gen.few('bunch', 'noise', 'steps', 'const')),
                off=draw(gen.few(0.0, 0.0, -0.4, 3.0)),
                whole=draw(gen.few(False, False, True)),
                dtype=draw(gen.few('', '', '', 'int16', 'uint16', 'int64',
                                   'float32')),
                amp=draw(gen.logfl(1e-6, 1e9)), seed=draw(gen.SEED))


def wf(c):
    r = np.random.default_rng([c['seed'], 51])
    s = (c['nprof'], c['nbins'])
    x = np.arange(c['nbins'])
    if c['kind'] == 'bunch':
        w = np.exp(-0.5 * ((x - r.uniform(0, c['nbins'], (s[0], 1)))
                           / (c['nbins'] / r.uniform(4, 30) + .2)) ** 2)
    elif c['kind'] == 'noise':
        w = r.normal(0, 1, s)
    elif c['kind'] == 'steps':
        w = r.integers(0, 3, s) * 1.0
    else:
        w = np.ones(s)
    w = w + c['off']
    d = c.get('dtype')
    if d and d != 'float32':        # as a digitiser delivers them
        w = np.round(w * (10 if c['whole'] else
                          30000 / max(np.abs(w).max(), 1e-9)))
        return np.abs(w) if d == 'uint16' else w
    if c.get('whole'):
        w = np.round(w * 10)
    else:
        w = w * c['amp']
    return w.astype('float32').astype(float) if d else w


def given(c, w):
    """The waterfall in the type it is handed over in."""
    if c.get('dtype'):
        w = w.astype(c['dtype'])
    return w.tolist() if c.get('aslist') else w.copy()


def eps(c):
    return 1e-5 if c.get('dtype') == 'float32' else 1e-12


def run_rebin(c):
    w = wf(c)
    n, R = c['nbins'], 1 + c['R'] % c['nbins']
    want = rebinned(w, R)
    tol = eps(c) * np.abs(w).max() * R
    src = given(c, w)
    for mod in (pp, dt, udt):
        out = call(mod.rebin, src, R)
        need(len(out) == 2 and out[1] is None, 'no bin width asked for')
        close(out[0], want, 'rebinned', rtol=0, atol=tol)
        need(out[0].shape[1] == -(-n // R), 'number of bins')
        a, d = call(mod.rebin, src, R, c['dtb'])
        close(a, want, 'rebinned', rtol=0, atol=tol)
        close(d, c['dtb'] * R, 'bin width')
        a, d, s = call(mod.rebin, src, R, dtbin=c['dtb'],
                       synch_part_x=c['sx'])
        close([d, s], [c['dtb'] * R, c['sx'] / R], 'bin width and '
              'synchronous position')
        close(a, want, 'rebinned', rtol=0, atol=tol)
        # time of the synchronous particle is kept
        close(s * d, c['sx'] * c['dtb'], 'time of the synchronous particle')
    if n % R == 0:
        close(want.sum(axis=1), w.sum(axis=1), 'signal', rtol=0,
              atol=tol * n)
        k = n // R
        for q in range(2, k + 1):
            if k % q == 0:       # two steps are one
                b = call(pp.rebin, call(pp.rebin, src, R)[0], q)[0]
                close(b, call(pp.rebin, src, R * q)[0], 'rebinned in two steps',
                      rtol=0, atol=tol * q)
                break
    if R == 1:
        same(call(pp.rebin, src, 1)[0], w, 'factor one')
    same(src, w, "caller's waterfall")
    return R > 1 and n > 1, 'divisible' if n % R == 0 else 'with a rest'


def run_cuts(c):
    w = wf(c)
    n, m = c['nbins'], c['margin']
    g = np.abs(np.diff(w, axis=1)).sum(axis=0)
    g = g - g.min()
    thr = None
    if c['thr'] is not None:
        thr = c['thr'] * g.max() if c['thr'] else c['thr']
    lim = 0.3 * g.max() if thr is None else thr
    act = np.flatnonzero(g > lim)
    amb = np.any(np.abs(g - lim) < 1e3 * eps(c) * (np.abs(w).max() + 1e-300)) and \
        g.max() > 0
    if thr == 0 and np.all(w == np.round(w)) and np.abs(w).max() < 2 ** 40:
        amb = False             # whole numbers: the gradient is exact
    src = given(c, w)
    kw = {} if m == 20 and c['default'] else dict(margin=m)
    if thr is not None:
        kw['threshold'] = thr
    a, b = call(pp.get_cuts, src, **kw)
    need(isinstance(a, int) and isinstance(b, int), 'cuts are integers')
    need(0 <= a < b <= n, f'cuts {a}, {b} for {n} bins')
    cut = call(pp.cut_waterfall, src, a, b)
    same(cut, w[:, a:b], 'cut waterfall')
    same(src, w, "caller's waterfall")
    if amb:
        return False, 'gradient at the threshold'
    if len(act):
        lo, hi = act[0], act[-1]
        need(a == max(0, lo - m), f'left cut {a}: first strong gradient at '
             f'{lo}, margin {m}')
        need(b == min(n, hi + 3 + m),
             f'right cut {b}: last strong gradient at {hi}, margin {m}, '
             f'{n} bins')
        return (a, b) != (0, n), 'signal'
    need((a, b) == (0, n), 'nothing found: nothing cut')
    return False, 'no signal'


def run_cut(c):
    w = wf(c)
    n = c['nbins']
    a = c['a'] % (n + 2) - 1
    b = c['b'] % (2 * n + 3) - n - 1
    src = given(c, w)
    e = b if b >= 0 else n + b
    if 0 <= a < e <= n:
        same(call(pp.cut_waterfall, src, a, b), w[:, a:e], 'cut')
        return True, 'accepted'
    rejects(ValueError, pp.cut_waterfall, src, a, b,
            what=f'cut {a}, {b} of {n} bins')
    return True, 'refused'


def run_filter(c):
    r = np.random.default_rng([c['seed'], 52])
    low = np.where(r.random(c['nprof']) < c['low'], 0.01, 1)[:, None]
    if c['dtype'].endswith('16') or c['dtype'] == 'int64':
        w = np.round((np.abs(wf(c)) + 1) * low)
        if w.sum() == 0:
            return False, 'empty'
    else:
        w = (np.abs(wf(c)) + 1e-3 * c['amp']) * low
        if c['dtype']:
            w = w.astype('float32').astype(float)
    s = w.sum(axis=1) / w.sum()
    thr = s.max() - s.min() - s.mean()
    if np.any(np.abs(s - thr) < 1e3 * eps(c)):
        return False, 'sum at the threshold'
    good = s > thr
    ref, w = w, given(c, w)
    w0 = w.copy()
    n = c['npart']
    x = r.integers(0, c['nbins'], (n, c['nprof']))
    y = r.integers(0, c['nbins'], (n, c['nprof']))
    x0, y0 = x.copy(), y.copy()
    want = (ref / ref.sum())[good]
    rt = max(1e-9, 10 * eps(c))
    out = call(pp.filter_profiles, w)
    need(isinstance(out, tuple) and len(out) == 1, 'one array')
    close(out[0], want, 'profiles kept', rtol=rt)
    out = call(pp.filter_profiles, w, x, y)
    need(len(out) == 3, 'three arrays')
    close(out[0], want, 'profiles kept', rtol=rt)
    same(out[1], x0[:, good], 'x of the profiles kept')
    same(out[2], y0[:, good], 'y of the profiles kept')
    drop = int((~good).sum())
    rec = c['rec'] % c['nprof']
    if rec >= drop:
        out = call(pp.filter_profiles, w, x, y, rec)
        need(len(out) == 4 and out[3] == rec - drop,
             f'profile {rec} after dropping {drop}: {out[-1]}')
        out = call(pp.filter_profiles, w, rec_prof=rec)
        need(len(out) == 2 and out[1] == rec - drop, 'shifted profile')
    else:
        rejects(ValueError, pp.filter_profiles, w, x, y, rec,
                what='profile shifted below zero')
    rejects(ValueError, pp.filter_profiles, w, x, what='x without y')
    rejects(ValueError, pp.filter_profiles, w, None, y, what='y without x')
    same(w, w0, "caller's waterfall")
    same(x, x0, "caller's x")
    return drop > 0, 'dropped' if drop else 'all kept'


def run_baseline(c):
    ref_w = wf(c)
    w = given(c, ref_w)
    pc = c['pc']
    ref = c['rec'] % c['nprof']
    n = c['nbins']
    if not 0 <= pc <= 1:
        for fn in (fortran.calc_baseline, dt.calc_baseline_ftn):
            rejects(ex.InputError, fn, w, ref, pc, what=f'percentage {pc}')
        return True, 'refused'
    k = int(pc * n)
    if k < 1 or abs(pc * n - round(pc * n)) < 1e-9 and pc not in (0.5, 1.0):
        return False, 'no bin'
    want = ref_w[ref, :k].mean()
    a = call(fortran.calc_baseline, w, ref, pc)
    close(a, want, 'baseline', rtol=0, atol=eps(c) * np.abs(ref_w).max())
    need(call(dt.calc_baseline_ftn, w, ref, pc) == a, 'old name')
    if n >= 20:
        close(call(fortran.calc_baseline, w, ref), ref_w[ref, :int(n / 20)].mean(),
              'default baseline', rtol=0, atol=eps(c) * np.abs(ref_w).max())
    same(w, ref_w, "caller's waterfall")
    return c['kind'] != 'const', 'accepted'


B = st.booleans()
SUBS = [
    Sub('rebin', with_(wcase(), R=st.integers(0, 59), aslist=B,
                       dtb=gen.logfl(1e-12, 1e-6), sx=gen.fl(-5, 70)),
        run_rebin, quick=3000, shards=2,
        rule=RULE + '; drawn factor; non-trivial: factor > 1'),
    Sub('get_cuts', with_(wcase(minb=9, maxb=200), margin=gen.few(0, 1, 5, 20,
                                                                  20, 40),
                          aslist=B, default=B,
                          thr=gen.few(None, None, 0.05, 0.9, 0, 0.0),
                          ), run_cuts,
        quick=3000, rule=RULE + '; non-trivial: something is cut'),
    Sub('cut', with_(wcase(maxb=12), a=st.integers(0, 500),
                     b=st.integers(0, 500), aslist=B), run_cut, quick=3000,
        rule=RULE + '; limits in and out of range'),
    Sub('filter', with_(wcase(), low=gen.few(0.0, 0.2, 0.6),
                        npart=st.integers(1, 10), rec=st.integers(0, 10)),
        run_filter, quick=2000, rule=RULE + '; non-trivial: a profile is '
        'dropped'),
    Sub('baseline', with_(wcase(maxb=200), rec=st.integers(0, 10),
                          pc=st.one_of(gen.few(0.05, 0.5, 1.0, -0.01, 1.01),
                                       gen.fl(-0.5, 1.5))),
        run_baseline, quick=2000, rule=RULE),
]
