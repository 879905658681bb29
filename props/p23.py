"""P23: the GPU code path computes what the CPU code path computes.

There is no GPU here: the Python side runs against a stand-in for CuPy
(vt/gpu/cupy) and the CUDA kernels are compiled for the host and launched
with the same grid, block and argument bytes (vt/gpu/include), in a random
order of the threads."""
import numpy as np
from hypothesis import strategies as st

import longitudinal_tomography as lt
from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.data import data_treatment as dtr
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils import tomo_config as conf
from vt import gen, recmodel as rm
from vt.api import Sub, Violation, call, close, need, same
from props.p01 import compare, expect, label, with_
from props.p20 import World, tol, tracks

PREC = {'double': np.float64, 'single': np.float32}


def host(a):
    return a.get() if hasattr(a, 'get') else np.asarray(a)


def gpu_type(a):
    return hasattr(a, 'get')


def device(f):
    """Runs f on the stand-in device and always comes back to the CPU."""
    def g(c):
        import cupy
        try:
            getattr(lt, f'set_{c.get("prec", "double")}_precision')()
            call(lt.use_gpu)
            return f(c)
        except cupy.Gap as e:
            return False, f'stand-in lacks {e}'
        except Violation as e:
            if cupy.GAPS:
                return False, f'stand-in lacks {cupy.GAPS[0]}'
            raise
        finally:
            cupy.GAPS.clear()
            lt.set_double_precision()
            lt.use_cpu()
    return g


@device
def run_track(c):
    import cupy as cp
    a = gen.track_arrays(c)
    X, Y = expect(c, a, c['scalar'])
    p = PREC[c['prec']]
    n = a['nturns']
    if c['api'] == 'class':
        m = gen.stub_machine(c, a, c['phi12'] if c['scalar']
                             else a['phi12'].copy())
        d = (a['dphi'].copy(), a['denergy'].copy())
        rec = c['rec'] - (c['nprof'] if c['fromend'] else 0)
        t = Tracking(m)
        xp, yp = call(t.track, rec, d)
        same(d[0], a['dphi'], 'phases passed in')
        same(d[1], a['denergy'], 'energies passed in')
        for g, v in zip(t.particles.coordinates_dphi_denergy, d):
            same(host(g), v.astype(p), 'initial distribution kept')
        for v in (xp, yp):
            need(gpu_type(v), f'result is a {type(v)}, not on the device')
            need(v.dtype == p, f'result of type {v.dtype}')
    else:
        from longitudinal_tomography.python_routines import \
            kick_and_drift_cupy as kd
        xp = cp.array(np.zeros((c['nprof'], c['nparts'])))
        yp = cp.array(np.zeros((c['nprof'], c['nparts'])))
        q = c['q']
        call(kd.kick_and_drift_cupy, xp, yp, cp.array(a['denergy']),
             cp.array(a['dphi']), a['vrf1'] * q, a['vrf2'] * q, a['phi0'],
             a['deltaE0'], a['drift_coef'],
             c['phi12'] if c['scalar'] else cp.array(a['phi12'][:n + 1]),
             c['hratio'], c['dturns'], c['rec'], 0, n, c['nparts'], False,
             None)
        p = np.float64
    xp, yp = host(xp), host(yp)
    need(xp.shape == X.shape and yp.shape == Y.shape,
         f'shapes {xp.shape}, {yp.shape}')
    if p is np.float64:
        compare(xp, yp, X, Y, c, f'GPU tracking ({c["api"]})')
    else:
        tracks((xp, yp), (X.astype(float), Y.astype(float)), p, n,
               'GPU tracking in single precision', c['V'] * abs(c['q']))
    return c['nprof'] > 1, f'{c["prec"]} {c["api"]}, ' + label(c)


@device
def run_rec(c):
    import cupy as cp
    x, w = rm.make(c)
    nw = rm.norm_wf(w)
    p = PREC[c['prec']]
    single = p is np.float32 and c['api'] == 'class'
    try:
        W, D, dif, R, s = rm.reconstruct(x, nw, c['niter'])
        s = float(max(s, np.abs(W).max()))
        q = 1e-9
        if single:
            r = np.random.default_rng([c['seed'], 23])
            d = max(float(np.abs(rm.reconstruct(
                x, nw * (1 + 1e-6 * r.uniform(-1, 1, nw.shape)),
                c['niter'])[0] - W).max()) for _ in range(2))
            if s > 20 * float(W.sum()) or d > 0.003 * s:
                return False, 'ill-conditioned in single precision'
            q = 3e-5 * (1 + c['niter']) + 5 * d / s
    except rm.Unsure:
        return False, 'left to rounding'
    except rm.Reduced:
        W = None
    if single and W is None:
        return False, 'left to rounding'
    if c['api'] == 'class':
        t = call(Tomography, w, x)
        same(host(t.xp), x, 'tracks')
        close(host(t.waterfall), nw, 'waterfall', rtol=0,
              atol=1e-12 if p is np.float64 else 1e-5)

        def go():
            return t.run(c['niter']), t.diff, t.recreated
    else:
        from longitudinal_tomography.python_routines import \
            reconstruct_cupy as rc

        def go():
            return rc.reconstruct_cupy(cp.array(x), cp.array(nw.astype(float)),
                                       c['niter'], w.shape[1], *x.shape)
    if W is None:
        try:
            go()
        except RuntimeError:
            return True, 'refused: nothing left'
        raise Violation('reconstruction of vanished weights was not refused')
    wt, df, rec = call(go)
    if c['api'] == 'class':
        need(gpu_type(wt) and wt.dtype == p, f'weights: {type(wt)} '
             f'{getattr(wt, "dtype", "")}')
    need(host(wt).shape == W[0].shape, f'weights of shape {wt.shape}')
    need(host(rec).shape == R.shape, f'recreated profiles of shape '
         f'{rec.shape}, not {R.shape}')
    close(host(wt), W[0], 'weights', rtol=0, atol=q * s)
    # a projection is normalised by its sum: relative error of the weights
    lim = min(1.0, q * s * len(x) / max(float(W.sum()), 1e-300))
    close(host(df), D, 'discrepancy', rtol=0, atol=max(20 * q, lim))
    close(host(rec), R, 'recreated profiles', rtol=0, atol=max(20 * q, lim))
    return c['niter'] > 0 and len(x) > 1, f'{c["prec"]} {c["api"]}'


@device
def run_image(c):
    r = np.random.default_rng([c['seed'], 5])
    nb, n, P = c['nbins'], c['n'], c['nprof']
    x, y = (r.integers(0, nb, (n, P)).astype(np.int32) for _ in 'xy')
    wt = r.uniform(0, 2, n) * (r.random(n) < 0.8)
    wf = r.uniform(0.1, 1, (P, nb))
    f = c['film'] % P
    out = c['out']
    p = PREC[c['prec']]
    if out:
        k = r.integers(0, n)
        (x if out[0] == 'x' else y)[k, f] = -1 if out[1] == '-' else nb
    dx, dy, dw = (conf.array(x[:, f]), conf.array(y[:, f]),
                  conf.cast(wt))
    want = np.zeros((nb, nb))
    if out:
        try:
            conf.make_phase_space(dx, dy, dw, nb)
        except IndexError:
            return True, 'outside refused'
        raise Violation('image with a particle outside of it was not refused')
    np.add.at(want, (x[:, f], y[:, f]), wt.astype(p))
    atol = 1e-12 * n if p is np.float64 else 1e-5 * n
    g = call(conf.make_phase_space, dx, dy, dw, nb)
    close(host(g), want, 'image', rtol=0, atol=atol)
    g = call(conf.make_phase_space, dx, dy, dw, nb, False)
    need(gpu_type(g), 'image was asked for on the device')
    close(host(g), want, 'image kept on the device', rtol=0, atol=atol)
    t = call(Tomography, wf, x, y)
    t.weight = conf.cast(wt)
    a = dict(nprof=P, dturns=1, rec=0, nparts=n, V=1., r2=0., K=.1, hratio=1.,
             phi12=0., acc=0., q=1, jitter=0., extra=0, seed=1)
    m = gen.stub_machine(a, gen.track_arrays(a))
    m.nbins, m.dEbin, m.dtbin = nb, 2.5, 1e-9
    ta, ea, d = call(dtr.phase_space, t, m, f)
    close(host(d), want, 'image of the reconstruction', rtol=0, atol=atol)
    return n > 1, 'image'


@device
def run_chain(c):
    """machine to image on the CPU and on the GPU."""
    p = gen.machine_params(c['mach'])
    rec = c['mach']['bref']
    res = {}
    for dev in ('cpu', 'gpu'):
        getattr(lt, 'use_' + dev)()
        try:
            m = Machine(*p['args'], **p['kw'])
            t = Tracking(m)
            xp, yp = t.track(rec)
        except (ex.EnergyLimitsError, ex.EnergyBinningError,
                ex.PhaseLimitsError, ex.InvalidParticleError, ValueError,
                RuntimeError) as e:
            res[dev] = type(e).__name__
            continue
        need((dev == 'gpu') == gpu_type(xp), f'{dev}: {type(xp)}')
        x, y = call(pts.physical_to_coords, xp, yp, m, t.particles.xorigin,
                    t.particles.dEbin)
        fx, fy, lost = call(pts.filter_lost, x, y, m.nbins)
        ix, iy = call(pts.ready_for_tomography, x, y, m.nbins)
        res[dev] = [host(v) for v in (xp, yp, x, y, fx, fy, ix, iy)] \
            + [int(lost)]
        m0 = m
    if isinstance(res['cpu'], str) or isinstance(res['gpu'], str):
        need(res['cpu'] == res['gpu'], 'one device refuses and the other '
             f'does not: {[v if isinstance(v, str) else "result" for v in res.values()]}')
        return False, 'refused on both'
    C, G = res['cpu'], res['gpu']
    m = m0
    es = np.abs(C[1]).max() + np.abs(m.vrf1_at_turn).max() * abs(m.q)
    close(G[0], C[0], 'phases', rtol=0, atol=1e-9 * (np.abs(C[0]).max() + 1))
    close(G[1], C[1], 'energies', rtol=0, atol=1e-9 * es)
    close(G[2], C[2], 'x', rtol=0, atol=1e-7 * (np.abs(C[2]).max() + 1))
    close(G[3], C[3], 'y', rtol=0, atol=1e-7 * (np.abs(C[3]).max() + 1))
    edge = np.abs(C[2] - np.round(C[2])).min() < 1e-5 or \
        np.abs(C[3] - np.round(C[3])).min() < 1e-5
    if not edge:
        need(C[8] == G[8], f'{G[8]} lost on the GPU, {C[8]} on the CPU')
        for k, n in ((4, 'kept x'), (5, 'kept y')):
            need(G[k].shape == C[k].shape, f'{n}: shape')
            close(G[k], C[k], n, rtol=0, atol=1e-5)
        same(G[6], C[6], 'bin of x')
        same(G[7], C[7], 'bin of y')
    return m.nprofiles > 1 and C[6].shape[0] > 1, \
        ('on an edge' if edge else 'bins compared') + \
        (', some lost' if C[8] else '')


@device
def run_history(c):
    lt.use_cpu()
    w = World(c)
    prec, gpu, used = np.float64, False, set()
    for i, (op, k) in enumerate(c['ops']):
        dev = 'GPU' if gpu else 'CPU'
        what = f'operation {i} ({op}) in {prec.__name__} on the {dev}'
        if op == 'single':
            call(lt.set_single_precision)
            prec = np.float32
        elif op == 'double':
            call(lt.set_double_precision)
            prec = np.float64
        elif op == 'cpu':
            call(lt.use_cpu)
            gpu = False
        elif op == 'gpu':
            call(lt.use_gpu)
            gpu = True
        elif one(w, op, k, prec, gpu, what):
            used.add((dev, prec.__name__))
        need(conf.AppConfig.get_precision() is prec,
             f'{what}: precision is {conf.AppConfig.get_precision()}')
        need(bool(conf.AppConfig.is_gpu_enabled()) == gpu
             and conf.device == ('GPU' if gpu else 'CPU'),
             f'{what}: device {conf.device}')
        for n, v in w.keep.items():
            same(getattr(w.m, n), v, f'{what}: machine.{n}')
    return len(used) > 1, f'{len(used)} device/precision pairs'


def one(w, op, k, prec, gpu, what):
    c = w.c
    if op in ('track', 'old track'):
        t = w.tracker if op == 'old track' else call(Tracking, w.m)
        got = call(t.track, c['rec'], w.dist)
        for g in got:
            need(g.dtype == prec and gpu_type(g) == gpu,
                 f'{what}: {type(g)} of {g.dtype}')
        tracks([host(g) for g in got], w.ref, prec, w.a['nturns'], what,
               c['V'] * abs(c['q']))
    elif op == 'tomo':
        if not w.ok:
            return False
        t = call(Tomography, w.w, w.x)
        wt = call(t.run, w.niter)
        need(wt.dtype == prec and gpu_type(wt) == gpu,
             f'{what}: {type(wt)} of {wt.dtype}')
        q = 1e-9 if prec is np.float64 else \
            3e-5 * (1 + w.niter) + 5 * w.cond / w.s
        same(host(t.xp), w.x, f'{what}: tracks')
        close(host(wt), w.tref[0], f'{what}: weights', rtol=0, atol=q * w.s)
        close(host(t.diff), w.tref[1], f'{what}: discrepancy', rtol=0,
              atol=20 * q)
        close(host(t.recreated), w.tref[2], f'{what}: profiles', rtol=0,
              atol=20 * q)
    elif op == 'cast':
        r = np.random.default_rng([c['seed'], k])
        v = r.normal(0, 1, (3, 4))
        g = call(conf.cast, v)
        need(g.dtype == prec and gpu_type(g) == gpu,
             f'{what}: {type(g)} of {g.dtype}')
        same(host(g), v.astype(prec), what)
        b = call(conf.cast_to_cpu, g)
        need(not gpu_type(b) and b.dtype == prec, f'{what}: back on the CPU')
        same(b, v.astype(prec), what)
        d = call(conf.cast_to_gpu, b)
        need(gpu_type(d) and d.dtype == prec, f'{what}: on the GPU')
        same(host(d), v.astype(prec), what)
    return True


B = st.booleans()
@device
def run_steps(c):
    """The single steps of the device routines."""
    import cupy as cp
    from longitudinal_tomography.python_routines import \
        kick_and_drift_cupy as kd
    a = gen.track_arrays(c)
    q, h, n = c['q'], c['hratio'], c['nparts']
    t = c['turn'] % (a['nturns'] + 1)
    v1, v2 = a['vrf1'][t] * q, a['vrf2'][t] * q
    f, e, k = a['phi0'][t], a['deltaE0'][t], a['drift_coef'][t]
    p12 = c['phi12']
    P, E = np.asarray(a['dphi'], float), np.asarray(a['denergy'], float)

    def force(x):
        x = x.astype(np.longdouble) + f
        return v1 * np.sin(x) + v2 * np.sin(h * (x - p12)) - e

    s = 1e-11 * (abs(v1) + abs(v2) * (1 + abs(h)) + abs(e)
                 + np.abs(E).max(initial=0))
    s *= 1 + np.abs(P).max(initial=0)
    sp = 1e-13 * (1 + np.abs(P).max(initial=0) + np.abs(k * E).max(initial=0))
    kick = (v1, v2, f, p12, h, n, e)
    for name, wp, we in (
            ('drift_up', P - k * E, E), ('drift_down', P + k * E, E),
            ('kick_up', P, E + force(P)), ('kick_down', P, E - force(P)),
            ('kick_drift_up_simultaneously', P - k * E,
             E + force(P - k * E)),
            ('kick_drift_down_simultaneously',
             P + k * (E - force(P)), E - force(P))):
        fn = getattr(kd, name, None)
        if fn is None:
            continue
        p, en = cp.array(P), cp.array(E)
        rest = ((k, n) if name.startswith('drift') else
                kick if name in ('kick_up', 'kick_down') else (k,) + kick)
        try:
            out = fn(p, en, *rest)
        except TypeError:       # helper with other arguments
            continue
        if out is None:
            out = (p, en) if 'sim' in name else p if 'drift' in name else en
        if name.startswith('drift'):
            p = out
        elif name in ('kick_up', 'kick_down'):
            en = out
        else:
            p, en = out
        close(host(p), wp.astype(float), f'phases after {name}', rtol=0,
              atol=sp + (abs(k) * s if 'sim' in name else 0))
        close(host(en), we.astype(float), f'energies after {name}', rtol=0,
              atol=s)
    return True, 'two RF' if v2 else 'one RF'


PR = gen.few('double', 'double', 'single')
API = gen.few('class', 'class', 'cupy')
op = st.tuples(gen.few('single', 'double', 'cpu', 'gpu', 'track', 'tomo',
                       'gpu', 'track', 'tomo', 'old track', 'cast'),
               st.integers(0, 9)).map(list)


def exact(s):
    # one value per turn: the device array is made for exactly these turns
    return s.map(lambda c: dict(c, extra=0) if not c['scalar'] else c)


SUBS = [
    Sub('track', exact(with_(gen.track_case(max_parts=150), prec=PR, api=API,
                             scalar=B, fromend=B)), run_track, quick=1500,
        shards=2, variant='gpu', rule='as P01, on the stand-in device; '
        'non-trivial: at least one tracked turn'),
    Sub('steps', with_(gen.track_case(max_parts=20),
                       turn=st.integers(0, 99)), run_steps, quick=400,
        variant='gpu', rule='as P01: every single kick and drift'),
    Sub('reconstruct', with_(rm.case(maxp=90), prec=PR, api=API), run_rec,
        quick=900, shards=2, variant='gpu', rule='tracks and waterfalls as in '
        'P08; non-trivial: an iteration, several particles'),
    Sub('profiles', with_(rm.case(maxp=5, maxprof=2600, maxbins=6, iters=3),
                          prec=gen.few('double'), api=gen.few('class')),
        run_rec, quick=150, variant='gpu', rule='as reconstruct, with up to '
        '2600 profiles of few particles'),
    Sub('image', st.fixed_dictionaries(dict(
        nbins=st.one_of(st.integers(1, 12), st.integers(1, 12),
                        st.integers(1, 300)), n=st.integers(1, 60),
        nprof=st.integers(1, 4), film=st.integers(0, 9), prec=PR,
        out=gen.few('', '', 'x-', 'x+', 'y-', 'y+'), seed=gen.SEED)),
        run_image, quick=800, variant='gpu', rule='random bins and weights, '
        'some with a particle outside; non-trivial: several particles'),
    Sub('chain', with_(st.fixed_dictionaries(dict(
        mach=gen.machine_case(max_prof=4, max_dturns=6, max_bins=20,
                              wild=True)))),
        run_chain, quick=500, shards=2, variant='gpu', rule='a machine to '
        'binned tracks on both devices; non-trivial: particles left and '
        'several profiles'),
    Sub('history', with_(gen.track_case(max_prof=4, max_dturns=3,
                                        max_parts=20),
                         tomo=rm.case(maxp=20, maxprof=4, maxbins=10,
                                      iters=4, hard=False),
                         mach=gen.machine_case(max_prof=2, max_dturns=2,
                                               max_bins=10),
                         ops=st.lists(op, min_size=6, max_size=16)),
        run_history, quick=800, shards=2, variant='gpu', rule='histories of '
        'device and precision switches between runs; non-trivial: results '
        'from two device/precision pairs'),
]
