"""P20: switching precision or device settings changes rounding only."""
import numpy as np
from hypothesis import strategies as st

import longitudinal_tomography as lt
from longitudinal_tomography import exceptions as ex
from longitudinal_tomography import shortcuts
from longitudinal_tomography.data import data_treatment as dtr
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils import tomo_config as conf
from vt import gen, recmodel as rm
from vt.api import Sub, call, close, need, same
from props.p01 import with_

OPS = ('single', 'double', 'cpu', 'gpu', 'track', 'default', 'tomo', 'cast',
       'old tomo', 'old track', 'image', 'machine', 'hybrid')
EPS = {np.float32: 2.0 ** -23, np.float64: 2.0 ** -52}


class World:
    """Inputs, and what they give without any switching."""

    def __init__(self, c):
        self.c = c
        self.a = gen.track_arrays(c)
        self.m = gen.stub_machine(c, self.a)
        self.keep = {k: getattr(self.m, k).copy() for k in (
            'phi0', 'deltaE0', 'drift_coef', 'vrf1_at_turn', 'vrf2_at_turn')}
        self.tracker = Tracking(self.m)
        self.dist = (self.a['dphi'], self.a['denergy'])
        self.ref = [np.array(v) for v in
                    call(Tracking(self.m).track, c['rec'], self.dist)]
        d = dict(c['tomo'])
        self.x, self.w = rm.make(d)
        self.niter = d['niter']
        self.ok = self.condition(d)
        self.tomo = Tomography(self.w, self.x) if self.ok else None
        if self.ok:
            t = Tomography(self.w, self.x)
            call(t.run, self.niter)
            self.tref = (t.weight.copy(), t.diff.copy(), t.recreated.copy())
        p = gen.machine_params(c['mach'])
        self.mp = p
        try:
            self.real = Machine(*p['args'], **p['kw'])
            self.rref = [np.array(v) for v in
                         Tracking(self.real).track(c['mach']['bref'])]
        except (ex.EnergyLimitsError, ex.EnergyBinningError,
                ex.PhaseLimitsError, ex.InvalidParticleError, ValueError):
            self.real = None

    def condition(self, d):
        nw = rm.norm_wf(self.w)
        r = np.random.default_rng([d['seed'], 23])
        try:
            W, D, dif, R, s = rm.reconstruct(self.x, nw, self.niter)
            self.s = float(max(s, np.abs(W).max()))
            self.cond = 0.0
            for _ in range(2):
                q = nw * (1 + 1e-6 * r.uniform(-1, 1, nw.shape))
                W2 = rm.reconstruct(self.x, q, self.niter)[0]
                self.cond = max(self.cond, float(np.abs(W2 - W).max()))
        except (rm.Unsure, rm.Reduced):
            return False
        return (self.s < 20 * float(W.sum())
                and self.cond < 0.003 * self.s)


def tol(prec, n):
    if prec is np.float64:
        return 1e-10
    return 2e-5 * (1 + n) ** 0.5 * (1 + 0.3 * n)


def tracks(got, want, prec, n, what, lim=None):
    for g, w, k in zip(got, want, ('phases', 'energies')):
        need(g.shape == w.shape, f'{what}: {k} of shape {g.shape}, not '
             f'{w.shape}')
        s = np.abs(w).max() + (1 if k == 'phases' else
                               np.abs(want[1]).max() * 0.1 + 1e-30)
        if lim:
            s += lim
        close(g, w, f'{what}: {k}', rtol=0, atol=tol(prec, n) * s)


def run(c):
    conf.AppConfig.set_double_precision()
    conf.AppConfig.use_cpu()
    try:
        w = World(c)
        prec, used = np.float64, set()
        for i, (op, k) in enumerate(c['ops']):
            what = f'operation {i} ({op}) in {prec.__name__}'
            if op == 'single':
                call(lt.set_single_precision)
                prec = np.float32
            elif op == 'double':
                call(lt.set_double_precision)
                prec = np.float64
            elif op == 'cpu':
                call(lt.use_cpu)
            elif op == 'gpu':
                try:
                    lt.use_gpu()
                except ImportError:
                    pass
                else:
                    return False, 'a GPU is there'
            else:
                if one(w, op, k, prec, what):
                    used.add((op, prec.__name__))
            need(conf.AppConfig.get_precision() is prec,
                 f'{what}: precision is '
                 f'{conf.AppConfig.get_precision()}')
            need(not conf.AppConfig.is_gpu_enabled()
                 and conf.device == 'CPU', f'{what}: device {conf.device}')
            for n, v in w.keep.items():
                same(getattr(w.m, n), v, f'{what}: machine.{n}')
    finally:
        conf.AppConfig.set_double_precision()
        conf.AppConfig.use_cpu()
    n = len({p for _, p in used})
    return n == 2, f'{n} precisions used'


def one(w, op, k, prec, what):
    c = w.c
    n = w.a['nturns']
    if op in ('track', 'old track'):
        t = w.tracker if op == 'old track' else call(Tracking, w.m)
        got = call(t.track, c['rec'], w.dist)
        for g in got:
            need(g.dtype == prec, f'{what}: result of type {g.dtype}')
        tracks(got, w.ref, prec, n, what, c['V'] * abs(c['q']))
    elif op == 'default':
        if w.real is None:
            return False
        got = call(Tracking(w.real).track, c['mach']['bref'])
        for g in got:
            need(g.dtype == prec, f'{what}: result of type {g.dtype}')
        m = w.real
        tracks(got, w.rref, prec, m.dturns * (m.nprofiles - 1), what)
    elif op in ('tomo', 'old tomo', 'hybrid'):
        if not w.ok:
            return False
        old = op == 'old tomo'
        t = w.tomo if old else call(Tomography, w.w, w.x)
        wt = call(t.run_hybrid if op == 'hybrid' else t.run, w.niter)
        p = np.float64 if prec is np.float64 else np.float32
        if op == 'tomo':
            for a, b in ((wt, 'weights'), (t.diff, 'discrepancy'),
                         (t.recreated, 'profiles'),
                         (t.waterfall, 'waterfall')):
                need(a.dtype == p, f'{what}: {b} of type {a.dtype}')
        q = 1e-9 if p is np.float64 else \
            3e-5 * (1 + w.niter) + 5 * w.cond / w.s
        same(t.xp, w.x, f'{what}: tracks')
        close(wt, w.tref[0], f'{what}: weights', rtol=0, atol=q * w.s)
        close(t.diff, w.tref[1], f'{what}: discrepancy', rtol=0,
              atol=20 * q)
        close(t.recreated, w.tref[2], f'{what}: profiles', rtol=0,
              atol=20 * q)
    elif op == 'image':
        if not w.ok:
            return False
        nb = w.w.shape[1]
        y = (w.x[:, ::-1] + 1) % nb
        t = call(Tomography, w.w, w.x, y)
        t.weight = w.tref[0].astype(prec)
        same(t.yp, y, f'{what}: energy coordinates')
        f = k % w.x.shape[1]
        m = gen.stub_machine(c, w.a)
        m.nbins, m.dEbin, m.dtbin = nb, 2.5, 1e-9
        ta, ea, d = call(dtr.phase_space, t, m, f)
        want = np.zeros((nb, nb))
        np.add.at(want, (w.x[:, f], y[:, f]), w.tref[0])
        close(d, want, f'{what}: image', rtol=0, atol=want.sum()
              * (1e-10 if prec is np.float64 else 1e-5))
    elif op == 'cast':
        r = np.random.default_rng([c['seed'], k])
        v = {0: r.normal(0, 1, (3, 4)), 1: r.integers(0, 999, (2, 5)),
             2: r.normal(0, 1, (4, 3)).astype(np.float32),
             3: r.normal(0, 1, 6)[::2]}[k % 4]
        g = call(conf.cast, v)
        need(isinstance(g, np.ndarray) and g.dtype == prec,
             f'{what}: {type(g)} of {g.dtype}')
        same(g, v.astype(prec), what)
        g[...] = 7
        need(not np.all(v == 7), f'{what}: shares memory with its argument')
        same(call(conf.zeros, (2, 3)), np.zeros((2, 3)), what)
    elif op == 'machine':
        if w.real is None:
            return False
        m = Machine(*w.mp['args'], **w.mp['kw'])
        for q in ('phi0', 'e0', 'beta0', 'eta0', 'deltaE0', 'drift_coef',
                  'time_at_turn', 'omega_rev0', 'vrf1_at_turn',
                  'vrf2_at_turn'):
            g = getattr(m, q)
            need(g.dtype == np.float64, f'{what}: {q} of {g.dtype}')
            same(g, getattr(w.real, q), f'{what}: {q}')
    return True


op = st.tuples(st.sampled_from(OPS + ('single', 'double')),
               st.integers(0, 9)).map(list)
SUBS = [
    Sub('history', with_(gen.track_case(max_prof=5, max_dturns=4,
                                        max_parts=20),
                         tomo=rm.case(maxp=30, hard=False),
                         mach=gen.machine_case(max_prof=3, max_dturns=4,
                                               max_bins=20),
                         ops=st.lists(op, min_size=5, max_size=16)), run,
        quick=4000, shards=4, rule='histories of precision and device '
        'switches, failed GPU requests, trackings and reconstructions on '
        'old and new objects; non-trivial: results in both precisions'),
]
