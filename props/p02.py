"""P02: tracking does not depend on incidental choices."""
import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils.tomo_config import AppConfig
from props.p01 import compare, label, with_
from vt import gen
from vt.api import Sub, call, close, need, same

B = st.booleans()


def fresh(c, a, scalar=True):
    m = gen.stub_machine(c, a, c['phi12'] if scalar else a['phi12'].copy())
    return m, call(Tracking, m)


def scales(c, xp, yp):
    return (1e-9 * (np.max(np.abs(xp)) + 1),
            1e-9 * (np.max(np.abs(yp)) + c['V'] * abs(c['q'])))


def run_subset(c):
    """Any selection, in any order, with repetition, of the particles tracks
    exactly as it does inside the full set (rounding only)."""
    a = gen.track_arrays(c)
    _, t = fresh(c, a, c['scalar'])
    xp, yp = call(t.track, c['rec'], (a['dphi'], a['denergy']))
    r = np.random.default_rng([c['seed'], 3])
    idx = r.integers(0, c['nparts'], c['nsel'])
    _, t2 = fresh(c, a, c['scalar'])
    x2, y2 = call(t2.track, c['rec'], (a['dphi'][idx], a['denergy'][idx]))
    ax, ay = scales(c, xp, yp)
    close(x2, xp[:, idx], 'phases of selected particles', rtol=0, atol=ax)
    close(y2, yp[:, idx], 'energies of selected particles', rtol=0, atol=ay)
    return c['nprof'] > 1 and c['nparts'] > 1, label(c)


def run_threads(c):
    a = gen.track_arrays(c)
    res = []
    try:
        for n in (1, c['nthr']):
            libtomo.set_num_threads(n)
            _, t = fresh(c, a, c['scalar'])
            res.append(call(t.track, c['rec'], (a['dphi'], a['denergy'])))
    finally:
        libtomo.set_num_threads(2)
    ax, ay = scales(c, *res[0])
    close(res[1][0], res[0][0], f'phases with {c["nthr"]} threads', 0, ax)
    close(res[1][1], res[0][1], f'energies with {c["nthr"]} threads', 0, ay)
    return c['nprof'] > 1, f'{c["nthr"]} threads'


def run_reverse(c):
    """Starting again from the state reached at any other profile gives back
    the whole history: forward and backward tracking are inverse."""
    a = gen.track_arrays(c)
    _, t = fresh(c, a, c['scalar'])
    xp, yp = call(t.track, c['rec'], (a['dphi'], a['denergy']))
    k = c['other'] % c['nprof']
    x2, y2 = call(t.track, k, (xp[k].copy(), yp[k].copy()))
    n = a['nturns'] + 1
    ax, ay = scales(c, xp, yp)
    close(x2, xp, f'phases, restarted from profile {k}', 0, ax * (1 + n / 10))
    close(y2, yp, f'energies, restarted from profile {k}', 0,
          ay * (1 + n / 10))
    return k != c['rec'], label(c)


def run_history(c):
    """A tracker used for a sequence of runs answers each run as a new one."""
    a = gen.track_arrays(c)
    m, t = fresh(c, a, c['scalar'])
    keep = {k: getattr(m, k).copy() for k in
            ('phi0', 'deltaE0', 'drift_coef', 'vrf1_at_turn',
             'vrf2_at_turn')}
    outs = []
    for i, op in enumerate(c['ops']):
        rec = op['rec'] % c['nprof']
        r = np.random.default_rng([c['seed'], 100 + op['d']])
        n = 1 + op['d'] % 7
        d = r.uniform(-3, 3, n)
        e = r.uniform(-1, 1, n) * c['V'] * abs(c['q'])
        form = op['form']
        if form == 'tuple':
            init = (d.copy(), e.copy())
        elif form == 'list':
            init = [list(d), list(e)]
        else:
            init = np.array([d, e])
        cb = (lambda p, q: None) if op['cb'] else None
        single = op['single']
        if single:
            AppConfig.set_single_precision()
        try:
            xp, yp = call(t.track, rec, init, callback=cb)
        finally:
            AppConfig.set_double_precision()
        ph12 = c['phi12'] if c['scalar'] else a['phi12']
        q = c['q']
        X, Y = gen.model_track(d, e, a['vrf1'] * q, a['vrf2'] * q, a['phi0'],
                               a['deltaE0'], a['drift_coef'], ph12,
                               c['hratio'], c['dturns'], rec, c['nprof'])
        cc = dict(c, rec=rec)
        nt = a['nturns']
        compare(xp, yp, X, Y, cc, f'run {i} of {len(c["ops"])}',
                rel=1e-3 * (1 + nt) ** 1.5 if single else 1e-9)
        need(xp.dtype == (np.float32 if single else np.float64),
             f'run {i}: result has type {xp.dtype}')
        tt = np.float32 if single else np.float64
        for g, v, w in zip(t.particles.coordinates_dphi_denergy, (d, e),
                           ('phases', 'energies')):
            same(np.asarray(g), v.astype(tt),
                 f'run {i}: initial {w} kept by the tracker')
        for k, v in (('init_dphi', d), ('init_denergy', e)):
            if getattr(t, k, None) is not None:
                same(np.asarray(getattr(t, k)), v.astype(tt),
                     f'run {i}: {k} of the tracker')
        same(np.asarray(init[0]), d, 'given phases unchanged')
        same(np.asarray(init[1]), e, 'given energies unchanged')
        for (xo, yo, xk, yk) in outs:
            same(xo, xk, f'result of an earlier run after run {i}')
            same(yo, yk, f'result of an earlier run after run {i}')
        outs.append((xp, yp, xp.copy(), yp.copy()))
        if op['scribble']:
            xp[:] = 1e9
            yp[:] = -1e9
            outs.pop()
    for k, v in keep.items():
        same(getattr(m, k), v, f'machine.{k} after tracking')
    need(m.dturns == c['dturns'] and m.nprofiles == c['nprof'],
         'machine counts changed')
    return len(c['ops']) > 1 and c['nprof'] > 1, f'{len(c["ops"])} runs'


def run_default(c):
    """Runs with the default distribution, on one tracker, with given
    distributions and changes of the machine in between."""
    p = gen.machine_params(c)

    def build(v, full, snpt, film):
        m = Machine(*p['args'], **dict(p['kw'], full_pp_flag=full, snpt=snpt,
                                       filmstart=film))
        m.vrf1 *= v
        m.values_at_turns()
        return m
    try:
        m = build(1.0, c['full'], c['snpt'], 0)
    except ValueError:
        return False, 'no bucket'
    t = call(Tracking, m)
    n = 0
    state = dict(v=1.0, full=c['full'], snpt=c['snpt'], film=0)
    for i, op in enumerate(c['ops']):
        rec = op['rec'] % c['nprof']
        if op['change'] == 'voltage':
            state['v'] = 1.0 + 0.05 * op['k']
            m.vrf1 = p['args'][1] * state['v']
            try:
                m.values_at_turns()
            except ValueError:
                return n > 1, 'no bucket'
        elif op['change'] == 'area':
            state['full'] = m.full_pp_flag = not m.full_pp_flag
        elif op['change'] == 'snpt':
            state['snpt'] = m.snpt = 1 + op['k'] % 4
        elif op['change'] == 'film':
            state['film'] = m.filmstart = op['k'] % c['nprof']
        try:
            u = Tracking(build(**state))
            want = u.track(rec)
        except (ex.EnergyLimitsError, ex.EnergyBinningError,
                ex.PhaseLimitsError, ex.InvalidParticleError, ValueError):
            continue                    # no area to fill
        if op['given']:
            a, b = np.linspace(-1, 1, 5), np.linspace(-1e3, 1e3, 5)
            g, h = call(t.track, rec, (a.copy(), b.copy()))
            same(g[rec], a, f'run {i}: given distribution')
        got = call(t.track, rec)
        n += 1
        need(got[0].shape == want[0].shape,
             f'run {i}: {got[0].shape[1]} particles, a new tracker has '
             f'{want[0].shape[1]}')
        close(got[0], want[0], f'run {i}: phases', rtol=1e-9, atol=1e-9)
        close(got[1], want[1], f'run {i}: energies', rtol=1e-9,
              atol=1e-9 * np.abs(want[1]).max())
        for g, w, v in zip(t.particles.coordinates_dphi_denergy, got,
                           ('phases', 'energies')):
            same(np.asarray(g), w[rec], f'run {i}: initial {v} kept by the '
                 'tracker')
        for k in ('xorigin', 'dEbin', 'imin', 'imax'):
            close(getattr(t.particles, k), getattr(u.particles, k),
                  f'run {i}: particles.{k}', rtol=1e-9, atol=1e-9)
    return n > 1, f'{n} runs'


def run_callback_error(c):
    """An exception in the callback reaches the caller; the tracker stays
    usable and answers as before."""
    a = gen.track_arrays(c)
    m, t = fresh(c, a, c['scalar'])
    ref = call(t.track, c['rec'], (a['dphi'], a['denergy']))
    stop = 1 + c['other'] % max(1, a['nturns'])

    class Stop(Exception):
        pass

    def cb(i, n):
        if i == stop:
            raise Stop()
    raised = False
    try:
        t.track(c['rec'], (a['dphi'], a['denergy']), callback=cb)
    except Stop:
        raised = True
    need(raised == (a['nturns'] > 0), f'callback exception: raised={raised}')
    x2, y2 = call(t.track, c['rec'], (a['dphi'], a['denergy']))
    same(x2, ref[0], 'phases after an interrupted run')
    same(y2, ref[1], 'energies after an interrupted run')
    return a['nturns'] > 0, label(c)


def run_many(c):
    run_threads(c)
    return run_subset(c)


op = st.fixed_dictionaries(dict(
    rec=st.integers(0, 20), d=st.integers(0, 30),
    form=gen.few('tuple', 'list', 'array'), cb=B,
    single=gen.few(False, False, False, True), scribble=B))
base = gen.track_case(max_prof=8, max_dturns=6, max_parts=200)
small = gen.track_case(max_prof=5, max_dturns=4, max_parts=8)
R = 'as for tracking; '
SUBS = [
    Sub('subset', with_(base, nsel=st.integers(1, 70), scalar=B), run_subset,
        quick=500, rule=R + 'random selection with repetition; non-trivial: '
        '>1 profile and >1 particle'),
    Sub('threads', with_(gen.track_case(max_parts=400), scalar=B,
                         nthr=st.integers(2, 9)), run_threads, quick=250,
        rule=R + 'thread count 1 against 2..9; non-trivial: >1 profile'),
    Sub('reverse', with_(base, other=st.integers(0, 40), scalar=B),
        run_reverse, quick=500,
        rule=R + 'restart from another profile; non-trivial: a different one'),
    Sub('history', with_(small, scalar=B, ops=st.lists(op, min_size=1,
                                                       max_size=6)),
        run_history, quick=300, shards=2,
        rule='sequence of runs on one tracker; non-trivial: >1 run'),
    Sub('default', with_(gen.machine_case(max_prof=5, max_dturns=5,
                                          max_bins=24),
                         ops=st.lists(st.fixed_dictionaries(dict(
                             rec=st.integers(0, 9), k=st.integers(0, 9),
                             given=B, change=gen.few(
                                 '', '', 'voltage', 'area', 'snpt', 'film'))),
                             min_size=1, max_size=5)), run_default,
        quick=400, shards=2, rule='sequences of default trackings and machine '
        'changes; non-trivial: two or more default trackings'),
    Sub('many', with_(gen.track_case(max_prof=4, max_dturns=4), scalar=B,
                      nparts=st.one_of(st.integers(2000, 20000),
                                       st.integers(2000, 100000)),
                      nthr=st.integers(2, 9), nsel=st.integers(1, 3000)),
        run_many, quick=40,
        threads=7, rule=R + 'thousands of particles, thread counts and '
        'selections'),
    Sub('interrupted', with_(small, other=st.integers(0, 40), scalar=B),
        run_callback_error, quick=200,
        rule='callback raising at a drawn turn; non-trivial: turn reached'),
]
