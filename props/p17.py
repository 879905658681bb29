"""P17: invalid parameters are refused with the documented error, valid ones
are not."""
import copy
import types

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import assertions as asrt
from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.cpp_routines import tomolib_wrappers as tw
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tomography import tomography_multibunch as mb
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils import tomo_input as ti
from longitudinal_tomography.utils.tomo_input import Frames
from vt import gen
from vt.api import Sub, Violation, call, need, rejects, same
from props.p01 import with_


MB = [v for k, v in vars(mb).items() if isinstance(v, type)
      and k.startswith('Tomography') and v.__module__ == mb.__name__][0]


class Err(Exception):
    pass


num = st.one_of(st.integers(-5, 5), gen.fl(-5, 5),
                gen.few(0.0, -0.0, 1.0, 1e300, -1e300, 0.1 + 0.2, 0.3))
SCALAR = {
    'greater': lambda v, a, b: v > a, 'less': lambda v, a, b: v < a,
    'equal': lambda v, a, b: v == a, 'not_equal': lambda v, a, b: v != a,
    'less_or_equal': lambda v, a, b: v <= a,
    'greater_or_equal': lambda v, a, b: v >= a,
    'inrange': lambda v, a, b: a <= v <= b}


def outcome(ok, what, f, *a, name=None):
    """f must pass (and return None) when ok, raise Err otherwise."""
    try:
        r = f(*a)
    except Err as e:
        need(not ok, f'{what}: refused')
        for n in name or ():
            need(n in str(e), f'{what}: the message {str(e)!r} does not '
                 f'mention {n!r}')
        return str(e)
    except Exception as e:
        raise Violation(f'{what}: {type(e).__name__}: {e}')
    need(ok, f'{what}: accepted')


def run_scalar(c):
    v, a, b = c['v'], c['a'], c['b']
    if c['tie']:
        v = b if c['tie'] == 2 else a
    for k, f in SCALAR.items():
        args = (v, 'some name', a) + ((b,) if k == 'inrange' else ())
        for conv in (lambda x: x, np.float64):
            args2 = tuple(conv(x) if not isinstance(x, str) else x
                          for x in args)
            outcome(bool(f(v, a, b)), f'assert_{k}{args}',
                    getattr(asrt, 'assert_' + k), *args2, Err, 'hint xyz',
                    name=('some name', 'hint xyz', str(args2[0]),
                          str(args2[2])))
    return True, 'tie' if c['tie'] else 'free'


ARRAY = {
    'in_range': lambda v, a, b: (v >= a) & (v <= b),
    'greater': lambda v, a, b: v > a, 'greater_eq': lambda v, a, b: v >= a,
    'less': lambda v, a, b: v < a, 'less_eq': lambda v, a, b: v <= a}


def run_array(c):
    r = np.random.default_rng([c['seed'], 71])
    n, off = c['n'], c['off']
    v = r.integers(-3, 4, n).astype(c['dtype'])
    a, b = c['a'], c['b']
    keep = v.copy()
    # push most values to the good side, so that few elements offend
    if c['calm']:
        v[r.random(n) < .8] = a
    keep = v.copy()
    for k, f in ARRAY.items():
        good = f(v, a, b)
        args = (a, b) if k == 'in_range' else (a,)
        e = outcome(bool(good.all()), f'assert_array_{k}{args} of {v}',
                    getattr(asrt, 'assert_array_' + k), v, *args, Err,
                    'hint xyz', off, name=('hint xyz',))
        if e:
            idx = np.flatnonzero(~good) + off
            if len(idx) < 900:
                got = e.split('[', 1)[-1].split(']', 1)[0].split()
                need([int(x) for x in got] == idx.tolist(),
                     f'assert_array_{k}{args} of {v}: names the indices '
                     f'{got}, not {idx.tolist()}')
    outcome(not np.all(v == a), f'assert_array_not_equal {v} {a}',
            asrt.assert_array_not_equal, v, 'some name', a, Err, 'hint xyz',
            name=('some name', 'hint xyz'))
    same(v, keep, 'array')
    return n > 1, 'array'


def run_shape(c):
    arrs = [np.zeros(s) for s in c['shapes']]
    want = tuple(c['want'])
    names = [f'arr{i}' for i in range(len(arrs))]
    ok = all(a.shape == want for a in arrs)
    if len(arrs) < 2:
        rejects(AssertionError, asrt.assert_array_shape_equal, arrs, names,
                want, what='one array')
        return False, 'one'
    try:
        asrt.assert_array_shape_equal(arrs, names, want, 'hint xyz')
        need(ok, f'shapes {c["shapes"]} accepted as {want}')
    except ex.UnequalArrayShapes as e:
        need(not ok, f'shapes {c["shapes"]} refused as {want}')
        for a, n in zip(arrs, names):
            need((n in str(e)) == (a.shape != want),
                 f'the message {str(e)!r} names the wrong arrays')
    # the number of items counts, whatever the shape
    k = int(np.prod(want))
    for v in (arrs, [np.zeros(x.size) for x in arrs]):
        ok = all(a.size == k for a in v)
        try:
            asrt.assert_array_numel_equal(v, names, k if c['num'] else (k,),
                                          'hint xyz')
            need(ok, f'sizes {[a.size for a in v]} accepted as {k}')
        except ex.UnequalArrayShapes as e:
            need(not ok, f'arrays of shapes {[a.shape for a in v]} refused '
                 f'for {k} items')
            for a, n in zip(v, names):
                need((n in str(e)) == (a.size != k),
                     f'the message {str(e)!r} names the wrong arrays')
    return True, 'ok' if ok else 'refused'


def run_index(c):
    i, n, wrap = c['i'], c['n'], c['wrap']
    if -n <= i < 0 and wrap:
        want = n + i
    elif 0 <= i < n:
        want = i
    else:
        want = None
    arg = {'int': int, 'np': np.int64, 'float': float}[c['kind']](i)
    if want is None:
        rejects(IndexError, asrt.assert_index_ok, arg, n, wrap,
                what=f'index {i} of {n}')
        if i < 0 and not wrap:
            rejects(ex.NegativeIndexError, asrt.assert_index_ok, arg, n,
                    what=f'index {i} of {n}')
    else:
        got = call(asrt.assert_index_ok, arg, n, wrap)
        need(got == want and isinstance(got, int),
             f'index {i} of {n}: {got!r}')
    return i < 0 or i >= n, 'refused' if want is None else 'ok'


def run_fields(c):
    o = types.SimpleNamespace()
    for i, k in enumerate(c['have']):
        setattr(o, f'f{i}', {'none': None, 'zero': 0, 'empty': [],
                             'array': np.zeros(2), 'false': False}.get(k, 1))
        if k == 'absent':
            delattr(o, f'f{i}')
    need_f = [f'f{i}' for i in c['ask']]
    bad = [f for f in need_f if getattr(o, f, None) is None]
    e = outcome(not bad, f'assert_fields of {c}', asrt.assert_fields, o,
                'thing', need_f, Err, 'hint xyz',
                name=('thing', 'hint xyz') if bad else ())
    if e:
        need(any(f'"{f}"' in e for f in bad), f'message {e!r} names no '
             f'missing field of {bad}')
    xp = np.array(c['xp'])
    nb = c['nb']
    if ((xp < 0) | (xp >= nb)).any():
        rejects(ex.InvalidParticleError, asrt.assert_only_valid_particles,
                xp, nb, what=f'particles {xp} in {nb} bins')
    else:
        call(asrt.assert_only_valid_particles, xp, nb)
    return bool(bad), 'bad' if bad else 'good'


MP, SC = ex.MachineParameterError, ex.SpaceChargeParameterError
# field, values refused, values accepted at the limit, error
RULES = [
    ('dtbin', [None, 0, 0.0, -1e-9], [], MP),
    ('dturns', [None, 0, -3], [1], MP),
    ('niter', [None, 0, -1], [1], MP),
    ('snpt', [None, 0, -1], [1], MP),
    ('machine_ref_frame', [None, -1], [0], MP),
    ('beam_ref_frame', [None, -1], [0], MP),
    ('h_num', [None, 0, -1], [1], MP),
    ('h_ratio', [None, -0.1], [1.0], MP),
    ('b0', [None, 0, -0.1], [], MP),
    ('mean_orbit_rad', [None, 0, -3.0], [], MP),
    ('bending_rad', [None, 0, -3.0], [], MP),
    ('e_rest', [None, 0, -938e6], [], MP),
    ('pickup_sensitivity', [-1e-9, -3], [None, 0.0, 1.0], SC),
    ('g_coupling', [-1e-9, -3], [None, 0.0, 1.0], SC),
    ('filmstart', [None, -1], [0], MP),
    ('filmstop', [None], [], MP),
    ('filmstep', [None, 0], [1], MP),
]
POS = ['dturns', 'vrf1', 'mean_orbit_rad', 'bending_rad', 'b0',
       'trans_gamma', 'rest_energy', 'nprofiles', 'nbins', 'dtbin']


def build(c, field=None, value=None):
    p = gen.machine_params(c)
    args = list(p['args'])
    kw = dict(p['kw'], demax=-1e6, niter=c['niter'])
    name = {'e_rest': 'rest_energy'}.get(field, field)
    if name in POS:
        args[POS.index(name)] = value
    elif field:
        kw[name] = value
    return Machine(*args, **kw)


def run_machine(c):
    f, bad, good, err = RULES[c['rule'] % len(RULES)]
    try:
        m = build(c)
    except ValueError as e:
        need('fit synchronous phase' in str(e),
             f'valid machine refused: {type(e).__name__}: {e}')
        return False, 'no bucket'
    call(asrt.assert_machine_input, m)
    if c['bad']:
        v = bad[c['pick'] % len(bad)]
        rejects(err, build, c, f, v, what=f'Machine with {f} = {v}')
        if v is None and f == 'h_num':
            pass
        old = getattr(m, f)
        setattr(m, f, v)
        rejects(err, asrt.assert_machine_input, m,
                what=f'assert_machine_input with {f} = {v}')
        setattr(m, f, old)
        call(asrt.assert_machine_input, m)
    elif good:
        v = good[c['pick'] % len(good)]
        try:
            build(c, f, v)
        except ValueError as e:
            need('fit synchronous phase' in str(e),
                 f'Machine with {f} = {v!r} refused: {e}')
    # films
    a, b, s = c['f0'], c['f1'], c['fs']
    ok = 0 <= a <= b and s != 0 and abs(s) <= abs(b - a + 1)
    m.filmstart, m.filmstop, m.filmstep = a, b, s
    if ok:
        call(asrt.assert_machine_input, m)
    else:
        rejects(MP, asrt.assert_machine_input, m, what=f'films {a} {b} {s}')
    return bool(c['bad']) or not ok, f if c['bad'] else 'good'


def run_start(c):
    """The start profile of a tracking, counted from either end."""
    try:
        m = build(c)
    except ValueError:
        return False, 'no bucket'
    if not np.all(np.isfinite(m.phi0)):
        return False, 'no bucket'
    t = Tracking(m)
    r = np.random.default_rng([c['seed'], 72])
    d = (r.uniform(-1, 1, 3), r.uniform(-1, 1, 3))
    i, n = c['i'], c['nprof']
    if -n <= i < n:
        x, y = call(t.track, i, d)
        same(x[i % n], d[0], f'phases at the start profile {i}')
        same(y[i % n], d[1], f'energies at the start profile {i}')
    else:
        rejects(IndexError, t.track, i, d, what=f'start profile {i} of {n}')
        rejects(IndexError, t.track, i, what=f'start profile {i} of {n}')
    return i < 0 or i >= n, 'start'


def run_frame(c):
    f = Frames(c['nf'], c['fl'], c['sf'], c['s0'], c['s1'], c['rb'], 1e-9)
    ok = (c['nf'] > 0 and 0 <= c['sf'] < c['nf'] and c['fl'] > 0
          and c['s0'] >= 0 and c['s1'] >= 0 and c['s0'] + c['s1'] < c['fl']
          and c['rb'] >= 1)
    if ok:
        call(asrt.assert_frame_inputs, f)
    else:
        rejects(ex.InputError, asrt.assert_frame_inputs, f,
                what=f'frames {c}')
    return not ok, 'ok' if ok else 'refused'


NEED_TRACK = ['vrf1_at_turn', 'vrf2_at_turn', 'drift_coef', 'phi0', 'phi12',
              'deltaE0']
NEED_FILL = ['omega_rev0', 'eta0', 'phi0', 'e0', 'snpt', 'demax', 'phi12',
             'time_at_turn', 'full_pp_flag']


def run_refuse(c):
    """Objects, tracks and particles that cannot be used are refused."""
    try:
        m = build(c)
    except ValueError:
        return False, 'no bucket'
    if not np.all(np.isfinite(m.phi0)):
        return False, 'no bucket'
    r = np.random.default_rng([c['seed'], 73])
    n, wrong = c['n'], c['n'] + c['extra']
    x, y = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    z = r.uniform(-1, 1, wrong)
    seq = {'tuple': tuple, 'list': list,
           'array': lambda v: np.array(v, dtype=float)}[c['seq']]
    p = Particles()
    p.coordinates_dphi_denergy = seq((x, y))
    old = p.coordinates_dphi_denergy
    for got, want, what in zip(old, (x, y), ('phases', 'energies')):
        same(got, want, f'{what} given to Particles')
    for bad in (3.0, None, (x,), (), (x, y, x), (x, 3.0), (3.0, y), (x, z),
                (z, y), [x, None]):
        what = f'coordinates {type(bad).__name__} of ' + (
            f'{[np.shape(b) for b in bad]}' if isinstance(bad, (tuple, list))
            else str(bad))
        rejects(ex.InvalidParticleError, setattr, p,
                'coordinates_dphi_denergy', bad, what=what)
        now = p.coordinates_dphi_denergy
        same(now[0], x, 'phases after a refusal')
        same(now[1], y, 'energies after a refusal')
        if bad is not None:
            rejects(Exception, Tracking(m).track, 0, bad,
                    what='track with ' + what)
    # trackers of something else, or of unfinished machines
    for bad in (None, 3, types.SimpleNamespace(**vars(m)), 'machine'):
        rejects(MP, Tracking, bad, what=f'Tracking({type(bad).__name__})')
    f = NEED_TRACK[c['pick'] % len(NEED_TRACK)]
    g = NEED_FILL[c['pick'] % len(NEED_FILL)]
    for name, fn, what in ((f, Tracking, 'Tracking'),
                           (g, lambda mm: Particles()
                            .homogeneous_distribution(mm, 0),
                            'homogeneous_distribution')):
        part = copy.copy(m)
        setattr(part, name, None)
        need(getattr(m, name) is not None, f'{name} of the machine is None')
        rejects(MP, fn, part, what=f'{what} with {name} = None')
    late = copy.copy(m)
    late.synch_part_x = -0.5
    rejects(MP, Tracking, late, what='Tracking with synch_part_x = -0.5')
    late.synch_part_x = 0
    call(Tracking, late)
    call(Tracking, m)
    ps = PhaseSpaceInfo(m)
    rejects(ex.EnergyBinningError, ps.find_dEbin, what='dEbin before xorigin')
    ps.xorigin = call(ps.calc_xorigin)
    demax = m.demax
    m.demax = 0.0
    rejects(ex.EnergyBinningError, ps.find_dEbin, what='demax = 0')
    m.demax = demax
    # tomography without tracks, waterfalls that are no waterfall
    w = r.uniform(1, 2, (3, 4))
    for cls in (Tomography, MB):
        for k in ('run', 'run_hybrid'):
            args = ([0], [4], [2], 2) if cls is MB else (2,)
            rejects(ex.CoordinateError, getattr(cls(w), k), *args,
                    what=f'{cls.__module__}.{k} without tracks')
    rejects(ex.WaterfallError, ti.raw_data_to_profiles, 3.0, m, 1, 1e-9,
            what='raw_data_to_profiles of a number')
    a = np.zeros((2, n))
    rejects(ex.InputError, tw.kick_and_drift, a, a, x, y, m.vrf1_at_turn,
            m.vrf2_at_turn, 0, 1, n, what='kick_and_drift without machine')
    return True, c['seq']


shape = st.lists(st.integers(1, 3), min_size=1, max_size=2)
few3 = st.integers(-2, 5)
SUBS = [
    Sub('scalar', st.fixed_dictionaries(dict(
        v=num, a=num, b=num, tie=gen.few(0, 0, 1, 2))), run_scalar,
        quick=1500, rule='triples of numbers, ties included'),
    Sub('array', st.fixed_dictionaries(dict(
        n=st.integers(1, 12), a=st.integers(-4, 4), b=st.integers(-4, 4),
        off=st.integers(0, 9), dtype=gen.few('i4', 'f8', 'f4'),
        calm=st.booleans(), seed=gen.SEED)), run_array, quick=1500,
        rule='small integer valued arrays; non-trivial: more than one '
             'element'),
    Sub('shape', st.fixed_dictionaries(dict(
        shapes=st.lists(shape, min_size=1, max_size=4), want=shape,
        num=st.booleans())), run_shape, quick=1500,
        rule='lists of array shapes'),
    Sub('index', st.fixed_dictionaries(dict(
        i=st.integers(-12, 12), n=st.integers(1, 9), wrap=st.booleans(),
        kind=gen.few('int', 'np', 'float'))), run_index, quick=1500,
        rule='non-trivial: index outside 0..n-1'),
    Sub('fields', st.fixed_dictionaries(dict(
        have=st.lists(gen.few('set', 'none', 'absent', 'zero', 'empty',
                              'array', 'false'), min_size=1, max_size=6),
        ask=st.lists(st.integers(0, 6), min_size=1, max_size=4),
        xp=st.lists(st.integers(-1, 9), min_size=1, max_size=6),
        nb=st.integers(1, 9))), run_fields, quick=1000,
        rule='objects with set, unset and missing fields'),
    Sub('machine', with_(
        gen.machine_case(max_prof=4, max_dturns=3), rule=st.integers(0, 99),
        pick=st.integers(0, 9), bad=gen.few(True, True, False),
        niter=st.integers(1, 9), f0=few3, f1=few3, fs=few3), run_machine,
        quick=2000, shards=2,
        rule='one parameter of a valid machine replaced'),
    Sub('start', with_(gen.machine_case(max_prof=5, max_dturns=3),
                       niter=st.integers(1, 9), i=st.integers(-9, 9)),
        run_start, quick=500, rule='start profile index inside or outside'),
    Sub('refuse', with_(gen.machine_case(max_prof=3, max_dturns=3),
                        niter=st.integers(1, 9), n=st.integers(1, 6),
                        extra=st.integers(1, 3), pick=st.integers(0, 99),
                        seq=gen.few('tuple', 'list', 'array')),
        run_refuse, quick=400,
        rule='coordinates, machines and waterfalls that cannot be used'),
    Sub('frame', st.fixed_dictionaries(dict(
        nf=few3, fl=st.integers(-2, 8), sf=few3, s0=few3, s1=few3, rb=few3)),
        run_frame, quick=1500, rule='frame geometry'),
]
