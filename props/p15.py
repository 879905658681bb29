"""P15: files and texts written for the tomoscope hold the data given."""
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.compat import fortran, tomoscope
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils import tomo_output as to
from vt import gen
from vt.api import Sub, Violation, call, capture, close, need, rejects, same
from props.p01 import with_
from props import p10, p11

RULE = ('arrays of drawn shape, magnitude, sign, precision and memory layout '
        'written with every writer; non-trivial: more than one value')


def values(c, n):
    r = np.random.default_rng([c['seed'], 51])
    k = c['mag']
    v = {'one': r.uniform(0, 1, n), 'wide': 10.0 ** r.uniform(-99, 99, n),
         'tiny': 10.0 ** r.uniform(-300, -90, n),
         'signed': r.normal(0, 1, n) * 10.0 ** r.uniform(-4, 4, n),
         'zeros': r.uniform(0, 1, n) * (r.random(n) < .4),
         'round': np.round(r.uniform(0, 2, n), 7) + 5e-9}[k]
    return v.astype(np.float32) if c['single'] and k != 'tiny' \
        and k != 'wide' else v


def shaped(c, v, shape):
    a = v.reshape(shape)
    if c['layout'] == 'F':
        return np.asfortranarray(a)
    if c['layout'] == 'strided':
        b = np.full([s * 2 for s in shape], 7e7, a.dtype)
        ix = tuple(slice(1, None, 2) for _ in shape)
        b[ix] = a
        return b[ix]
    return a


def column(path, lead, what):
    with open(path, newline='') as f:
        t = f.read()
    need(t.endswith('\n') and '\r' not in t, f'{what}: line ends')
    ls = t[:-1].split('\n')
    out = []
    for x in ls:
        m = re.fullmatch(lead + r'(-?\d\.\d{7}E[+-]\d{2,3})', x)
        need(m is not None, f'{what}: line {x!r}')
        out.append(float(m.group(m.lastindex)))
    return np.array(out), ls


def seven(got, want, what):
    want = np.asarray(want, float).ravel()
    need(len(got) == len(want), f'{what}: {len(got)} lines for {len(want)} '
         'values')
    with np.errstate(all='ignore'):
        e = np.floor(np.log10(np.abs(want)))
    e[~np.isfinite(e)] = -300
    lim = 0.5000001 * 10.0 ** np.maximum(e - 7, -320)
    close(got, want, what, rtol=0, atol=lim)


def run_tables(c):
    n, m = c['nprof'], c['nbins']
    v = shaped(c, values(c, n * m), (n, m))
    keep = np.array(v)
    rec = c['rec'] % n
    num = c['num']
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        w = c['writer']
        old = None
        if w in ('profile', 'profile_ftn'):
            f = fortran.save_profile if w == 'profile' else to.save_profile_ftn
            name, args = f'profile{rec + 1:03d}.data', (v, rec, tmp)
            want, lead = v[rec], ' '
        elif w == 'profile_t':
            f, name = tomoscope.save_profile, f'profile{num + 1:03d}.data'
            args, want, lead = (v[rec], num, tmp), v[rec], ' '
        elif w in ('self', 'self_ftn'):
            f = fortran.save_self_volt_profile if w == 'self' \
                else to.save_self_volt_profile_ftn
            name, args, want, lead = 'vself.data', (v, tmp), keep, ' '
        elif w in ('image', 'image_ftn'):
            f = fortran.save_phase_space if w == 'image' \
                else to.save_phase_space_ftn
            name, args = f'image{num + 1:03d}.data', (v, num, tmp)
            want, lead = keep, '  '
        else:
            f = {'diff': fortran.save_difference,
                 'diff_ftn': to.save_difference_ftn,
                 'diff_t': tomoscope.save_difference}[w]
            d = v.ravel()
            name, args = f'd{num + 1:03d}.data', (d, tmp, num)
            want, lead = d, r' {8,}(\d+)  '
        if c['old']:
            with open(os.path.join(tmp, name), 'w') as g:
                g.write('  1.0000000E+00\n' * (n * m + 50))
        call(f, *args)
        need(os.listdir(tmp) == [name],
             f'{w} of {num} wrote {os.listdir(tmp)} instead of {name}')
        got, ls = column(os.path.join(tmp, name), lead, w)
        seven(got, np.asarray(want, float), w)
        if w.startswith('diff'):
            for i, x in enumerate(ls):
                need(int(x.split()[0]) == i, f'{w}: line {i} is {x!r}')
                need(i > 99 or len(x.split()[0]) + x.index(x.split()[0])
                     == 12, f'{w}: columns of line {i}: {x!r}')
        same(v, keep, 'array given to the writer')
    return n * m > 1, c['writer']


PAT = dict(profilecount=r'profilecount = (\d+)', profilelength=
           r'profilelength = (\d+)', dtbin=r'\bdtbin = (\S+)',
           dEbin=r'\bdEbin = (\S+)', eperimage=r'eperimage = (\S+)',
           xat0=r'\n xat0 = +(\S+)', yat0=r'\n yat0 = +(\S+)',
           footl=r'tangentfootl = +(\S+)', footu=r'tangentfootu = +(\S+)',
           fit=r'fit xat0 = +(\S+)', phi0=r'phi0\( (\d+)\) = (\S+)',
           imin=r'imin\( (\d+)\) = +(\S+) and', imax=r'imax\( (\d+)\) = +(\S+)')


def check_plotinfo(s, m, dEbin, imin, imax, charge, fit):
    g = {}
    for k, p in PAT.items():
        x = re.findall(p, '\n' + s)
        need(len(x) == 1, f'plot info: {k} appears {len(x)} times in\n{s}')
        g[k] = x[0]
    f0 = m.filmstart

    def val(k, v, lim):
        t = g[k][1] if isinstance(g[k], tuple) else g[k]
        need(abs(float(t) - v) <= lim * (1 + 1e-9),
             f'plot info: {k} is {t}, should be {v!r}')
        if isinstance(g[k], tuple):
            need(int(g[k][0]) == f0 + 1,
                 f'plot info: {k} of {g[k][0]}, not of {f0 + 1}')
    val('profilecount', m.nprofiles, 0)
    val('profilelength', m.nbins, 0)
    val('dtbin', m.dtbin, 0.5e-4 * 10 ** np.ceil(np.log10(m.dtbin)))
    val('dEbin', dEbin, 0.5e-4 * 10 ** np.ceil(np.log10(dEbin)))
    val('eperimage', charge, 0.5e-3 * 10 ** np.ceil(np.log10(charge)))
    val('xat0', m.synch_part_x, 0.5e-3)
    val('yat0', m.synch_part_y, 0.5e-3)
    lo, up, fx = fit
    val('footl', lo, 0.5e-3)
    val('footu', up, 0.5e-3)
    val('fit', fx, 0.5e-3)
    val('phi0', m.phi0[f0 * m.dturns], 0.5e-4)
    val('imin', imin, 0)
    val('imax', imax, 0)


def mach(c):
    p = gen.machine_params(c)
    k = dict(p['kw'], filmstart=c['film'] % c['nprof'], demax=-1e6)
    try:
        m = Machine(*p['args'], **k)
    except ValueError:
        return None
    return m if np.all(np.isfinite(m.phi0)) else None


def run_plotinfo(c):
    m = mach(c)
    if m is None:
        return False, 'no bucket'
    p = Particles()
    f = fortran.write_plotinfo if c['alias'] else to.write_plotinfo_ftn
    p.dEbin, p.imin, p.imax = c['dE'], c['imin'], c['imax']
    fit = (0.0, 0.0, 0.0)
    if c['fit'] == 'all':
        fit = (c['lo'], c['up'], c['fx'])
    for k, v in zip(('bunchlimit_low', 'bunchlimit_up',
                     'fitted_synch_part_x'), (c['lo'], c['up'], c['fx'])):
        if c['fit'] == 'all' or c['fit'] == k:
            setattr(m, k, v)
        elif c['fit'] == 'none':
            setattr(m, k, None)
    s = call(f, m, p, c['charge'])
    check_plotinfo(s, m, c['dE'], c['imin'], c['imax'], c['charge'], fit)
    for k, e in (('dEbin', ex.EnergyBinningError),
                 ('imin', ex.PhaseLimitsError),
                 ('imax', ex.PhaseLimitsError)):
        v = getattr(p, k)
        setattr(p, k, None)
        rejects(e, f, m, p, c['charge'], what=f'plot info without {k}')
        setattr(p, k, v)
    return c['nprof'] > 1, c['fit']


def status(c, m, rec):
    o = list(range(rec + 1, c['nprof'])) + list(range(rec - 1, -1, -1))
    return [f' Tracking from time slice  {rec + 1} to  {i + 1},   0.000% '
            'went outside the image width.' for i in o]


def run_track(c):
    m = mach(c)
    if m is None:
        return False, 'no bucket'
    rec = c['rec'] % c['nprof']
    r = np.random.default_rng([c['seed'], 52])
    quiet = Tracking(m)
    t = Tracking(m)
    rejects(ex.ProfileChargeNotCalculated, t.enable_fortran_output, None,
            what='no charge')
    need(not t.fortran_flag, 'flag after refusal')
    call(t.enable_fortran_output, c['charge'])
    need(t.fortran_flag and not quiet.fortran_flag, 'fortran_flag')
    if c['given']:
        d = (r.uniform(-1, 1, 5), r.uniform(-1, 1, 5))
    else:
        d = None
    back = c['back'] and rec
    with capture() as q:
        try:
            a = quiet.track(rec, d)
        except (ex.EnergyLimitsError, ex.PhaseLimitsError,
                ex.EnergyBinningError):
            a = None
    if a is None:
        return False, 'no area'
    need(q.text == '', f'a quiet tracking prints {q.text[:200]!r}')
    with capture() as q:
        if c['hybrid'] and c['given']:
            b = t.kick_and_drift(d[1].copy(), d[0].copy(),
                                 m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q,
                                 rec)
        else:
            b = t.track(rec - c['nprof'] if back else rec, d)
    for i in range(2):
        close(b[i], a[i], 'tracking with output', rtol=1e-6,
              atol=1e-9 * np.abs(a[i]).max())
    ls = q.lines
    if not c['given']:
        n = len(ls) - (c['nprof'] - 1)
        need(n > 0, 'plot info missing')
        check_plotinfo('\n'.join(ls[:n]), m, t.particles.dEbin,
                       t.particles.imin, t.particles.imax, c['charge'],
                       (0, 0, 0))
        ls = ls[n:]
    want = status(c, m, rec)
    norm = [re.sub(' +', ' ', x).strip() for x in ls]
    need(norm == [re.sub(' +', ' ', x).strip() for x in want],
         f'progress lines {norm} instead of {want}')
    return c['nprof'] > 1, 'given' if c['given'] else 'default'


def run_progress(c):
    """Verbose reconstruction numbers its iterations; quiet prints nothing."""
    x, w, nbins, cent, left, right = p10.make(dict(c, tl=[0] * c['bunches']))
    n = c['niter']
    left = [max(v - 1, 0) for v in left]
    right = [min(v, nbins) for v in right]
    out = []
    for verbose in (None if c['default'] else False, True):
        opt = {} if verbose is None else dict(verbose=verbose)
        with capture() as q, np.errstate(all='ignore'):
            try:
                if c['way'] == 'run':
                    t = Tomography(w, x)
                    t.run(niter=n, **opt)
                elif c['way'] == 'hybrid':
                    t = Tomography(w, x)
                    t.run_hybrid(niter=n, **opt)
                elif c['way'] == 'multi':
                    t = p10.TM(w, x)
                    t.run(cent, left, right, n, **opt)
                else:
                    t = p10.TM(w, x)
                    t.run_hybrid(np.array(cent), list(zip(left, right)), n,
                                 **opt)
            except Exception as e:
                if isinstance(e, ex.WaterfallReducedToZero) or \
                        'educed to' in str(e):
                    return False, 'reduced to zero'
                raise Violation(f'{c["way"]}: {type(e).__name__}: {e}')
        out.append(np.array(t.diff, dtype=float))
        want = ['Iterating...'] + [str(i + 1) for i in range(n)] + ['Done!']
        got = [v.strip() for v in q.lines]
        need(got == (want if verbose else []),
             lambda: f'{c["way"]}, verbose={verbose}: printed {got}, '
                     f'expected {want if verbose else []}')
    if not np.all(np.isfinite(out[0])):
        return False, 'reduced to zero'
    close(out[1], out[0], 'verbose and quiet reconstruction', rtol=1e-6,
          atol=1e-9 * max(1e-300, np.abs(out[0]).max()))
    return n > 1, c['way']


def run_image(c):
    """tomoscope.save_image writes the normalised histogram."""
    x, y, w = p11.make(c)
    nb, k = c['nbins'], c['rec']
    m = np.zeros((nb, nb))
    np.add.at(m, (np.asarray(x)[:, k], np.asarray(y)[:, k]),
              np.asarray(w, float))
    m = m.clip(0)
    if m.sum() <= 1e-6 * np.abs(w).sum():
        return False, 'empty'
    keep = [np.array(a) for a in (x, y, w)]
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        call(tomoscope.save_image, x, y, w, nb, k, tmp)
        name = f'image{k + 1:03d}.data'
        need(os.listdir(tmp) == [name], f'wrote {os.listdir(tmp)}')
        got, _ = column(os.path.join(tmp, name), '  ', 'image')
    need(len(got) == nb * nb, f'{len(got)} lines')
    tol = 1e-5 if c['single'] else 1e-9
    close(got.reshape(nb, nb), m / m.sum(), 'image written',
          rtol=6e-8 + tol, atol=tol * np.abs(w).sum() / m.sum())
    for a, b in zip((x, y, w), keep):
        same(a, b, 'arguments')
    return c['n'] > 1 and nb > 1, 'image'


def run_show(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    r = np.random.default_rng([c['seed'], 53])
    n = c['nbins']
    img = r.uniform(0, 1, (n, n))
    img /= img.sum()
    diff = r.uniform(0, 1, c['niter'])
    prof = r.uniform(0.01, 1, n) * 10.0 ** c['scale']
    full = np.tile(prof, (3, 1))
    arg = full[1] if c['view'] else prof
    keep = [img.copy(), diff.copy(), np.array(arg), full.copy()]
    fig = plt.figure() if c['fig'] else None
    try:
        call(to.show, img, diff, arg, fig)
        now = fig or plt.gcf()
        lines = [l.get_ydata() for a in now.axes for l in a.lines]
        xs = [l.get_xdata() for a in now.axes for l in a.lines]
        pics = [im.get_array() for a in now.axes for im in a.images]
        need(len(pics) == 1, 'one picture')
        close(np.asarray(pics[0]), img.T, 'picture', rtol=1e-6)

        def has(v, what):
            need(any(len(q) == len(v) and np.allclose(q, v, rtol=1e-9,
                                                      atol=0)
                     for q in lines + xs), f'{what} not in the plot')
        has(img.sum(1), 'reconstructed profile')
        has(img.sum(0), 'energy projection')
        has(keep[2] / keep[2].sum(), 'normalised measured profile')
        has(diff, 'discrepancy')
    finally:
        plt.close('all')
    for a, b, k in zip((img, diff, arg, full), keep,
                       ('image', 'discrepancy', 'measured profile',
                        'waterfall the profile is part of')):
        same(a, b, f'{k} after plotting')
    return True, 'view' if c['view'] else 'own'


tab = st.fixed_dictionaries(dict(
    nprof=st.integers(1, 7), nbins=st.one_of(st.integers(1, 12),
                                             st.integers(1, 60),
                                             gen.few(5, 11, 250, 1100)),
    rec=st.integers(0, 6), num=st.one_of(st.integers(0, 12),
                                         st.integers(0, 1200)),
    mag=gen.few('one', 'wide', 'tiny', 'signed', 'zeros', 'round'),
    writer=gen.few('profile', 'profile_ftn', 'profile_t', 'self', 'self_ftn',
                   'image', 'image_ftn', 'diff', 'diff_ftn', 'diff_t'),
    single=st.booleans(), layout=gen.few('C', 'F', 'strided'),
    old=st.booleans(), seed=gen.SEED))
pos = gen.fl(0, 900)

SUBS = [
    Sub('tables', tab, run_tables, quick=3000, shards=2, rule=RULE),
    Sub('plotinfo', with_(
        gen.machine_case(wild=True), film=st.integers(0, 7), alias=st.booleans(),
        dE=gen.logfl(1e-2, 1e9), imin=st.integers(0, 50),
        imax=st.integers(50, 1000), charge=gen.logfl(1e3, 1e14), lo=pos,
        up=pos, fx=pos, fit=gen.few('all', 'all', 'none', 'absent',
                                    'bunchlimit_low', 'bunchlimit_up',
                                    'fitted_synch_part_x')),
        run_plotinfo, quick=800, shards=2,
        rule='machine programmes with drawn fit results and limits; '
             'non-trivial: more than one profile'),
    Sub('track', with_(
        gen.machine_case(max_prof=7, max_dturns=4, max_bins=24),
        film=st.integers(0, 7), rec=st.integers(0, 6),
        charge=gen.logfl(1e3, 1e14), given=st.booleans(),
        hybrid=st.booleans(), back=st.booleans()), run_track, quick=400,
        shards=2, rule='tracking with and without the tomoscope output; '
                       'non-trivial: more than one profile'),
    Sub('progress', with_(p10.case(), default=st.booleans(), way=gen.few('run', 'hybrid', 'multi',
                                                  'multihybrid')),
        run_progress, quick=400, shards=2,
        rule='verbose and quiet reconstructions; non-trivial: two or more '
             'iterations'),
    Sub('image', p11.case(), run_image, quick=1500, shards=2, rule=p11.RULE),
    Sub('show', st.fixed_dictionaries(dict(
        nbins=st.integers(2, 12), niter=st.integers(1, 12),
        scale=st.integers(-3, 9), view=st.booleans(), fig=st.booleans(),
        seed=gen.SEED)), run_show, quick=25, shards=2,
        rule='image, discrepancy and measured profile plotted'),
]
