"""P18: a reconstruction of an input file, whichever way it is started."""
import io
import os
import re
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography import shortcuts
from longitudinal_tomography.data import data_treatment as dtr
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.utils import tomo_input as ti, tomo_run
from vt import gen, infile
from vt.api import Sub, Violation, call, capture, close, need, same
from props.p01 import with_
from props import p15

RULE = ('complete input files (see P12) with measured bunches, run from the '
        'file to the image; non-trivial: more than one profile and a '
        'non-empty reconstruction')


def tame(c):
    """Keep the drawn file inside what can be reconstructed quickly."""
    c = dict(c, snpt=min(c['snpt'], 2), niter=min(c['niter'], 8), self=0,
             demax=-1e6, gt=c['gt'])
    while (c['nbins'] // c['rebin']) < 12 and c['rebin'] > 1:
        c['rebin'] -= 1
    c['mindt'] = min(c['mindt'], 2)
    c['maxdt'] = min(c['maxdt'], 2)
    # the time limits count bins of the file, the image rebinned ones
    if c['rebin'] > 1:
        c['binfrac'] = min(c['binfrac'], 1.2)
    return c


def put(tmp, c, p=None, data=None, name='input.dat'):
    path = os.path.join(tmp, name)
    with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(infile.text(c, p, data))
    return path


class Skip(Exception):
    pass


def attempt(f, *a, **k):
    """Result, or the documented refusal (type only)."""
    try:
        return None, f(*a, **k)
    except ex.TomoException as e:
        return type(e), None
    except ValueError as e:
        if 'fit synchronous phase' in str(e):
            return ValueError, None
        raise
    except RuntimeError as e:
        if 'reduced' in str(e).lower() or 'converge' in str(e):
            return RuntimeError, None
        raise


def compose(path, rec=None):
    """The reconstruction step by step, with the building blocks."""
    par, d = ti.get_user_input(path)
    m, f = ti.txt_input_to_machine(par)
    m.values_at_turns()
    if not np.all(np.isfinite(m.phi0)):
        raise Skip
    pr = ti.raw_data_to_profiles(f.to_waterfall(d), m, f.rebin,
                                 f.sampling_time)
    pr.calc_profilecharge()
    if m.synch_part_x < 0:
        m.load_fitted_synch_part_x_ftn(dtr.fit_synch_part_x(pr))
    t = Tracking(m)
    rec = m.filmstart if rec is None else rec
    x, y = t.track(rec)
    x, y = pts.physical_to_coords(x, y, m, t.particles.xorigin,
                                  t.particles.dEbin)
    x, y = pts.ready_for_tomography(x, y, m.nbins)
    tomo = Tomography(pr.waterfall, x, y)
    w = tomo.run(m.niter)
    return m, pr, t, x, y, tomo, np.array(w)


def image(x, y, w, n, k):
    m = np.zeros((n, n))
    x, y = x[:, k], y[:, k]
    i = (x >= 0) & (x < n) & (y >= 0) & (y < n)
    np.add.at(m, (x[i], y[i]), w[i])
    m = m.clip(0)
    return m / m.sum()


def case_ok(c):
    return c['nprof'] >= 1


def expected(c, path, rec):
    err, r = attempt(compose, path, rec)
    return err, r


def axes(m, t):
    n = m.nbins
    return ((np.arange(n) - m.synch_part_x) * m.dtbin,
            (np.arange(n) - n / 2) * t.particles.dEbin)


def agree(res, r, rec, what):
    m, pr, t, x, y, tomo, w = r
    rec = m.filmstart if rec is None else rec
    ta, ea = axes(m, t)
    close(res[0], ta, what + ': time axis', rtol=1e-9,
          atol=1e-9 * m.dtbin)
    close(res[1], ea, what + ': energy axis', rtol=1e-9,
          atol=1e-9 * abs(t.particles.dEbin))
    d = res[2]
    need(d.shape == (m.nbins, m.nbins), f'{what}: image of {d.shape}')
    need(d.min() >= 0, f'{what}: negative density')
    close(d.sum(), 1.0, what + ': sum of the image', rtol=1e-9)
    close(d, image(x, y, w, m.nbins, rec), what + ': image', rtol=1e-6,
          atol=1e-9)


def run_ways(c):
    c = tame(c)
    rec = None if c['rec'] is None else c['rec'] % c['nprof']
    p = infile.params(c)
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        path = put(tmp, c, p)
        try:
            err, r = expected(c, path, rec)
        except Skip:
            return False, 'no bucket'
        e2, res = attempt(tomo_run.run, path, rec)
        need(e2 is err, f'run: {e2} but step by step: {err}')
        if err:
            return False, 'refused'
        if not np.all(np.isfinite(r[-1])) or r[-1].sum() <= 0:
            return False, 'degenerate'
        m, pr, t, x, y, tomo, w = r
        agree(res, r, rec, 'run')
        need(sorted(os.listdir(tmp)) == ['input.dat'],
             f'a plain run left {os.listdir(tmp)}')
        # standard input
        old = sys.stdin
        sys.stdin = io.StringIO(infile.text(c, p).replace('\r\n', '\n'))
        try:
            agree(call(tomo_run.run, 'stdin', rec), r, rec, 'run of stdin')
        finally:
            sys.stdin = old
        # the shortcuts
        m2, wf = call(shortcuts.read_input_file, path)
        close(wf, pr.waterfall, 'waterfall of the shortcut', rtol=1e-12)
        k = m2.filmstart if rec is None else rec
        calls = []
        how = {} if not c.get('cb') else {'callback':
                                          lambda *a: calls.append(a)}
        with capture() as q:
            x2, y2 = call(shortcuts.track, m2, k, **how)
            need(not how or calls or c['nprof'] == 1,
                 'no call back while tracking')
        need(x2.shape == x.shape, f'{x2.shape[0]} tracks in the shortcut, '
             f'{x.shape[0]} step by step')
        need((x2 != x).sum() + (y2 != y).sum() <= 1e-3 * x.size + 1,
             'tracks of the shortcut')
        del calls[:]
        with capture() as q2:
            tm = call(shortcuts.tomogram, wf, x, y, m2.niter, **how)
        need(not how or calls, 'no call back while iterating')
        need(q.lines + q2.lines == [], 'the shortcuts print '
             f'{(q.lines + q2.lines)[:3]}')
        close(tm.weight, w, 'weights of the shortcut', rtol=1e-6,
              atol=1e-9 * np.abs(w).max())
        close(tm.diff, tomo.diff, 'discrepancy of the shortcut', rtol=1e-6)
        need(len(tm.diff) == m.niter + 1, f'{len(tm.diff)} discrepancies '
             f'for {m.niter} iterations')
        agree(call(dtr.phase_space, tm, m2, k)[:2]
              + (image(x, y, tm.weight, m.nbins, k),), r, rec, 'shortcut')
        same(wf, wf.clip(0), 'waterfall of the shortcut')
    return c['nprof'] > 1, 'fit' if c['sx'] < 0 else 'given'


def run_plot(c):
    """A plotted run shows the reconstruction it returns."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    c = tame(c)
    k = None if c['rec'] is None else c['rec'] % c['nprof']
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        path = put(tmp, c)
        try:
            err, r = expected(c, path, k)
        except Skip:
            return False, 'no bucket'
        if err or not np.all(np.isfinite(r[-1])) or r[-1].sum() <= 0:
            return False, 'refused'
        m, pr, t, x, y, tomo, w = r
        show, plt.show = plt.show, lambda *a, **kw: None
        try:
            res = call(tomo_run.run, path, k, plot=True)
            ax = plt.gcf().axes
            got = [np.asarray(v, float) for a in ax for q in a.lines
                   for v in (q.get_ydata(), q.get_xdata())]
            pics = [np.asarray(q.get_array()) for a in ax for q in a.images]
        finally:
            plt.show = show
            plt.close('all')
        agree(res, r, k, 'plotted run')
        k = m.filmstart if k is None else k
        pn = pr.waterfall[k] / pr.waterfall[k].sum()
        for v, what in ((res[2].sum(1), 'reconstructed profile'),
                        (res[2].sum(0), 'energy projection'),
                        (pn, f'measured profile {k}'),
                        (tomo.diff, 'discrepancy')):
            need(any(q.shape == v.shape and
                     np.allclose(q, v, rtol=1e-6, atol=1e-9) for q in got),
                 what + ' not in the plot')
        need(any(q.shape == res[2].shape and
                 np.allclose(q, res[2].T, rtol=1e-6, atol=1e-9)
                 for q in pics), 'image not in the plot')
    return c['nprof'] > 1, 'plot'


def run_scope(c):
    """Tomoscope mode: same image, and the files and text it promises."""
    c = tame(c)
    p = infile.params(c)
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        own, given = os.path.join(tmp, 'own'), os.path.join(tmp, 'given')
        os.mkdir(own)
        os.mkdir(given)
        p['out'] = own
        if c['dir'] == 'only given':
            p['out'] = ''
        path = put(tmp, c, p)
        try:
            err, r = expected(c, path, None)
        except Skip:
            return False, 'no bucket'
        if err or not np.all(np.isfinite(r[-1])) or r[-1].sum() <= 0:
            return False, 'refused'
        m, pr, t, x, y, tomo, w = r
        out = {'file': own, 'empty': own}.get(c['dir'], given)
        arg = {'file': None, 'empty': ''}.get(c['dir'], given)
        films = list(range(c['film0'], c['film1'] + 1, c['films']))
        if c['cli']:
            e = dict(os.environ)
            q = subprocess.run(
                [sys.executable, '-u', '-m', c['cli'], path,
                 '-t'] + (['-o', arg] if arg is not None else []), env=e,
                cwd=tmp, capture_output=True, text=True, timeout=200)
            need(q.returncode == 0, f'command line failed: {q.stderr[-800:]}')
            ls = q.stdout.split('\n')[:-1]
        else:
            with capture() as q:
                res = tomo_run.run(path, output_dir=arg, tomoscope=True)
            agree(res, r, None, 'tomoscope run')
            ls = q.lines
        other = own if out is given else given
        need(os.listdir(other) == [], f'wrote into {other}')
        want = sorted([f'image{f + 1:03d}.data' for f in films]
                      + [f'profile{f + 1:03d}.data' for f in films]
                      + [f'd{films[-1] + 1:03d}.data'])
        need(sorted(os.listdir(out)) == want,
             f'files {sorted(os.listdir(out))} instead of {want}')
        pn = pr.waterfall / pr.waterfall.sum(1)[:, None]
        for f in films:
            g, _ = p15.column(os.path.join(out, f'image{f + 1:03d}.data'),
                              '  ', 'image')
            close(g, image(x, y, w, m.nbins, f).ravel(), f'image {f}',
                  rtol=1e-6, atol=1e-9)
            g, _ = p15.column(os.path.join(out, f'profile{f + 1:03d}.data'),
                              ' ', 'profile')
            close(g, pn[f], f'profile {f}', rtol=1e-7, atol=1e-12)
        g, _ = p15.column(os.path.join(out, f'd{films[-1] + 1:03d}.data'),
                          r' {8,}(\d+)  ', 'discrepancy')
        close(g, tomo.diff, 'discrepancy file', rtol=1e-6)
        # text
        need(ls and ls[0] == ' Start', f'first line {ls[:1]}')
        n = next((i for i, q in enumerate(ls)
                  if q.startswith(' Tracking from')), None)
        if c['nprof'] == 1:
            n = ls.index(' Iterating...')
        need(n is not None, 'no tracking lines')
        p15.check_plotinfo('\n'.join(ls[1:n]), m, t.particles.dEbin,
                           t.particles.imin, t.particles.imax,
                           pr.profile_charge,
                           (m.bunchlimit_low, m.bunchlimit_up,
                            m.fitted_synch_part_x)
                           if c['sx'] < 0 else (0, 0, 0))
        norm = [re.sub(' +', ' ', q).strip() for q in ls[n:]]
        exp = ([re.sub(' +', ' ', q).strip()
                for q in p15.status(c, m, m.filmstart)]
               + ['Iterating...'] + [str(i + 1) for i in range(m.niter)]
               + ['Done!'])
        need(norm == exp, f'progress {norm} instead of {exp}')
    return c['nprof'] > 1, 'cli' if c['cli'] else c['dir']


def variant(c, kind, p, data, r):
    """Another file that describes the same measurement."""
    c, p, data = dict(c), dict(p), data.copy()
    nf, fl = p['nframes'], p['flen']
    w = data.reshape(nf, fl)
    if kind == 'scaled':
        data = data * 10.0 ** r.uniform(-3, 3)
    elif kind == 'offset':
        data = data + r.uniform(-1, 1) * np.abs(data).max()
    elif kind == 'cut away':
        w = w[c['skipf']:, c['skip0']:c['skip0'] + c['nbins']]
        c.update(skipf=0, skip0=0, skip1=0)
        p.update(skipf=0, skip0=0, skip1=0, nframes=w.shape[0],
                 flen=w.shape[1])
        data = w.ravel()
    elif kind == 'padded':
        a, b, f = (int(r.integers(0, 5)) for _ in range(3))
        w = np.pad(w, ((f, 0), (a, b)), constant_values=np.nan)
        w = np.where(np.isnan(w), r.normal(0, 1e3, w.shape), w)
        c.update(skipf=c['skipf'] + f, skip0=c['skip0'] + a,
                 skip1=c['skip1'] + b)
        p.update(skipf=c['skipf'], skip0=c['skip0'], skip1=c['skip1'],
                 nframes=w.shape[0], flen=w.shape[1])
        data = w.ravel()
    elif kind == 'format':
        c['num'] = {'repr': 'EXP', 'exp': 'repr', 'EXP': 'exp'}[c['num']]
        c['eol'] = '\r\n' if c['eol'] == '\n' else '\n'
    elif kind == 'skipped data':
        w = w.copy()
        w[:c['skipf']] = r.normal(0, 1e6, (c['skipf'], fl))
        w[:, :c['skip0']] = 1e9
        w[:, fl - c['skip1']:] = -1e9
        data = w.ravel()
    return c, p, data


def run_same(c):
    """Files that describe the same measurement give the same image."""
    c = tame(c)
    p = infile.params(c)
    data = infile.raw(c, p)
    r = np.random.default_rng([c['seed'], 81])
    c2, p2, d2 = variant(c, c['kind'], p, data, r)
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        a = put(tmp, c, p, data)
        b = put(tmp, c2, p2, d2, 'other.dat')
        e1, ra = attempt(tomo_run.run, a)
        e2, rb = attempt(tomo_run.run, b)
        need(e1 is e2, f'{c["kind"]}: {e1} against {e2}')
        if e1 or not np.all(np.isfinite(ra[2])):
            return False, 'refused'
        close(rb[0], ra[0], c['kind'] + ': time axis', rtol=1e-9,
              atol=1e-9 * np.abs(ra[0]).max())
        close(rb[1], ra[1], c['kind'] + ': energy axis', rtol=1e-9,
              atol=1e-9 * np.abs(ra[1]).max())
        close(rb[2], ra[2], c['kind'] + ': image', rtol=1e-5, atol=1e-8)
    return c['nprof'] > 1, c['kind']


base = infile.case(min_bins=24, max_bins=60, max_prof=5, max_dturns=4,
                   fit=True)
SUBS = [
    Sub('plot', with_(base, rec=st.one_of(st.none(), st.integers(0, 6))),
        run_plot, quick=40, thorough=300, shards=2, rule=RULE),
    Sub('ways', with_(base, rec=st.one_of(st.none(), st.integers(0, 6)),
                      cb=st.booleans()),
        run_ways, quick=1500, shards=3, rule=RULE),
    Sub('scope', with_(base, dir=gen.few('file', 'empty', 'given', 'only given'),
                       cli=st.just(False)), run_scope, quick=900, shards=2,
        rule=RULE),
    Sub('cli', with_(base, dir=gen.few('file', 'given', 'only given'),
                     cli=gen.few('longitudinal_tomography',
                                 'longitudinal_tomography', 'tomo')),
        run_scope, quick=24, thorough=200, shards=2, rule=RULE),
    Sub('same', with_(base, kind=gen.few(
        'scaled', 'offset', 'cut away', 'padded', 'format',
        'skipped data')), run_same, quick=1500, shards=2,
        rule='two files that describe the same measurement'),
]
