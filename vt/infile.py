"""Fortran style input files made from generated parameters."""
import locale

import numpy as np
from hypothesis import strategies as st

from . import gen

# line index -> name of the parameter on that line (the rest is comment)
LINES = {12: 'data', 14: 'out', 16: 'nframes', 18: 'skipf', 20: 'flen',
         22: 'dt', 24: 'dturns', 26: 'skip0', 28: 'skip1', 31: 'mindt',
         34: 'maxdt', 36: 'rebin', 39: 'sx', 41: 'demax', 43: 'film0',
         45: 'film1', 47: 'films', 49: 'niter', 51: 'snpt', 53: 'full',
         55: 'bref', 57: 'mref', 61: 'v1', 63: 'v1d', 65: 'v2', 67: 'v2d',
         69: 'h', 71: 'hr', 73: 'phi12', 75: 'b0', 77: 'bdot', 79: 'R',
         81: 'rho', 83: 'gt', 85: 'A', 87: 'q', 91: 'self', 93: 'g',
         95: 'zw', 97: 'pick'}


@st.composite
def case(draw, min_bins=20, max_bins=70, max_prof=6, max_dturns=5,
         accel=True, fit=False):
    m = draw(gen.machine_case(max_prof=max_prof, max_dturns=max_dturns,
                              accel=accel))
    skipf = draw(st.integers(0, 3))
    skip0, skip1 = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    n = draw(st.integers(min_bins, max_bins))
    f0 = draw(st.integers(0, m['nprof'] - 1))
    f1 = draw(st.integers(f0, m['nprof'] - 1))
    c = dict(m, nbins=n, skipf=skipf, skip0=skip0, skip1=skip1,
             rebin=draw(st.integers(1, 5)), mindt=draw(st.integers(0, 4)),
             maxdt=draw(st.integers(0, 4)), film0=f0, film1=f1,
             films=draw(st.integers(1, f1 - f0 + 1)),
             niter=draw(st.integers(1, 30)), self=draw(gen.few(0, 1)),
             g=draw(gen.fl(0, 4)), zw=draw(gen.fl(-50, 50)),
             pick=draw(gen.logfl(1e-3, 10)),
             num=draw(gen.few('repr', 'exp', 'EXP')),
             pad=draw(gen.few('', '', ' ', '\t ')),
             eol=draw(gen.few('\n', '\n', '\r\n')))
    if fit and draw(st.booleans()):
        c['sx'] = -1.0
    elif draw(st.integers(0, 9)) == 7:
        c['sx'] = 0.0
    return c


def params(c):
    """name -> value, as written in the file."""
    p = gen.machine_params(c)
    n = c['nbins']
    V, R, rho, b0, gt, A = p['args'][1:7]
    dt = c['binfrac'] * p['trev'] / c['h'] / n
    return dict(
        data='pipe', out='/tmp/nowhere', nframes=c['nprof'] + c['skipf'],
        skipf=c['skipf'], flen=n + c['skip0'] + c['skip1'], dt=dt,
        dturns=c['dturns'], skip0=c['skip0'], skip1=c['skip1'],
        mindt=c['mindt'], maxdt=c['maxdt'], rebin=c['rebin'],
        sx=c['sx'] * n if c['sx'] >= 0 else -1.0,
        demax=-1e6 if c['demax'] < 0 else c['demax'] * 1e6,
        film0=c['film0'] + 1, film1=c['film1'] + 1, films=c['films'],
        niter=c['niter'], snpt=c['snpt'], full=int(c['full']),
        bref=c['bref'] + 1, mref=c['mref'] + 1, v1=V, v1d=p['v1dot'],
        v2=p['v2'], v2d=p['v2dot'], h=c['h'], hr=c['hr'], phi12=c['phi12'],
        b0=b0, bdot=p['bdot'], R=R, rho=rho, gt=gt, A=A, q=c['q'],
        self=c['self'], g=c['g'], zw=c['zw'], pick=c['pick'])


def fmt(v, how):
    if isinstance(v, (str, int)) or how == 'repr':
        return str(v)
    s = f'{v:.17e}'
    return s.upper() if how == 'EXP' else s


def raw(c, p=None):
    """1D raw data: bunch-like frames on a baseline, with noise."""
    p = p or params(c)
    r = np.random.default_rng([c['seed'], 31])
    nf, fl, n = p['nframes'], p['flen'], c['nbins']
    x = np.arange(fl) - c['skip0']
    mid = n / 2 + r.normal(0, n / 40, (nf, 1))
    w = np.exp(-0.5 * ((x - mid) / (n / 10)) ** 2)
    w = w * 10.0 ** r.uniform(-2, 3) + r.normal(0, 0.3)
    w += r.normal(0, 1e-3 * np.abs(w).max(), w.shape)
    return w.ravel()

UTF = (['Δt = 1 µs, Schottky-Rücken']
       if 'utf' in locale.getpreferredencoding(False).lower() else [])


def lines(c, p=None):
    p = p or params(c)
    out = ['! comment'] * 98
    r = np.random.default_rng([c['seed'], 32])
    for i in range(8):                     # header lines hold anything
        out[i] = str(r.choice(['LHC1A=x', '1530881807', '', '0.02', 'pipe']
                              + UTF))
    for i, k in LINES.items():
        out[i] = fmt(p[k], c['num'])
        if c.get('pad') and k not in ('data', 'out'):
            out[i] = c['pad'] + out[i] + c['pad']
    return out


def text(c, p=None, data=None):
    p = p or params(c)
    ll = lines(c, p)
    if p['data'] == 'pipe':
        d = raw(c, p) if data is None else data
        ll += [repr(float(v)) for v in d]
    return c['eol'].join(ll) + c['eol']
