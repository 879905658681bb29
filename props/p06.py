"""P06: reconstruction area, homogeneous distribution, bins <-> physical."""
import copy

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography.tracking import particles as pts
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
from vt import gen
from vt.api import Sub, Violation, call, close, need, rejects, same
from props import p05
from props.p01 import with_

RULE = ('machines as in P04 with drawn image width, synchronous particle '
        'position, energy limit, time limits, particles per cell and '
        'reference frames; non-trivial: an area of more than one cell')


def machine(c):
    p = gen.machine_params(c)
    k = dict(p['kw'])
    demax = c['demax']
    if demax > 0:
        # relative to a typical bucket height
        demax = demax * np.sqrt(c['v']) * c['A'] * c['gamma'] * 0.3
    k['demax'] = demax
    k['filmstart'] = c['film'] % c['nprof']
    k['filmstop'] = c['nprof']
    try:
        m = Machine(*p['args'], **k)
    except ValueError:
        return None
    if not np.all(np.isfinite(m.phi0)):
        return None
    return m


def height(m, turn, phi, known):
    p12 = m.phi12[turn] if np.ndim(m.phi12) else m.phi12
    h = m.h_ratio
    v1, v2 = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn]
    f = (v1 * np.sin(m.phi0[turn]) + v2 * np.sin(h * (m.phi0[turn] - p12)))
    pot = (v1 * (np.cos(phi) - np.cos(known))
           + v2 / h * (np.cos(h * (phi - p12)) - np.cos(h * (known - p12)))
           + (phi - known) * f)
    return np.sqrt(np.maximum(0.0, 2 * m.q / m.drift_coef[turn] * pot))


def model(m):
    """None when rounding decides; 'empty' when there is no area."""
    n, sy = m.nbins, m.nbins / 2.0
    b = m.beam_ref_frame * m.dturns
    w = m.h_num * m.omega_rev0 * m.dtbin          # phase width of a bin
    xo = m.phi0[b] / w[b] - m.synch_part_x
    ph = (xo + np.arange(n + 1)) * w[b]
    if m.demax > 0:
        dE = m.demax / (n - sy)
    elif m.vrf2_at_turn[b] != 0:
        dE = min(height(m, b, ph, ph[0]).max(),
                 height(m, b, ph, ph[-1]).max()) / (n - sy)
    else:
        a = (m.e0[b] * m.q * m.vrf1_at_turn[b] * np.cos(m.phi0[b])
             / (2 * np.pi * m.h_num * m.eta0[b]))
        if a <= 0:
            return None
        dE = m.beta0[b] * np.sqrt(a) * w[b]
    if not dE > 1e-9 * abs(m.e0[b]) * 1e-9:
        return 'nobin', xo, dE
    lo, hi = m.min_dt / m.dtbin, m.max_dt / m.dtbin
    for v in (lo, hi):
        if 1e-10 < abs(v - round(v)) < 1e-5:
            return None
    # a whole number of bins is meant as such
    lo = int(round(lo)) if abs(lo - round(lo)) < 1e-5 else int(lo)
    hi = int(round(hi)) if abs(hi - round(hi)) < 1e-5 else int(np.ceil(hi))
    if m.full_pp_flag:
        jmax = np.full(n, n)
        imin, imax = lo, hi - 1
        jmax[:lo] = int(np.floor(sy))
        jmax[hi:] = int(np.floor(sy))
        jmin = n - jmax + 1
    else:
        f = m.filmstart * m.dturns
        pf = (xo + np.arange(n + 1)) * w[f]
        jm = np.minimum(height(m, f, pf, pf[0]),
                        height(m, f, pf, pf[-1])) / dE + sy
        if np.any((np.abs(jm - np.round(jm)) < 1e-6) & (jm > sy + 1e-9)):
            return None
        # heights that are zero up to rounding
        if np.any((jm > sy) & (jm < sy + 1e-4)):
            return None
        jm = np.floor(jm)
        jmax = np.minimum(np.minimum(jm[:-1], jm[1:]), n).astype(int)
        # floor(a) of min = min of floors
        jmin = np.maximum(np.ceil(n - jmax - 0.5).astype(int), 1)
        if np.all(jmin >= jmax):
            return 'empty', xo, dE
        ok = np.flatnonzero(jmax >= jmin)
        if not np.any(ok > 0):
            return None
        imin, imax = int(ok[0]), int(ok[-1])
        if lo > imin:
            imin = lo
            jmax[:lo] = int(np.floor(sy))
            jmin = n - jmax + 1
        if hi < imax:
            imax = hi - 1
            jmax[hi:] = int(np.floor(sy))
            jmin = n - jmax + 1
    bad = (imin < 0 or imin > imax or np.all(jmin >= jmax)
           or np.any(jmin[imin:imax] > jmax[imin:imax])
           or np.any(jmin[imin:imax] < 0))
    if bad:
        return 'empty', xo, dE
    return jmin, jmax, imin, imax, xo, dE


def cells(jmin, jmax, imin, imax, snpt):
    """Every cell of the area holds snpt x snpt particles."""
    sub = (2 * np.arange(snpt) + 1) / (2.0 * snpt)
    xs, ys = [], []
    for i in range(imin, imax + 1):
        for j in range(jmin[i], jmax[i]):
            for a in sub:
                for b in sub:
                    xs.append(i + a)
                    ys.append(j + b)
    return np.array(xs), np.array(ys)


def run_area(c):
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    w = model(m)
    if w is None:
        return False, 'rounding decides'
    ps = PhaseSpaceInfo(m)
    if isinstance(w[0], str):
        try:
            ps.find_binned_phase_energy_limits()
        except (ex.EnergyLimitsError, ex.PhaseLimitsError,
                ex.EnergyBinningError):
            return True, 'rejected: ' + w[0]
        except Exception as e:
            raise Violation(f'empty area: raised {type(e).__name__}: {e}')
        if w[0] == 'empty':
            raise Violation('an empty reconstruction area was accepted: '
                            f'imin {ps.imin}, imax {ps.imax}')
        return False, 'tiny'
    jmin, jmax, imin, imax, xo, dE = w
    call(ps.find_binned_phase_energy_limits)
    close(ps.xorigin, xo, 'xorigin', rtol=1e-9, atol=1e-9)
    close(ps.dEbin, dE, 'energy bin', rtol=1e-7)
    same([ps.imin, ps.imax], [imin, imax], 'first and last bin of the area')
    same(ps.jmax, jmax, 'upper energy limit per bin')
    same(ps.jmin, jmin, 'lower energy limit per bin')
    return bool(np.sum((jmax - jmin)[imin:imax + 1]) > 1), (
        'full image' if c['full'] else 'area' +
        (', time limits' if c['cut'] else '') +
        (', two RF' if c['r2'] else ''))


def run_fill(c):
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    w = model(m)
    if w is None or isinstance(w[0], str):
        return False, 'no area'
    jmin, jmax, imin, imax, xo, dE = w
    if np.any(jmin[imin:imax + 1] > jmax[imin:imax + 1]):
        return False, 'no area'
    rec = c['rec'] % c['nprof']
    P = pts.Particles()
    if c['used']:       # filled before, for another machine
        m0 = copy.copy(m)
        m0.synch_part_x = m.synch_part_x - 1.5
        m0.snpt = m.snpt % 3 + 1
        m0.demax = abs(m.demax) * 0.9 + 1.0 if m.demax > 0 else m.demax
        try:
            P.homogeneous_distribution(m0, 0)
        except Exception:       # no area for that one
            P = pts.Particles()
    call(P.homogeneous_distribution, m, rec)
    dphi, den = P.coordinates_dphi_denergy
    same([P.imin, P.imax], [imin, imax], 'limits kept on the particles')
    same(P.jmax, jmax, 'jmax kept on the particles')
    same(P.jmin, jmin, 'jmin kept on the particles')
    need(m.dEbin == P.dEbin, 'dEbin is stored on the machine')
    X, Y = cells(jmin, jmax, imin, imax, c['snpt'])
    need(dphi.shape == den.shape == X.shape,
         f'{dphi.shape[0]} particles, the area holds {X.size}')
    # back to bins through the documented relation
    t = rec * m.dturns
    wbin = m.h_num * m.omega_rev0[t] * m.dtbin
    x = (np.asarray(dphi) + m.phi0[t]) / wbin - xo
    y = np.asarray(den) / dE + m.nbins / 2.0
    # compare as sets of cells of the finest grid
    s = 2 * c['snpt']
    close(x * s, np.round(x * s), 'particles sit at the centres of the '
          'sub-cells (x)', rtol=0, atol=1e-3)
    close(y * s, np.round(y * s), 'particles sit at the centres of the '
          'sub-cells (y)', rtol=0, atol=1e-3)
    got = np.stack([np.round(x * s), np.round(y * s)])
    want = np.stack([np.round(X * s), np.round(Y * s)])
    same(got[:, np.lexsort(got)], want[:, np.lexsort(want)],
         'particles in every cell of the area')
    # and through the library's own conversion: a round trip
    D = np.zeros((m.nprofiles, dphi.size)) + dphi
    E = np.zeros_like(D) + den
    xp, yp = call(pts.physical_to_coords, D, E, m, P.xorigin, P.dEbin)
    close(xp[rec], x, 'physical_to_coords x', rtol=0, atol=1e-6)
    close(yp[rec], y, 'physical_to_coords y', rtol=0, atol=1e-6)
    for k in range(m.nprofiles):
        t = k * m.dturns
        wb = m.h_num * m.omega_rev0[t] * m.dtbin
        close(xp[k], (dphi + m.phi0[t]) / wb - xo, f'x at profile {k}',
              rtol=1e-9, atol=1e-7)
        close(yp[k], y, f'y at profile {k}', rtol=1e-9, atol=1e-7)
    return X.size > 1, f'snpt {c["snpt"]}'


def run_programmed(c):
    """The same area rule for a machine with programmes (phase per turn)."""
    P = p05.programs(c)
    P['nb'] = c['nb']
    t, p = p05.turn_times(c, P)
    j = int(np.searchsorted(t, P['t_ref'])) - c['mref'] * c['dturns']
    if j < 0 or j + P['nturns'] > len(t) - 2 or c['way'] == 'calc':
        return False, 'window outside the programme'
    m = call(p05.build, c, P, beam_ref_frame=c['bref'] % c['nprof'],
             filmstart=c['film'] % c['nprof'], snpt=c['snpt'],
             full_pp_flag=c['full'], synch_part_x=c['sx'] * c['nb'],
             min_dt=0.0, max_dt=P['T'] / c['h1'])
    w = model(m)
    if w is None or isinstance(w[0], str):
        return False, 'no area'
    jmin, jmax, imin, imax, xo, dE = w
    ps = PhaseSpaceInfo(m)
    call(ps.find_binned_phase_energy_limits)
    close(ps.xorigin, xo, 'xorigin', rtol=1e-9, atol=1e-9)
    close(ps.dEbin, dE, 'energy bin', rtol=1e-7)
    same([ps.imin, ps.imax], [imin, imax], 'first and last bin of the area')
    same(ps.jmax, jmax, 'upper energy limit per bin')
    same(ps.jmin, jmin, 'lower energy limit per bin')
    return bool(np.sum((jmax - jmin)[imin:imax + 1]) > 1), c['way']


def run_convert(c):
    """Arbitrary physical coordinates; inverse relation."""
    m = machine(c)
    if m is None:
        return False, 'no bucket'
    r = np.random.default_rng([c['seed'], 3])
    n = c['nparts']
    dEb, xo = c['dEb'], c['xo']
    X = r.uniform(-2, c['nbins'] + 2, (c['nprof'], n))
    Y = r.uniform(-2, c['nbins'] + 2, (c['nprof'], n))
    t = np.arange(c['nprof']) * m.dturns
    wb = (m.h_num * m.omega_rev0[t] * m.dtbin)[:, None]
    D = (X + xo) * wb - m.phi0[t][:, None]
    E = (Y - c['nbins'] / 2) * dEb
    d0, e0 = D.copy(), E.copy()
    xp, yp = call(pts.physical_to_coords, D, E, m, xo, dEb)
    close(xp, X, 'x', rtol=0, atol=1e-8 * (1 + abs(xo) + np.abs(
        m.phi0[t] / wb[:, 0]).max()))
    close(yp, Y, 'y', rtol=0, atol=1e-9 * c['nbins'])
    same(D, d0, 'phases unchanged')
    same(E, e0, 'energies unchanged')
    rejects(ex.InvalidParticleError, pts.physical_to_coords, D, E[:, 1:], m,
            xo, dEb, what='different shapes')
    return True, f'{c["nprof"]} profiles'


X = dict(late2=gen.few(0, 0, 1, 1, 2), steep=gen.few(0, 0, 0.3, -0.3))
fc = with_(gen.machine_case(max_prof=5, max_dturns=6, max_bins=60),
           film=st.integers(0, 4), rec=st.integers(0, 4), **X)
SUBS = [
    Sub('area', with_(gen.machine_case(max_prof=5, max_dturns=6, max_bins=120),
                      film=st.integers(0, 4), **X), run_area, quick=5000, shards=3,
        rule=RULE),
    Sub('fill', with_(fc, used=st.booleans(),
                      snpt=gen.few(1, 2, 3, 4, 2, 3, 4, 7, 12)), run_fill, quick=1500, shards=2, rule='particles against '
        'an explicit list of the sub-cells of the area'),
    Sub('programmed', with_(p05.pcase(), bref=st.integers(0, 5),
                            film=st.integers(0, 5), snpt=st.integers(1, 4),
                            full=st.booleans(), sx=gen.fl(0.2, 0.8),
                            nb=st.integers(10, 80)), run_programmed,
        quick=800, rule='machines with programmes as in P05'),
    Sub('convert', with_(gen.machine_case(max_prof=5, max_dturns=6,
                                          wild=True),
                         film=st.integers(0, 4), nparts=st.integers(1, 40),
                         dEb=gen.logfl(1, 1e7), xo=gen.fl(-300, 300)),
        run_convert, quick=400, rule='drawn coordinates, both directions'),
]
