"""P12: an input file gives the machine, frames and data it describes."""
import io
import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from longitudinal_tomography import exceptions as ex
from longitudinal_tomography import shortcuts
from longitudinal_tomography.utils import tomo_input as ti
from vt import gen, infile
from vt.api import Sub, call, close, need, rejects, same
from props.p01 import with_

RULE = ('complete input files with drawn parameters, number formats, line '
        'endings, frame geometry and data; non-trivial: skipped frames or '
        'bins, or rebinning')
DEF = dict(output_dir='out', dturns='dturns', demax='demax', niter='niter',
           snpt='snpt', vrf1='v1', vrf1dot='v1d', vrf2='v2', vrf2dot='v2d',
           h_num='h', h_ratio='hr', phi12='phi12', b0='b0', bdot='bdot',
           mean_orbit_rad='R', bending_rad='rho', trans_gamma='gt',
           e_rest='A', q='q', g_coupling='g', zwall_over_n='zw',
           pickup_sensitivity='pick', filmstep='films')


def write(tmp, name, txt):
    p = os.path.join(tmp, name)
    with open(p, 'w', newline='', encoding='utf-8') as f:
        f.write(txt)
    return p


def expect(m, f, c, p, n=None):
    n = c['nbins']
    for a, k in DEF.items():
        v = getattr(m, a)
        need(v == p[k], f'machine.{a} = {v!r}, the file says {p[k]!r}')
    for a, v in (('filmstart', c['film0']), ('filmstop', c['film1']),
                 ('beam_ref_frame', c['bref']), ('nprofiles', c['nprof']),
                 ('machine_ref_frame', c['mref']),
                 ('full_pp_flag', bool(c['full'])),
                 ('self_field_flag', bool(c['self']))):
        need(getattr(m, a) == v, f'machine.{a} = {getattr(m, a)!r}, not {v}')
    close(m.min_dt, c['mindt'] * p['dt'], 'min_dt', rtol=1e-12)
    close(m.max_dt, (n - c['maxdt']) * p['dt'], 'max_dt', rtol=1e-12)
    for a, v in (('nframes', p['nframes']), ('nbins_frame', p['flen']),
                 ('skip_frames', c['skipf']), ('skip_bins_start', c['skip0']),
                 ('skip_bins_end', c['skip1']), ('rebin', c['rebin']),
                 ('sampling_time', p['dt']), ('raw_data_path', p['data'])):
        need(getattr(f, a) == v, f'frames.{a} = {getattr(f, a)!r}, not {v!r}')
    need(f.nprofs() == c['nprof'], f'nprofs() = {f.nprofs()}')
    need(f.nbins() == n, f'nbins() = {f.nbins()}')


def rebinned(w, R):
    """Model of the rebinning."""
    n = w.shape[1]
    k = n // R
    out = [w[:, i * R:(i + 1) * R].sum(axis=1) for i in range(k)]
    if n % R:
        i0 = (k - 1) * R
        out.append(w[:, i0:].sum(axis=1) * R / (n - i0))
    return np.stack(out, axis=1)


def gen_name(c):
    return ('raw data.txt', 'raw data.txt', 'pipe.dat', 'data pipe')[
        c['seed'] % 4]


def run_file(c):
    p = infile.params(c)
    data = infile.raw(c, p)
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        way = c['way']
        if way == 'external':
            p['data'] = write(tmp, gen_name(c), ''.join(
                f'{float(v)!r}\n' for v in data))
        txt = infile.text(c, p, data)
        path = write(tmp, 'in put.dat', txt)
        if way == 'stdin':
            old = sys.stdin
            if c['crlf']:
                txt = txt.replace('\r\n', '\n').replace('\n', '\r\n')
            else:
                txt = txt.replace('\r\n', '\n')
            sys.stdin = io.StringIO(txt + 'trailing line\n' * c['trail'])
            try:
                par, d = call(ti.get_user_input, c['stdin'])
            finally:
                sys.stdin = old
        else:
            par, d = call(ti.get_user_input, path)
        need(len(par) == 98, f'{len(par)} parameter lines')
        same(np.asarray(d, float), data, 'data read')
        try:
            m, f = ti.txt_input_to_machine(par)
        except ValueError:
            # no stable phase for the drawn machine
            return False, 'no bucket'
        expect(m, f, c, p)
        need(m.dtbin == p['dt'] and m.synch_part_x == p['sx']
             and m.nbins == c['nbins'], 'bins of the machine')
        d0 = d.copy()
        wf = call(f.to_waterfall, d)
        ref = data.reshape(p['nframes'], p['flen'])
        ref = ref[c['skipf']:, c['skip0']:c['skip0'] + c['nbins']]
        same(wf, ref, 'waterfall')
        f.raw_data = d
        same(f.raw_data, d, 'raw data kept')
        f.raw_data[:] = 0
        same(f.raw_data, d0, 'raw data handed out as a copy')
        same(d, d0, 'raw data left alone')
        # treated profiles
        n = c['nbins']
        k = n * 5 // 100
        base = ref[c['bref'], :k].mean()
        want = rebinned(ref - base, c['rebin'])
        tol = 1e-11 * np.abs(ref).max() * c['rebin']
        pr = call(ti.raw_data_to_profiles, wf, m, f.rebin, f.sampling_time)
        close(pr.waterfall, want.clip(0), 'treated waterfall', rtol=0,
              atol=tol)
        need(pr.waterfall.min() >= 0, 'negative value in the waterfall')
        same(wf, ref, 'waterfall given in left alone')
        need(m.nbins == want.shape[1], f'machine.nbins = {m.nbins}')
        close(m.synch_part_y, want.shape[1] / 2, 'synch_part_y')
        close(m.dtbin, p['dt'] * c['rebin'], 'dtbin after rebinning')
        close(m.synch_part_x, p['sx'] / c['rebin'], 'synch_part_x after '
              'rebinning')
        need(pr.machine is m and pr.sampling_time == p['dt'],
             'profiles know the machine and the sampling time')
        if c['dtype']:      # counts of a digitiser instead of volts
            adc = np.round(ref / max(np.abs(ref).max(), 1e-300) * 9000)
            adc = np.abs(adc) if c['dtype'] == 'uint16' else adc
            cnt = adc.astype(c['dtype'])
            w3 = rebinned(adc - adc[c['bref'], :k].mean(), c['rebin'])
            if w3.max() > 1e-6:
                pr = call(ti.raw_data_to_profiles, cnt, m, c['rebin'],
                          p['dt'], p['sx'])
                close(pr.waterfall, w3.clip(0), 'treated counts', rtol=0,
                      atol=1e-7)
                same(cnt, adc, 'counts given in left alone')
                close([m.dtbin, m.synch_part_x], [p['dt'] * c['rebin'],
                                                  p['sx'] / c['rebin']],
                      'bin width and synchronous position')
        if way != 'stdin':
            m2, w2 = call(shortcuts.read_input_file, path)
            close(w2, want.clip(0), 'waterfall of read_input_file', rtol=0,
                  atol=tol)
            expect(m2, f, c, p)
            close([m2.dtbin, m2.synch_part_x], [m.dtbin, m.synch_part_x],
                  'machine of read_input_file')
    return (c['rebin'] > 1 or c['skipf'] + c['skip0'] + c['skip1'] > 0), way


BAD = {
    'data short': (ex.InputError, Exception), 'data long': 0,
    'no file': 0, 'no data file': 0, 'text in data': 0, 'text number': 0,
    'lines missing': 0,
}


def run_bad(c):
    """Files that do not describe a measurement are refused."""
    p = infile.params(c)
    data = infile.raw(c, p)
    bad = c['bad']
    with tempfile.TemporaryDirectory(dir=os.environ['VT_SCRATCH']) as tmp:
        if bad == 'no file':
            rejects(ex.InputError, ti.get_user_input, tmp + '/nothing.dat',
                    what=bad)
            return True, bad
        if bad == 'no data file':
            p['data'] = tmp + '/missing.txt'
        if c['ext'] and bad != 'no data file':
            d = data[:-1 - c['k']] if bad == 'data short' else data
            if bad == 'data long':
                d = np.r_[data, data[:1 + c['k']]]
            ls = [repr(float(v)) for v in d]
            if bad == 'text in data':
                # unreadable number: refused here or when it is used
                return False, 'skipped'
            p['data'] = write(tmp, 'raw.txt', '\n'.join(ls) + '\n')
        ll = infile.lines(c, p)
        if p['data'] == 'pipe':
            d = [repr(float(v)) for v in data]
            if bad == 'data short':
                d = d[:-1 - c['k']]
            elif bad == 'data long':
                d += ['1.0'] * (1 + c['k'])
            elif bad == 'text in data':
                d[c['k'] % len(d)] = 'x1'
            if bad != 'lines missing':
                ll += d
        if bad == 'text number':
            idx = [i for i, k in infile.LINES.items()
                   if k not in ('data', 'out')]
            ll[idx[c['k'] % len(idx)]] = 'abc'
        if bad == 'lines missing':
            ll = ll[:97 - c['k'] % 60]
        path = write(tmp, 'in.dat', '\n'.join(ll) + '\n')

        def load():
            par, d = ti.get_user_input(path)
            return ti.txt_input_to_machine(par)
        want = Exception
        if bad in ('data short', 'data long'):
            want = ex.InputError
        elif bad == 'no data file':
            want = FileNotFoundError
        rejects(want, load, what=bad)
        if bad == 'lines missing':
            rejects(ex.InputError, ti.txt_input_to_machine, ll, what=bad)
            rejects(ex.InputError, ti.txt_input_to_machine,
                    infile.lines(c, p) + ['1'], what='one line too many')
            rejects(ex.InputError, ti.txt_input_to_machine, 3, what='number')
    return True, bad


def run_frames(c):
    """Frames cut exactly what is asked for, or refuse."""
    r = np.random.default_rng([c['seed'], 33])
    nf, fl = c['nf'], c['fl']
    d = r.normal(0, 1, nf * fl)
    f = ti.Frames(nf, fl, c['sf'], c['s0'], c['s1'], c['rb'], 1e-9)
    need(f.raw_data is None, 'no raw data yet')
    ok = (0 <= c['sf'] < nf and c['s0'] >= 0 and c['s1'] >= 0
          and c['s0'] + c['s1'] < fl and c['rb'] >= 1)
    src = {'array': d, 'list': d.tolist(), 'tuple': tuple(d.tolist())}[
        c['kind']]
    if c['off']:
        bad = d[:-c['off']] if c['off'] > 0 else np.r_[d, d[:-c['off']]]
        if len(bad) != len(d):
            rejects(ex.RawDataImportError, f.to_waterfall, bad,
                    what='wrong amount of data')
            rejects(ex.RawDataImportError, setattr, f, 'raw_data', bad,
                    what='wrong amount of data')
            need(f.raw_data is None, 'refused raw data not kept')
    rejects(ex.RawDataImportError, f.to_waterfall, 3.0, what='a number')
    rejects(ex.RawDataImportError, setattr, f, 'raw_data', 3.0,
            what='a number')
    if not ok:
        rejects(ex.InputError, f.to_waterfall, src, what='frame parameters')
        return True, 'refused'
    w = call(f.to_waterfall, src)
    ref = d.reshape(nf, fl)[c['sf']:, c['s0']:fl - c['s1']]
    same(w, ref, 'waterfall')
    need(w.shape == (f.nprofs(), f.nbins()), 'shape of the waterfall')
    w[:] = 0
    same(np.asarray(src), d, 'waterfall is a copy of the raw data')
    return c['sf'] + c['s0'] + c['s1'] > 0, 'accepted'


SUBS = [
    Sub('file', with_(infile.case(), way=gen.few('pipe', 'pipe', 'external',
                                                 'stdin'),
                      stdin=gen.few('stdin', ''), trail=gen.few(0, 0, 3),
                      crlf=st.booleans(),
                      dtype=gen.few('', '', 'int64', 'int16', 'uint16')),
        run_file, quick=1200, shards=3, rule=RULE),
    Sub('bad', with_(infile.case(), bad=gen.few(*BAD), ext=st.booleans(),
                     k=st.integers(0, 200)), run_bad, quick=600, shards=2,
        rule='one thing wrong with an input file'),
    Sub('frames', st.fixed_dictionaries(dict(
        nf=st.integers(1, 6), fl=st.integers(1, 12), sf=st.integers(-2, 7),
        s0=st.integers(-2, 8), s1=st.integers(-2, 8), rb=st.integers(-1, 4),
        off=st.integers(-3, 3), kind=gen.few('array', 'list', 'tuple'),
        seed=gen.SEED)), run_frames, quick=3000,
        rule='frame geometry valid or not; non-trivial: something is '
             'skipped or refused'),
]
