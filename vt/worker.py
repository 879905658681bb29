"""worker.py PROP SUB SHARD SEED TIER OUT JOURNAL   (one sub-check, in its own
process)   or   worker.py PROP --replay FILE"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, HERE)
TREE = os.path.realpath(os.environ['VT_TREE'])

import warnings                                                   # noqa
warnings.simplefilter('ignore')
import logging                                                    # noqa
logging.disable(logging.CRITICAL)

from vt import api                                                # noqa

MAX_SHRINK_S = {'quick': 25, 'thorough': 120}


def load(prop):
    import longitudinal_tomography as lt
    if not os.path.realpath(lt.__file__).startswith(TREE + os.sep):
        raise RuntimeError('wrong tree imported: ' + lt.__file__)
    from longitudinal_tomography.cpp_routines import libtomo
    if not os.path.realpath(libtomo.__file__).startswith(TREE + os.sep):
        raise RuntimeError('wrong extension imported: ' + libtomo.__file__)
    api.load_known(os.path.join(HERE, 'known_findings.json'), prop)
    return importlib.import_module('props.' + prop.lower())


def judge(sub, case):
    """-> (violation message or None, result)"""
    try:
        return None, sub.run(case)
    except api.Violation as v:
        return str(v), None
    except Exception as e:
        tb = e.__traceback__
        frames = []
        while tb is not None:
            frames.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
            tb = tb.tb_next
        if isinstance(e, MemoryError):
            raise
        if isinstance(e, AttributeError) and type(e.obj).__module__.split(
                '.')[0] == 'longitudinal_tomography':
            return f'the code under test left out a result: {e}', None
        if any(f.startswith(TREE + os.sep) for f in frames):
            last = traceback.format_exception(e)[-6:]
            return ('unexpected exception from the code under test: '
                    f'{type(e).__name__}: {e}\n' + ''.join(last)), None
        raise


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    mod = load(prop)
    sub = {s.name: s for s in mod.SUBS}[r['sub']]
    for _ in range(int(r.get('repeat', 1))):
        msg, _res = judge(sub, r['case'])
        if msg:
            print('VIOLATED:', msg)
            return 1
    print('held on the replayed case')
    return 0


def main():
    prop, subname = sys.argv[1:3]
    if subname == '--replay':
        sys.exit(replay(prop, sys.argv[3]))
    shard, seed = int(sys.argv[3]), int(sys.argv[4])
    tier, out, journal = sys.argv[5:8]
    mod = load(prop)
    sub = {s.name: s for s in mod.SUBS}[subname]
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    st = {'n': 0, 'distinct': set(), 'nontrivial': set(), 'labels': {},
          'samples': [], 'fail': None, 'tfail': None, 'stopped': False,
          'err': None}
    t0 = time.time()
    budget = sub.budget[0 if tier == 'quick' else 1]
    jf = open(journal, 'w')

    def one(case):
        if st['err']:
            return None
        now = time.time()
        if st['tfail'] is not None:
            if now - st['tfail'] > MAX_SHRINK_S[tier]:
                return None
        elif now - t0 > budget:
            st['stopped'] = True
            return None
        txt = json.dumps(case, sort_keys=True)
        jf.seek(0)
        jf.truncate()
        jf.write(txt)
        jf.flush()
        try:
            msg, res = judge(sub, case)
        except Exception:
            st['err'] = traceback.format_exc() + '\ncase: ' + txt[:4000]
            return None
        if st['fail'] is None:
            st['n'] += 1
            h = hashlib.sha1(txt.encode()).digest()[:8]
            new = h not in st['distinct']
            st['distinct'].add(h)
        if msg is not None:
            if st['fail'] is None:
                st['tfail'] = time.time()
            st['fail'] = {'case': json.loads(txt), 'message': msg}
            return msg
        if st['fail'] is None:
            nt, label = res
            st['labels'][label] = st['labels'].get(label, 0) + 1
            if nt:
                st['nontrivial'].add(h)
                if new and len(st['samples']) < 2 and st['n'] > 3:
                    st['samples'].append(json.loads(txt))
        return None

    for ex in (sub.examples if shard == 0 else []):
        if one(ex) is not None:
            break
    if st['fail'] is None and not st['err']:
        n = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, -(-n // sub.shards))

        @hypothesis.seed(seed * 1009 + shard * 101 + 7)
        @settings(max_examples=n, deadline=None, database=None,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False, print_blob=False)
        @given(sub.strategy)
        def test(case):
            msg = one(case)
            if msg is not None:
                raise api.Violation(msg)
        try:
            test()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if st['fail'] is None and not st['err']:
                st['err'] = traceback.format_exc()
    res = {'evaluations': st['n'], 'distinct': len(st['distinct']),
           'nontrivial': len(st['nontrivial']), 'labels': st['labels'],
           'samples': st['samples'], 'fail': st['fail'], 'err': st['err'],
           'stopped_at_budget': st['stopped'], 'known': api.KNOWN_SEEN,
           'wall': time.time() - t0}
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)
    os._exit(0)


if __name__ == '__main__':
    main()
