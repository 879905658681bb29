#!/opt/venv/bin/python
"""check.py PROP            decide one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE   re-run one saved case against /repo's tree"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vt import build as vb                                        # noqa

STALL = {'quick': 150, 'thorough': 400}
PAR = 7
ROUNDS = {'quick': 2, 'thorough': 1}     # how often the drawn shards run


def env_for(variant, tree, scratch, threads):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('PYTHON', 'OMP', 'GOMP', 'LD_'))}
    e.update(PYTHONPATH=tree, VT_TREE=tree, PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=scratch,
             OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS='1',
             OMP_WAIT_POLICY='passive', HOME=scratch,
             VT_SCRATCH=scratch)
    if variant == 'gpu':
        e['PYTHONPATH'] = tree + ':' + os.path.join(HERE, 'vt', 'gpu')
    if variant == 'asan':
        libs = [subprocess.check_output(['g++', '-print-file-name=' + n],
                                        text=True).strip()
                for n in ('libasan.so', 'libubsan.so', 'libstdc++.so.6')]
        e.update(LD_PRELOAD=':'.join(libs),
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:'
                              'handle_segv=1:allocator_may_return_null=1',
                 UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:'
                               'print_stacktrace=1')
    return e


def worker(args, env, cwd, log):
    return subprocess.Popen([vb.PY, os.path.join(HERE, 'vt', 'worker.py')]
                            + args, env=env, cwd=cwd, stdout=log,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)


def list_subs(prop, tree, scratch):
    code = ('import sys,json;sys.argv=["x"];sys.path.insert(1,%r);'
            'import vt.worker as w;m=w.load(%r);'
            'print("SUBS"+json.dumps([[s.name,s.shards,s.variant,s.threads,'
            's.rule] for s in m.SUBS]))' % (HERE, prop))
    r = subprocess.run([vb.PY, '-c', code], cwd=scratch, text=True,
                       env=env_for('plain', tree, scratch, 1),
                       capture_output=True)
    for line in r.stdout.splitlines():
        if line.startswith('SUBS'):
            return json.loads(line[4:])
    raise RuntimeError('cannot load property module:\n' + r.stdout[-2000:]
                       + r.stderr[-4000:])


def tail(path, n=3000):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''


def run_prop(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='vt-')
    try:
        return _run(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, seed, scratch, t0):
    tree = vb.build('plain')
    subs = list_subs(prop, tree, scratch)
    only = os.environ.get('VT_SUBS')
    if only:
        subs = [s for s in subs if s[0] in only.split(',')]
    trees = {}
    for v in {s[2] for s in subs}:
        try:
            trees[v] = vb.build(v)
        except vb.KernelGap as e:
            print(f'not decided: {e}'[:2000])
    subs = [s for s in subs if s[2] in trees]
    jobs = []
    for name, shards, variant, threads, rule in subs:
        for k in range(shards * ROUNDS.get(tier, 1)):
            jobs.append(dict(name=name, shard=k, variant=variant,
                             threads=threads))
    queue, running, done = list(jobs), [], []
    while queue or running:
        while queue and len(running) < PAR:
            j = queue.pop(0)
            d = os.path.join(scratch, f'{j["name"]}-{j["shard"]}')
            os.makedirs(d)
            j.update(dir=d, out=d + '/out.json', journal=d + '/case.json',
                     log=d + '/log.txt')
            j['p'] = worker([prop, j['name'], str(j['shard']), str(seed), tier,
                             j['out'], j['journal']],
                            env_for(j['variant'], trees[j['variant']], d,
                                    j['threads']), d, open(j['log'], 'w'))
            j['t'] = time.time()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            if j['p'].poll() is not None:
                running.remove(j)
                done.append(j)
                continue
            try:
                last = os.path.getmtime(j['journal'])
            except OSError:
                last = j['t']
            if time.time() - max(last, j['t']) > STALL[tier]:
                j['p'].kill()
                j['p'].wait()
                j['hang'] = True
                running.remove(j)
                done.append(j)

    tot = dict(evaluations=0, distinct_nontrivial=0)
    samples, per, errors, fails, knowns = [], {}, [], [], {}
    for j in sorted(done, key=lambda j: (j['name'], j['shard'])):
        if os.path.exists(j['out']):
            with open(j['out']) as f:
                r = json.load(f)
            tot['evaluations'] += r['evaluations']
            tot['distinct_nontrivial'] += r['nontrivial']
            p = per.setdefault(j['name'], dict(
                evaluations=0, distinct=0, nontrivial=0, labels={},
                stopped_at_budget=False, wall_s=0))
            p['evaluations'] += r['evaluations']
            p['distinct'] += r['distinct']
            p['nontrivial'] += r['nontrivial']
            p['wall_s'] = round(max(p['wall_s'], r['wall']), 1)
            p['stopped_at_budget'] |= r['stopped_at_budget']
            for k, v in r['labels'].items():
                p['labels'][k] = p['labels'].get(k, 0) + v
            if j['shard'] == 0:
                samples += [{'check': j['name'], 'case': s}
                            for s in r['samples'][:1]]
            for k, v in r['known'].items():
                knowns[k] = knowns.get(k, 0) + v
            if r['fail']:
                fails.append((j, r['fail']['case'], r['fail']['message']))
            if r['err']:
                errors.append(f'{j["name"]}: {r["err"]}')
        else:
            rc = j['p'].returncode
            case = None
            try:
                with open(j['journal']) as f:
                    case = json.load(f)
            except Exception:
                pass
            if case is not None and (rc < 0 or j.get('hang')):
                why = ('call does not return' if j.get('hang') else
                       f'process died with signal {-rc}')
                log = tail(j['log'])
                if rc == -9 and not j.get('hang'):
                    errors.append(f'{j["name"]}: worker killed (memory?)')
                else:
                    fails.append((j, case, why + '\n' + log))
            else:
                errors.append(f'{j["name"]}: worker ended with {rc}\n'
                              + tail(j['log']))

    with open(os.path.join(HERE, 'known_findings.json')) as f:
        listed = [e for e in json.load(f)['findings']
                  if e['property'] == prop and e['status'] == 'known']
    for e in listed:
        if knowns.get(e['id']):
            print(f'KNOWN-FINDING: property={prop} {e["id"]}: {e["what"]} '
                  f'(met {knowns[e["id"]]} times in this run)')

    nviol = 0
    if fails:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for j, case, msg in fails:
            if j['name'] in seen:
                continue
            seen.add(j['name'])
            rp = os.path.join(rd, f'{prop}-{j["name"]}.json')
            body = dict(property=prop, sub=j['name'], variant=j['variant'],
                        threads=j['threads'], case=case, message=msg, repeat=1)
            with open(rp, 'w') as f:
                json.dump(body, f, indent=1)
            rc, out = do_replay(rp, scratch)
            if rc == 0:     # depends on history or scheduling: try harder
                body['repeat'] = 50
                with open(rp, 'w') as f:
                    json.dump(body, f, indent=1)
                rc, out = do_replay(rp, scratch)
            note = '' if rc else ' (seen during the run, not on replay)'
            if rc == 2:
                errors.append(f'{j["name"]}: replay failed\n{out}')
            nviol += 1
            print(f'{prop}/{j["name"]}: {msg[:1500]}{note}')
            print(f'VIOLATION property={prop} replay={rp}')
    rules = '; '.join(f'{s[0]}: {s[4]}' for s in subs if s[4])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=tot['evaluations'],
                            distinct_nontrivial=tot['distinct_nontrivial'],
                            rule=rules, samples=samples[:12], checks=per),
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2),
              violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for e in errors:
        print('CHECK-ERROR', e, file=sys.stderr)
    print(f'{prop}: {tot["evaluations"]} cases, '
          f'{tot["distinct_nontrivial"]} distinct non-trivial, '
          f'{nviol} violations, {len(errors)} errors, '
          f'{time.time() - t0:.1f} s')
    if nviol:
        return 1
    return 3 if errors else 0


ASSUME = ['numpy/scipy of /opt/venv and the oracles in /verif/props are right',
          'the extension is compiled by the harness from the tree\'s sources '
          'with the flags of the project\'s build (g++ -O2 -ffast-math '
          '-fopenmp)',
          'inputs outside the generated ranges are not covered']


def do_replay(path, scratch):
    with open(path) as f:
        r = json.load(f)
    tree = vb.build(r.get('variant', 'plain'))
    d = tempfile.mkdtemp(prefix='rp-', dir=scratch)
    log = os.path.join(d, 'log.txt')
    p = worker([r['property'], '--replay', path],
               env_for(r.get('variant', 'plain'), tree, d,
                       r.get('threads', 2)), d, open(log, 'w'))
    try:
        rc = p.wait(timeout=150)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return 1, 'does not return'
    out = tail(log)
    if rc == 0:
        return 0, out
    if rc < 0 or 'VIOLATED:' in out:
        return 1, out
    return 2, out


def main():
    if sys.argv[1] == '--replay':
        scratch = tempfile.mkdtemp(prefix='vt-')
        try:
            rc, out = do_replay(os.path.abspath(sys.argv[2]), scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(out)
        return rc
    try:
        return run_prop(sys.argv[1])
    except vb.BuildError as e:
        print('CHECK-ERROR build:', e, file=sys.stderr)
        return 4


if __name__ == '__main__':
    sys.exit(main())
