"""Builds a private copy of the code under test from /repo's working tree.

Only longitudinal_tomography/ and tomo/ are copied; the extension is compiled
from the copied sources with the flags of the project's own build (or with
sanitizers, variant 'asan').  The result is cached by a hash of every source
file, so a changed tree always gives a new build and an unchanged one does not
compile twice.  Nothing is written to /repo."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(VERIF, '.build')
PKGS = ('longitudinal_tomography', 'tomo')
FLAGS = {
    'plain': ['-O2', '-ffast-math'],
    'asan': ['-O1', '-g', '-ffast-math', '-fno-omit-frame-pointer',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
    'gpu': ['-O2', '-ffast-math'],
}
GPU = os.path.join(VERIF, 'vt', 'gpu')
SKIP_EXT = ('.so', '.pyc', '.o', '.cubin')


class BuildError(Exception):
    pass


class KernelGap(BuildError):
    """The CUDA kernels do not compile for the host."""


def _sources():
    out = []
    for p in PKGS:
        top = os.path.join(REPO, p)
        for d, dn, fn in os.walk(top):
            dn[:] = sorted(x for x in dn if x != '__pycache__')
            for f in sorted(fn):
                if not f.endswith(SKIP_EXT):
                    full = os.path.join(d, f)
                    out.append((os.path.relpath(full, REPO), full))
    if not out:
        raise BuildError('no sources under ' + REPO)
    return out


def _py_config():
    code = ('import sysconfig,pybind11;'
            'print(sysconfig.get_config_var("EXT_SUFFIX"));'
            'print(pybind11.get_include());'
            'print(sysconfig.get_paths()["include"])')
    return subprocess.check_output([PY, '-c', code], text=True).split('\n')[:3]


def build(variant='plain'):
    """Returns the directory to put first on sys.path."""
    srcs = _sources()
    h = hashlib.sha256(repr(FLAGS[variant]).encode())
    if variant == 'gpu':
        for d, _, fn in sorted(os.walk(GPU + '/include')):
            for f in sorted(fn):
                with open(os.path.join(d, f), 'rb') as g:
                    h.update(g.read())
    for rel, full in srcs:
        with open(full, 'rb') as f:
            b = f.read()
        h.update(rel.encode() + b'\0' + str(len(b)).encode() + b'\0' + b)
    key = variant + '-' + h.hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.isdir(dst):
            os.utime(dst)
            return dst
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
        try:
            for rel, full in srcs:
                t = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(full, t)
            ver = os.path.join(tmp, 'longitudinal_tomography', '_version.py')
            if not os.path.exists(ver):
                with open(ver, 'w') as f:
                    f.write("version = '3.4.1'\nversion_tuple = (3, 4, 1)\n")
            _compile(tmp, variant)
            os.rename(tmp, dst)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _prune(key)
    return dst


def _compile(tree, variant):
    suf, inc1, inc2 = _py_config()
    cpp = os.path.join(tree, 'longitudinal_tomography', 'cpp_routines')
    units = sorted(f for f in os.listdir(cpp) if f.endswith('.cpp'))
    obj = os.path.join(tree, 'obj')
    os.makedirs(obj)
    base = ['g++', '-fPIC', '-fvisibility=hidden', '-std=c++17', '-fopenmp',
            '-w', '-I' + inc1, '-I' + inc2] + FLAGS[variant]
    procs, objs = [], []
    for u in units:
        o = os.path.join(obj, u + '.o')
        objs.append(o)
        procs.append((u, subprocess.Popen(
            base + ['-c', os.path.join(cpp, u), '-o', o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for u, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(f'compiling {u} failed:\n{out[-3000:]}')
    link = ['g++', '-shared', '-o', os.path.join(cpp, 'libtomo' + suf)] + objs
    if variant == 'asan':
        link += ['-fsanitize=address,undefined']
    link += ['-lgomp']
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('linking failed:\n' + r.stderr[-3000:])
    shutil.rmtree(obj)
    if variant == 'gpu':
        _kernels(tree)


def _kernels(tree):
    """The CUDA kernels, compiled for the host; see vt/gpu."""
    d = os.path.join(tree, 'longitudinal_tomography', 'cuda_kernels')
    code = ('import re;s=open(%r).read();'
            'm=re.search(r"REDUCTION_BLOCK_SIZE\\s*=\\s*(\\d+)",s);'
            'print(m.group(1) if m else 32)'
            % os.path.join(d, '__init__.py'))
    size = subprocess.check_output([PY, '-c', code], text=True).strip()
    procs = []
    for f in sorted(os.listdir(d)):
        if not f.endswith('.cu'):
            continue
        src = os.path.join(d, f)
        with open(src) as g:
            text = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', g.read(), flags=re.S)
        names = re.findall(r'__global__\s+void\s+(\w+)\s*\(', text)
        host = src[:-3] + '_host.cpp'
        with open(host, 'w') as g:
            g.write('#include "cuda_host.h"\n#include "%s"\n' % src)
            for n in names:
                g.write('extern "C" __attribute__((visibility("default"))) '
                        'void vt_launch_%s(unsigned g, unsigned b, void **a) '
                        '{ vt::launch(&%s, g, b, a); }\n' % (n, n))
        for prec, flag in (('double', []), ('single', ['-DUSEFLOAT'])):
            procs.append((f, subprocess.Popen(
                ['g++', '-x', 'c++', '-std=c++17', '-O1', '-shared', '-fPIC',
                 '-fvisibility=hidden', '-w', '-I' + GPU + '/include',
                 '-DBLOCK_SIZE=' + size, host, '-o',
                 src[:-3] + '_' + prec + '.cubin'] + flag,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True)))
    for f, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise KernelGap(f'compiling {f} failed:\n{out[-3000:]}')


def _prune(keep, n=6):
    dirs = [d for d in os.listdir(CACHE)
            if os.path.isdir(os.path.join(CACHE, d)) and d != keep]
    dirs.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
    for d in dirs[:-n]:
        shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        try:
            print(build(v))
        except KernelGap as e:
            print(f'{v}: {e}')
