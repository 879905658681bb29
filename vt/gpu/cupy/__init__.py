"""Stand-in for CuPy on the host, for checking the GPU code without a GPU.

Arrays are numpy arrays of a subclass with get(); every numpy function is
available and gives such arrays.  RawModule loads kernels compiled for the
host (vt/gpu/include/cuda_host.h).  Scalars are passed to kernels the way
CuPy passes them: int as 64-bit integer, float as double, numpy scalars as
they are; a kernel reads as many bytes as its parameter has."""
import ctypes as _ct
import types as _types

import numpy as _np


class Gap(AttributeError):
    """The code asks for something the stand-in does not have."""


GAPS = []


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    GAPS.append('cupy.' + name)
    raise Gap('cupy.' + name)


class ndarray(_np.ndarray):
    def get(self, *a, **k):
        return _np.array(self, copy=True).view(_np.ndarray)


def _dev(r):
    if type(r) is _np.ndarray:
        return r.view(ndarray)
    if isinstance(r, tuple):
        return tuple(_dev(v) for v in r)
    if isinstance(r, list):
        return [_dev(v) for v in r]
    return r


def _wrap(f):
    def g(*a, **k):
        return _dev(f(*a, **k))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


for _n in dir(_np):
    if _n.startswith('_') or _n in ('ndarray', 'test'):
        continue
    _o = getattr(_np, _n)
    if isinstance(_o, (_np.ufunc, type)) or not callable(_o):
        globals()[_n] = _o
    else:
        globals()[_n] = _wrap(_o)


def asnumpy(a, *r, **k):
    return a.get() if isinstance(a, ndarray) else _np.asarray(a)


class _Func:
    def __init__(self, lib, name):
        self.f = getattr(lib, 'vt_launch_' + name)
        self.name = name

    def __call__(self, grid, block, args, **k):
        keep, ptrs = [], []
        for a in args:
            if isinstance(a, ndarray):
                if not a.flags.c_contiguous:
                    raise ValueError('array is not contiguous')
                v = _ct.c_void_p(a.ctypes.data)
            elif isinstance(a, bool):
                v = _ct.c_bool(a)
            elif isinstance(a, int):
                v = _ct.c_longlong(a)
            elif isinstance(a, _np.generic):
                v = _ct.create_string_buffer(a.tobytes(), 16)
            elif isinstance(a, float):
                v = _ct.c_double(a)
            else:
                raise TypeError(f'Unsupported type {type(a)}')
            keep.append(v)
            ptrs.append(_ct.addressof(v))
        arr = (_ct.c_void_p * len(ptrs))(*ptrs)
        LAUNCHED[self.name] = LAUNCHED.get(self.name, 0) + 1
        dims = [int(v) for v in tuple(grid) + tuple(block)]
        if min(dims) < 1 or _np.prod([int(v) for v in block]) > 1024:
            raise RuntimeError(f'invalid launch: grid {grid}, block {block}')
        more = 1        # the kernels know only the first dimension
        for v in tuple(grid)[1:] + tuple(block)[1:]:
            more *= int(v)
        for _ in range(more):
            self.f(_ct.c_uint(int(grid[0])), _ct.c_uint(int(block[0])), arr)


LAUNCHED = {}


class RawModule:
    def __init__(self, *, path, **k):
        self._lib = _ct.CDLL(path)

    def get_function(self, name):
        return _Func(self._lib, name)


class _Device:
    def __init__(self, id=0):
        self.id = id
        self.attributes = {'MultiProcessorCount': 2,
                           'MaxThreadsPerBlock': THREADS}
        self.compute_capability = '70'

    def use(self):
        pass


THREADS = 64
cuda = _types.SimpleNamespace(
    Device=_Device, runtime=_types.SimpleNamespace(
        getDeviceProperties=lambda d: {'name': 'host stand-in'},
        CUDARuntimeError=RuntimeError))
