"""What the property modules use: Sub, Violation and comparison helpers."""
import json
import math

import numpy as np


class Violation(Exception):
    """The property is broken by the code under test."""


class Known(Exception):
    pass


KNOWN_SEEN = {}
_KNOWN_IDS = {}


def load_known(path, prop):
    _KNOWN_IDS.clear()
    with open(path) as f:
        for e in json.load(f)['findings']:
            if e['status'] == 'known' and e['property'] == prop:
                _KNOWN_IDS[e['id']] = e['what']


def known(fid, msg):
    """The observed deviation is exactly the listed finding `fid`."""
    if fid not in _KNOWN_IDS:
        raise Violation(f'{msg} (finding {fid} is not listed)')
    KNOWN_SEEN[fid] = KNOWN_SEEN.get(fid, 0) + 1


class Sub:
    """One generated check of a property.

    strategy: Hypothesis strategy giving a JSON-able case (a dict).
    run(case) -> (nontrivial: bool, label: str); raises Violation.
    """

    def __init__(self, name, strategy, run, quick=200, thorough=None,
                 shards=1, examples=(), variant='plain', rule='', threads=2,
                 budget=(240, 1500)):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.examples = list(examples)
        self.variant = variant
        self.rule = rule
        self.threads = threads
        self.budget = budget


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    a = np.asarray(a)
    return np.array2string(a, threshold=12, edgeitems=4, precision=17)


def call(fn, *a, **k):
    """A call that the property says must succeed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:                      # noqa
        raise Violation(f'{getattr(fn, "__name__", fn)} raised '
                        f'{type(e).__name__}: {e}')


def rejects(exc, fn, *a, what='', **k):
    """A call that must raise `exc` (class or tuple)."""
    try:
        r = fn(*a, **k)
    except exc:
        return
    except Exception as e:
        names = exc.__name__ if isinstance(exc, type) else \
            '/'.join(x.__name__ for x in exc)
        raise Violation(f'{what}: raised {type(e).__name__} ({e}) '
                        f'instead of {names}')
    raise Violation(f'{what}: accepted, returned {type(r).__name__}')


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} != {b.shape}')
    if not np.array_equal(a, b, equal_nan=(a.dtype.kind == 'f'
                                           and b.dtype.kind == 'f')):
        i = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        i = tuple(int(v) for v in i[0]) if len(i) else ()
        raise Violation(f'{what}: differ at {i}: {a[i]!r} != {b[i]!r}; '
                        f'{_short(a)} vs {_short(b)}')


def close(a, b, what, rtol=1e-9, atol=0.0):
    """|a-b| <= atol + rtol*|b| elementwise; b is the oracle's value."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} != {b.shape}')
    if a.size == 0:
        return
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        lim = np.asarray(atol + rtol * np.abs(b)) * np.ones_like(d)
        bad = ~((d <= lim) | (a == b) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        r = np.where(bad, np.where(np.isfinite(d), d / (lim + 1e-300), np.inf),
                     0)
        i = np.unravel_index(int(np.argmax(r)), r.shape)
        i = tuple(int(v) for v in i)
        raise Violation(
            f'{what}: {int(bad.sum())}/{bad.size} differ, worst at {i}: '
            f'got {a[i]!r}, expected {b[i]!r}, allowed +-{lim[i]:.3g}')


def rng(case, salt=0):
    return np.random.default_rng([int(case['seed']) & 0x7fffffff, salt])


def ulp32(x):
    return float(np.finfo(np.float32).eps) * x


isfinite = math.isfinite


class capture:
    """Everything printed by Python or by compiled code, in order."""

    def __enter__(self):
        import io
        import os
        import sys
        import tempfile
        self.f = tempfile.TemporaryFile(dir=os.environ.get('VT_SCRATCH'))
        sys.stdout.flush()
        self.py = sys.stdout
        self.fd = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), 'wb', 0),
                                      write_through=True)
        return self

    def __exit__(self, *a):
        import os
        import sys
        sys.stdout.close()
        sys.stdout = self.py
        os.dup2(self.fd, 1)
        os.close(self.fd)
        self.f.seek(0)
        self.text = self.f.read().decode()
        self.f.close()
        self.lines = self.text.split('\n')
        if self.lines and not self.lines[-1]:
            self.lines.pop()
        return False
