"""P21: compiled code stays inside the arrays it is given."""
from hypothesis import strategies as st

from vt import gen, recmodel as rm
from vt.api import Sub
from props import p01, p02, p03, p08, p09, p10, p11

RULE = ('the case generators of the tracking, reconstruction and image '
        'checks, run with the extension compiled with address and undefined '
        'behaviour sanitizers; non-trivial as there')
NAMES = [(p01, ('native', 'scalar', 'track', 'hybrid', 'single', 'steps'), 1),
         (p02, ('history', 'interrupted'), 1),
         (p03, None, 1),
         (p08, ('model', 'single', 'parts'), .7),
         (p09, ('history', 'threads', 'verbose'), 1),
         (p10, None, .7),
         (p11, None, .7)]
SUBS = []


def only_memory(f):
    """Wrong results are for the other properties; here only the sanitizers
    (which end the process) decide."""
    def run(c):
        try:
            return f(c)
        except MemoryError:
            raise
        except Exception:                                         # noqa
            return False, 'decided elsewhere'
    return run


SUBS.append(Sub('profiles', p01.with_(
    rm.case(maxp=6, maxprof=400, maxbins=40, iters=2),
    way=gen.few('run', 'native', 'hybrid'), cb=st.booleans()),
    only_memory(p08.run_model), quick=150, variant='asan', rule=RULE))
SUBS.append(Sub('tracks', gen.track_case(max_prof=200, max_dturns=3,
                                         max_parts=6),
                only_memory(p01.run_array), quick=150, variant='asan',
                rule=RULE))
for mod, names, k in NAMES:
    for s in mod.SUBS:
        if names is None or s.name in names:
            SUBS.append(Sub(mod.__name__[-3:] + '-' + s.name, s.strategy,
                            only_memory(s.run), quick=int(s.quick * k), variant='asan',
                            threads=s.threads, rule=RULE))
