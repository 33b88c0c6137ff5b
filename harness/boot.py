"""Process set-up shared by all checks: import the code under test from /repo, make the run quiet and deterministic,
and install the uninitialised-memory sanitizer (np.empty and np.empty_like hand out poisoned memory)."""
import os
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ['MPLBACKEND'] = 'Agg'
if not os.path.isdir(os.environ.get('MPLCONFIGDIR', '/nonexistent')):
    os.environ['MPLCONFIGDIR'] = tempfile.gettempdir()
os.environ.setdefault('TQDM_DISABLE', '1')

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

POISON = -7.5e99
poison_events = [0]
_real_empty, _real_empty_like = np.empty, np.empty_like


def _poisoned_empty(*args, **kwargs):
    return _poison(_real_empty(*args, **kwargs))


def _poisoned_empty_like(*args, **kwargs):
    return _poison(_real_empty_like(*args, **kwargs))


def _poison(a):
    poison_events[0] += 1
    try:
        if a.dtype.kind == 'f':
            a.fill(POISON)
        elif a.dtype.kind == 'i':
            a.fill(-77777)
    except Exception:
        pass
    return a


def install_poison():
    np.empty, np.empty_like = _poisoned_empty, _poisoned_empty_like


def cache_word_lists():
    """pyparsing spends 0.1 s on ordering the list of function names for every query: keep the (pure) result."""
    import copy
    import functools
    import pyparsing as pp
    cache = {}

    def wrap(fn):
        @functools.wraps(fn)
        def one_of(strs, *args, **kwargs):
            if isinstance(strs, str) or args or kwargs:
                return fn(strs, *args, **kwargs)
            strs = list(strs)
            if len(strs) < 30:
                return fn(strs)
            key = tuple(strs)
            if key not in cache:
                cache[key] = fn(strs)
            return copy.copy(cache[key])
        return one_of

    for n in ('oneOf', 'one_of'):
        if hasattr(pp, n):
            setattr(pp, n, wrap(getattr(pp, n)))


def load():
    cache_word_lists()
    np.seterr(all='ignore')
    import matplotlib
    matplotlib.use('Agg')
    import bayesloop as bl
    where = os.path.realpath(os.path.dirname(bl.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'bayesloop')):
        raise RuntimeError('bayesloop imported from %s, expected %s' % (where, REPO))
    install_poison()
    return bl
