"""Studies of all types: construction through the public API, execution and observation of every result."""
import copy
import itertools

import numpy as np

import gen
import ref
from common import *
from engine import Violation, Skip
from gen import pick, chance, bl


class Case(object):
    """Everything needed to build and run one study of the given type."""

    def __init__(self, kind, s, **kw):
        self.kind, self.s = kind, s
        self.mode = 'complete'
        self.__dict__.update(kw)

    def build(self, rng, om=None, tms=None, data=None, **kw):
        B = bl()
        s = self.s
        if self.kind == 'online':
            S = B.OnlineStudy(storeHistory=self.history, silent=chance(rng, 0.7))
            omo = s.om.build() if om is None else om
            pick(rng, [S.setOM, S.setObservationModel, S.set])(omo, silent=True)
            tms = [gen.build_tm(sp, s.om.names) for sp in self.specs] if tms is None else tms
            if len(tms) == 1 and self.single:
                pick(rng, [S.setTM, S.set])(tms[0], silent=True)
            else:
                for n, tm in zip(self.tm_names, tms):
                    pick(rng, [S.addTransitionModel, S.addTM, S.add])(n, tm)
            if self.tm_prior is not None:
                S.setTransitionModelPrior(self.tm_prior, silent=chance(rng, 0.5))
            return S
        cls = {'study': B.Study, 'hyper': B.HyperStudy, 'cp': B.ChangepointStudy}[self.kind]
        tm = gen.build_tm(s.spec, s.om.names) if tms is None else tms[0]
        return gen.make_study(rng, s.om if om is None else _Fixed(om), tm, s.data if data is None else data, s.ts, cls=cls, **kw)

    def run(self, rng, S, n=None, start=0, **kw):
        """Fit, resp. feed the data points start..n."""
        if self.kind == 'online':
            d = self.s.data
            for x in d[start:len(d) if n is None else n]:
                S.step(self.point(x))
            return S
        return fit_mode(rng, S, self.mode, **kw)

    def point(self, x):
        if np.ndim(x):
            return np.array(x)
        return (gen.mixed(x) if self.python_scalars == 2 else x.item()) if self.python_scalars else x

    def names(self):
        """All hyper-parameter names."""
        if self.kind == 'online':
            return [n for sp in self.specs for n, _, _ in ref.flat(sp)]
        return [n for n, _, _ in ref.flat(self.s.spec)]

    def point_names(self):
        c, b = points(self.s.spec)
        return [n for n, _ in c + b]

    def describe(self):
        if self.kind == 'online':
            return 'online %s tms=%s history=%s prior=%s' % (self.s.om.describe(), [gen.describe(x) for x in self.specs],
                                                             self.history, self.tm_prior is not None)
        return '%s/%s %s' % (self.kind, self.mode, describe(self.s))


class _Fixed(object):
    """Wrapper so that make_study uses an existing observation model object."""

    def __init__(self, obj):
        self.obj = obj

    def build(self):
        return self.obj


def cp_mask(spec):
    cps, bps = points(spec)
    names = [n for n, _ in (cps or bps)]
    flat = [n for n, _, _ in ref.flat(spec)]
    idx = [i for i, n in enumerate(flat) if n in names]
    return lambda c: all(c[idx[k]] < c[idx[k + 1]] for k in range(len(idx) - 1))


def cp_spec(rng, g, npoints=None, style=None, extra=0.4, max_values=None, small=frozenset(['static', 'grw', 'regime', 'det', 'noteq'])):
    """Transition model for a change-point study: all points are change-points or all are break-points of one serial model."""
    ts = g.ts
    npoints = npoints or pick(rng, [1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
    npoints = min(npoints, max(1, len(ts) - 2))
    style = style or pick(rng, ['change', 'break'])
    vals = []
    k = max_values or {1: 8, 2: 6, 3: 4, 4: 3, 5: 2}[npoints]
    for j in range(npoints):
        r = rng.random()
        if r < 0.35 and len(ts) - 1 <= k + 3:
            vals.append('all')
        elif r < 0.8:
            n = int(rng.integers(1, min(k, len(ts)) + 1))
            if chance(rng, 0.6):
                a = int(rng.integers(0, len(ts) - n + 1))
                v = np.array(ts[a:a + n])
            else:
                v = np.array([ts[q] for q in sorted(rng.choice(len(ts), n, replace=False))])
            vals.append(list(v) if chance(rng, 0.3) else v)
        else:
            vals.append(pick(rng, ts))
    first = lambda v: ts[0] if isinstance(v, str) else np.atleast_1d(v)[0]
    order = sorted(range(npoints), key=lambda j: (first(vals[j]), np.atleast_1d(ts[-2] if isinstance(vals[j], str) else vals[j])[-1]))
    vals = [vals[j] for j in order]
    pri = [gen.gen_hyper_prior(rng, np.arange(2.), ['none']) for _ in vals]
    for j, v in enumerate(vals):
        if not isinstance(v, str) and np.ndim(v) and chance(rng, 0.4):
            pri[j] = gen.gen_hyper_prior(rng, np.asarray(v, float), ['array', 'func', 'intarray'])
    small = set(small)
    if style == 'change':
        ms = [{'k': 'cp', 'n': [g.name()], 'v': [v], 'pr': [p]} for v, p in zip(vals, pri)]
        if len(ms) == 1 and not chance(rng, extra):
            return ms[0]
        if chance(rng, extra):
            ms.insert(int(rng.integers(len(ms) + 1)), g.elementary(small))
        return {'k': 'comb', 'm': ms}
    bs = [{'k': pick(rng, ['break', 'change']), 'n': [g.name()], 'v': [v], 'pr': [p]} for v, p in zip(vals, pri)]
    ms = [g.elementary(small) if chance(rng, extra) else {'k': 'static'} for _ in range(len(bs) + 1)]
    sp = {'k': 'serial', 'm': ms, 'b': bs}
    if chance(rng, 0.2):
        sp = {'k': 'comb', 'm': [sp, g.elementary(small)]}
    return sp


def serial_first_values_ok(spec, ts):
    """The library checks that the first values of the breaks increase ('all' excepted)."""
    bs = points(spec)[1]
    f = [None if isinstance(v, str) else np.atleast_1d(v)[0] for _, v in bs]
    return all(a is None or b is None or a < b for a, b in zip(f, f[1:]))


def cp_case(rng, lo=1, hi=60, **kw):
    kw.setdefault('om_kinds', gen.CHEAP)
    spec_fn = kw.pop('spec_fn', None) or (lambda g: cp_spec(rng, g))
    T = kw.pop('T', None)
    for _ in range(60):
        s = scenario(rng, T=int(rng.integers(3, 10)) if T is None else T, hyper=True, max_values=2, spec=spec_fn,
                     irregular=0.05, **kw)
        n = n_combos(s.spec, s.tsf)
        if not lo <= n <= hi or not serial_first_values_ok(s.spec, s.tsf):
            continue
        mask = cp_mask(s.spec)
        if not any(mask(c) for c in ref.hyper_grid(s.spec, s.tsf)[0]):
            continue
        c = Case('cp', s, mask=mask)
        return c
    raise Skip('no suitable scenario found')


def online_case(rng, nmodels=None, hi=10, om_kinds=None, T=None, tm_kinds=None, depth=1, prior=None, history=None, missing=None,
                hyper=0.6, prior_kinds=None, om=None, hyper_prior_kinds=None, single=None, size='small', irregular=0.1,
                multidim=True, outliers=0):
    s = scenario(rng, outliers=outliers, om=om, om_kinds=om_kinds or gen.CHEAP, T=int(rng.integers(1, 9)) if T is None else T, ts_kinds=('none',),
                 spec={'k': 'static'}, missing=missing, prior_kinds=prior_kinds, size=size, irregular=irregular,
                 multidim=multidim)
    s.ts = None
    k = nmodels or pick(rng, [1, 1, 1, 2, 2, 2, 3, 4])
    specs = []
    for j in range(k):
        for _ in range(50):
            g = gen.TMGen(rng, s.om, list(range(len(s.data) + 1)), hyper=chance(rng, hyper), max_values=3, prefix='m%dh' % j,
                          prior_kinds=hyper_prior_kinds)
            g.allow_all = False
            sp = g.spec(depth, tm_kinds, 0.3)
            if n_combos(sp, s.tsf) <= hi:
                break
        else:
            sp = {'k': 'static'}
        specs.append(sp)
    tmp = None
    if prior if prior is not None else chance(rng, 0.3):
        tmp = rng.integers(1, 6, k)
        r = rng.random()
        tmp = tmp.tolist() if r < 0.3 else (tmp / tmp.sum() if r < 0.7 else tmp)
    names = list(pick(rng, [['model A', 'model B', 'model C', 'model D'], ['normal', 'chaos', 'drift', 'jump'], ['1', '2', '3', '4']]))[:k]
    s.flags = sorted(set(f for sp in specs for f in gen.known_flags(sp) if f == 'K1'))
    s.alpha = any('alpha' in ref.kinds(sp) for sp in specs)
    s.spec = specs[0]
    c = Case('online', s, specs=specs, tm_prior=tmp, tm_names=names, history=chance(rng, 0.7) if history is None else history,
             single=(k == 1 and tmp is None and chance(rng, 0.5)) if single is None else single, python_scalars=pick(rng, [0, 0, 1, 2]))
    if c.single and len(specs) == 1:
        c.tm_names = ['transition model']
    return c


def any_case(rng, kinds=('study', 'hyper', 'cp', 'online'), mode=None, **kw):
    kind = pick(rng, kinds)
    if kind == 'study':
        c = Case(kind, scenario(rng, depth=1, **kw))
    elif kind == 'hyper':
        c = Case(kind, hyper_scenario(rng, 1, 16, depth=1, T=kw.pop('T', int(rng.integers(1, 8))), **kw))
    elif kind == 'cp':
        c = cp_case(rng, hi=40, **kw)
    else:
        return online_case(rng, **{k: v for k, v in kw.items() if k not in ('depth',)})
    c.mode = mode or pick(rng, ['complete', 'complete', 'forward', 'evidence'])
    return c


# ------------------------------------------------------------------------------------------------- observation
def attempt(fn):
    try:
        return fn()
    except (Violation, MemoryError):
        raise
    except Exception as e:
        return ('EXC', type(e).__name__)


def freeze(x):
    """Deep copy as nested lists of arrays."""
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [freeze(y) for y in x.ravel()] if x.ndim else repr(x)
        return x.copy()
    return x


def observe(S, c, times=None, simulate=True, hyper_values=True):
    """All results of a study, as seen through its public interface."""
    s = c.s
    o = {}
    o['logEvidence'] = attempt(lambda: float(S.logEvidence))
    o['log10Evidence'] = attempt(lambda: float(S.log10Evidence))
    if c.kind != 'online':
        o['localEvidence'] = attempt(lambda: np.array(S.localEvidence, float))
        o['means'] = attempt(lambda: np.array(S.posteriorMeanValues, float))
        o['posterior'] = attempt(lambda: np.array(S.posteriorSequence, float))
    names = s.om.names
    ts = list(s.tsf) if times is None else times
    for n in names:
        for d in (True, False):
            o['PDs', n, d] = attempt(lambda: S.getPDs(n, density=d))
            o['avg', n, d] = attempt(lambda: S.getPD('avg', n, density=d))
        o['PD', n] = [attempt(lambda: S.getPD(t, n)) for t in ts]
        o['mean', n] = attempt(lambda: S.getParameterMeanValues(n))
        if c.kind == 'online':
            o['CPD', n] = attempt(lambda: S.getCPD(n))
            o['CPD0', n] = attempt(lambda: S.getCPD(n, density=False))
            o['CPM', n] = attempt(lambda: S.getCurrentParameterMeanValue(n))
            o['PM', n] = [attempt(lambda: S.getParameterMeanValue(t, n)) for t in ts]
    hn = c.names()
    if hyper_values:
        o['values'] = [attempt(lambda: S.getHyperParameterValue(n)) for n in hn] if c.kind != 'online' else None
    if c.kind in ('hyper', 'cp'):
        o['hpd'] = attempt(lambda: np.array(S.hyperParameterDistribution, float))
        o['list'] = attempt(lambda: np.array(S.logEvidenceList, float))
        for n in hn:
            o['HPD', n] = attempt(lambda: S.getHPD(n))
        for a, b in itertools.permutations(hn, 2):
            o['JHPD', a, b] = attempt(lambda: S.getJHPD([a, b]))
    if c.kind == 'cp':
        for a, b in itertools.permutations(c.point_names(), 2):
            o['DD', a, b] = attempt(lambda: S.getDD([a, b]))
    if c.kind == 'online':
        for loc in (False, True):
            o['CTMD', loc] = attempt(lambda: S.getCTMD(local=loc)[1])
            o['TMDs', loc] = attempt(lambda: S.getTransitionModelDistributions(local=loc)[1])
            for m in c.tm_names:
                o['CTMP', loc, m] = attempt(lambda: S.getCTMP(m, local=loc))
                o['TMPs', loc, m] = attempt(lambda: S.getTMPs(m, local=loc))
        for n in hn:
            o['CHPD', n] = attempt(lambda: S.getCHPD(n))
            o['HPDs', n] = attempt(lambda: S.getHPDs(n))
            o['HPM', n] = attempt(lambda: S.getHyperParameterMeanValues(n))
            o['HPD', n] = [attempt(lambda: S.getHPD(t, n)) for t in ts]
            o['HPM1', n] = [attempt(lambda: S.getHyperParameterMeanValue(t, n)) for t in ts]
            o['HPDavg', n] = attempt(lambda: S.getHPD('avg', n))
    if simulate and s.om.seg == 1 and s.om.multiply and s.data.ndim == 1:
        x = [v for v in np.unique(s.data[~np.isnan(np.asarray(s.data, float))])[:3]]
        if x:
            o['sim'] = attempt(lambda: S.simulate(x))
            o['simt'] = attempt(lambda: S.simulate(x, t=ts[-1], density=True))
    return {k: freeze(v) for k, v in o.items()}


def _same(a, b, rtol, atol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(_same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return repr(a) == repr(b)
    if x.shape != y.shape:
        return False
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))


def differences(a, b, rtol=0., atol=0., skip=()):
    return [k for k in a if k not in skip and (k not in b or not _same(a[k], b[k], rtol, atol))] + [k for k in b if k not in a and k not in skip]


def same(rec, monitor, a, b, msg, rtol=0., atol=0., skip=()):
    d = differences(a, b, rtol, atol, skip)
    rec.count(monitor, max(1, len(a)))
    if d:
        raise Violation('%s: %s: %d results differ, first %r: %.300r vs %.300r' % (monitor, msg, len(d), d[0], a.get(d[0]), b.get(d[0])))
