"""C22: results are independent of units, labels and representation."""
import copy
import itertools

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C22', 'distinct (study type, models, kind of change of representation) pairs of executions, compared result by result',
              ['change-points in units whose volume element changes are excluded (known finding K1), equally spaced hyper-parameters in online studies likewise (K3)'])
CHECK.required = ['units', 'units_model', 'units_estimated', 'rename', 'order', 'time_shift', 'containers', 'no_effect', 'type_study', 'type_hyper', 'type_cp', 'type_online', 'scale_small', 'scale_large', 'offset', 'volume_kept_with_points',
                  'data_dtype', 'grid_container', 'hyper_container', 'prior_container', 'noeff_static', 'noeff_zero_walk', 'noeff_break', 'noeff_point', 'noeff_floor', 'noeff_wrap']
HKINDS = ('none', 'none', 'array', 'intarray', 'const')


# ------------------------------------------------------------------------------------------------- models by table
class Table(object):
    """Data set whose values are indices of given likelihood arrays: no unit is hidden in the likelihood."""

    def __init__(self, names, grids, tables, prior, container=None, fn=None):
        self.names, self.grids, self.tables, self.prior, self.container = names, grids, tables, prior, container

    def om(self):
        B = bl()
        names, grids, tables, prior = self.names, self.grids, self.tables, self.prior
        f = gen.arity(lambda data, *p: tables[int(np.ravel(data)[0])], len(names))
        conv = self.container or (lambda g: g)
        mk = lambda o: B.om.NumPy(f, *[x for p in zip(names, [conv(g) for g in grids]) for x in p], prior=None if prior is None else np.array(prior))
        pr = gen.PriorSpec('array' if prior is not None else 'none', prior, np.ones([len(g) for g in grids]) if prior is None else np.asarray(prior, dtype=float))
        om = gen.OM('table%d' % len(grids), list(names), grids, grids, pr, mk, lambda s, *m: tables[int(s[0])], lambda r, n: np.arange(n) * 1.)
        return om


def table(rng, nd=None, names=None):
    nd = nd or pick(rng, [1, 1, 2, 2, 3])
    n = [int(rng.integers(3, {1: 25, 2: 9, 3: 5}[nd])) for _ in range(nd)]
    grids = []
    for k in n:
        d = pick(rng, [0.25, 0.1, 1., 3.])
        grids.append(pick(rng, [0., -1., 2.]) + d * np.arange(k))
    tabs = [np.exp(2. * rng.normal(size=n)) for _ in range(14)]
    prior = (rng.random(n) + 0.1) if chance(rng, 0.5) else None
    return Table(list(names or pick(rng, gen.NAMES)[:nd]), grids, tabs, prior)


def case(rng, kind, tab, ok=None, T=None, **kw):
    om = tab.om()
    T = T or int(rng.integers(3 if kind == 'cp' else 1, 8))
    for _ in range(80):
        if kind == 'online':
            c = online_case(rng, om=om, T=T, hi=8, multidim=False, missing=0., hyper_prior_kinds=HKINDS, **kw)
            specs = c.specs
        elif kind == 'cp':
            c = cp_case(rng, hi=24, om=om, T=T, missing=0., multidim=False)
            specs = [c.s.spec]
        elif kind == 'hyper':
            c = Case(kind, hyper_scenario(rng, 1, 14, om=om, T=T, missing=0., multidim=False, depth=1, hyper_prior_kinds=HKINDS, **kw))
            specs = [c.s.spec]
        else:
            c = Case(kind, scenario(rng, om=om, T=T, missing=0., multidim=False, depth=pick(rng, [0, 1, 2]), **kw))
            specs = [c.s.spec]
        if ok is None or all(ok(x) for x in specs):
            break
    else:
        raise Skip('no suitable case')
    if kind != 'online':
        c.mode = pick(rng, ['complete', 'complete', 'forward', 'evidence'])
    return c


def twin(c, om=None, f=None, **kw):
    """Copy of a case with other observation model, transition model specification f(spec) or other changes."""
    d = copy.copy(c)
    d.s = copy.copy(c.s)
    if om is not None:
        d.s.om = om
    if f is not None:
        d.s.spec = f(c.s.spec)
        if c.kind == 'online':
            d.specs = [f(x) for x in c.specs]
    d.s.__dict__.update(kw)
    return d


def walk(spec, fn):
    """Copy of a specification with fn applied to each node."""
    s = dict(spec)
    if 'm' in s:
        s['m'] = [walk(m, fn) for m in s['m']]
    if 'b' in s:
        s['b'] = [walk(b, fn) for b in s['b']]
    for k in ('n', 'v', 'pr'):
        if k in s:
            s[k] = list(s[k])
    fn(s)
    return s


def nodes(spec):
    yield spec
    for m in spec.get('m', []):
        for x in nodes(m):
            yield x
    for b in spec.get('b', []):
        yield b


def prior_kinds(spec):
    return {p.kind for s in nodes(spec) for p in s.get('pr', []) if p is not None}


def execute(rng, c):
    S = c.build(rng)
    if c.kind == 'online':
        for x in c.s.data:
            S.step(c.point(x))
    else:
        fit_mode(rng, S, c.mode)
    return S


def results(S, c, pmap=None, hmap=None, perm=None, a=None, b=None):
    """Results without units, under the names of the first study. pmap/hmap: old name -> new name; perm: axes of the old parameters
    in the new study; a, b: unit and origin of each parameter."""
    o = {}
    s = c.s
    pm = pmap or (lambda n: n)
    hm = hmap or (lambda n: n)
    nd = len(s.om.names)
    perm = list(range(nd)) if perm is None else perm
    old = [None] * nd
    arr = lambda p: np.transpose(np.asarray(p, float), [0] + [1 + q for q in perm])
    o['loge'] = float(S.logEvidence)
    if c.kind != 'online':
        o['local'] = np.array(S.localEvidence, float)
    hist = c.kind != 'online' and c.mode != 'evidence' or c.kind == 'online' and c.history
    unit = lambda k, m: (np.asarray(m, float) - (0. if b is None else b[k])) / (1. if a is None else a[k])
    if hist and len(S.posteriorSequence):
        o['post'] = arr(S.posteriorSequence)
    if c.kind == 'online' and np.isfinite(S.logEvidence):
        o['current'] = arr(np.asarray(S.marginalizedPosterior)[None])
    for k in range(nd):
        n = pm(c.old_names[k])
        x, p = attempt(lambda: S.getPDs(n, density=False))
        o['PDs', k] = p if not isinstance(x, str) else x
        if not isinstance(x, str):
            o['grid', k] = unit(k, x)
            x, p = S.getPDs(n)
            o['dens', k] = np.asarray(p) * (1. if a is None else a[k])
        m = attempt(lambda: S.getParameterMeanValues(n))
        o['mean', k] = m if isinstance(m, tuple) else unit(k, m)
        r = attempt(lambda: S.getPD(s.tsf[-1], n, density=False))
        o['PD', k] = r[1]
        r = attempt(lambda: S.getPD('avg', n, density=False))
        o['avg', k] = r[1]
        if c.kind == 'online':
            o['CPD', k] = attempt(lambda: S.getCPD(n, density=False))[1]
    for h in c.old_hyper:
        n = hm(h)
        if c.kind in ('hyper', 'cp'):
            o['HPD', h] = attempt(lambda: S.getHPD(n))[1]
        elif c.kind == 'online':
            o['CHPD', h] = attempt(lambda: S.getCHPD(n))[1]
            o['HPDs', h] = attempt(lambda: S.getHPDs(n))[1]
    if c.kind in ('hyper', 'cp'):
        for h, k in itertools.permutations(c.old_hyper, 2):
            r = attempt(lambda: S.getJHPD([hm(h), hm(k)]))
            o['JHPD', h, k] = r[2] if len(r) == 3 else r
    if c.kind == 'cp':
        for h, k in itertools.permutations(c.point_names(), 2):
            o['DD', h, k] = attempt(lambda: S.getDD([hm(h), hm(k)]))[1]
    if c.kind == 'online':
        for loc in (False, True):
            o['CTMD', loc] = attempt(lambda: S.getCTMD(local=loc)[1])
            o['TMDs', loc] = attempt(lambda: S.getTransitionModelDistributions(local=loc)[1])
    return {k: freeze(v) for k, v in o.items()}


def well_conditioned(c):
    if c.kind == 'online':
        return online_stable(c)()
    if c.kind == 'study':
        return stable_fit(c.s)()
    mask = getattr(c, 'mask', None) if c.kind == 'cp' else None
    return stable_hyper(c.s, False, mask)() and stable_hyper(c.s, True, mask)()


def judge(rng, rec, mon, c, d, what, rtol=1e-9, atol=1e-11, dlog=0., flocal=None, **kw):
    """Executes both cases and compares the results."""
    c.old_names, d.old_names = c.s.om.names, c.s.om.names
    c.old_hyper = d.old_hyper = c.names()
    pn = c.point_names() if c.kind == 'cp' else []
    for x in (c, d):
        x.point_names = lambda: pn
    A, B_ = execute(rng, c), execute(rng, d)
    if not np.isfinite(A.logEvidence):
        raise Skip('impossible data')
    x = results(A, c)
    y = results(B_, d, **kw)
    if flocal is not None:
        y['local'] = np.asarray(y['local']) * flocal
    try:
        rec.close(mon, y['loge'] - dlog, x['loge'], '%s: log-evidence (%s)' % (what, c.describe()), rtol=max(rtol, 1e-10), atol=max(1e-9, atol * 10))
        if c.kind != 'online':
            rec.close(mon, y['local'], x['local'], '%s: local evidence (%s)' % (what, c.describe()), rtol=max(rtol * 10, 1e-8), atol=0)
        same(rec, mon, y, x, '%s (%s)' % (what, c.describe()), rtol=rtol, atol=atol, skip=('loge', 'local'))
    except Violation:
        # rounding differs between the two executions; inputs that amplify it without bound are not judged
        if well_conditioned(c):
            raise
        rec.count('ill_conditioned_input_not_judged')
        return
    rec.count('type_' + c.kind)
    rec.situation(mon, what, c.describe())


KIND = ['study', 'hyper', 'cp', 'online']
SCALED = {'grw': [0], 'alpha': [0], 'det': {'lin': [0], 'quad': [0, 1], 'sin': [0], 'exp': [0]}}


def scale_values(v, f):
    if isinstance(v, (list, tuple)):
        return type(v)(float(x) * f for x in v)
    return v * f


def scaled_spec(spec, a):
    def fn(s):
        k = s['k']
        if k in ('grw', 'alpha', 'det'):
            idx = SCALED[k][s['fn']] if k == 'det' else SCALED[k]
            for j in idx:
                s['v'][j] = scale_values(s['v'][j], a[s['ax']])
        elif k == 'biv':
            for j in (0, 1):
                s['v'][j] = scale_values(s['v'][j], a[j])
        elif k in ('regime', 'noteq'):
            sh = -np.log10(np.prod(a))
            v = s['v'][0]
            if sh:
                s['v'][0] = type(v)(float(x) + sh for x in v) if isinstance(v, (list, tuple)) else v + sh
    return walk(spec, fn)


def at_kernel_edge(spec, grids):
    """Random walk whose kernel would gain or lose an element by rounding errors of the grid spacing."""
    lc = [g[1] - g[0] for g in grids]
    for s in nodes(spec):
        if s['k'] == 'biv':
            z = [np.ravel(s['v'][j]) / lc[j] for j in (0, 1)]
        elif s['k'] == 'grw':
            z = [4 * np.ravel(s['v'][0]) / lc[s['ax']] + 0.5]
        else:
            continue
        if any(np.any(np.abs(x - np.round(x)) < 1e-6) for x in z):
            return True
    return False


def no_value_priors(spec):
    """No hyper-prior refers to the values of a hyper-parameter that has a unit."""
    return not prior_kinds(spec) & {'func', 'sympy'}


@CHECK.gen(160, 3200)
def units(rng, rec, i):
    kind = KIND[i % 4]
    points_ok = kind == 'cp' or chance(rng, 0.2)
    tab = table(rng, nd=2 if points_ok and chance(rng, 0.6) else None)
    nd = len(tab.grids)
    exact = chance(rng, 0.5)
    if points_ok:
        # volume element unchanged
        f = 2. ** int(rng.integers(-30, 31)) if exact else 10. ** rng.uniform(-8, 8)
        a = [f, 1. / f][:nd] + [1.] * (nd - 2) if nd > 1 else [1.]
    else:
        a = [2. ** int(rng.integers(-30, 31)) if exact else 10. ** rng.uniform(-7, 7) for _ in range(nd)]
    b = [0. if chance(rng, 0.5) else g_ * pick(rng, [8., -16., 128.]) * (tab.grids[k][1] - tab.grids[k][0]) for k, g_ in enumerate(a)]

    def ok(sp):
        ks = set(ref.kinds(sp))
        if at_kernel_edge(sp, tab.grids):
            return False
        if not points_ok and ks & {'cp', 'change'}:
            return False
        if not exact and 'noteq' in ks:
            return False
        return no_value_priors(sp) or kind == 'cp' and points_ok and not (prior_kinds(sp) & {'func', 'sympy'} and has_unit_prior(sp))
    c = case(rng, kind, tab, ok, **({'hyper': 0.} if kind == 'online' else {}))
    om2 = Table(tab.names, [np.asarray(g) * x + y for g, x, y in zip(tab.grids, a, b)], tab.tables, tab.prior).om()
    d = twin(c, om2, lambda sp: scaled_spec(sp, a))
    if min(a) < 1e-3:
        rec.count('scale_small')
    if max(a) > 1e3:
        rec.count('scale_large')
    if any(b):
        rec.count('offset')
    if points_ok and set(ref.kinds(c.s.spec)) & {'cp', 'change'} and nd > 1:
        rec.count('volume_kept_with_points')
    judge(rng, rec, 'units', c, d, 'units %s, origin %s' % (['%.3g' % x for x in a], ['%.3g' % x for x in b]), rtol=1e-6, atol=1e-9, a=a, b=b)


def has_unit_prior(sp):
    return any(p is not None and p.kind in ('func', 'sympy') for s in nodes(sp) if s['k'] not in ('cp', 'break', 'change') for p in s.get('pr', []))


# ------------------------------------------------------------------------------------------------- models with units
def builtin(rng, name, est):
    """(maker(a, b), data(a, b), units of the parameters, origins, log-density change per data segment)"""
    B = bl()
    import scipy.stats as st
    T = int(rng.integers(3, 8))
    x = rng.normal(1., 0.7, T)
    m, sd = np.linspace(-1., 3., int(rng.integers(5, 12))), np.linspace(0.3, 2., int(rng.integers(4, 8)))
    co = np.linspace(-0.9, 0.9, 7)
    pr = {} if chance(rng, 0.5) else {'prior': None}
    if name == 'gaussian':
        return (lambda a, b: B.om.Gaussian('mean', None if est else a * m + b, 'std', None if est else a * sd, **pr), lambda a, b: a * x + b, lambda a: [a, a], lambda b: [b, 0.], 1, T)
    if name == 'laplace':
        return (lambda a, b: B.om.Laplace('mean', None if est else a * m + b, 'std', None if est else a * sd, **pr), lambda a, b: a * x + b, lambda a: [a, a], lambda b: [b, 0.], 1, T)
    if name == 'gmean':
        e = rng.uniform(0.3, 1., T)
        return (lambda a, b: B.om.GaussianMean('mean', None if est else a * m + b, **pr), lambda a, b: np.array([a * x + b, a * e]).T, lambda a: [a], lambda b: [b], 1, T)
    if name == 'white':
        return (lambda a, b: B.om.WhiteNoise('std', None if est else a * sd, **pr), lambda a, b: a * x, lambda a: [a], lambda b: [0.], 1, T)
    if name == 'ar1':
        return (lambda a, b: B.om.AR1('rho', None if est else co, 'amp', None if est else a * sd, **pr), lambda a, b: a * x, lambda a: [1., a], lambda b: [0., 0.], 1, T - 1)
    if name == 'sar1':
        return (lambda a, b: B.om.ScaledAR1('rho', None if est else co, 'std', None if est else a * sd, **pr), lambda a, b: a * x, lambda a: [1., a], lambda b: [0., 0.], 1, T - 1)
    if name == 'scipy':
        return (lambda a, b: B.om.SciPy(st.norm, 'loc', a * m + b, 'scale', a * sd, **pr), lambda a, b: a * x + b, lambda a: [a, a], lambda b: [b, 0.], 1, T)
    raise ValueError(name)


@CHECK.gen(120, 2400)
def model_units(rng, rec, i):
    """Built-in models: data and parameters in other units; parameter ranges estimated from the data as well."""
    B = bl()
    name = ['gaussian', 'laplace', 'gmean', 'white', 'ar1', 'sar1', 'scipy'][i % 7]
    est = chance(rng, 0.3) and name not in ('scipy', 'gmean')
    mk, data, ua, ub, per, n = builtin(rng, name, est)
    a, b = float(10. ** rng.uniform(-6, 6)), pick(rng, [0., 0., 5., -30.])
    b = b * a
    if est or name in ('white', 'ar1', 'sar1'):
        b = 0.
    c0 = scenario(rng, om=table(rng, nd=len(ua(1.))).om(), T=max(2, n), spec={'k': 'static'}, missing=0., multidim=False, ts_kinds=('none',))
    res = []
    hyper = chance(rng, 0.4)
    cls = B.HyperStudy if hyper else B.Study
    names = list(mk(1., 0.).parameterNames)
    mode = pick(rng, ['complete', 'complete', 'forward', 'evidence'])
    ax = int(rng.integers(len(names)))
    tmk = pick(rng, ['static', 'grw', 'regime', 'det', 'comb'])
    sg = float(rng.uniform(0.05, 0.6))
    lp = float(rng.uniform(-6., -2.))

    def tm(u):
        v = u[ax] * (np.array([sg, 2 * sg, 3 * sg]) if hyper else sg)
        w = lp - np.log10(np.prod(u)) + (np.array([0., 1.]) if hyper else 0.)
        g = lambda: B.tm.GaussianRandomWalk('s', v, target=names[ax])
        r = lambda: B.tm.RegimeSwitch('p', w)
        return {'static': B.tm.Static, 'grw': g, 'regime': r, 'det': lambda: B.tm.Deterministic(lambda t, s=v / 15.: s * t, target=names[ax]), 'comb': lambda: B.tm.CombinedTransitionModel(g(), r())}[tmk]()

    for x, y in ((1., 0.), (a, b)):
        S = cls(silent=True)
        S.load(data(x, y), silent=True)
        S.set(mk(x, y), tm(ua(x)), silent=True)
        fit_mode(rng, S, mode)
        res.append(S)
    S, W = res
    if not np.isfinite(S.logEvidence):
        raise Skip('impossible')
    if mode == 'complete' and tmk in ('regime', 'comb'):
        # K7 (see unit_dependent_smoothing): only the evidence is comparable
        rec.close('units_model', W.logEvidence + per * n * np.log(a), S.logEvidence, 'log-evidence: %s/%s, unit %.3g' % (name, tmk, a), rtol=1e-8, atol=1e-6)
        return
    what = '%s%s/%s/%s, unit %.3g, origin %.3g' % (name, ' (estimated range)' if est else '', tmk, mode, a, b)
    mon = 'units_estimated' if est else 'units_model'
    rec.close(mon, W.logEvidence + per * n * np.log(a), S.logEvidence, 'log-evidence: ' + what, rtol=1e-8, atol=1e-6)
    if np.all(np.isfinite(S.localEvidence)):        # undefined for likelihoods with zeros
        rec.close(mon, np.array(W.localEvidence) * a ** per, S.localEvidence, 'local evidence: ' + what, rtol=1e-6, atol=0)
    for k, nme in enumerate(names):
        rec.close(mon, (W.marginalGrid[k] - ub(b)[k]) / ua(a)[k], S.marginalGrid[k], 'grid of %s: %s' % (nme, what), rtol=1e-9, atol=1e-9)
        if mode != 'evidence':
            rec.close(mon, W.getPDs(nme, density=False)[1], S.getPDs(nme, density=False)[1], 'distribution of %s: %s' % (nme, what), rtol=1e-6, atol=1e-9)
            rec.close(mon, W.getPDs(nme)[1] * ua(a)[k], S.getPDs(nme)[1], 'density of %s: %s' % (nme, what), rtol=1e-6, atol=1e-8)
            rec.close(mon, (W.getParameterMeanValues(nme) - ub(b)[k]) / ua(a)[k], S.getParameterMeanValues(nme), 'mean of %s: %s' % (nme, what), rtol=1e-6, atol=1e-8)
    if hyper and tmk != 'static':
        for h in {'grw': ['s'], 'regime': ['p'], 'det': ['s'], 'comb': ['s', 'p']}[tmk]:
            rec.close(mon, W.getHPD(h)[1], S.getHPD(h)[1], 'distribution of %s: %s' % (h, what), rtol=1e-6, atol=1e-9)
    if mode != 'evidence' and name in ('gaussian', 'laplace', 'white', 'scipy'):
        xs = np.array([-0.5, 0.4, 1.7])
        rec.close(mon, W.simulate(a * xs + b), S.simulate(xs), 'simulated probabilities: ' + what, rtol=1e-6, atol=1e-9)
        rec.close(mon, W.simulate(a * xs + b, t=1, density=True) * a, S.simulate(xs, t=1, density=True), 'simulated densities: ' + what, rtol=1e-6, atol=1e-9)
    rec.situation('model_units', what)


LABELS = [['avg', 't', 'all'], ['parameter name', 'x y', 'a,b'], ['\u03bb', '\u03c3', '\u00e9'], ['a', 'aa', 'aaa'], ['1', '2', '3'], ['data', 'time', 'value'], ['P', 'S', 'x']]


@CHECK.gen(100, 2000)
def rename(rng, rec, i):
    kind = KIND[i % 4]
    tab = table(rng)
    c = case(rng, kind, tab, lambda sp: 'det' not in ref.kinds(sp))
    pn = dict(zip(tab.names, pick(rng, LABELS)))
    old = c.names()
    new = ['q%d' % k for k in rng.permutation(len(old))] if chance(rng, 0.4) else [pick(rng, ['w', 'h y', '\u03b1', 's_', '0', 'zz']) + 'abcdefghijklmnopqrstuvwxyz'[k] * (1 + k % 3) for k in range(len(old))]
    if len(old) > 1 and chance(rng, 0.3):
        new = old[1:] + old[:1]                 # names change places
    hn = dict(zip(old, new))

    def fn(s):
        if 'n' in s:
            s['n'] = [hn[n] for n in s['n']]
    om2 = Table([pn[n] for n in tab.names], tab.grids, tab.tables, tab.prior).om()
    d = twin(c, om2, lambda sp: walk(sp, fn))
    if kind == 'online':
        d.tm_names = c.tm_names
    judge(rng, rec, 'rename', c, d, 'names %s %s' % (pn, hn), rtol=0, atol=0, pmap=lambda n: pn[n], hmap=lambda n: hn[n])


@CHECK.gen(80, 1600)
def order(rng, rec, i):
    """Parameters listed in another order."""
    kind = KIND[i % 4]
    tab = table(rng, nd=pick(rng, [2, 2, 3]))
    c = case(rng, kind, tab)
    nd = len(tab.grids)
    p = [int(k) for k in rng.permutation(nd)]
    while p == list(range(nd)):
        p = [int(k) for k in rng.permutation(nd)]
    inv = [p.index(k) for k in range(nd)]

    def fn(s):
        if 'ax' in s:
            s['ax'] = inv[s['ax']]
        if s['k'] == 'biv' and p != [0, 1]:
            for k in ('n', 'v', 'pr'):
                s[k] = [s[k][1], s[k][0], s[k][2]]
    om2 = Table([tab.names[k] for k in p], [tab.grids[k] for k in p], [np.transpose(t, p) for t in tab.tables], None if tab.prior is None else np.transpose(tab.prior, p)).om()
    d = twin(c, om2, lambda sp: walk(sp, fn))
    judge(rng, rec, 'order', c, d, 'order of parameters %s' % p, rtol=1e-7, atol=1e-10, perm=inv)


@CHECK.gen(80, 1600)
def time_shift(rng, rec, i):
    kind = KIND[i % 3]
    tab = table(rng)
    c = case(rng, kind, tab, lambda sp: all(s['k'] != 'det' or s['fn'] == 'lin' for s in nodes(sp)) and not (prior_kinds(sp) & {'func', 'sympy'}))
    base = np.arange(c.s.T) if c.s.ts is None else np.asarray(c.s.ts)
    if base.dtype.kind != 'i':
        raise Skip('fractional time stamps')
    det = any(s['k'] == 'det' for s in nodes(c.s.spec))
    sh = int(pick(rng, [1, 7, -3, 1000, 100000 if not det else 300, -2000]))      # increments f(t+1)-f(t) lose digits at large t

    def fn(s):
        if s['k'] in ('cp', 'break', 'change'):
            v = s['v'][0]
            if not isinstance(v, str):
                s['v'][0] = type(v)(x + sh for x in v) if isinstance(v, (list, tuple)) else v + sh
    d = twin(c, None, lambda sp: walk(sp, fn), ts=base + sh, tsf=[t + sh for t in c.s.tsf])
    judge(rng, rec, 'time_shift', c, d, 'time stamps shifted by %d' % sh, rtol=1e-5 if det else 1e-7, atol=1e-8 if det else 1e-10)


@CHECK.gen(120, 2400)
def containers(rng, rec, i):
    """Same values in other containers and data types."""
    kind = KIND[i % 4]
    tab = table(rng)
    c = case(rng, kind, tab)

    def view(g):
        z = np.empty(2 * len(g))
        z[::2] = g
        z[1::2] = -1.
        return z[::2]

    def readonly(g):
        g = np.array(g)
        g.flags.writeable = False
        return g
    gk, gc = pick(rng, [('list', lambda g: [float(x) for x in g]), ('tuple', lambda g: tuple(float(x) for x in g)), ('view', view), ('readonly', readonly), ('same', lambda g: g), ('reversed view', lambda g: np.array(g)[::-1].copy()[::-1])])
    if gk != 'same':
        rec.count('grid_container')
    prior = tab.prior
    if prior is not None and chance(rng, 0.7):
        prior = pick(rng, [np.asfortranarray(prior), readonly(prior), prior * 3.7, np.array(prior)[...]])
        rec.count('prior_container')
    om2 = Table(tab.names, tab.grids, tab.tables, prior, gc).om()

    def fn(s):
        for k, v in enumerate(s.get('v', [])):
            if isinstance(v, str) or chance(rng, 0.3):
                continue
            if np.ndim(v) == 0:
                if s['k'] in ('cp', 'break', 'change'):
                    s['v'][k] = pick(rng, [int, np.int64, np.int32])(v) if float(v) == int(v) else float(v)
                else:
                    s['v'][k] = pick(rng, [float, np.float64])(v)
            else:
                z = np.array(v)
                s['v'][k] = pick(rng, [list, tuple, np.array, readonly, lambda q: np.array([q, q]).T[:, 0]])(z)
            rec.count('hyper_container')
    data = c.s.data
    dk = pick(rng, ['int', 'int32', 'f32', 'list', 'view', 'readonly', 'uint8', 'same'])
    if kind == 'online':
        dk = pick(rng, ['int', 'int32', 'f32', 'same'])
    data = {'int': lambda: data.astype(int), 'int32': lambda: data.astype(np.int32), 'f32': lambda: data.astype(np.float32), 'list': lambda: [x for x in data], 'view': lambda: view(data), 'readonly': lambda: readonly(data),
            'uint8': lambda: data.astype(np.uint8), 'same': lambda: data}[dk]()
    if dk != 'same':
        rec.count('data_dtype')
    ts = c.s.ts
    if ts is not None:
        ts = pick(rng, [list(ts), tuple(ts), np.array(ts), np.asarray(ts)])
    d = twin(c, om2, lambda sp: walk(sp, fn), data=data, ts=ts)
    judge(rng, rec, 'containers', c, d, 'grid %s, data %s' % (gk, dk), rtol=1e-9, atol=1e-12)


@CHECK.gen(120, 2400)
def no_effect(rng, rec, i):
    """Transition model with an additional part that does nothing."""
    kind = KIND[i % 4]
    tab = table(rng)
    c = case(rng, kind, tab)
    ax = int(rng.integers(len(tab.grids)))
    static = {'k': 'static'}
    end = (np.arange(c.s.T) if c.s.ts is None else np.asarray(c.s.ts))[-1]
    opts = ['static', 'zero_walk', 'floor', 'wrap', 'static', 'zero_walk']
    if kind in ('study', 'hyper'):
        opts += ['break', 'point', 'break', 'point']
    if any(s['k'] in ('cp', 'change') for q in (c.specs if kind == 'online' else [c.s.spec]) for s in nodes(q)):
        opts = ['static', 'wrap'] + [o for o in opts if o == 'break']      # other parts normalise the restored prior (known finding K1)
    if kind != 'online' and c.mode == 'complete' and set(ref.kinds(c.s.spec)) & {'regime', 'noteq'}:
        opts = [o for o in opts if o not in ('zero_walk', 'floor')]       # would normalise the message of the backward pass (known finding K7)
    k = pick(rng, opts)

    def add(sp):
        extra = {'static': static, 'zero_walk': pick(rng, [{'k': 'grw', 'n': ['zz'], 'v': [0.], 'pr': [None], 'ax': ax}, {'k': 'det', 'fn': 'lin', 'n': ['zz'], 'v': [0.], 'pr': [None], 'ax': ax}]),
                 'floor': {'k': 'regime', 'n': ['zz'], 'v': [-400.], 'pr': [None]}, 'point': {'k': 'cp', 'n': ['zz'], 'v': [end + int(rng.integers(0, 3))], 'pr': [None]}}.get(k)
        if k == 'wrap':
            return {'k': 'comb', 'm': [sp]}
        if k == 'break':
            if sp['k'] == 'cp':
                sp = {'k': 'comb', 'm': [sp]}
            return {'k': 'serial', 'm': [sp, pick(rng, [static, {'k': 'indep'}])], 'b': [{'k': pick(rng, ['break', 'change']), 'n': ['zz'], 'v': [end + int(rng.integers(0, 3))], 'pr': [None]}]}
        if 'point' == k and any(s['k'] in ('cp', 'break', 'change') and (isinstance(s['v'][0], str) or np.max(s['v'][0]) >= end) for s in nodes(sp)):
            raise Skip('points would coincide')
        return {'k': 'comb', 'm': [sp, extra] if chance(rng, 0.5) else [extra, sp]}
    if k == 'break' and any(s['k'] in ('cp', 'break', 'change') and (isinstance(s['v'][0], str) or np.max(s['v'][0]) >= end) for s in nodes(c.s.spec)):
        raise Skip('points would coincide')
    first = [True]

    def add1(sp):
        if not first[0]:
            return sp
        first[0] = False
        return add(sp)
    d = twin(c)
    d.s.spec = add1(c.s.spec)
    if kind == 'online':
        d.specs = [d.s.spec] + c.specs[1:]
    rec.count('noeff_' + k)
    judge(rng, rec, 'no_effect', c, d, 'with additional %s' % k, rtol=1e-7, atol=1e-10)


@CHECK.gen(1, 4)
def unit_dependent_smoothing(rng, rec, i):
    """K7: the minimal probability of regime-switches is applied to a backward message scaled by the likelihood of the last data point."""
    B = bl()
    x = np.array([0.3, 0.1, -0.2, 4.1, 3.8, 4.2])
    grid = np.linspace(-2., 6., 33)
    pmin = 10. ** -2. * (grid[1] - grid[0])
    out, exp = [], []
    floor = lambda p: np.maximum(p, pmin) / np.sum(np.maximum(p, pmin))
    for a in (1., 1000.):
        lik = lambda data, m: np.exp(-0.5 * ((data - m) / a / 0.3) ** 2.) / (a * 0.3 * np.sqrt(2 * np.pi))
        S = B.Study(silent=True)
        S.load(a * x, silent=True)
        S.set(B.om.NumPy(lik, 'mean', a * grid, prior=None), B.tm.RegimeSwitch('p', -2. - np.log10(a)), silent=True)
        S.fit(silent=True)
        out.append(np.array(S.posteriorSequence))
        L = [lik(a * y, a * grid) for y in x]
        al, be = [np.ones(33) * L[0]], np.ones(33) / 33.
        for l in L[1:]:
            al.append(floor(al[-1] / np.sum(al[-1])) * l)
        post = []
        for k in range(len(x))[::-1]:
            post.insert(0, al[k] * be / np.sum(al[k] * be))
            be = floor(be * L[k])
        exp.append(np.array(post))
    rec.either('smoothing', lambda: rec.close('known_smoothing', out[1], out[0], 'smoothed distributions in other units', rtol=1e-6, atol=1e-9),
               lambda: [rec.close('known_smoothing', o, e, 'smoothed distributions', rtol=1e-6, atol=1e-9) for o, e in zip(out, exp)], 'K7')
