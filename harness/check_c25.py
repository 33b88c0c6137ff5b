"""C25: grids, default parameter ranges and Jeffreys priors."""
import io
from contextlib import redirect_stdout

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C25', 'distinct (helper, model, grid kind, data set kind) combinations whose grid or prior was compared with its definition',
              ['symbolic Jeffreys priors are checked for distributions whose Fisher information SymPy can derive within seconds'])
CHECK.required = ['closed_interval', 'open_interval', 'user_grid', 'large_grid', 'lattice_constant', 'irregular_grid', 'unit_independent', 'range_bernoulli', 'range_poisson', 'range_gaussian', 'range_laplace', 'range_gmean', 'range_white', 'range_ar1', 'range_sar1',
                  'range_missing', 'range_multi', 'range_refused', 'partial_range', 'default_prior', 'prior_finite', 'likelihood_finite', 'symbolic_jeffreys', 'ar_jeffreys', 'ar_jeffreys_time', 'ar_refused', 'jeffreys_fisher', 'type_study', 'type_hyper', 'type_cp', 'type_online',
                  'no_default_range', 'ar_jeffreys_used', 'flat_default', 'grid_order', 'grid_reset']


# ------------------------------------------------------------------------------------------------- intervals
@CHECK.gen(120, 3000)
def intervals(rng, rec, i):
    B = bl()
    k = int(rng.integers(2, 200))
    sc = 10. ** rng.uniform(-9, 9)
    a = float(pick(rng, [0., -1., 1., rng.normal()])) * sc
    b = a + float(rng.uniform(0.1, 5.)) * sc
    if chance(rng, 0.3):
        a, b = int(rng.integers(-20, 20)), int(rng.integers(21, 60))
    c, o = B.cint(a, b, k), B.oint(a, b, k)
    for x in (c, o):
        rec.check('closed_interval' if x is c else 'open_interval', isinstance(x, np.ndarray) and x.shape == (k,) and x.dtype.kind == 'f', lambda: 'type %s shape %s' % (type(x), np.shape(x)))
    tol = 1e-12 * max(abs(a), abs(b))
    rec.close('closed_interval', c, a + (b - a) * np.arange(k) / (k - 1.), 'cint(%r, %r, %d)' % (a, b, k), rtol=1e-12, atol=tol)
    rec.check('closed_interval', c[0] == a and c[-1] == b, lambda: 'cint(%r, %r, %d) does not include its boundaries: %r ... %r' % (a, b, k, c[0], c[-1]))
    rec.close('open_interval', o, a + (b - a) * np.arange(1, k + 1) / (k + 1.), 'oint(%r, %r, %d)' % (a, b, k), rtol=1e-12, atol=tol)
    rec.check('open_interval', a < o[0] and o[-1] < b, lambda: 'oint(%r, %r, %d) touches its boundaries' % (a, b, k))
    rec.close('open_interval', B.oint(a, b, 1), [(a + b) / 2.], 'oint with one value', rtol=1e-12, atol=tol)
    rec.close('closed_interval', B.cint(a, a + 1., 2), [a, a + 1.], 'cint with two values', rtol=1e-12)
    rec.situation('intervals', k, '%.1g' % a, '%.1g' % b)


# ------------------------------------------------------------------------------------------------- user grids
def numpy_om(B, names, grids, prior=None):
    f = gen.arity(lambda data, *p: np.exp(sum(np.sin(data + q / np.max(np.abs(q))) for q in p)), len(names))
    return B.om.NumPy(f, *[x for p in zip(names, grids) for x in p], prior=prior)


@CHECK.gen(160, 4000)
def user_grids(rng, rec, i):
    """The grid given by the user is used as it is; spacing one if irregular, whatever the unit."""
    B = bl()
    kind = ['study', 'hyper', 'cp', 'online'][i % 4]
    nd = pick(rng, [1, 2, 2, 3])
    names = list(pick(rng, gen.NAMES))[:nd]
    grids, lcs = [], []
    unit = 10. ** rng.uniform(-12, 12)
    for k in range(nd):
        n = int(rng.integers(2, 12))
        d = float(rng.uniform(0.01, 3.)) * unit
        r = rng.random()
        a = float(pick(rng, [0., 1., -2., 1e3])) * d
        g = a + d * np.arange(n)
        lc = d
        if r < 0.25 and n > 2:
            # irregular: one value or all values are moved by more than rounding errors
            e = float(pick(rng, [0.5, 0.1, 1e-2, 1e-3, 1e-5]))
            j = int(rng.integers(n))
            g = g.copy()
            g[j] += e * d if j != n - 1 or chance(rng, 0.5) else -e * d
            lc = 1.
            rec.count('irregular_grid')
        elif r < 0.35:
            g = np.linspace(a, a + d * (n - 1), n)
        elif r < 0.45 and unit > 1e-3:
            g = np.arange(1, n + 1)          # integers
            lc = 1.
        elif r < 0.5:
            g = pick(rng, [B.cint, B.oint])(a, a + 4. * d, n)
            lc = g[1] - g[0]
        elif r < 0.6 and nd == 1 and n > 2:
            # many values, any order
            n = int(rng.integers(200, 1500))
            g = a + d * np.arange(n)
            o = pick(rng, ['ascending', 'descending', 'shuffled'])
            if o == 'descending':
                g = g[::-1].copy()
            elif o == 'shuffled':
                g = rng.permutation(g)
                lc = 1.
            rec.count('large_grid')
        elif r < 0.65 and n > 2:
            g = np.geomspace(d, 50. * d, n)
            lc = 1.
            rec.count('irregular_grid')
        grids.append(g)
        lcs.append(lc)
    conv = lambda g: pick(rng, [lambda: np.array(g), lambda: [x for x in g], lambda: tuple(float(x) for x in g)])()
    om = numpy_om(B, names, [conv(g) for g in grids])
    cls = {'study': B.Study, 'hyper': B.HyperStudy, 'cp': B.ChangepointStudy, 'online': B.OnlineStudy}[kind]
    S = cls(storeHistory=True, silent=True) if kind == 'online' else cls(silent=True)
    if chance(rng, 0.3):
        # another grid before
        S.set(numpy_om(B, names, [np.linspace(0, 1, 3 + k) for k in range(nd)]), silent=True)
        rec.count('grid_reset')
    data = rng.normal(size=4) * unit
    if kind == 'online':
        S.set(om, silent=True)
        S.add('a', B.tm.Static())
        for x in data:
            S.step(float(x))
    else:
        S.load(data, silent=True)
        S.set(om, B.tm.ChangePoint('t', [0, 1, 2]) if kind == 'cp' else B.tm.Static(), silent=True)
        S.fit(silent=True)
    rec.check('grid_order', np.shape(S.posteriorSequence)[1:] == tuple(len(g) for g in grids), lambda: 'shape %s for grids of %s values' % (np.shape(S.posteriorSequence), [len(g) for g in grids]))
    for k, (n, g, lc) in enumerate(zip(names, grids, lcs)):
        x, p = S.getPDs(n, density=False)
        y, q = S.getPDs(n)
        rec.check('user_grid', np.array_equal(np.asarray(x, float), np.asarray(g, float)), lambda: 'grid of %s is %s instead of %s' % (n, x, g))
        rec.close('lattice_constant', np.asarray(p), np.asarray(q) * lc, 'ratio of probability and density of %s (grid %s, spacing %r)' % (n, g, lc), rtol=1e-6, atol=1e-300)
        rec.close('user_grid', np.sum(p, axis=1), np.ones(len(p)), 'sum of probabilities', rtol=1e-9)
        rec.count('unit_independent')
    rec.count('type_' + kind)
    rec.situation('grids', kind, nd, '%.0f' % np.log10(unit), [round(float(l / unit), 3) for l in lcs])


# ------------------------------------------------------------------------------------------------- default ranges
def ranges(name, d):
    """Documented default values for each parameter (independent of the library)."""
    x = np.ravel(d)
    x = x[~np.isnan(x)]
    op = lambda a, b, n: a + (b - a) * np.arange(1, n + 1) / (n + 1.)
    cl = lambda a, b, n: a + (b - a) * np.arange(n) / (n - 1.)
    if name == 'bernoulli':
        return [op(0., 1., 1000)]
    if name == 'poisson':
        return [op(0., 1.25 * np.max(x), 1000)]
    m, s = np.mean(x), np.sqrt(np.mean((x - np.mean(x)) ** 2.))
    if name == 'gaussian':
        return [cl(m - 2 * s, m + 2 * s, 200), op(0., 2 * s, 200)]
    if name == 'laplace':
        return [cl(m - 2 * s, m + 2 * s, 200), op(0., np.sqrt(2.) * s, 200)]
    if name == 'gmean':
        y = np.asarray(d)[:, 0]
        y = y[~np.isnan(y)]
        w = np.max(y) - np.min(y)
        return [op(np.min(y) - w, np.max(y) + w, 1000)]
    if name == 'white':
        return [op(0., 2 * s, 1000)]
    if name in ('ar1', 'sar1'):
        return [op(-1., 1., 200), op(0., 2 * s, 200)]
    raise ValueError(name)


MODELS = ['bernoulli', 'poisson', 'gaussian', 'laplace', 'gmean', 'white', 'ar1', 'sar1']


def model(B, name, names, values, **kw):
    cls = {'bernoulli': B.om.Bernoulli, 'poisson': B.om.Poisson, 'gaussian': B.om.Gaussian, 'laplace': B.om.Laplace, 'gmean': B.om.GaussianMean, 'white': B.om.WhiteNoise, 'ar1': B.om.AR1, 'sar1': B.om.ScaledAR1}[name]
    return cls(*[x for p in zip(names, values) for x in p], **kw)


def names_of(rng, name):
    n = 2 if name in ('gaussian', 'laplace', 'ar1', 'sar1') else 1
    return list(pick(rng, gen.NAMES))[:n]


def default_data(rng, name, T):
    sc = 10. ** rng.uniform(-6, 6)
    if name == 'bernoulli':
        return rng.integers(0, 2, T)
    if name == 'poisson':
        x = rng.poisson(10. ** rng.uniform(-1, 3), T)
        x[0] = max(1, x[0])
        return x
    if name == 'gmean':
        return np.array([rng.normal(pick(rng, [0., 3., -8.]), 1., T), rng.uniform(0.1, 1., T)]).T * sc
    return rng.normal(pick(rng, [0., 3., -8.]), 1., T) * sc


@CHECK.gen(160, 3200)
def default_ranges(rng, rec, i):
    B = bl()
    name = MODELS[i % 8]
    kind = pick(rng, ['study', 'study', 'hyper'])
    T = int(rng.integers(3, 9))
    data = default_data(rng, name, T)
    if chance(rng, 0.3):
        data = np.array(data, float)
        k = 1 + int(rng.integers(T - 1))
        if data.ndim == 1:
            data[k] = np.nan
        else:
            data[k, pick(rng, [0, 1])] = np.nan
        rec.count('range_missing')
        if T < 4:
            return
    if name != 'gmean' and chance(rng, 0.25):
        d2 = np.array(default_data(rng, name, T), float)
        if name not in ('bernoulli', 'poisson'):
            d2 = d2 / np.max(np.abs(d2)) * np.nanmax(np.abs(data))
        data = np.array([np.array(data, float), d2]).T
        rec.count('range_multi')
    names = names_of(rng, name)
    want = ranges(name, data)
    values = [None] * len(names)
    if len(names) == 2 and chance(rng, 0.4):
        j = int(rng.integers(2))
        values[j] = want[j] = np.linspace(0.1, 0.9, 5) * (1. if j == 0 and name in ('ar1', 'sar1') else float(np.nanmax(np.abs(data))))
        rec.count('partial_range')
    S = (B.Study if kind == 'study' else B.HyperStudy)(silent=True)
    S.load(data, silent=True)
    om = model(B, name, names, values)
    S.set(om, silent=chance(rng, 0.5))
    for k, n in enumerate(names):
        w = want[k]
        rec.close('range_' + name, S.marginalGrid[k], w, 'default values of %s %s for data %.200r' % (name, n, data.tolist()), rtol=1e-9, atol=1e-9 * float(np.max(np.abs(w))))
    S.set(B.tm.Static(), silent=True)
    S.fit(silent=True)
    rec.check('likelihood_finite', np.isfinite(S.logEvidence) and np.all(np.isfinite(S.posteriorSequence)), lambda: 'log-evidence %r on default range' % S.logEvidence)
    for k, n in enumerate(names):
        x, p = S.getPDs(n)
        rec.close('range_' + name, np.asarray(x), want[k], 'default values of %s' % n, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(want[k]))))
    # range follows the data that are loaded when the model is set
    if chance(rng, 0.3):
        data2 = default_data(rng, name, T)
        S.load(data2, silent=True)
        S.set(model(B, name, names, [None] * len(names)), silent=True)
        for k, w in enumerate(ranges(name, data2)):
            rec.close('range_' + name, S.marginalGrid[k], w, 'default values after reloading', rtol=1e-9, atol=1e-9 * float(np.max(np.abs(w))))
    rec.situation('ranges', name, kind, T, data.ndim, bool(np.isnan(np.array(data, float)).any()))


@CHECK.gen(40, 600)
def no_range(rng, rec, i):
    """Ranges that cannot be derived are refused."""
    B = bl()
    E = B.exceptions.ConfigurationError
    name = MODELS[i % 8]
    names = names_of(rng, name)
    if name != 'bernoulli':
        S = B.Study(silent=True)
        if not (name in ('ar1', 'sar1')):
            rec.raises('range_refused', E, lambda: S.set(model(B, name, names, [None] * len(names)), silent=True), 'no data loaded (%s)' % name)
        v = 0.25 * int(rng.integers(-20, 20)) if name != 'poisson' else 0         # exact mean value
        d = np.full(4, v) if name != 'gmean' else np.array([np.full(4, v), np.ones(4)]).T
        S.load(d, silent=True)
        rec.raises('range_refused', E, lambda: S.set(model(B, name, names, [None] * len(names)), silent=True), 'constant data (%s, %r)' % (name, v))
        S.load(d * np.nan, silent=True)
        rec.raises('range_refused', E, lambda: S.set(model(B, name, names, [None] * len(names)), silent=True), 'all data missing (%s)' % name)
    # models without default ranges
    S = B.Study(silent=True)
    S.load(rng.normal(size=5), silent=True)
    import scipy.stats as st
    for om in (lambda: B.om.NumPy(lambda data, a: np.exp(-(data - a) ** 2.), 'a', None), lambda: B.om.SciPy(st.norm, 'loc', None, 'scale', [1., 2.])):
        def f():
            S.set(om(), silent=True)
        rec.raises('no_default_range', E, f, 'model without default range')


# ------------------------------------------------------------------------------------------------- default priors
def fisher(pdf, x, th, k):
    """Numerical Fisher information (matrix) of a density at parameters th on sample points x with weights."""
    n = len(th)
    G = np.zeros((n, n))
    d = []
    p0 = pdf(x, *th)
    for j in range(n):
        h = 1e-4 * max(abs(th[j]), 1e-2) if k is None else k
        a, b = list(th), list(th)
        a[j] += h
        b[j] -= h
        d.append((np.log(pdf(x, *a)) - np.log(pdf(x, *b))) / (2. * h))
    for r in range(n):
        for c in range(n):
            G[r, c] = np.sum(p0 * d[r] * d[c])
    return G


def jeffreys_numeric(name, th):
    import scipy.stats as st
    if name == 'bernoulli':
        x, w = np.array([0., 1.]), 1.
        pdf = lambda x, p: np.where(x == 1., p, 1. - p)
    elif name == 'poisson':
        x, w = np.arange(0, 400), 1.
        pdf = lambda x, l: np.maximum(st.poisson.pmf(x, l), 1e-300)
    elif name == 'gaussian':
        x = th[0] + th[1] * np.linspace(-12, 12, 40001)
        w = x[1] - x[0]
        pdf = lambda x, m, s: np.maximum(st.norm.pdf(x, m, s), 1e-300)
    elif name == 'white':
        x = th[0] * np.linspace(-12, 12, 40001)
        w = x[1] - x[0]
        pdf = lambda x, s: np.maximum(st.norm.pdf(x, 0., s), 1e-300)
    elif name == 'laplace':
        x = th[0] + th[1] * np.linspace(-40, 40, 80001)
        w = x[1] - x[0]
        pdf = lambda x, m, s: np.maximum(st.laplace.pdf(x, m, s), 1e-300)
    G = fisher(pdf, x, th, None) * w
    return np.sqrt(np.linalg.det(G))


CLOSED = {'bernoulli': lambda m: 1. / np.sqrt(m[0] * (1. - m[0])), 'poisson': lambda m: 1. / np.sqrt(m[0]), 'gaussian': lambda m: 1. / m[1] ** 2., 'white': lambda m: 1. / m[0], 'laplace': lambda m: 1. / m[1] ** 2.}


def observed_prior(rng, B, om, first, rest, kind):
    """Prior as it is used: distribution after a missing first data point."""
    data = np.concatenate([first, rest]) if np.ndim(rest) == 1 else np.vstack([first, rest])
    if kind == 'online':
        S = B.OnlineStudy(storeHistory=True, silent=True)
        S.set(om, B.tm.Static(), silent=True)
        for x in data[:2]:
            S.step(x if np.ndim(x) else float(x))
        return S, np.array(S.posteriorSequence[0])
    S = {'study': B.Study, 'hyper': B.HyperStudy}[kind](silent=True)
    S.load(data, silent=True)
    S.set(om, B.tm.Static(), silent=True)
    S.fit(forwardOnly=True, silent=True)
    return S, np.array(S.posteriorSequence[0])


@CHECK.gen(120, 2400)
def default_priors(rng, rec, i):
    B = bl()
    name = MODELS[i % 8]
    kind = pick(rng, ['study', 'hyper', 'online'])
    names = names_of(rng, name)
    T = int(rng.integers(3, 6))
    rest = np.array(default_data(rng, name, T), float)
    if name == 'gmean':
        rest[:, 0] /= np.max(np.abs(rest))
        rest[:, 1] = 0.5
    elif name != 'bernoulli':
        rest = np.round(np.abs(rest) / np.max(np.abs(rest)) * 9.) if name == 'poisson' else rest / np.max(np.abs(rest))
    own = chance(rng, 0.6) or kind == 'online'
    sc = {'bernoulli': [np.linspace(0.05, 0.95, int(rng.integers(3, 30)))], 'poisson': [np.linspace(0.1, 12., int(rng.integers(3, 30)))], 'gmean': [np.linspace(-2, 2, int(rng.integers(3, 30)))], 'white': [np.linspace(0.1, 3, int(rng.integers(3, 30)))]}
    values = sc[name] if name in sc else [np.linspace(-0.9, 0.9, int(rng.integers(3, 9))), np.linspace(0.1, 3., int(rng.integers(3, 9)))]
    if not own:
        values = [None] * len(names)
    first = np.array([np.nan]) if name != 'gmean' else np.array([[np.nan, 0.5]])
    S, p = observed_prior(rng, B, model(B, name, names, values), first, rest, kind)
    grids = [np.array(g) for g in S.marginalGrid]
    m = np.meshgrid(*grids, indexing='ij')
    rec.check('prior_finite', np.all(np.isfinite(p)) and np.min(p) >= 0. and np.sum(p) > 0., lambda: 'default prior of %s is not finite' % name)
    if name in ('gmean', 'ar1', 'sar1'):
        rec.close('flat_default', p, np.full(p.shape, 1. / p.size), 'default prior of %s' % name, rtol=1e-9)
    else:
        w = CLOSED[name](m)
        rec.close('default_prior', p, w / np.sum(w), 'default prior of %s' % name, rtol=1e-8)
        # definition: square root of the determinant of the Fisher information
        if own and i % 3 == 0:
            pts = [tuple(int(rng.integers(n)) for n in p.shape) for _ in range(2)]
            j = [jeffreys_numeric(name, [float(x[q]) for x in m]) for q in pts]
            if name == 'poisson' and max(float(m[0][q]) for q in pts) > 60:
                return
            rec.close('jeffreys_fisher', p[pts[0]] / p[pts[1]], j[0] / j[1], 'ratio of prior probabilities of %s at %s' % (name, pts), rtol=2e-2)
    # prior=None is flat for every model
    S, q = observed_prior(rng, B, model(B, name, names, values if own else grids, prior=None), first, rest, kind)
    rec.close('flat_default', q, np.full(q.shape, 1. / q.size), 'prior=None of %s' % name, rtol=1e-9)
    rec.situation('priors', name, kind, own, p.shape)


# ------------------------------------------------------------------------------------------------- symbolic Jeffreys priors
def symbolic(rng, k):
    import sympy
    from sympy import stats as st
    import uuid
    a = sympy.Symbol(pick(rng, ['a', 'rate', 'sigma', 'lam']), positive=True)
    b = sympy.Symbol('b', positive=True)
    m = sympy.Symbol(pick(rng, ['m', 'mu', 'loc']), real=True)
    c = sympy.Rational(int(rng.integers(1, 9)), int(rng.integers(1, 5)))
    q = int(rng.integers(2, 6))
    cf = float(c)
    A, M = str(a), str(m)
    return [('Exponential', lambda: st.Exponential('x', a), lambda v: 1. / v[A], [a]),
            ('Normal, both', lambda: st.Normal('x', m, a), lambda v: np.sqrt(2.) / v[A] ** 2., [m, a]),
            ('Normal, std', lambda: st.Normal('x', c, a), lambda v: np.sqrt(2.) / v[A], [a]),
            ('Normal, mean', lambda: st.Normal('x', m, c), lambda v: 1. / cf, [m]),
            ('Laplace, scale', lambda: st.Laplace('x', 0, a), lambda v: 1. / v[A], [a]),
            ('Gamma, scale', lambda: st.Gamma('x', q, a), lambda v: np.sqrt(q) / v[A], [a]),
            ('Rayleigh', lambda: st.Rayleigh('x', a), lambda v: 2. / v[A], [a]),
            ('Pareto, exponent', lambda: st.Pareto('x', 1, a), lambda v: 1. / v[A], [a]),
            ('Maxwell', lambda: st.Maxwell('x', a), lambda v: np.sqrt(6.) / v[A], [a]),
            ('Weibull, scale', lambda: st.Weibull('x', a, q), lambda v: q / v[A], [a]),
            ('Nakagami, spread', lambda: st.Nakagami('x', q, a), lambda v: np.sqrt(q) / v[A], [a]),
            ('Poisson', lambda: st.Poisson('x', a), lambda v: 1. / np.sqrt(v[A]), [a]),
            ('Normal, mean depends on both', lambda: st.Normal('x', m + c * a, a), lambda v: np.sqrt(2.) / v[A] ** 2., [m, a]),
            ('Normal, mean in units of std', lambda: st.Normal('x', m * a, a), lambda v: np.sqrt(2.) / v[A], [m, a]),
            ('Normal, relative std', lambda: st.Normal('x', b, a * b), lambda v: np.sqrt(2.) / (v[A] ** 2. * v['b']), [b, a]),
            ('Normal, squared std', lambda: st.Normal('x', c, a ** 2), lambda v: 2. * np.sqrt(2.) / v[A], [a]),
            ('Exponential, squared rate', lambda: st.Exponential('x', a ** 2), lambda v: 2. / v[A], [a]),
            ('Poisson, squared rate', lambda: st.Poisson('x', a ** 2), lambda v: 2., [a])][k]


NSYM = 18
CHECK.unscaled = ['symbolic_jeffreys']


@CHECK.gen(36, 108)
def symbolic_jeffreys(rng, rec, i):
    B = bl()
    name, rv, want, syms = symbolic(rng, i % NSYM)
    sym, fn = B.getJeffreysPrior(rv())
    for _ in range(4):
        v = {str(s): float(rng.uniform(0.2, 5.)) for s in syms}
        w = want(v)
        got = complex(sym.subs({s: v[str(s)] for s in syms}).evalf())
        rec.close('symbolic_jeffreys', got.real, w, 'symbolic Jeffreys prior of %s: %s' % (name, sym), rtol=1e-9)
        rec.close('symbolic_jeffreys', float(fn(**v)), w, 'numerical Jeffreys prior of %s: %s' % (name, sym), rtol=1e-9)
    arr = np.linspace(0.5, 3., 7)
    got = np.asarray(fn(**{str(s): arr for s in syms}), float) * np.ones(7)
    rec.close('symbolic_jeffreys', got, np.array([want({str(s): x for s in syms}) for x in arr]) * np.ones(7), 'Jeffreys prior of %s on a grid' % name, rtol=1e-9)
    if len(syms) == 1 and i % 2 == 0 and not name.startswith('Poisson'):
        # used as prior of an analysis
        g = np.linspace(0.3, 4., 9)
        om = B.om.SymPy(rv(), str(syms[0]), g, prior=fn, determineJeffreysPrior=False)
        S, p = observed_prior(rng, B, om, np.array([np.nan]), np.array([1.2, 1.5]), 'study')
        w = want({str(syms[0]): g}) * np.ones(9)
        rec.close('symbolic_jeffreys', p, w / np.sum(w), 'Jeffreys prior of %s in a study' % name, rtol=1e-8)
    if i % NSYM in (1, 3):
        import sympy
        from sympy import stats as st
        m, b = sympy.symbols('m b', real=True)
        rec.raises('no_jeffreys', Exception, lambda: B.getJeffreysPrior(st.Normal('x', m + b, 1)), 'Jeffreys prior of two parameters that cannot be told apart')
    rec.situation('symbolic', name)


@CHECK.gen(2, 4)
def sympy_model(rng, rec, i):
    """K4: SymPy observation model announces the Jeffreys prior, but uses a flat prior."""
    import sympy
    from sympy import stats as st
    B = bl()
    s = sympy.Symbol('s', positive=True)
    g = np.linspace(0.3, 4., 9)
    out = io.StringIO()
    with redirect_stdout(out):
        om = B.om.SymPy(st.Normal('x', 0, s), 's', g) if i % 2 == 0 else B.om.SymPy(st.Exponential('x', s), 's', g)
    S, p = observed_prior(rng, B, om, np.array([np.nan]), np.array([1.2, 1.5]), 'study')
    rec.either('sympy', lambda: rec.close('known_sympy_jeffreys', p, (1. / g) / np.sum(1. / g), 'prior of SymPy model', rtol=1e-8),
               lambda: rec.close('known_sympy_jeffreys', p, np.full(9, 1. / 9.), 'prior of SymPy model', rtol=1e-8), 'K4')
    om = B.om.SymPy(st.Normal('x', 0, s), 's', g, determineJeffreysPrior=False)
    S, p = observed_prior(rng, B, om, np.array([np.nan]), np.array([1.2, 1.5]), 'study')
    rec.close('flat_default', p, np.full(9, 1. / 9.), 'prior of SymPy model without Jeffreys prior', rtol=1e-8)


# ------------------------------------------------------------------------------------------------- autoregressive process
def ar_cov(r, s, n):
    k = np.arange(n)
    return s ** 2. / (1. - r ** 2.) * r ** np.abs(k[:, None] - k)


def ar_jeffreys_numeric(r, s, n, scaled):
    """Square root of the determinant of the Fisher information of the stationary process of n points (Gaussian process)."""
    f = (lambda a, b: ar_cov(a, b * np.sqrt(1. - a ** 2.), n)) if scaled else (lambda a, b: ar_cov(a, b, n))
    h = 1e-5
    I = np.linalg.inv(f(r, s))
    D = [(f(r + h, s) - f(r - h, s)) / (2 * h), (f(r, s * (1 + h)) - f(r, s * (1 - h))) / (2 * h * s)]
    G = np.array([[0.5 * np.trace(I.dot(a).dot(I).dot(b)) for b in D] for a in D])
    return np.sqrt(np.linalg.det(G))


@CHECK.gen(60, 1200)
def ar_jeffreys(rng, rec, i):
    B = bl()
    scaled = i % 2 == 1
    T = int(rng.integers(2, 9))
    sc = 10. ** rng.uniform(-2, 2)
    data = rng.normal(size=T) * sc
    data[0] = abs(data[0]) * 0.5 + 0.1 * sc
    r = np.linspace(-0.9, 0.9, int(rng.integers(3, 7))) + 0.03
    s = np.linspace(0.4, 2.5, int(rng.integers(3, 7))) * sc
    names = list(pick(rng, gen.NAMES))[:2]
    S = B.Study(silent=True)
    S.load(data, silent=True)
    om = (B.om.ScaledAR1 if scaled else B.om.AR1)(names[0], r, names[1], s)
    S.set(om, B.tm.Static(), silent=True)
    p = np.asarray(B.computeJeffreysPriorAR1(S))
    rec.check('ar_jeffreys', p.shape == (len(r), len(s)) and np.all(np.isfinite(p)) and np.min(p) >= 0., 'prior for autoregressive process is not proper')
    rec.close('ar_jeffreys', np.sum(p), 1., 'normalisation of prior', rtol=1e-9)
    w = np.empty(p.shape)
    for a in range(len(r)):
        for b in range(len(s)):
            sd = s[b] if scaled else s[b] / np.sqrt(1. - r[a] ** 2.)           # standard deviation of the first data point
            w[a, b] = ar_jeffreys_numeric(r[a], s[b], T, scaled) * np.exp(-0.5 * data[0] ** 2. / sd ** 2.) / sd
    rec.close('ar_jeffreys', p, w / np.sum(w), 'Jeffreys prior times probability of the first data point (%s, %d data points)' % ('ScaledAR1' if scaled else 'AR1', T), rtol=1e-5)
    # other time step than the first one
    t = int(rng.integers(1, T + 1))
    pt = np.asarray(B.computeJeffreysPriorAR1(S, t=t) if chance(rng, 0.5) else B.computeJeffreysPriorAR1(S, t))
    wt = np.empty(p.shape)
    for a in range(len(r)):
        for b in range(len(s)):
            sd = s[b] if scaled else s[b] / np.sqrt(1. - r[a] ** 2.)
            wt[a, b] = ar_jeffreys_numeric(r[a], s[b], T, scaled) * np.exp(-0.5 * data[t - 1] ** 2. / sd ** 2.) / sd
    rec.close('ar_jeffreys_time', pt, wt / np.sum(wt), 'Jeffreys prior times probability of data point %d' % t, rtol=1e-5)
    # used as a prior
    S.set((B.om.ScaledAR1 if scaled else B.om.AR1)(names[0], r, names[1], s, prior=p), silent=True)
    S.fit(silent=True)
    import scipy.stats as st
    L = np.empty(p.shape)
    for a in range(len(r)):
        for b in range(len(s)):
            sd = s[b] * (np.sqrt(1. - r[a] ** 2.) if scaled else 1.)
            L[a, b] = np.sum(st.norm.logpdf(data[1:], r[a] * data[:-1], sd))
    q = w / np.sum(w) * np.exp(L - np.max(L))
    rec.close('ar_jeffreys_used', S.posteriorSequence[-1], q / np.sum(q), 'posterior with Jeffreys prior', rtol=1e-5, atol=1e-12)
    # not available
    E = B.exceptions.ConfigurationError
    W = B.Study(silent=True)
    W.load(data, silent=True)
    W.set(B.om.Gaussian('m', r, 's', s), silent=True)
    rec.raises('ar_refused', E, lambda: B.computeJeffreysPriorAR1(W), 'other observation model')
    W.set((B.om.ScaledAR1 if scaled else B.om.AR1)('r', pick(rng, [np.linspace(-1, 1, 5), np.linspace(-0.5, 1.5, 5), np.linspace(-1.5, 0.5, 5), np.linspace(-1., 0.9, 5), np.linspace(-0.9, 1., 4)]), 's', s), silent=True)
    rec.raises('ar_refused', E, lambda: B.computeJeffreysPriorAR1(W), 'non-stationary process')
    V = B.Study(silent=True)
    V.set((B.om.ScaledAR1 if scaled else B.om.AR1)('r', r, 's', s), silent=True)
    rec.raises('ar_refused', E, lambda: B.computeJeffreysPriorAR1(V), 'no data')
    rec.situation('ar', scaled, T, len(r), len(s))
