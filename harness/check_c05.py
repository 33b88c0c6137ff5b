"""C05: observation models compute their documented likelihood."""
import itertools

import numpy as np
from scipy import stats

import gen
import ref
from engine import Check
from gen import pick, chance

CHECK = Check('C05', 'distinct (observation model, parameters and order, grid shape, data representation, number of observations per step) '
              'combinations whose likelihood was read off a fit',
              ['scipy.stats densities are right', 'the likelihood is observed as distribution x local evidence of fits with independent time steps'])
CHECK.required = ['likelihood', 'likelihood_builtin', 'likelihood_scipy', 'likelihood_sympy', 'likelihood_numpy', 'product', 'dtype', 'extreme',
                  'order_of_parameters', 'names', 'narrow', 'outside']


def grid(rng, lo, hi, n=None, closed=None):
    B = gen.bl()
    n = n or int(rng.integers(2, 30))
    closed = chance(rng, 0.4) if closed is None else closed
    r = rng.random()
    if r < 0.12 and n > 3:
        return np.sort(lo + (hi - lo) * (0.02 + 0.96 * rng.random(n)))
    return B.cint(lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo), n) if closed else B.oint(lo, hi, n)


def user(rng, g):
    return gen.as_user_type(rng, g)


def observe(rng, om, data, seg=1, method=None):
    """Likelihood of every time step on the grid, observed through a fit with a flat prior."""
    B = gen.bl()
    method = method or pick(rng, ['independent', 'independent', 'single', 'online'])
    n = len(data) - seg + 1
    if method == 'independent':
        S = B.Study(silent=True)
        S.load(data, silent=True)
        S.set(om, B.tm.Independent(), silent=True)
        S.fit(forwardOnly=True, silent=True)
        if not np.isfinite(S.logEvidence):
            return None, S
        size = np.prod(S.gridSize)
        return [np.array(p) * l * size for p, l in zip(S.posteriorSequence, S.localEvidence)], S
    out = []
    for k in range(n):
        seg_data = data[k:k + seg]
        if method == 'single':
            S = B.Study(silent=True)
            S.load(seg_data, silent=True)
            S.set(om, B.tm.Static(), silent=True)
            S.fit(silent=True)
            p = S.posteriorSequence[0] if np.isfinite(S.logEvidence) else 0.
        else:
            S = B.OnlineStudy(storeHistory=True, silent=True)
            S.set(om, B.tm.Static(), silent=True)
            for x in seg_data:
                S.step(np.array(x) if np.ndim(x) else x)
            p = S.posteriorSequence[0] if np.isfinite(S.logEvidence) else 0.
        out.append(np.array(p) * np.exp(S.logEvidence) * np.prod(S.gridSize) * np.ones(S.gridSize))
    return out, S


def compare(rec, mon, obs, want, msg, rtol=1e-8):
    for k, (o, w) in enumerate(zip(obs, want)):
        w = np.asarray(w, float) * np.ones(np.shape(o))
        m = np.max(w) if np.size(w) else 0.
        rec.close(mon, o, w, 'likelihood of observation %d, %s' % (k, msg), rtol=rtol, atol=max(m * 1e-14, 1e-300))
        rec.count('likelihood')


def mesh(*g):
    return np.meshgrid(*[np.asarray(x, float) for x in g], indexing='ij')


def convert(rng, data, integral, rec=None):
    """Same data in another representation."""
    data = np.asarray(data)
    r = rng.random()
    if integral and r < 0.2:
        return data.astype(pick(rng, [np.int32, np.int16, np.int64, np.uint16 if data.min() >= 0 else np.int64])), 'int'
    if r < 0.4:
        return data.tolist(), 'list'
    if integral and r < 0.6:
        return data.astype(float), 'float'
    if integral and r < 0.7:
        return data.astype(np.float32), 'float32'
    return data, str(data.dtype)


# ------------------------------------------------------------------------------------------------- built-in models
def builtin(rng, kind):
    """-> (library object, names, grids, likelihood(segment, *mesh), data, seg, integral)"""
    B = gen.bl()
    sc = 10. ** rng.uniform(-4, 4) if chance(rng, 0.4) else 1.
    n = int(rng.integers(2, 7))
    nm = pick(rng, gen.NAMES)
    if kind == 'bernoulli':
        g = [B.cint(0, 1, int(rng.integers(2, 30))) if chance(rng, 0.3) else grid(rng, 0, 1)]
        if chance(rng, 0.2):
            g = [grid(rng, -rng.random(), 1 + rng.random())]      # no observation is possible outside of [0, 1]
        return B.om.Bernoulli(nm[0], user(rng, g[0]), prior=None), g, lambda s, p: np.where((p >= 0) & (p <= 1), p if s[0] else 1. - p, 0.), \
            rng.integers(0, 2, n), 1, True
    if kind == 'poisson':
        hi = pick(rng, [1., 6., 40., 300., 5e3])
        g = [B.cint(0, hi, int(rng.integers(2, 30))) if chance(rng, 0.3) else grid(rng, 0, hi)]
        d = rng.poisson(pick(rng, list(g[0][1:])), n)
        if chance(rng, 0.3):
            d[0] = 0
        return B.om.Poisson(nm[0], user(rng, g[0]), prior=None), g, lambda s, l: stats.poisson.pmf(s[0], l), d, 1, True
    if kind in ('gaussian', 'laplace'):
        m = sc * rng.uniform(-5, 5)
        g = [grid(rng, m - 3 * sc, m + 3 * sc), grid(rng, 0.05 * sc, 3 * sc)]
        f = stats.norm.pdf if kind == 'gaussian' else stats.laplace.pdf
        cls = B.om.Gaussian if kind == 'gaussian' else B.om.Laplace
        return cls(nm[0], user(rng, g[0]), nm[1], user(rng, g[1]), prior=None), g, lambda s, a, b: f(s[0], a, b), \
            m + 2 * sc * rng.standard_normal(n), 1, False
    if kind == 'white':
        g = [grid(rng, 0., 3 * sc, closed=False)]
        return B.om.WhiteNoise(nm[0], user(rng, g[0]), prior=None), g, lambda s, b: stats.norm.pdf(s[0], 0., b), \
            sc * rng.standard_normal(n), 1, False
    if kind == 'gmean':
        g = [grid(rng, -4 * sc, 5 * sc)]
        d = np.array([sc * rng.standard_normal(n), sc * (0.05 + 2 * rng.random(n))]).T
        return B.om.GaussianMean(nm[0], user(rng, g[0])), g, lambda s, a: stats.norm.pdf(s[0][0], a, s[0][1]), d, 1, False
    if kind in ('ar1', 'sar1'):
        g = [grid(rng, -1., 1., closed=False), grid(rng, 0., 3 * sc, closed=False)]
        cls = B.om.AR1 if kind == 'ar1' else B.om.ScaledAR1
        if kind == 'ar1':
            f = lambda s, r, a: stats.norm.pdf(s[1], r * s[0], a)
        else:
            f = lambda s, r, a: stats.norm.pdf(s[1], r * s[0], a * np.sqrt(1. - r ** 2))
        return cls(nm[0], user(rng, g[0]), nm[1], user(rng, g[1])), g, f, sc * rng.standard_normal(n + 1), 2, False
    raise ValueError(kind)


BUILTIN = ['bernoulli', 'poisson', 'gaussian', 'laplace', 'white', 'gmean', 'ar1', 'sar1']


@CHECK.gen(500, 9000)
def builtin_models(rng, rec, i):
    kind = BUILTIN[i % len(BUILTIN)]
    om, g, f, data, seg, integral = builtin(rng, kind)
    if not integral and chance(rng, 0.2) and kind != 'gmean':
        data = np.round(data)
        integral = True
    data = np.asarray(data)
    M = mesh(*g)
    if kind == 'bernoulli' and chance(rng, 0.3):
        d, how = data.astype(bool), 'bool'
    else:
        d, how = convert(rng, data, integral)
    dims = 1
    want = [f(data[k:k + seg], *M) for k in range(len(data) - seg + 1)]
    if kind != 'gmean' and chance(rng, 0.3):
        # several independent observations per time step
        dims = int(rng.integers(2, 5)) if chance(rng, 0.8) else int(rng.integers(5, 70))
        cols = [data] + [data[rng.permutation(len(data))] for _ in range(dims - 1)]
        if kind in ('bernoulli', 'poisson'):
            cols = [data] + [np.clip(c, 0, None) for c in cols[1:]]
        d = np.array(cols).T
        want = [np.prod([f(c[k:k + seg], *M) for c in cols], axis=0) for k in range(len(data) - seg + 1)]
        how = 'columns%d' % dims
        if chance(rng, 0.3):
            d = d.tolist()
            how += 'list'
    if any(not np.max(w) > 1e-290 for w in want):
        return
    obs, S = observe(rng, om, d, seg, 'independent' if dims > 1 or how == 'list' and chance(rng, 0.5) else None)
    rec.check('names', list(S.observationModel.parameterNames) == list(om.parameterNames), 'parameter names')
    compare(rec, 'product' if dims > 1 else 'likelihood_builtin', obs, want, '%s %s' % (kind, how))
    if how != str(data.dtype):
        rec.count('dtype')
    rec.situation(kind, [len(x) for x in g], how, len(data))


# ------------------------------------------------------------------------------------------------- extreme values
@CHECK.gen(160, 2500)
def extreme(rng, rec, i):
    """Likelihood neither over- nor underflows where its logarithm is moderate."""
    B = gen.bl()
    k = ['poisson', 'gaussian', 'laplace', 'white', 'gmean', 'ar1', 'sar1', 'bernoulli'][i % 8]
    sc = 10. ** pick(rng, [-100., -30., -8., 6., 8., 12., 30., 100.])
    n = int(rng.integers(3, 20))
    if k == 'poisson':
        c = int(10. ** rng.uniform(2, 7))
        g = [np.linspace(c - 4. * np.sqrt(c), c + 4. * np.sqrt(c), n)]
        if chance(rng, 0.3):
            g = [np.linspace(0.001, 0.01, n)]
            c = int(rng.integers(0, 20))
        om, d, seg = B.om.Poisson('l', g[0], prior=None), np.array([c, c + int(np.sqrt(c))]), 1
        f = lambda s, l: stats.poisson.pmf(s[0], l)
    elif k in ('gaussian', 'laplace'):
        g = [sc * np.linspace(-1, 2, n), sc * np.linspace(0.1, 2, n)]
        om, d, seg = (B.om.Gaussian if k == 'gaussian' else B.om.Laplace)('m', g[0], 's', g[1], prior=None), sc * rng.standard_normal(3), 1
        h = stats.norm.pdf if k == 'gaussian' else stats.laplace.pdf
        f = lambda s, a, b: h(s[0], a, b)
    elif k == 'white':
        g = [sc * np.linspace(0.1, 2, n)]
        om, d, seg = B.om.WhiteNoise('s', g[0], prior=None), sc * rng.standard_normal(3), 1
        f = lambda s, b: stats.norm.pdf(s[0], 0, b)
    elif k == 'gmean':
        g = [sc * np.linspace(-1, 2, n)]
        om, d, seg = B.om.GaussianMean('m', g[0]), sc * np.array([rng.standard_normal(3), 0.5 + rng.random(3)]).T, 1
        f = lambda s, a: stats.norm.pdf(s[0][0], a, s[0][1])
    elif k in ('ar1', 'sar1'):
        g = [np.linspace(-0.999, 0.999, n), sc * np.linspace(0.1, 2, n)]
        om, d, seg = (B.om.AR1 if k == 'ar1' else B.om.ScaledAR1)('r', g[0], 's', g[1]), sc * rng.standard_normal(4), 2
        f = (lambda s, r, a: stats.norm.pdf(s[1], r * s[0], a)) if k == 'ar1' else \
            (lambda s, r, a: stats.norm.pdf(s[1], r * s[0], a * np.sqrt(1 - r ** 2)))
    else:
        g = [np.linspace(1e-9, 1e-6, n) if chance(rng, 0.5) else 1. - np.linspace(1e-6, 1e-9, n)]
        om, d, seg = B.om.Bernoulli('p', g[0], prior=None), np.array([0, 1, 1]), 1
        f = lambda s, p: p if s[0] else 1. - p
    M = mesh(*g)
    want = [f(d[j:j + seg], *M) for j in range(len(d) - seg + 1)]
    if any(not 1e-250 < np.max(w) < 1e250 for w in want):
        return
    obs, S = observe(rng, om, d, seg, pick(rng, ['single', 'independent']))
    compare(rec, 'extreme', obs, want, '%s scale %g' % (k, sc), rtol=1e-6 if k == 'poisson' else 1e-8)
    rec.situation('extreme', k, sc, n)


# ------------------------------------------------------------------------------------------------- SciPy models
def scipy_cases(rng):
    u = rng.uniform
    return [
        (stats.norm, dict(loc=(-3, 3), scale=(0.2, 3)), lambda: u(-4, 4)),
        (stats.laplace, dict(loc=(-3, 3), scale=(0.2, 3)), lambda: u(-4, 4)),
        (stats.expon, dict(loc=(-1, 0), scale=(0.2, 3)), lambda: u(0.1, 4)),
        (stats.gamma, dict(a=(0.5, 4), loc=(-1, 0), scale=(0.3, 3)), lambda: u(0.1, 5)),
        (stats.beta, dict(a=(0.5, 4), b=(0.5, 4), loc=(-0.1, 0.), scale=(1., 1.5)), lambda: u(0.05, 0.85)),
        (stats.t, dict(df=(1, 10), loc=(-1, 1), scale=(0.5, 2)), lambda: u(-3, 3)),
        (stats.poisson, dict(mu=(0.1, 8), loc=None), lambda: int(rng.integers(0, 12))),
        (stats.binom, dict(n=None, p=(0.05, 0.95), loc=None), lambda: int(rng.integers(0, 8))),
        (stats.geom, dict(p=(0.05, 0.95), loc=None), lambda: int(rng.integers(1, 9))),
        (stats.nbinom, dict(n=(0.5, 6), p=(0.1, 0.9), loc=None), lambda: int(rng.integers(0, 9))),
    ]


FIXED = {'n': 9, 'loc': 0., 'scale': 1.3, 'a': 1.7, 'b': 2.1, 'df': 4., 'p': 0.4, 'mu': 2.}


@CHECK.gen(300, 5000)
def scipy_models(rng, rec, i):
    B = gen.bl()
    rv, params, draw = scipy_cases(rng)[i % 10]
    names = list(params)
    free = [k for k in names if params[k] is not None and chance(rng, 0.6)][:3]
    if not free:
        free = [pick(rng, [k for k in names if params[k] is not None])]
    free = [free[k] for k in rng.permutation(len(free))]
    rest = [k for k in names if k not in free]
    fixed = {k: FIXED[k] for k in rest if k not in ('loc', 'scale') or chance(rng, 0.6)}
    fixed = {k: fixed[k] for k in [list(fixed)[j] for j in rng.permutation(len(fixed))]}
    g = [grid(rng, params[k][0], params[k][1], int(rng.integers(2, 12))) for k in free]
    args = [x for k, v in zip(free, g) for x in (k, user(rng, v))]
    kw = {'fixedParameters': fixed} if fixed or chance(rng, 0.3) else {}
    om = B.om.SciPy(rv, *args, **kw)
    if chance(rng, 0.15):
        om = B.om.SciPy(rv, dict(zip(free, g)), **kw)          # deprecated form
    n = int(rng.integers(1, 4))
    dims = pick(rng, [1, 1, 2])
    data = np.array([[draw() for _ in range(dims)] for _ in range(n)])
    M = mesh(*g)
    pd = dict(zip(free, M))
    pd.update(fixed)
    dens = (lambda x: rv.pdf(x, **pd)) if hasattr(rv, 'pdf') else (lambda x: rv.pmf(x, **pd))
    want = [np.prod([dens(x) for x in row], axis=0) for row in data]
    if any(not np.max(w) > 0 for w in want):
        return
    obs, S = observe(rng, om, data if dims > 1 else data[:, 0], 1, 'independent' if dims > 1 else None)
    rec.check('names', list(S.observationModel.parameterNames) == free, lambda: 'names %s' % (S.observationModel.parameterNames,))
    compare(rec, 'likelihood_scipy', obs, want, '%s %s fixed %s' % (rv.name, free, fixed))
    for k, v in zip(free, g):
        x, p = S.getPDs(k, density=False)
        rec.close('order_of_parameters', x, v, 'values of parameter ' + k, rtol=1e-12, atol=1e-300)
    rec.situation(rv.name, free, sorted(fixed), dims)


@CHECK.gen(60, 1000)
def outside_support(rng, rec, i):
    """Observations outside of the support of a distribution are impossible for the parameter values in question."""
    B = gen.bl()
    u = rng.uniform
    o = i % 8
    half = lambda: int(rng.integers(0, 6)) + pick(rng, [0.5, 0.25, 0.9, 0.1, 1e-3])
    rv, free, fixed, x = [(stats.poisson, {'mu': (0.3, 8)}, {}, half), (stats.binom, {'p': (0.1, 0.9)}, {'n': 4}, half),
                          (stats.binom, {'p': (0.1, 0.9)}, {'n': 4}, lambda: int(rng.integers(5, 9))),
                          (stats.geom, {'p': (0.1, 0.9)}, {}, lambda: pick(rng, [0, -1, 1.5])),
                          (stats.expon, {'scale': (0.3, 2)}, {}, lambda: -u(1e-6, 2)),
                          (stats.gamma, {'a': (0.5, 3), 'scale': (0.4, 2)}, {}, lambda: -u(1e-6, 2)),
                          (stats.uniform, {'loc': (-1, 1), 'scale': (0.5, 2)}, {}, lambda: u(-2, 4)),
                          (stats.beta, {'a': (0.5, 3)}, {'b': 1.5}, lambda: pick(rng, [-0.1, 1.2, 3.]))][o]
    g = [grid(rng, lo, hi, int(rng.integers(3, 12))) for lo, hi in free.values()]
    om = B.om.SciPy(rv, *[y for k, v in zip(free, g) for y in (k, user(rng, v))], fixedParameters=fixed)
    inside = {'geom': 2, 'expon': 0.7, 'gamma': 0.7, 'uniform': 0.6, 'beta': 0.4}.get(rv.name, 2)
    pd = dict(zip(free, mesh(*g)))
    pd.update(fixed)
    dens = (lambda y: rv.pdf(y, **pd)) if hasattr(rv, 'pdf') else (lambda y: rv.pmf(y, **pd))
    data = [inside, x(), inside]
    if chance(rng, 0.3):
        data = data[1:]
    want = [dens(y) for y in data]
    method = pick(rng, ['single', 'online', 'independent'])
    obs, S = observe(rng, om, data, 1, method)
    if obs is None:
        rec.check('outside', any(not np.max(w) > 0 for w in want), 'fit with possible data %s failed, %s' % (data, rv.name))
    else:
        compare(rec, 'outside', obs, want, '%s outside of its support: %s (%s)' % (rv.name, data, method))
    rec.situation('outside', rv.name, method, len(data))


# ------------------------------------------------------------------------------------------------- SymPy models
def sympy_case(rng):
    import sympy
    import sympy.stats as st
    u = rng.uniform
    P = lambda n: sympy.Symbol(n, positive=True)
    R = lambda n: sympy.Symbol(n, real=True)
    k = pick(rng, ['normal', 'normal', 'exponential', 'laplace', 'gamma', 'poisson', 'vonmises', 'lognormal'])
    if k == 'normal':
        a, b = R('mu'), P('sigma')
        opts = [(st.Normal('X', a, b), {'mu': (-2, 2), 'sigma': (0.3, 3)}, lambda x, mu, sigma: stats.norm.pdf(x, mu, sigma)),
                (st.Normal('X', 4, b), {'sigma': (0.3, 3)}, lambda x, sigma: stats.norm.pdf(x, 4, sigma)),
                (st.Normal('X', a, 2), {'mu': (-2, 2)}, lambda x, mu: stats.norm.pdf(x, mu, 2))]
        return k, pick(rng, opts), lambda: u(-3, 4)
    if k == 'exponential':
        r = P('rate')
        return k, (st.Exponential('X', r), {'rate': (0.2, 4)}, lambda x, rate: rate * np.exp(-rate * x)), lambda: u(0.05, 3)
    if k == 'laplace':
        a, b = R('m'), P('w')
        return k, (st.Laplace('X', a, b), {'m': (-2, 2), 'w': (0.3, 2)}, lambda x, m, w: stats.laplace.pdf(x, m, w)), lambda: u(-3, 3)
    if k == 'gamma':
        a, b = P('k'), P('theta')
        return k, (st.Gamma('X', 3, b), {'theta': (0.3, 2)}, lambda x, theta: stats.gamma.pdf(x, 3, scale=theta)), lambda: u(0.1, 4)
    if k == 'poisson':
        l = P('lam')
        return k, (st.Poisson('X', l), {'lam': (0.2, 7)}, lambda x, lam: stats.poisson.pmf(x, lam)), lambda: int(rng.integers(0, 9))
    if k == 'vonmises':
        m, c = R('m'), P('kap')
        return k, (st.VonMises('X', 0, c), {'kap': (0.2, 4)}, lambda x, kap: stats.vonmises.pdf(x, kap)), lambda: u(-3, 3)
    m, s = R('m'), P('s')
    return k, (st.LogNormal('X', m, s), {'m': (-1, 1), 's': (0.3, 2)}, lambda x, m, s: stats.lognorm.pdf(x, s, scale=np.exp(m))), lambda: u(0.1, 4)


@CHECK.gen(60, 800)
def sympy_models(rng, rec, i):
    B = gen.bl()
    k, (rv, params, f), draw = sympy_case(rng)
    free = list(params)
    free = [free[j] for j in rng.permutation(len(free))]
    g = [grid(rng, params[n][0], params[n][1], int(rng.integers(2, 15))) for n in free]
    if chance(rng, 0.2):
        om = B.om.SymPy(rv, dict(zip(free, g)), determineJeffreysPrior=False)
    else:
        om = B.om.SymPy(rv, *[x for n, v in zip(free, g) for x in (n, user(rng, v))], determineJeffreysPrior=False)
    n = int(rng.integers(1, 4))
    dims = pick(rng, [1, 1, 2])
    data = np.array([[draw() for _ in range(dims)] for _ in range(n)])
    pd = dict(zip(free, mesh(*g)))
    want = [np.prod([f(x, **pd) for x in row], axis=0) for row in data]
    if any(not np.max(w) > 0 for w in want):
        return
    obs, S = observe(rng, om, data if dims > 1 else data[:, 0], 1, 'independent' if dims > 1 else None)
    rec.check('names', list(S.observationModel.parameterNames) == free, 'names')
    compare(rec, 'likelihood_sympy', obs, want, '%s %s' % (k, free))
    for j, nme in enumerate(free):
        rec.close('order_of_parameters', S.getPDs(nme, density=False)[0], g[j], 'values of ' + nme, rtol=1e-12, atol=1e-300)
    rec.situation('sympy', k, free, dims)


# ------------------------------------------------------------------------------------------------- NumPy models
@CHECK.gen(120, 2000)
def numpy_models(rng, rec, i):
    """User-defined functions: arguments arrive in the order of the names, with the whole data point, exactly as supplied."""
    B = gen.bl()
    d = int(rng.integers(1, 4))
    conv = pick(rng, [np.asarray] * 4 + [lambda a: np.asarray(a, np.float32), lambda a: np.ceil(a * 4.).astype(int), lambda a: a > 0.8,
                                         lambda a: a * 1e-30])
    g = [grid(rng, -1 + j, 2 + j, int(rng.integers(2, 8))) for j in range(d)]
    w = rng.random(d) + 0.2
    seen = []
    vec = chance(rng, 0.4)

    def val(data, *p):
        x = np.atleast_1d(np.asarray(data, float))
        return conv(sum(wj * np.abs(np.sin(pj * (j + 1) + x[0] + 0.5 * x[-1])) for j, (wj, pj) in enumerate(zip(w, p))) + 0.1)
    fs = {1: lambda data, a: (seen.append(np.array(data)), val(data, a))[1],
          2: lambda data, a, b: (seen.append(np.array(data)), val(data, a, b))[1],
          3: lambda data, a, b, c: (seen.append(np.array(data)), val(data, a, b, c))[1]}
    names = list(pick(rng, gen.NAMES)[:d])
    om = B.om.NumPy(fs[d], *[x for n, v in zip(names, g) for x in (n, user(rng, v))])
    n = int(rng.integers(1, 5))
    data = rng.random((n, 3)) if vec else rng.random(n)
    if chance(rng, 0.2):
        data = np.round(data * 10).astype(int)
    M = mesh(*g)
    want = [val(x, *M) for x in data]
    if any(not np.max(w) > 0 for w in want):
        return
    obs, S = observe(rng, om, data.tolist() if chance(rng, 0.2) and not vec else data, 1, 'independent' if vec else None)
    compare(rec, 'likelihood_numpy', obs, want, 'function of %d parameters' % d)
    rec.check('numpy_data', len(seen) >= n and np.allclose(seen[0], data[0]), 'data handed to the likelihood function')
    rec.situation('numpy', d, vec, [len(x) for x in g], str(data.dtype))


@CHECK.gen(60, 800)
def repeated_use(rng, rec, i):
    """One observation model object, evaluated again and again in several studies: always the same likelihood."""
    kind = BUILTIN[i % len(BUILTIN)]
    om, g, f, data, seg, integral = builtin(rng, kind)
    data = np.asarray(data)
    M = mesh(*g)
    for r in range(3):
        d = data[rng.permutation(len(data))]
        want = [f(d[k:k + seg], *M) for k in range(len(d) - seg + 1)]
        if any(not np.max(w) > 1e-290 for w in want):
            return
        obs, S = observe(rng, om, d, seg)
        compare(rec, 'likelihood_builtin', obs, want, '%s, use %d' % (kind, r))
    rec.situation('repeated', kind, [len(x) for x in g])


# ------------------------------------------------------------------------------------------------- narrow data types
@CHECK.gen(160, 2500)
def narrow_types(rng, rec, i):
    """Integer data of narrow types with values whose squares and products leave the range of the type."""
    B = gen.bl()
    kind = ['poisson', 'gaussian', 'laplace', 'white', 'ar1', 'sar1', 'gmean', 'np'][i % 8]
    dt = pick(rng, [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.float32])
    top = {1: 127, 2: 30000, 4: 2 ** 30, 8: 2 ** 40}[np.dtype(dt).itemsize] if dt != np.float32 else 4000
    if kind == 'poisson':
        top = min(top, 100000)
    hi = int(pick(rng, [top, top, max(20, top // 3), 40]))
    signed = np.dtype(dt).kind != 'u' and kind != 'poisson'
    n = int(rng.integers(2, 6))
    data = np.array([int(rng.integers(max(1, hi // 4), hi + 1)) * (pick(rng, [-1, 1]) if signed else 1) for _ in range(n + 1)])
    if chance(rng, 0.3):
        data[int(rng.integers(n))] = 0
    m = float(np.max(np.abs(data)))
    k = int(rng.integers(2, 14))
    seg = 1
    if kind == 'poisson':
        g = [np.linspace(0.3 * m + 0.1, 1.5 * m + 1, k)]
        om = B.om.Poisson('l', g[0], prior=None)
        f = lambda s, l: stats.poisson.pmf(s[0], l)
    elif kind in ('gaussian', 'laplace'):
        g = [np.linspace(-m, 1.3 * m, k), np.linspace(0.2 * m, 1.5 * m, k)]
        om = (B.om.Gaussian if kind == 'gaussian' else B.om.Laplace)('m', g[0], 's', g[1], prior=None)
        h = stats.norm.pdf if kind == 'gaussian' else stats.laplace.pdf
        f = lambda s, a, b: h(float(s[0]), a, b)
    elif kind == 'white':
        g = [np.linspace(0.2 * m, 1.5 * m, k)]
        om = B.om.WhiteNoise('s', g[0], prior=None)
        f = lambda s, b: stats.norm.pdf(float(s[0]), 0., b)
    elif kind == 'gmean':
        data = np.array([data, np.maximum(1, np.abs(data[::-1]))]).T
        g = [np.linspace(-m, 1.3 * m, k)]
        om = B.om.GaussianMean('m', g[0])
        f = lambda s, a: stats.norm.pdf(float(s[0][0]), a, float(s[0][1]))
    elif kind == 'np':
        g = [np.linspace(0.2 * m, 1.5 * m, k)]
        om = B.om.NumPy(lambda data, a: np.exp(-np.abs(float(data)) / a), 'a', g[0])
        f = lambda s, a: np.exp(-np.abs(float(s[0])) / a)
    else:
        g = [np.linspace(-0.95, 0.95, k), np.linspace(0.3 * m, 1.5 * m, k)]
        seg = 2
        om = (B.om.AR1 if kind == 'ar1' else B.om.ScaledAR1)('r', g[0], 's', g[1])
        if kind == 'ar1':
            f = lambda s, r, a: stats.norm.pdf(float(s[1]), r * float(s[0]), a)
        else:
            f = lambda s, r, a: stats.norm.pdf(float(s[1]), r * float(s[0]), a * np.sqrt(1. - r ** 2))
    d = data.astype(dt)
    if not np.array_equal(d.astype(float), data.astype(float)):
        return
    M = mesh(*g)
    want = [f(data[j:j + seg], *M) for j in range(len(data) - seg + 1)]
    if kind not in ('gmean', 'np') and chance(rng, 0.3):
        d2 = d[rng.permutation(len(d))]
        want = [w * f(d2.astype(float)[j:j + seg], *M) for j, w in enumerate(want)]
        d = np.array([d, d2]).T
    if any(not np.max(w) > 1e-250 for w in want):
        return
    obs, S = observe(rng, om, d, seg, 'independent' if np.ndim(d) > 1 and kind != 'gmean' else pick(rng, ['independent', 'single', 'online']))
    compare(rec, 'narrow', obs, want, '%s %s up to %d' % (kind, np.dtype(dt), hi), rtol=1e-3 if dt == np.float32 else 1e-7)
    rec.situation('narrow', kind, str(np.dtype(dt)), hi, np.ndim(d))
