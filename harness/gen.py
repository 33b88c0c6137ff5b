"""Workload generator: observation models (with independent likelihood functions), priors, data, transition models and
studies. Every random choice comes from the generator object handed in."""
import zlib

import numpy as np
from scipy import stats

import ref


def bl():
    import bayesloop
    return bayesloop


def pick(rng, seq):
    seq = list(seq)
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return rng.random() < p


# ------------------------------------------------------------------------------------------------- grids
def grid_values(rng, n, lo, hi, irregular=0.1):
    """n values between lo and hi (both excluded if `open`)."""
    r = rng.random()
    if r < irregular and n > 2:
        v = np.sort(lo + (hi - lo) * rng.random(n))
        gaps = np.diff(v)
        if np.min(gaps) < 1e-3 * (hi - lo) or np.max(np.abs(gaps - gaps[0])) < 1e-2 * np.max(gaps):
            v = lo + (hi - lo) * (np.arange(1, n + 1) / (n + 1.)) ** 1.7
            if ref.lattice_constant(v) != 1.:
                v = bl().oint(lo, hi, n)
        return v
    if r < 0.6:
        return bl().oint(lo, hi, n)
    return bl().cint(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo), n)


def as_user_type(rng, v):
    r = rng.random()
    if r < 0.15:
        return list(map(float, v))
    if r < 0.25:
        return tuple(map(float, v))
    return np.array(v)


# ------------------------------------------------------------------------------------------------- priors
class PriorSpec(object):
    """User prior for the parameters of an observation model: object handed to the library + density on the grid."""

    def __init__(self, kind, obj, density, exact=True):
        self.kind, self.obj, self.density = kind, obj, density


def normed(values, lcs):
    values = np.asarray(values, dtype=float)
    return values / values.sum() / np.prod(lcs)


def gen_prior(rng, grids, default=None, kinds=None, positive=False):
    """default: density function of the default prior of the model (None: flat)."""
    shape = tuple(len(g) for g in grids)
    lcs = [ref.lattice_constant(g) for g in grids]
    mesh = np.meshgrid(*grids, indexing='ij')
    kinds = kinds or ['default', 'default', 'none', 'array', 'intarray', 'array1', 'func', 'const', 'sympy', 'f32', 'forder',
                      'zeros']
    kind = pick(rng, kinds)
    d = len(grids)
    if kind == 'default':
        vals = np.ones(shape) if default is None else default(*mesh)
        return PriorSpec(kind, 'default', normed(vals, lcs))
    if kind == 'none':
        return PriorSpec(kind, None, normed(np.ones(shape), lcs))
    sc = 10. ** rng.uniform(-20, 20) if chance(rng, 0.3) else 1.
    if kind == 'array':
        a = (rng.random(shape) + 0.05) * sc
        return PriorSpec(kind, a, normed(a, lcs))
    if kind == 'zeros':
        a = rng.random(shape) + 0.05
        if not positive:
            a[rng.random(shape) < 0.25] = 0.
            if a.sum() == 0:
                a[...] = 1.
        return PriorSpec(kind, a, normed(a, lcs))
    if kind == 'f32':
        a = (rng.random(shape) + 0.05).astype(np.float32)
        return PriorSpec(kind, a, normed(a.astype(float), lcs))
    if kind == 'forder':
        a = np.asfortranarray(rng.random(shape) + 0.05)
        return PriorSpec(kind, a, normed(a, lcs))
    if kind == 'intarray':
        a = rng.integers(1, 6, shape)
        return PriorSpec(kind, a, normed(a, lcs))
    if kind == 'array1':
        n = int(np.prod(shape))
        w = np.full(n, 1.)
        w[rng.integers(n)] += 2. ** int(np.ceil(np.log2(n))) - n
        a = (w / 2. ** int(np.ceil(np.log2(n)))).reshape(shape)   # sums to one exactly (powers of two)
        return PriorSpec(kind, a, normed(a, lcs))
    if kind == 'const':
        f = [lambda a: 1., lambda a, b: 2.5, lambda a, b, c: 1][d - 1]
        return PriorSpec(kind, f, normed(np.ones(shape), lcs))
    c = [g[len(g) // 2] for g in grids]
    w = [max(g[-1] - g[0], 1e-12) * (0.3 + rng.random()) for g in grids]
    if kind == 'func':
        if d == 1:
            def f(a):
                return sc / (1. + ((a - c[0]) / w[0]) ** 2)
        elif d == 2:
            def f(a, b):
                return sc * np.exp(-0.5 * ((a - c[0]) / w[0]) ** 2) * (1. + ((b - c[1]) / w[1]) ** 2)
        else:
            def f(a, b, e):
                return np.exp(-0.5 * ((a - c[0]) / w[0]) ** 2) * (1. + ((b - c[1]) / w[1]) ** 2 + np.abs((e - c[2]) / w[2]))
        return PriorSpec(kind, f, normed(f(*mesh), lcs))
    if kind == 'sympy':
        import sympy.stats as st
        rvs, dens = [], 1.
        for i, g in enumerate(grids):
            m = mesh[i]
            opts = ['norm', 'unif'] + (['exp'] if g[0] > 0 else [])
            o = pick(rng, opts)
            cc, ww = round(float(c[i]), 6), round(float(w[i]), 6) or 1.
            if o == 'norm':
                rvs.append(st.Normal('n%d' % i, cc, ww))
                dens = dens * stats.norm.pdf(m, cc, ww)
            elif o == 'unif':
                a, b = float(g[0]) - ww, float(g[-1]) + ww
                rvs.append(st.Uniform('u%d' % i, a, b))
                dens = dens * np.full(shape, 1. / (b - a))
            else:
                r = round(1. / ww, 6) or 1.
                rvs.append(st.Exponential('e%d' % i, r))
                dens = dens * r * np.exp(-r * m)
        obj = rvs[0] if d == 1 and chance(rng, 0.5) else (tuple(rvs) if chance(rng, 0.3) else rvs)
        return PriorSpec(kind, obj, dens * np.ones(shape))
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------- observation models
class OM(object):
    """Observation model of a scenario."""
    seg = 1
    multiply = True     # columns of multi-dimensional data are independent observations
    columns = 1

    def __init__(self, kind, names, grids, user_grids, prior, maker, lik1, sampler, **kw):
        self.kind, self.names, self.grids, self.user_grids = kind, names, grids, user_grids
        self.prior, self.maker, self.lik1, self.sampler = prior, maker, lik1, sampler
        self.mesh = np.meshgrid(*[np.asarray(g, float) for g in grids], indexing='ij')
        self.shape = tuple(len(g) for g in grids)
        self.__dict__.update(kw)

    def build(self):
        return self.maker(self)

    def ctx(self, flags=()):
        return ref.Ctx(self.grids, self.prior.density, flags)

    def lik(self, segment):
        """Likelihood of one data segment (array of seg rows)."""
        segment = np.asarray(segment)
        if segment.ndim == 2 and self.multiply:
            out = np.ones(self.shape)
            for col in segment.T:
                out = out * self.lik(col)
            return out
        if np.isnan(segment.astype(float)).any():
            return np.ones(self.shape)
        return np.asarray(self.lik1(segment, *self.mesh), dtype=float) * np.ones(self.shape)

    def liks(self, data):
        data = np.asarray(data)
        n = len(data) - self.seg + 1
        return [self.lik(data[i:i + self.seg]) for i in range(n)]

    def data(self, rng, n, dims=None, missing=0.):
        """Random data set of n time steps."""
        dims = self.columns if dims is None else dims
        if self.multiply and dims > 1:
            d = np.array([self.sampler(rng, n) for _ in range(dims)]).T
        else:
            d = np.asarray(self.sampler(rng, n))
        if missing > 0:
            d = np.array(d, dtype=float)
            if d.ndim == 1:
                d[rng.random(n) < missing] = np.nan
            else:
                d[rng.random(d.shape) < missing] = np.nan
        return d

    def add_outliers(self, rng, data, n=1):
        """Copy of the data with n points that are very unlikely (but possible: log-likelihood between about -50 and -600 at the
        best parameter value) under every parameter value; None if the model has no such points."""
        d = np.array(data, dtype=float)
        k = self.kind
        hi, lo = [float(np.max(g)) for g in self.grids], [float(np.min(g)) for g in self.grids]
        for i in rng.choice(len(d), size=min(n, len(d)), replace=False):
            z = np.sqrt(2. * rng.uniform(50., 600.))
            side = pick(rng, [-1., 1.])
            if k in ('gaussian', 'np3'):
                x = hi[0] + z * hi[1] if side > 0 else lo[0] - z * hi[1]
            elif k == 'laplace':
                x = hi[0] + 0.5 * z ** 2 * hi[1] if side > 0 else lo[0] - 0.5 * z ** 2 * hi[1]
            elif k == 'white':
                x = side * z * hi[0]
            elif k == 'np1':
                x = None
            elif k == 'gmean':
                if d[i].ndim == 1 and np.isfinite(d[i]).all():
                    d[i, 0] = hi[0] + z * d[i, 1] if side > 0 else lo[0] - z * d[i, 1]
                continue
            elif k == 'poisson':
                x = float(int(hi[0] + rng.uniform(60, 250)))
            else:
                x = None
            if x is None:
                return None
            if d.ndim == 1:
                d[i] = x
            else:
                d[i, int(rng.integers(d.shape[1]))] = x
        return d

    def describe(self):
        return '%s%s/%s' % (self.kind, 'x'.join(map(str, self.shape)), self.prior.kind)


def _track(rng, n, lo, hi):
    """Parameter trajectory within [lo, hi]: constant, drifting or jumping."""
    r = rng.random()
    a, b = lo + (hi - lo) * rng.random(2)
    if r < 0.4:
        return np.full(n, a)
    if r < 0.7:
        return np.linspace(a, b, n)
    k = int(rng.integers(0, n + 1))
    x = np.full(n, a)
    x[k:] = b
    return x


def _sizes(rng, ndim, size):
    if size == 'tiny':
        return [int(rng.integers(2, 5)) for _ in range(ndim)] if ndim == 1 else \
            [int(rng.integers(2, 3)) for _ in range(ndim)]
    if size == 'large':
        return [int(rng.integers(150, 400))] if ndim == 1 else \
            ([int(rng.integers(20, 45)), int(rng.integers(20, 45))] if ndim == 2 else [8, 9, 7])
    if ndim == 1:
        return [int(rng.integers(2, 45))]
    if ndim == 2:
        return [int(rng.integers(2, 14)), int(rng.integers(2, 14))]
    return [int(rng.integers(2, 6)) for _ in range(ndim)]


KINDS = {
    1: ['bernoulli', 'poisson', 'gmean', 'white', 'np1', 'table1', 'scipy1', 'sympy1'],
    2: ['gaussian', 'laplace', 'ar1', 'sar1', 'np2', 'table2', 'scipy2', 'sympy2'],
    3: ['np3', 'table3'],
}
CHEAP = {1: ['bernoulli', 'poisson', 'gmean', 'white', 'np1', 'table1', 'scipy1'],
         2: ['gaussian', 'laplace', 'ar1', 'sar1', 'np2', 'table2'], 3: ['np3']}
BOUND = {1: ['bound1', 'bound1', 'bernoulli'], 2: ['bound2'], 3: ['bound3']}
MILD = {1: ['table1'], 2: ['table2'], 3: ['table3']}
NAMES = [['alpha0', 'beta0', 'gamma0'], ['x', 'y', 'z'], ['rate_a', 'rate_b', 'rate_c'], ['A', 'B', 'C'], ['q', 'Q', 'qq']]


def gen_om(rng, ndim=None, kinds=None, size='small', prior_kinds=None, irregular=0.1, names=None, zeros=False,
           regular=None):
    """Random observation model."""
    B = bl()
    if ndim is None:
        ndim = pick(rng, [1, 1, 1, 2, 2, 3])
    kinds = kinds or KINDS
    kind = pick(rng, kinds[ndim] if isinstance(kinds, dict) else kinds)
    ndim = {'1': 1, '2': 2, '3': 3}.get(kind[-1], {'bernoulli': 1, 'poisson': 1, 'gmean': 1, 'white': 1}.get(kind, 2))
    if kind in ('ar1', 'sar1'):
        ndim = 2
    n = _sizes(rng, ndim, size)
    names = list(names[:ndim]) if names else list(pick(rng, NAMES)[:ndim])
    if not regular is None:
        irregular = 0. if regular else 1.
    sc = 10. ** rng.uniform(-1, 1.3) if chance(rng, 0.6) else 1.
    G = lambda i, lo, hi: grid_values(rng, n[i], lo, hi, irregular)
    kw = {}
    default = None

    if kind == 'bernoulli':
        grids = [G(0, 0., 1.)]
        default = lambda p: 1. / np.sqrt(p * (1. - p))
        lik1 = lambda s, p: (p if s[0] == 1 else 1. - p)

        def sampler(rng, m):
            return (rng.random(m) < _track(rng, m, 0.1, 0.9)).astype(int)
        cls = B.om.Bernoulli
    elif kind == 'poisson':
        hi = 2. + 10. * rng.random() if chance(rng, 0.8) else 100. * rng.random() + 20.
        grids = [G(0, 0., hi)]
        default = lambda l: 1. / np.sqrt(l)
        lik1 = lambda s, l: stats.poisson.pmf(s[0], l)

        def sampler(rng, m):
            return rng.poisson(_track(rng, m, 0.1 * hi, 0.8 * hi))
        cls = B.om.Poisson
    elif kind == 'gmean':
        lo = sc * rng.uniform(-3, 1)
        grids = [G(0, lo, lo + 5. * sc)]
        lik1 = lambda s, mu: stats.norm.pdf(s[0][0], mu, s[0][1])
        kw['multiply'] = False

        def sampler(rng, m):
            sd = sc * (0.3 + 2. * rng.random(m))
            return np.array([_track(rng, m, lo + sc, lo + 4 * sc) + sd * rng.standard_normal(m), sd]).T
        cls = B.om.GaussianMean
    elif kind == 'white':
        grids = [G(0, 0.02 * sc, 4. * sc)]
        default = lambda s: 1. / s
        lik1 = lambda s, sg: stats.norm.pdf(s[0], 0., sg)

        def sampler(rng, m):
            return _track(rng, m, 0.3 * sc, 3 * sc) * rng.standard_normal(m)
        cls = B.om.WhiteNoise
    elif kind in ('gaussian', 'laplace'):
        lo = sc * rng.uniform(-3, 1)
        grids = [G(0, lo, lo + 5. * sc), G(1, 0.1 * sc, 3. * sc)]
        default = lambda m, s: 1. / s ** 2 * np.ones_like(m)
        f = stats.norm.pdf if kind == 'gaussian' else stats.laplace.pdf
        lik1 = lambda s, m, sg: f(s[0], m, sg)

        def sampler(rng, m):
            z = rng.standard_normal(m) if kind == 'gaussian' else rng.laplace(size=m)
            return _track(rng, m, lo + sc, lo + 4 * sc) + _track(rng, m, 0.3 * sc, 2 * sc) * z
        cls = B.om.Gaussian if kind == 'gaussian' else B.om.Laplace
    elif kind in ('ar1', 'sar1'):
        grids = [G(0, -1., 1.), G(1, 0.1 * sc, 3. * sc)]
        kw['seg'] = 2
        if kind == 'ar1':
            lik1 = lambda s, r, sg: stats.norm.pdf(s[1], r * s[0], sg)
        else:
            lik1 = lambda s, r, sg: stats.norm.pdf(s[1], r * s[0], sg * np.sqrt(1. - r ** 2))

        def sampler(rng, m):
            r = _track(rng, m, -0.8, 0.8)
            x = [sc * rng.standard_normal()]
            for i in range(1, m):
                x.append(r[i] * x[-1] + sc * rng.standard_normal())
            return np.array(x)
        cls = B.om.AR1 if kind == 'ar1' else B.om.ScaledAR1
    elif kind in ('np1', 'np2', 'np3'):
        lo = sc * rng.uniform(-3, 1)
        grids = [G(0, lo, lo + 5. * sc)] + [G(i, 0.2 * sc, 3. * sc) for i in range(1, ndim)]
        kw['multiply'] = False
        if kind == 'np1':
            def fn(data, a):
                return np.exp(-0.5 * ((data - a) / sc) ** 2)
            lik1 = lambda s, a: np.exp(-0.5 * ((s[0] - a) / sc) ** 2)
            sampler = lambda rng, m: _track(rng, m, lo, lo + 5 * sc) + sc * rng.standard_normal(m)
        elif kind == 'np2':
            kw['columns'] = 2

            def fn(data, a, b):
                u, v = data
                return np.exp(-np.abs(u - a) / b) / (b + np.abs(v))
            lik1 = lambda s, a, b: np.exp(-np.abs(s[0][0] - a) / b) / (b + np.abs(s[0][1]))
            sampler = lambda rng, m: np.array([_track(rng, m, lo, lo + 5 * sc) + sc * rng.standard_normal(m),
                                               sc * rng.random(m)]).T
        else:
            def fn(data, a, b, c):
                return np.exp(-0.5 * ((data - a) / b) ** 2) / (b * c) + 0.01 * c
            lik1 = lambda s, a, b, c: np.exp(-0.5 * ((s[0] - a) / b) ** 2) / (b * c) + 0.01 * c
            sampler = lambda rng, m: _track(rng, m, lo, lo + 5 * sc) + sc * rng.standard_normal(m)
        kw['fn'] = fn
    elif kind in ('table1', 'table2', 'table3', 'bound1', 'bound2', 'bound3'):
        # bounded likelihood (values between 0.2 and 1.2) that depends on all parameters; 'bound' models exclude some
        # values of the parameters for each observation
        lo = sc * rng.uniform(-3, 1)
        grids = [G(i, lo, lo + 5. * sc) for i in range(ndim)]
        kw['multiply'] = False
        ws = [0.7 / sc, 1.1 / sc, 0.4 / sc]

        def base(d, *ps):
            ph = 0.
            for w, p in zip(ws, ps):
                ph = ph + w * p
            if cut is None:
                return 0.2 + np.abs(np.cos(ph + d))
            return np.where(np.cos(ph + d) > cut, 0.2 + np.abs(np.cos(ph + d)), 0.)
        cut = None if kind[:5] == 'table' else rng.uniform(-0.95, -0.2)
        fns = {1: lambda data, a: base(data, a), 2: lambda data, a, b: base(data, a, b),
               3: lambda data, a, b, c: base(data, a, b, c)}
        kw['fn'] = fns[ndim]
        lik1 = lambda s, *ps: base(s[0], *ps)
        sampler = lambda rng, m: 3. * rng.random(m)
    elif kind == 'scipy1':
        o = pick(rng, ['norm', 'expon', 'poisson', 'gamma'])
        if o == 'norm':
            lo = sc * rng.uniform(-3, 1)
            names, grids = ['loc'], [G(0, lo, lo + 5 * sc)]
            fixed = {'scale': sc}
            lik1 = lambda s, m: np.exp(-0.5 * ((s[0] - m) / sc) ** 2) / (sc * np.sqrt(2 * np.pi))
            sampler = lambda rng, m: _track(rng, m, lo, lo + 5 * sc) + sc * rng.standard_normal(m)
        elif o == 'expon':
            names, grids = ['scale'], [G(0, 0.1 * sc, 3 * sc)]
            fixed = {'loc': 0}
            lik1 = lambda s, b: np.exp(-s[0] / b) / b
            sampler = lambda rng, m: rng.exponential(_track(rng, m, 0.3 * sc, 2 * sc))
        elif o == 'gamma':
            names, grids = ['scale'], [G(0, 0.1 * sc, 3 * sc)]
            fixed = {'loc': 0, 'a': 2.}
            lik1 = lambda s, b: s[0] * np.exp(-s[0] / b) / b ** 2
            sampler = lambda rng, m: rng.gamma(2., _track(rng, m, 0.3 * sc, 2 * sc))
        else:
            names, grids = ['mu'], [G(0, 0.1, 12.)]
            fixed = {'loc': 0}
            from scipy.special import gammaln
            lik1 = lambda s, l: np.exp(s[0] * np.log(l) - l - gammaln(s[0] + 1.))
            sampler = lambda rng, m: rng.poisson(_track(rng, m, 1., 9.))
        kw['rv'], kw['fixed'] = getattr(stats, o), fixed
    elif kind == 'scipy2':
        lo = sc * rng.uniform(-3, 1)
        o = pick(rng, ['norm', 'laplace', 'logistic'])
        g = {'loc': G(0, lo, lo + 5 * sc), 'scale': G(1, 0.2 * sc, 3 * sc)}
        names = ['loc', 'scale'] if chance(rng, 0.5) else ['scale', 'loc']
        grids = [g[k] for k in names]
        dens = {'norm': lambda z: np.exp(-0.5 * z ** 2) / np.sqrt(2 * np.pi), 'laplace': lambda z: 0.5 * np.exp(-np.abs(z)),
                'logistic': lambda z: np.exp(-np.abs(z)) / (1. + np.exp(-np.abs(z))) ** 2}[o]
        if names[0] == 'loc':
            lik1 = lambda s, m, b: dens((s[0] - m) / b) / b
        else:
            lik1 = lambda s, b, m: dens((s[0] - m) / b) / b
        sampler = lambda rng, m: _track(rng, m, lo + sc, lo + 4 * sc) + sc * rng.standard_normal(m)
        kw['rv'], kw['fixed'] = getattr(stats, o), {}
    elif kind == 'sympy1':
        from sympy import Symbol
        import sympy.stats as st
        o = pick(rng, ['sigma', 'rate', 'lam'])
        if o == 'sigma':
            mu0 = round(sc * rng.uniform(-1, 1), 4)
            names, grids = ['sigma'], [G(0, 0.1 * sc, 3 * sc)]
            kw['rv'] = st.Normal('norm', mu0, Symbol('sigma', positive=True))
            lik1 = lambda s, sg: stats.norm.pdf(s[0], mu0, sg)
            sampler = lambda rng, m: mu0 + _track(rng, m, 0.3 * sc, 2 * sc) * rng.standard_normal(m)
        elif o == 'rate':
            names, grids = ['lam_r'], [G(0, 0.1, 6.)]
            kw['rv'] = st.Exponential('expo', Symbol('lam_r', positive=True))
            lik1 = lambda s, r: r * np.exp(-r * s[0])
            sampler = lambda rng, m: rng.exponential(1. / _track(rng, m, 0.3, 4.))
        else:
            names, grids = ['lam_p'], [G(0, 0.1, 10.)]
            kw['rv'] = st.Poisson('pois', Symbol('lam_p', positive=True))
            lik1 = lambda s, l: stats.poisson.pmf(s[0], l)
            sampler = lambda rng, m: rng.poisson(_track(rng, m, 1., 8.))
    elif kind == 'sympy2':
        from sympy import Symbol
        import sympy.stats as st
        lo = sc * rng.uniform(-3, 1)
        g = {'mu': G(0, lo, lo + 5 * sc), 'sigma': G(1, 0.2 * sc, 3 * sc)}
        names = ['mu', 'sigma'] if chance(rng, 0.5) else ['sigma', 'mu']
        grids = [g[k] for k in names]
        kw['rv'] = st.Normal('norm', Symbol('mu', real=True), Symbol('sigma', positive=True))
        if names[0] == 'mu':
            lik1 = lambda s, m, b: stats.norm.pdf(s[0], m, b)
        else:
            lik1 = lambda s, b, m: stats.norm.pdf(s[0], m, b)
        sampler = lambda rng, m: _track(rng, m, lo + sc, lo + 4 * sc) + sc * rng.standard_normal(m)
    else:
        raise ValueError(kind)

    prior = gen_prior(rng, grids, default=default, kinds=prior_kinds)
    user = [as_user_type(rng, g) for g in grids]

    if kind[:2] == 'np' or kind[:5] in ('table', 'bound'):
        def maker(o):
            args = [x for p in zip(o.names, o.user_grids) for x in p]
            k = {} if isinstance(o.prior.obj, str) else {'prior': o.prior.obj}
            return B.om.NumPy(o.fn, *args, **k)
    elif kind.startswith('scipy'):
        def maker(o):
            args = [x for p in zip(o.names, o.user_grids) for x in p]
            k = {} if isinstance(o.prior.obj, str) else {'prior': o.prior.obj}
            if o.fixed:
                k['fixedParameters'] = o.fixed
            return B.om.SciPy(o.rv, *args, **k)
    elif kind.startswith('sympy'):
        def maker(o):
            args = [x for p in zip(o.names, o.user_grids) for x in p]
            k = {'determineJeffreysPrior': False}
            if not isinstance(o.prior.obj, str):
                k['prior'] = o.prior.obj
            return B.om.SymPy(o.rv, *args, **k)
    else:
        def maker(o):
            args = [x for p in zip(o.names, o.user_grids) for x in p]
            k = {} if isinstance(o.prior.obj, str) else {'prior': o.prior.obj}
            return o.cls(*args, **k)
        kw['cls'] = cls
    return OM(kind, names, grids, user, prior, maker, lik1, sampler, **kw)


def variant(rng, om):
    """Observation model of the same kind that differs in a single aspect: values between the ends of the grid, position of the
    grid, or only the prior."""
    import copy
    o = copy.copy(om)
    how = pick(rng, ['interior', 'interior', 'order', 'shift', 'prior', 'prior'])
    o.grids = [np.array(g, float) for g in om.grids]
    ax = int(rng.integers(len(o.grids)))
    g = o.grids[ax]
    if how == 'interior' and len(g) > 2:
        if chance(rng, 0.5):
            z = np.linspace(0., 1., len(g)) ** 1.3
            o.grids[ax] = g[0] + (g[-1] - g[0]) * z
            o.grids[ax][-1] = g[-1]
        else:
            k = int(rng.integers(1, len(g) - 1))
            g[k] += 0.3 * (g[k + 1] - g[k])
    elif how == 'order':
        o.grids[ax] = g[::-1].copy()
    elif how == 'shift':
        o.grids[ax] = g + 0.25 * (g[1] - g[0]) * (1. if g[-1] + 0.25 * (g[-1] - g[-2]) < 1. or om.kind not in ('bernoulli', 'ar1', 'sar1') else 0.)
    o.prior = gen_prior(rng, o.grids, kinds=['none', 'array', 'func', 'const', 'zeros'] if how != 'order' else ['none', 'array', 'zeros'])
    o.user_grids = [np.array(g) for g in o.grids]
    o.mesh = np.meshgrid(*o.grids, indexing='ij')
    return o


def retype(rng, om):
    """User-defined likelihood function that returns values of another type and magnitude (in place)."""
    f, l = om.fn, om.lik1
    how = pick(rng, ['f32', 'f32', 'int', 'bool', 'scaled', 'scaled', 'readonly', 'same', 'fortran', 'object'])
    c = 10. ** rng.uniform(-30, 30)
    keep = {}

    def conv(x):
        if how == 'f32':
            return np.asarray(np.asarray(x) * c, dtype=np.float32)
        if how == 'int':
            return np.floor(np.asarray(x) * 5.).astype(int) + 1
        if how == 'bool':
            return np.asarray(x) > 0.3
        if how == 'scaled':
            return np.asarray(x) * c
        if how == 'fortran':
            return np.asfortranarray(x)
        if how == 'object':
            return np.asarray(x).astype(object)
        if how == 'readonly':
            x = np.array(x)
            x.flags.writeable = False
            return x
        return x

    def again(data, *p):
        # the same array object for the same data point
        k = repr(np.asarray(data).tolist())
        if k not in keep:
            keep[k] = conv(f(data, *p))
        return keep[k]
    om.fn = arity(again if how == 'same' else lambda data, *p: conv(f(data, *p)), len(om.names))
    om.lik1 = lambda s, *p: np.asarray(conv(l(s, *p)), dtype=float)
    om.kind += ':' + how
    return om


# ------------------------------------------------------------------------------------------------- hyper-priors
class HyperPrior(object):
    def __init__(self, kind, obj, fn):
        self.kind, self.obj, self.fn = kind, obj, fn

    def density(self, v, c):
        return self.fn(np.asarray(v, dtype=float), c)


def gen_hyper_prior(rng, values, kinds=('none', 'none', 'array', 'intarray', 'func', 'sympy', 'const')):
    v = np.asarray(values, dtype=float)
    kind = pick(rng, kinds)
    nrm = lambda a, c: np.asarray(a, float) / np.sum(a) / c
    lo, hi = float(np.min(v)), float(np.max(v))
    w = round(max(hi - lo, 1e-3) * (0.5 + rng.random()), 6)
    m = round(lo + (hi - lo) * rng.random(), 6)
    if kind == 'none':
        return None
    sc = 10. ** rng.uniform(-20, 20) if chance(rng, 0.3) else 1.
    if kind == 'array':
        a = (rng.random(len(v)) + 0.05) * sc
        return HyperPrior(kind, a, lambda v, c: nrm(a, c))
    if kind == 'intarray':
        a = rng.integers(1, 5, len(v))
        return HyperPrior(kind, a, lambda v, c: nrm(a, c))
    if kind == 'const':
        return HyperPrior(kind, lambda x: 1, lambda v, c: nrm(np.ones(len(v)), c))
    if kind == 'func':
        f = lambda x: sc / (1. + ((x - m) / w) ** 2)
        return HyperPrior(kind, f, lambda v, c: nrm(f(v), c))
    if kind == 'sympy':
        import sympy.stats as st
        if lo > 0 and chance(rng, 0.2):
            r = float('%.4g' % (1. / hi))
            return HyperPrior(kind, st.Exponential('he', r), lambda v, c: r * np.exp(-r * v))
        if lo > 0 and chance(rng, 0.2):
            r = float('%.4g' % hi)
            return HyperPrior(kind, st.Gamma('hg', 2, r), lambda v, c: stats.gamma.pdf(v, 2, scale=r))
        if lo >= 0 and hi < 50 and np.all(v == np.round(v)) and chance(rng, 0.5):
            r = round(rng.uniform(1., 8.), 3)
            return HyperPrior(kind, st.Poisson('ho', r), lambda v, c: stats.poisson.pmf(v, r))
        if 0 < lo and hi < 1 and chance(rng, 0.3):
            return HyperPrior(kind, st.Beta('hb', 2, 3), lambda v, c: stats.beta.pdf(v, 2, 3))
        if chance(rng, 0.5):
            return HyperPrior(kind, st.Normal('hp', m, w), lambda v, c: stats.norm.pdf(v, m, w))
        return HyperPrior(kind, st.Uniform('hu', lo - w, hi + w), lambda v, c: np.full(len(v), 1. / (hi - lo + 2 * w)))
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------- transition models
class TMGen(object):
    """Random transition model specs for a given observation model and time stamps."""

    def __init__(self, rng, om, ts, hyper=False, max_values=4, prior_kinds=None, prefix='h'):
        self.rng, self.om, self.ts, self.hyper = rng, om, list(ts), hyper
        self.max_values, self.prior_kinds = max_values, prior_kinds
        self.count = 0
        self.prefix = prefix
        r = rng.random()
        self.cased = r < 0.15                # names that differ in upper/lower case only
        self.nested = None                   # names that are parts of other names
        if r > 0.85:
            self.nested = [prefix, prefix + '1', prefix + '11', 'k' + prefix, prefix + prefix, prefix + '1' + prefix, 'k_' + prefix + '1']
            self.nested = [self.nested[k] for k in rng.permutation(len(self.nested))]
        self.allow_all = True
        self.lc = [ref.lattice_constant(g) for g in om.grids]

    def name(self):
        self.count += 1
        if self.cased:
            n = '%s%d' % (self.prefix, (self.count + 1) // 2)
            return n if self.count % 2 else n.swapcase()
        if self.nested and self.count <= len(self.nested):
            return self.nested[self.count - 1]
        if self.nested:
            return '%s_%d' % (self.prefix, self.count)
        return '%s%d' % (self.prefix, self.count)

    def val(self, draw, distinct=True):
        """Scalar or array of hyper-parameter values and prior."""
        rng = self.rng
        if not self.hyper or chance(rng, 0.25):
            return draw(), None
        n = int(rng.integers(1, self.max_values + 1))
        if self.max_values > 2 and chance(rng, 0.08):
            n = int(rng.integers(5, 15))
        r = rng.random()
        a, b = draw(), draw()
        if r < 0.5 and n > 1 and a != b:
            v = np.linspace(min(a, b), max(a, b), n)
        else:
            v = np.array(sorted(set([float(draw()) for _ in range(n)])))
            if chance(rng, 0.3):
                v = v[::-1].copy()
        pr = gen_hyper_prior(rng, v, self.prior_kinds or ('none', 'none', 'array', 'intarray', 'func', 'sympy', 'const'))
        if chance(rng, 0.3):
            v = list(map(float, v)) if chance(rng, 0.5) else tuple(map(float, v))
        return v, pr

    def tval(self):
        rng = self.rng
        ts = self.ts
        if not self.hyper or chance(rng, 0.25):
            t = pick(rng, ts)
            if chance(rng, 0.1):
                t = ts[-1] + 3
            return t, None
        if self.allow_all and chance(rng, 0.25) and len(ts) > 2:
            return 'all', None
        n = int(rng.integers(1, min(self.max_values, len(ts)) + 1))
        i0 = int(rng.integers(0, len(ts) - n + 1))
        v = np.array(ts[i0:i0 + n])
        if chance(rng, 0.25):
            v = v[rng.permutation(n)]
        return v, gen_hyper_prior(rng, v, self.prior_kinds or ('none', 'none', 'array', 'func', 'sympy'))

    def node(self, k, names, draws):
        vs = [self.val(d) for d in draws]
        return {'k': k, 'n': names, 'v': [v for v, _ in vs], 'pr': [p for _, p in vs]}

    def elementary(self, kinds=None):
        rng, om = self.rng, self.om
        opts = ['static', 'grw', 'grw', 'alpha', 'cp', 'indep', 'regime', 'noteq', 'det']
        if len(om.grids) == 2:
            opts.append('biv')
        if len(om.grids) > 2 or om.kind not in ('table1', 'table2'):
            opts = [o for o in opts if o != 'alpha']
        if kinds is not None:
            opts = [o for o in opts if o in kinds] or ['static']
        k = pick(rng, opts)
        ax = int(rng.integers(len(om.grids)))
        lc = self.lc[ax]
        ext = len(om.grids[ax]) * lc
        if k in ('static', 'indep'):
            return {'k': k}
        if k == 'grw':
            s = self.node(k, [self.name()],
                          [lambda: pick(rng, [0., 0.2, 0.7, 1., 1.5, 3., rng.random() * len(om.grids[ax])]) * lc])
        elif k == 'alpha':
            s = self.node(k, [self.name(), self.name()],
                          [lambda: pick(rng, [0., 0.3, 1., 2., 4. * rng.random()]) * lc,
                           lambda: pick(rng, [0.5, 1., 1.5, 2., 0.3 + 1.7 * rng.random()])])
        elif k == 'cp':
            v, pr = self.tval()
            s = {'k': k, 'n': [self.name()], 'v': [v], 'pr': [pr]}
        elif k in ('regime', 'noteq'):
            vol = np.log10(np.prod(self.lc))
            tot = np.log10(np.prod([len(g) for g in om.grids]))
            s = self.node(k, [self.name()], [lambda: -vol - tot + pick(rng, [-6., -3., -1., -0.3, 0.3, rng.uniform(-8, 0.5)])])
            if chance(rng, 0.1) and not self.hyper:
                s['v'] = [int(np.round(s['v'][0]))]
        elif k == 'det':
            fn = pick(rng, list(ref.DET))
            na = ref.DET[fn][0]
            rate = lambda: pick(rng, [0., 1., -1., 0.4, rng.uniform(-1.5, 1.5)]) * lc
            draws = {'lin': [rate], 'quad': [lambda: 0.1 * rate(), rate], 'sin': [lambda: 2. * rate(), lambda: rng.uniform(0.1, 2.)],
                     'exp': [lambda: 2. * rate(), lambda: rng.uniform(0.1, 1.)]}[fn]
            s = self.node(k, [self.name() for _ in range(na)], draws)
            s['fn'] = fn
        elif k == 'biv':
            s = self.node(k, [self.name(), self.name(), self.name()],
                          [lambda: pick(rng, [0.5, 1., 0.2 + 1.5 * rng.random()]) * self.lc[0],
                           lambda: pick(rng, [0.5, 1., 0.2 + 1.5 * rng.random()]) * self.lc[1],
                           lambda: pick(rng, [0., 0.5, -0.5, rng.uniform(-0.9, 0.9)])])
        if k in ('grw', 'alpha', 'det'):
            s['ax'] = ax
        return s

    def spec(self, depth=1, kinds=None, composite=0.5):
        rng = self.rng
        if depth > 0 and chance(rng, composite):
            if chance(rng, 0.5) or len(self.ts) < 4:
                return {'k': 'comb', 'm': [self.spec(depth - 1, kinds, 0.3) for _ in range(int(rng.integers(1, 4)))]}
            return self.serial(depth, kinds)
        return self.elementary(kinds)

    def serial(self, depth=1, kinds=None, nbreaks=None, types=('break', 'change')):
        rng, ts = self.rng, self.ts
        nb = pick(rng, [1, 1, 1, 2, 2, 3, 4]) if nbreaks is None else nbreaks
        times = sorted(rng.choice(len(ts), size=min(nb, len(ts)), replace=False))
        bs = []
        for j, t in enumerate(times):
            v, pr = ts[t], None
            if self.hyper and chance(rng, 0.4 if len(times) < 3 else 0.25):
                # several values, not overlapping with those of the following break
                end = times[j + 1] if j + 1 < len(times) else len(ts)
                n = int(rng.integers(1, min(self.max_values, end - t) + 1))
                v = np.array(ts[t:t + n])
                if chance(rng, 0.25):
                    v = v[rng.permutation(n)]
                pr = gen_hyper_prior(rng, v, self.prior_kinds or ('none', 'none', 'array', 'func', 'sympy'))
                if chance(rng, 0.3):
                    v = list(v)
            bs.append({'k': pick(rng, types), 'n': [self.name()], 'v': [v], 'pr': [pr]})
        ms = [self.spec(depth - 1, kinds, 0.3) for _ in range(len(bs) + 1)]
        # a change-point passed directly to a serial model is one of its structural breaks, not a sub-model
        ms = [{'k': 'comb', 'm': [m]} if m['k'] == 'cp' else m for m in ms]
        return {'k': 'serial', 'm': ms, 'b': bs}


def _prior_arg(pr):
    return None if pr is None else pr.obj


def build_tm(spec, names):
    """Transition model object of the library for a spec; names: parameter names of the observation model."""
    tm = bl().tm
    k = spec['k']
    pr = [_prior_arg(p) for p in spec.get('pr', [])]
    if k == 'static':
        return tm.Static()
    if k == 'indep':
        return tm.Independent()
    if k == 'grw':
        return tm.GaussianRandomWalk(spec['n'][0], spec['v'][0], target=names[spec['ax']], prior=pr[0])
    if k == 'alpha':
        return tm.AlphaStableRandomWalk(spec['n'][0], spec['v'][0], spec['n'][1], spec['v'][1], target=names[spec['ax']],
                                        prior=tuple(pr))
    if k == 'cp':
        return tm.ChangePoint(spec['n'][0], spec['v'][0], prior=pr[0])
    if k == 'regime':
        return tm.RegimeSwitch(spec['n'][0], spec['v'][0], prior=pr[0])
    if k == 'noteq':
        return tm.NotEqual(spec['n'][0], spec['v'][0], prior=pr[0])
    if k == 'biv':
        a = [x for p in zip(spec['n'], spec['v']) for x in p]
        return tm.BivariateRandomWalk(*a, prior=tuple(pr))
    if k == 'det':
        ns = {'np': np}
        for i, v in enumerate(spec['v']):
            ns['_d%d' % i] = v
        src = 'def detfun(t, %s):\n    return %s\n' % (
            ', '.join('%s=_d%d' % (n, i) for i, n in enumerate(spec['n'])), ref.DET_SRC[spec['fn']].format(*spec['n']))
        exec(src, ns)
        if len(pr) == 1 and not np.iterable(pr[0]) and int(''.join(filter(str.isdigit, spec['n'][0])) or 0) % 2 == 0:
            pr = pr[0]                                    # a single hyper-prior needs no list
        return tm.Deterministic(ns['detfun'], target=names[spec['ax']], prior=None if isinstance(pr, list) and all(p is None for p in pr) else pr)
    if k == 'comb':
        return tm.CombinedTransitionModel(*[build_tm(m, names) for m in spec['m']])
    if k == 'serial':
        args = [build_tm(spec['m'][0], names)]
        for b, m in zip(spec['b'], spec['m'][1:]):
            cls = tm.BreakPoint if b['k'] == 'break' else tm.ChangePoint
            args.append(cls(b['n'][0], b['v'][0], prior=_prior_arg(b['pr'][0])))
            args.append(build_tm(m, names))
        return tm.SerialTransitionModel(*args)
    raise ValueError(k)


def describe(spec):
    k = spec['k']
    if 'm' in spec:
        return '%s(%s%s)' % (k, ','.join(describe(m) for m in spec['m']),
                             (';' + ','.join('%s@%s' % (b['k'], b['v'][0]) for b in spec['b'])) if 'b' in spec else '')
    return k


def known_flags(spec):
    """Known findings that can affect a fit with this transition model."""
    ks = set(ref.kinds(spec))
    f = []
    if ks & {'cp', 'change'}:
        f.append('K1')
    if 'change' in ks:
        f.append('K5')
    return f


# ------------------------------------------------------------------------------------------------- time stamps, studies
def gen_timestamps(rng, n, kinds=('none', 'none', 'offset', 'gaps', 'dyadic', 'neg')):
    k = pick(rng, kinds)
    if k == 'none':
        return None
    if k == 'offset':
        return np.arange(n) + int(rng.integers(1, 2000))
    if k == 'neg':
        return np.arange(n) - int(rng.integers(1, 20))
    if k == 'gaps':
        return np.cumsum(rng.integers(1, 5, n)) + int(rng.integers(-5, 100))
    if k == 'seven':
        return np.arange(n) + 7
    if k == 'dyadic':
        return np.arange(n) * 0.25 + 10.5
    if k == 'decimal':      # not exact in binary
        return np.arange(n) * pick(rng, [0.1, 0.01, 1. / 3., 1. / 12., 1e-6, 0.7]) + pick(rng, [0., 0., 0.3, 2016.1, -0.7])
    raise ValueError(k)


def formatted(ts, n, seg):
    ts = np.arange(n) if ts is None else np.asarray(ts)
    return list(ts[seg - 1:])


RAW = [False]       # hand over exactly the data object of the scenario


def mixed(x):
    """Nested lists of Python numbers, integral values as int."""
    if np.ndim(x):
        return [mixed(y) for y in x]
    x = x.item() if isinstance(x, np.generic) else x
    return int(x) if isinstance(x, float) and np.isfinite(x) and x == int(x) else x


def represent(data):
    """The same data in another container; the choice depends on the data only, so that repeated builds agree."""
    if not isinstance(data, np.ndarray) or data.dtype == object:
        return data
    h = zlib.crc32(np.ascontiguousarray(data).tobytes()) % 12
    if h == 0:
        return mixed(data)
    if h == 1:
        return data.tolist()
    if h == 2:
        return [np.array(x) if np.ndim(x) else x for x in data]
    if h == 3:
        return np.asfortranarray(data)
    if h == 4:
        return np.repeat(data, 2, axis=0)[::2]
    return data


def make_study(rng, om, tm_obj, data, ts=None, cls=None, silent=None):
    """Study with data and models set, through randomly chosen (equivalent) API routes."""
    if not RAW[0]:
        data = represent(data)
    B = bl()
    cls = cls or B.Study
    silent = chance(rng, 0.8) if silent is None else silent
    S = cls(silent=silent)
    steps = ['data', 'om', 'tm']
    r = rng.random()
    if r < 0.3:
        steps = ['om', 'tm', 'data']
    elif r < 0.5:
        steps = ['data', 'tm', 'om']
    elif r < 0.6:
        steps = ['tm', 'om', 'data']
    omo = om.build()
    both = chance(rng, 0.2)
    done = False
    for s in steps:
        if s == 'data':
            load = S.loadData if chance(rng, 0.5) else S.load
            tsa = ts if ts is None or chance(rng, 0.7) else list(ts)
            if ts is None:
                load(data, silent=silent)
            else:
                load(data, timestamps=tsa, silent=silent)
        elif both:
            if not done:
                S.set(omo, tm_obj, silent=silent) if chance(rng, 0.7) else S.set(tm_obj, omo, silent=silent)
                done = True
        elif s == 'om':
            pick(rng, [S.setOM, S.setObservationModel, S.set])(omo, silent=silent)
        else:
            pick(rng, [S.setTM, S.setTransitionModel, S.set])(tm_obj, silent=silent)
    return S


# ------------------------------------------------------------------------------------------------- comparison helpers
def match(rec, monitor, compare, flags=(), stable=None):
    """compare(set of active known deviations) raises Violation; the correct behaviour is tried first. A mismatch only
    counts if the reference itself is well-conditioned for this input (stable())."""
    import itertools
    from engine import Violation
    first = None
    flags = list(flags)
    for r in range(len(flags) + 1):
        for sub in itertools.combinations(flags, r):
            try:
                compare(frozenset(sub))
            except Violation as v:
                if first is None:
                    first = v
                continue
            for k in sub:
                rec.known_finding(k)
            return sub
    if stable is not None and not stable():
        rec.count('ill_conditioned_input_not_judged')
        return None
    raise first


def arity(fn, n):
    """fn(data, *parameters) as a function with n named parameters (the library counts them)."""
    return {1: lambda data, a: fn(data, a), 2: lambda data, a, b: fn(data, a, b), 3: lambda data, a, b, c: fn(data, a, b, c)}[n]
