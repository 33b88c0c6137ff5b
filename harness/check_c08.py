"""C08: parameter priors are used as given, in every form."""
import numpy as np
from scipy import stats

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance
from online import *
from studies import *

CHECK = Check('C08', 'distinct (form of the prior, grid shape, study type, transition model, scale) combinations compared',
              ['scipy.stats densities are right', 'the prior is observed in fits with missing or uninformative data'])
CHECK.required = ['start', 'reset', 'equivalent_forms', 'prior_untouched', 'refused', 'usable_after_refusal', 'any_smooth_distributions', 'any_filter_distributions',
                  'any_hyper_posterior', 'any_cp_posterior', 'any_online_parameters', 'mass']
FORMS = ['default', 'none', 'array', 'intarray', 'array1', 'func', 'const', 'sympy', 'f32', 'forder', 'zeros']


def fingerprint(obj):
    if isinstance(obj, np.ndarray):
        return (obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, (list, tuple)):
        return tuple(map(repr, obj))
    return repr(obj)


def scaled_prior(rng, om, form):
    """More extreme scales and memory layouts."""
    shape = om.shape
    lcs = [ref.lattice_constant(g) for g in om.grids]
    f = 10. ** pick(rng, [-200., -30., -3., 0., 5., 30., 200.])
    a = rng.random(shape) + 0.05
    if chance(rng, 0.4):
        a[rng.random(shape) < 0.4] = 0.
        a.flat[rng.integers(a.size)] = 1.
    if form == 'scaled':
        obj = a * f
    elif form == 'strided':
        big = np.zeros(tuple(2 * n for n in shape))
        big[tuple(slice(None, None, 2) for _ in shape)] = a
        obj = big[tuple(slice(None, None, 2) for _ in shape)]
    elif form == 'readonly':
        obj = a.copy()
        obj.flags.writeable = False
    elif form == 'bool':
        obj = a > 0.3
        if not obj.any():
            obj[...] = True
        a = obj.astype(float)
    elif form == 'uint8':
        obj = rng.integers(0, 255, shape).astype(np.uint8)
        obj.flat[0] = 255
        a = obj.astype(float)
    elif form == 'scaledfunc':
        d = len(shape)
        c, w = om.grids[0][0], abs(om.grids[0][-1] - om.grids[0][0]) + 1e-9
        h = lambda x: f * (0.1 + np.abs((x - c) / w))
        obj = {1: lambda a: h(a), 2: lambda a, b: h(a), 3: lambda a, b, c: h(a)}[d]
        a = h(om.mesh[0]) * np.ones(shape)
    elif form == 'intfunc':
        obj = {1: lambda a: np.ones(np.shape(a), dtype=int) * 3, 2: lambda a, b: np.ones(np.shape(a), dtype=int) * 3,
               3: lambda a, b, c: np.ones(np.shape(a), dtype=int) * 3}[len(shape)]
        a = np.ones(shape)
    om.prior = gen.PriorSpec(form, obj, gen.normed(a, lcs))
    return om


EXTRA = ['scaled', 'strided', 'readonly', 'bool', 'uint8', 'scaledfunc', 'intfunc']


@CHECK.gen(500, 10000)
def start_and_reset(rng, rec, i):
    """The analysis starts from, and every reset returns to, exactly the given prior."""
    form = (FORMS + EXTRA)[i % (len(FORMS) + len(EXTRA))]
    if form in FORMS:
        om = gen.gen_om(rng, prior_kinds=[form], kinds=None if chance(rng, 0.4) else gen.CHEAP, irregular=0.2)
    else:
        om = scaled_prior(rng, gen.gen_om(rng, prior_kinds=['none'], kinds=gen.CHEAP, irregular=0.2), form)
    before = fingerprint(om.prior.obj)
    T = int(rng.integers(3, 7))
    d = np.array(om.data(rng, T + om.seg - 1), dtype=float)
    d[...] = np.nan
    ts = gen.gen_timestamps(rng, len(d), ('none', 'offset', 'gaps'))
    tsf = gen.formatted(ts, len(d), om.seg)
    k = int(rng.integers(0, T - 1))
    B = gen.bl()
    reset = pick(rng, ['cp', 'indep', 'serial'])
    tm = {'cp': lambda: B.tm.CombinedTransitionModel(B.tm.RegimeSwitch('p', -np.log10(np.prod([ref.lattice_constant(g) for g in om.grids])) - 1.),
                                                     B.tm.ChangePoint('t', tsf[k])),
          'indep': lambda: B.tm.Independent(),
          'serial': lambda: B.tm.SerialTransitionModel(B.tm.RegimeSwitch('p', 0.), B.tm.ChangePoint('t', tsf[k]), B.tm.Static())}[reset]()
    S = gen.make_study(rng, om, tm, d, ts)
    want = om.prior.density / om.prior.density.sum()
    mass = om.prior.density.sum() * np.prod([ref.lattice_constant(g) for g in om.grids])
    for rep in range(2):
        fit(rng, S, forwardOnly=True)
        if form == 'sympy' and not mass > 1e-250:
            return
        rec.close('start', S.posteriorSequence[0], want, 'first distribution, prior: %s %s' % (om.prior.kind, om.describe()))
        rec.close('mass', S.localEvidence[0], mass, 'prior mass on the grid, prior: %s' % om.prior.kind, rtol=1e-9)
        if form != 'sympy':
            rec.close('mass', mass, 1., 'normalisation')
        for j in range(1, T):
            if reset == 'indep' or j == k + 1:
                rec.close('reset', S.posteriorSequence[j], want, 'distribution after reset (%s), prior: %s' % (reset, om.prior.kind))
    rec.check('prior_untouched', fingerprint(om.prior.obj) == before, 'prior object was modified (%s)' % om.prior.kind)
    rec.situation('start', om.describe(), reset)


@CHECK.gen(360, 8000)
def all_studies(rng, rec, i):
    kind = ['study', 'hyper', 'cp', 'online'][i % 4]
    form = FORMS[(i // 4) % len(FORMS)]
    c = None
    while c is None or 'K5' in c.s.flags:
        c = online_case(rng, prior_kinds=[form], prior=False, hyper=0.) if kind == 'online' else any_case(rng, kinds=(kind,), prior_kinds=[form])
    before = fingerprint(c.s.om.prior.obj)
    S = c.build(rng)
    rc = None
    if kind == 'online':
        rc = record(rng, S, c)
    else:
        c.run(rng, S)
        if chance(rng, 0.3):
            c.run(rng, S)
    check_any(rec, rng, S, c, rc, mon='any')
    rec.check('prior_untouched', fingerprint(c.s.om.prior.obj) == before, 'prior object was modified')
    rec.situation(kind, form, c.describe())


@CHECK.gen(150, 3000)
def equivalent_forms(rng, rec, i):
    """The same prior as array, function, differently scaled array, ... gives the same results."""
    s = scenario(rng, prior_kinds=['array'], depth=1, om_kinds=None if chance(rng, 0.3) else gen.CHEAP)
    om = s.om
    a = om.prior.obj.copy()
    d = len(om.shape)
    it = {'array': a, 'scaled': a * 37.5, 'normed': a / a.sum(), 'forder': np.asfortranarray(a), 'f64': a.astype(np.longdouble),
          'func': {1: lambda x: a, 2: lambda x, y: a, 3: lambda x, y, z: a}[d],
          'func2': {1: lambda x: a * 1e-5, 2: lambda x, y: a * 1e-5, 3: lambda x, y, z: a * 1e-5}[d]}
    flat = chance(rng, 0.3)
    if flat:
        it = {'none': None, 'ones': np.ones(om.shape), 'ints': np.full(om.shape, 3), 'func': {1: lambda x: 1, 2: lambda x, y: 1., 3: lambda x, y, z: 2}[d],
              'funcarr': {1: lambda x: np.ones_like(x), 2: lambda x, y: np.ones_like(y), 3: lambda x, y, z: np.ones_like(z)}[d],
              'bool': np.ones(om.shape, dtype=bool)}
    mode = pick(rng, ['complete', 'forward'])
    base = None
    for k, obj in it.items():
        om.prior = gen.PriorSpec(k, obj, om.prior.density)
        S = gen.make_study(rng, om, gen.build_tm(s.spec, om.names), s.data, s.ts)
        fit_mode(rng, S, mode)
        r = (S.logEvidence, np.array(S.posteriorSequence), np.array(S.localEvidence))
        if base is None:
            base = r
            continue
        if not np.isfinite(base[0]):
            rec.check('equivalent_forms', r[0] == base[0], 'impossible data')
            continue
        try:
            rec.close('equivalent_forms', r[0], base[0], 'evidence, prior as %s' % k, rtol=1e-9, atol=1e-8)
            rec.close('equivalent_forms', r[1], base[1], 'distributions, prior as %s %s' % (k, describe(s)), rtol=1e-6, atol=1e-9)
        except Exception:
            if stable_fit(s)():
                raise
            rec.count('ill_conditioned_input_not_judged')
            return
    rec.situation('forms', describe(s), mode, flat)


@CHECK.gen(160, 3000)
def refused(rng, rec, i):
    """Priors of wrong shape or number or with free symbols are refused; a study is usable afterwards with a proper prior."""
    import sympy
    import sympy.stats as st
    B = gen.bl()
    s = scenario(rng, prior_kinds=['none'], depth=1, om_kinds=gen.CHEAP, T=int(rng.integers(2, 6)), missing=0.)
    om = s.om
    d = len(om.shape)
    bad = [np.ones(tuple(n + 1 for n in om.shape)), np.ones(om.shape + (2,)), np.ones(int(np.prod(om.shape)) + 1),
           np.ones(tuple(om.shape[:-1]) + (om.shape[-1] + 3,)), np.ones(om.shape[0] + 1 if d == 1 else om.shape[0]),
           [st.Normal('q%d' % k, 0, 1) for k in range(d + 1)],
           [st.Normal('q%d' % k, 0, sympy.Symbol('s', positive=True)) for k in range(d)],
           [0.5] * d, [lambda x: 1.] * d]
    if d > 1:
        bad += [st.Normal('q', 0, 1), [st.Normal('q', 0, 1)] * (d - 1), np.ones(om.shape[::-1]) if om.shape != om.shape[::-1] else np.ones(3)]
    b = bad[i % len(bad)]
    om.prior = gen.PriorSpec('bad', b, om.prior.density)
    kind = pick(rng, ['study', 'hyper', 'online'])
    if kind == 'hyper' and points_collide(s.spec, s.tsf):
        kind = 'study'
    from bayesloop.exceptions import ConfigurationError as E
    if kind == 'online':
        S = B.OnlineStudy(silent=True)

        def go():
            S.set(om.build(), gen.build_tm(s.spec, om.names), silent=True)
            for x in s.data[:om.seg]:
                S.step(np.array(x) if np.ndim(x) else x)
        rec.raises('refused', E, go, 'prior %.60r for grid %s' % (b, om.shape))
        return
    S = gen.make_study(rng, om, gen.build_tm(s.spec, om.names), s.data, s.ts, cls=B.Study if kind == 'study' else B.HyperStudy)
    rec.raises('refused', E, lambda: fit(rng, S), 'prior %.60r for grid %s' % (b, om.shape))
    om.prior = gen.PriorSpec('none', None, om.prior.density)
    S.set(om.build(), silent=True)
    fit(rng, S, forwardOnly=True)
    check_filter(rec, S, s, False, mon='after_refusal')
    rec.count('usable_after_refusal')
    rec.situation('refused', i % len(bad), om.shape, kind)


class Pmf(object):
    def __init__(self, d):
        self.pdf = d.pmf


@CHECK.gen(80, 1200)
def sympy_density(rng, rec, i):
    """SymPy priors enter with their density, parameter by parameter, in the order of the parameters."""
    import sympy.stats as st
    B = gen.bl()
    d = pick(rng, [1, 2, 3])
    grids, rvs, dens = [], [], []
    for k in range(d):
        n = int(rng.integers(3, 9))
        o = pick(rng, ['norm', 'exp', 'gamma', 'unif', 'beta', 'laplace', 'cauchy', 'poisson', 'geom', 'student', 'lognorm', 'weibull', 'chi2'])
        if o == 'norm':
            m, w = round(rng.uniform(-2, 2), 3), round(rng.uniform(0.3, 2), 3)
            grids.append(np.linspace(-3, 3, n)); rvs.append(st.Normal('a%d' % k, m, w)); dens.append(stats.norm(m, w))
        elif o == 'exp':
            r = round(rng.uniform(0.2, 3), 3)
            grids.append(np.linspace(0.1, 4, n)); rvs.append(st.Exponential('a%d' % k, r)); dens.append(stats.expon(scale=1. / r))
        elif o == 'gamma':
            a, th = int(rng.integers(1, 5)), round(rng.uniform(0.3, 2), 3)
            grids.append(np.linspace(0.1, 5, n)); rvs.append(st.Gamma('a%d' % k, a, th)); dens.append(stats.gamma(a, scale=th))
        elif o == 'unif':
            grids.append(np.linspace(-1, 2, n)); rvs.append(st.Uniform('a%d' % k, -2, 3)); dens.append(stats.uniform(-2, 5))
        elif o == 'beta':
            a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            grids.append(np.linspace(0.05, 0.95, n)); rvs.append(st.Beta('a%d' % k, a, b)); dens.append(stats.beta(a, b))
        elif o == 'laplace':
            m, w = round(rng.uniform(-2, 2), 3), round(rng.uniform(0.3, 2), 3)
            grids.append(np.linspace(-3, 3, n)); rvs.append(st.Laplace('a%d' % k, m, w)); dens.append(stats.laplace(m, w))
        elif o == 'poisson':
            m = round(rng.uniform(0.5, 6), 3)
            grids.append(np.arange(n) + float(rng.integers(0, 3))); rvs.append(st.Poisson('a%d' % k, m)); dens.append(Pmf(stats.poisson(m)))
        elif o == 'geom':
            m = round(rng.uniform(0.1, 0.9), 3)
            grids.append(np.arange(n) + 1.); rvs.append(st.Geometric('a%d' % k, m)); dens.append(Pmf(stats.geom(m)))
        elif o == 'student':
            m = round(rng.uniform(1., 6), 3)
            grids.append(np.linspace(-3, 3, n)); rvs.append(st.StudentT('a%d' % k, m)); dens.append(stats.t(m))
        elif o == 'lognorm':
            m, w = round(rng.uniform(-1, 1), 3), round(rng.uniform(0.3, 2), 3)
            grids.append(np.linspace(0.1, 4, n)); rvs.append(st.LogNormal('a%d' % k, m, w)); dens.append(stats.lognorm(w, scale=np.exp(m)))
        elif o == 'weibull':
            m, w = round(rng.uniform(0.5, 3), 3), round(rng.uniform(0.6, 3), 3)
            grids.append(np.linspace(0.1, 4, n)); rvs.append(st.Weibull('a%d' % k, m, w)); dens.append(stats.weibull_min(w, scale=m))
        elif o == 'chi2':
            m = int(rng.integers(1, 7))
            grids.append(np.linspace(0.1, 4, n)); rvs.append(st.ChiSquared('a%d' % k, m)); dens.append(stats.chi2(m))
        else:
            m, w = round(rng.uniform(-2, 2), 3), round(rng.uniform(0.3, 2), 3)
            grids.append(np.linspace(-3, 3, n)); rvs.append(st.Cauchy('a%d' % k, m, w)); dens.append(stats.cauchy(m, w))
    mesh = np.meshgrid(*grids, indexing='ij')
    want = np.prod([f.pdf(x) for f, x in zip(dens, mesh)], axis=0)
    fns = {1: lambda data, a: a * 0 + 1., 2: lambda data, a, b: a * 0 + 1., 3: lambda data, a, b, c: a * 0 + 1.}
    prior = rvs[0] if d == 1 and chance(rng, 0.5) else (rvs if chance(rng, 0.5) else tuple(rvs))
    om = B.om.NumPy(fns[d], *[x for j, g in enumerate(grids) for x in ('p%d' % j, g)], prior=prior)
    S = B.Study(silent=True)
    S.load(np.zeros(2), silent=True)
    S.set(om, B.tm.Static(), silent=True)
    S.fit(forwardOnly=True, silent=True)
    vol = np.prod([g[1] - g[0] for g in grids])
    rec.close('start', S.posteriorSequence[0], want / want.sum(), 'distribution from SymPy prior')
    rec.close('mass', np.exp(S.logEvidence), want.sum() * vol, 'evidence contains the density of the SymPy prior', rtol=1e-7)
    rec.situation('sympy', d, [len(g) for g in grids], [str(r) for r in rvs])


@CHECK.gen(1, 1)
def known_change_point_scale(rng, rec, i):
    """Deterministic trigger of K1."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    s = scenario(rng, om=om, T=6, ts_kinds=('none',), spec={'k': 'cp', 'n': ['tc'], 'v': [2], 'pr': [None]}, missing=0.)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S, forwardOnly=True)
    check_filter(rec, S, s, False)
