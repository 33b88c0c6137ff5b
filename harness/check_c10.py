"""C10: hyper-priors and hyper-parameter distributions refer to the right axes."""
import itertools

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation
from gen import pick, chance
from online import *
from readout import *
from studies import *

CHECK = Check('C10', 'distinct (nesting of models, hyper-parameter values, hyper-prior forms, order of names, study type) combinations compared',
              ['reference recursion of C01/C02', 'hyper-priors given as arrays, functions and SymPy random variables'])
CHECK.required = ['prior_marginal', 'prior_joint', 'prior_total', 'hpd_marginal', 'jhpd_marginal', 'hpd_values', 'jhpd_values', 'hyper_distribution', 'inputs_untouched',
                  'refused_name', 'refused_prior', 'refused_prior_number', 'refused_arguments', 'online_prior', 'plot_hpd', 'repeated_values', 'many_distribution']
KINDS = ['none', 'array', 'intarray', 'func', 'sympy', 'const']


def fingerprint(x):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(map(fingerprint, x))
    return repr(x)


def inputs(spec):
    return fingerprint([[v, None if p is None else p.obj] for _, v, p in ref.flat(spec)])


def more_values(rng, spec):
    """Other containers and number types for hyper-parameter values."""
    for m in spec.get('m', []):
        more_values(rng, m)
    for k, v in enumerate(spec.get('v', [])):
        if isinstance(v, str) or spec['k'] == 'cp' or not np.ndim(v):
            continue
        r = rng.random()
        if r < 0.3:
            spec['v'][k] = tuple(float(x) for x in v)
        elif r < 0.4:
            big = np.zeros(2 * len(v))
            big[::2] = v
            spec['v'][k] = big[::2]
        elif r < 0.5:
            a = np.array(v, float)
            a.flags.writeable = False
            spec['v'][k] = a
        elif r < 0.6:
            spec['v'][k] = [np.float64(x) for x in v]
    return spec


def build(rng, s, tm=None):
    return gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names) if tm is None else tm, s.data, s.ts, cls=gen.bl().HyperStudy)


def case(rng, **kw):
    s = hyper_scenario(rng, **kw)
    more_values(rng, s.spec)
    return s


@CHECK.gen(500, 10000)
def prior_only(rng, rec, i):
    """Without any data the distribution of the hyper-parameters is the hyper-prior."""
    kinds = {'grw', 'biv', 'det', 'static'}
    s = case(rng, lo=2, hi=60, depth=pick(rng, [0, 1, 2]), composite=0.7, T=int(rng.integers(1, 4)), tm_kinds=kinds, om_kinds=gen.CHEAP,
             hyper_prior_kinds=KINDS, max_values=pick(rng, [3, 5, 9]),
             ok=lambda s: not ('det' in ref.kinds(s.spec) and np.any(s.om.prior.density == 0.)))     # a distribution must not be shifted out of the grid
    s.data = np.array(s.data, dtype=float)
    s.data[...] = np.nan
    s.liks = s.om.liks(s.data)
    before = inputs(s.spec)
    S = build(rng, s)
    fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence']))
    combos, prior, consts, axes = ref.hyper_grid(s.spec, s.tsf)
    names = [n for n, _, _ in ref.flat(s.spec)]
    vol = np.prod(consts)
    mass = prior * vol
    pm = s.om.prior.density.sum() * np.prod([ref.lattice_constant(g) for g in s.om.grids])
    rec.close('prior_total', S.logEvidence, np.log(mass.sum() * pm), 'evidence is the total prior probability', rtol=1e-8, atol=1e-8)
    J = (mass / mass.sum()).reshape([len(a) for a in axes])
    for k in rng.permutation(len(names)):
        x, p = S.getHPD(names[k])
        rec.close('hpd_values', np.atleast_1d(np.asarray(x, float)), axes[k], 'values of ' + names[k], rtol=1e-12, atol=1e-300)
        rec.close('prior_marginal', np.atleast_1d(p), ref.marginal(J, k), 'distribution of %s without data %s' % (names[k], describe(s)))
    for a, b in itertools.permutations(range(len(names)), 2):
        x, y, p = S.getJHPD([names[a], names[b]])
        w = J.sum(axis=tuple(k for k in range(len(names)) if k not in (a, b)))
        rec.close('prior_joint', p, w if a < b else w.T, 'joint distribution of %s and %s without data' % (names[a], names[b]))
        rec.close('jhpd_values', np.asarray(x, float), axes[a], 'values', rtol=1e-12, atol=1e-300)
        rec.close('jhpd_values', np.asarray(y, float), axes[b], 'values', rtol=1e-12, atol=1e-300)
    rec.check('inputs_untouched', inputs(s.spec) == before, 'values or hyper-priors have been modified')
    rec.situation('prior', gen.describe(s.spec), [len(a) for a in axes], [None if p is None else p.kind for _, _, p in ref.flat(s.spec)])


@CHECK.gen(400, 8000)
def posterior(rng, rec, i):
    """Distributions by name, with data."""
    s = case(rng, lo=2, hi=24, depth=pick(rng, [0, 1, 2]), composite=0.6, T=int(rng.integers(1, 7)), om_kinds=gen.CHEAP, hyper_prior_kinds=KINDS, max_values=4,
             ok=lambda s: not s.flags)
    before = inputs(s.spec)
    c = Case('hyper', s)
    c.mode = pick(rng, ['complete', 'forward', 'evidence'])
    S = build(rng, s)
    for _ in range(pick(rng, [1, 1, 2])):
        fit_mode(rng, S, c.mode)
    if np.isneginf(S.logEvidence):
        return
    check_hyper(rec, S, s, c.mode)
    check_hyper_readouts(rec, rng, S, c, plots=chance(rng, 0.25))
    rec.check('inputs_untouched', inputs(s.spec) == before, 'values or hyper-priors have been modified')
    rec.situation('posterior', gen.describe(s.spec), [np.size(v) for _, v, _ in ref.flat(s.spec)], c.mode)


@CHECK.gen(80, 1600)
def many_values(rng, rec, i):
    """One or two hyper-parameters with many (regular, irregular, unsorted, integer) values."""
    om = gen.gen_om(rng, ndim=1, kinds=['table1', 'gmean', 'np1', 'poisson'], size='small', prior_kinds=['none', 'array'], irregular=0.)
    lc = ref.lattice_constant(om.grids[0])
    axes = []
    m = pick(rng, [1, 2, 2])
    for j in range(m):
        n = int(rng.integers(5, 80 if m == 1 else 14))
        how = pick(rng, ['linear', 'log', 'random', 'descending', 'shuffled', 'linear'])
        v = np.linspace(0.1, 4., n)
        if how == 'log':
            v = np.exp(np.linspace(np.log(0.05), np.log(4.), n))
        elif how == 'random':
            v = np.unique(np.round(0.1 + 4. * rng.random(n), 3))
        elif how == 'descending':
            v = v[::-1].copy()
        elif how == 'shuffled':
            v = v[rng.permutation(n)]
        axes.append((v, gen.gen_hyper_prior(rng, v, KINDS)))
    grw = {'k': 'grw', 'n': ['s'], 'v': [axes[0][0] * lc], 'pr': [gen.gen_hyper_prior(rng, axes[0][0] * lc, KINDS)], 'ax': 0}
    spec = grw
    if m == 2:
        vol = np.log10(lc * len(om.grids[0]))
        v = -axes[1][0] - vol
        reg = {'k': 'regime', 'n': ['p'], 'v': [v], 'pr': [gen.gen_hyper_prior(rng, v, KINDS)]}
        spec = {'k': pick(rng, ['comb']), 'm': [grw, reg] if chance(rng, 0.5) else [reg, grw]}
    s = scenario(rng, om=om, T=int(rng.integers(1, 4)), spec=spec, missing=pick(rng, [0., 1.]))
    before = inputs(s.spec)
    c = Case('hyper', s)
    c.mode = pick(rng, ['complete', 'forward', 'evidence'])
    S = build(rng, s)
    fit_mode(rng, S, c.mode)
    if np.isneginf(S.logEvidence):
        return
    check_hyper(rec, S, s, c.mode, mon='many')
    check_hyper_readouts(rec, rng, S, c, plots=chance(rng, 0.1))
    rec.check('inputs_untouched', inputs(s.spec) == before, 'values or hyper-priors have been modified')
    rec.situation('many', gen.describe(s.spec), [np.size(v) for _, v, _ in ref.flat(s.spec)], [None if p is None else p.kind for _, _, p in ref.flat(s.spec)], c.mode)


@CHECK.gen(120, 2400)
def online_prior(rng, rec, i):
    """Hyper-priors of online studies."""
    c = online_case(rng, hyper=1., hyper_prior_kinds=['none', 'array', 'intarray', 'func', 'const'], tm_kinds={'grw', 'biv', 'det', 'static'}, depth=pick(rng, [0, 1]),
                    T=int(rng.integers(1, 4)), hi=20, prior=False)
    c.s.data = np.array(c.s.data, dtype=float)
    c.s.data[...] = np.nan
    before = [inputs(sp) for sp in c.specs]
    S = c.build(rng)
    c.run(rng, S)
    if len(c.s.data) < c.s.om.seg or c.s.flags or np.isneginf(S.logEvidence):
        return
    for sp in c.specs:
        combos, prior, consts, axes = ref.hyper_grid(sp, c.s.tsf)
        if not axes:
            continue
        J = (prior / prior.sum()).reshape([len(a) for a in axes])
        for k, (n, v, _) in enumerate(ref.flat(sp)):
            x, p = S.getCHPD(n)
            rec.close('online_prior', np.atleast_1d(p), ref.marginal(J, k), 'online distribution of %s without data' % n)
            rec.close('online_values', np.atleast_1d(np.asarray(x, float)), axes[k], 'values of ' + n, rtol=1e-12, atol=1e-300)
    rec.check('inputs_untouched', [inputs(sp) for sp in c.specs] == before, 'values or hyper-priors have been modified')
    rec.situation('online', c.describe())


@CHECK.gen(100, 2000)
def refusals(rng, rec, i):
    """Wrong names, wrong numbers of names and priors of wrong length."""
    B = gen.bl()
    from bayesloop.exceptions import ConfigurationError, PostProcessingError
    import sympy
    import sympy.stats as st
    s = case(rng, lo=2, hi=12, depth=1, T=int(rng.integers(2, 5)), om_kinds=gen.CHEAP, tm_kinds={'grw', 'det', 'regime', 'biv', 'static'}, ok=lambda s: len(ref.flat(s.spec)) > 0)
    names = [n for n, _, _ in ref.flat(s.spec)]
    S = build(rng, s)
    fit_mode(rng, S, 'evidence')
    if np.isneginf(S.logEvidence):
        return
    for f in (S.getHPD, S.getHyperParameterDistribution):
        rec.raises('refused_name', PostProcessingError, lambda: f('nosuchname'), 'unknown hyper-parameter')
        rec.raises('refused_name', PostProcessingError, lambda: f(s.om.names[0]), 'name of a parameter')
        rec.raises('refused_name', PostProcessingError, lambda: f(names[0] + ' '), 'unknown hyper-parameter')
    rec.raises('refused_name', PostProcessingError, lambda: S.getHyperParameterValue('nosuchname'), 'unknown hyper-parameter')
    for f in (S.getJHPD, S.getJointHyperParameterDistribution):
        rec.raises('refused_arguments', PostProcessingError, lambda: f([names[0]]), 'one name')
        rec.raises('refused_arguments', PostProcessingError, lambda: f([names[0], 'nosuchname']), 'unknown name')
        rec.raises('refused_arguments', PostProcessingError, lambda: f([names[0]] * 3), 'three names')
        rec.raises('refused_arguments', PostProcessingError, lambda: f(3), 'no names')
    for k, n in enumerate(names):
        x, p = S.getHPD(n)
        rec.dist('still_usable', np.atleast_1d(p), msg='distribution after refused requests')
    vals = np.linspace(0.1, 1., int(rng.integers(2, 6))) * abs(s.om.grids[0][1] - s.om.grids[0][0])
    bad = [np.ones(len(vals) + 1), np.ones(len(vals) - 1), st.Normal('q', 0, sympy.Symbol('w', positive=True))]
    b = pick(rng, bad)
    tm = B.tm.GaussianRandomWalk('w', vals, target=s.om.names[0], prior=b)
    if chance(rng, 0.4):
        tm = B.tm.CombinedTransitionModel(B.tm.Static(), tm)
    S2 = build(rng, s, tm=tm)
    rec.raises('refused_prior', ConfigurationError, lambda: fit_mode(rng, S2, 'evidence'), 'hyper-prior %.60r for %d values' % (b, len(vals)))
    # one hyper-prior for each hyper-parameter is needed
    f = pick(rng, [lambda x: 1. + x * x, np.ones(len(vals)), st.Normal('q', 0, 1)])
    one = [vals[:1], vals][:: pick(rng, [1, -1])] if chance(rng, 0.5) else [vals, vals]
    tms = [lambda: B.tm.AlphaStableRandomWalk('w', one[0], 'a', one[1], target=s.om.names[0], prior=pick(rng, [f, [f], (f,), [f, None, None]])),
           lambda: B.tm.Deterministic(lambda t, w=one[0], a=one[1]: w * t + a, target=s.om.names[0], prior=pick(rng, [lambda x: 1. + x, st.Normal('q', 0, 1)]))]
    if len(s.om.names) == 2:
        tms.append(lambda: B.tm.BivariateRandomWalk('w', one[0], 'a', one[1], 'r', pick(rng, [0., [0., 0.1]]), prior=pick(rng, [f, [f], [f, None], [None] * 4])))
    tm = pick(rng, tms)()
    if chance(rng, 0.3):
        tm = B.tm.CombinedTransitionModel(tm, B.tm.RegimeSwitch('pm', pick(rng, [-3., [-3., -2.]])))
    S2.set(tm, silent=True)
    mode = pick(rng, ['evidence', 'forward', 'complete'])
    rec.raises('refused_prior_number', ConfigurationError, lambda: fit_mode(rng, S2, mode), 'wrong number of hyper-priors')
    S2.set(B.tm.GaussianRandomWalk('w', vals, target=s.om.names[0], prior=np.arange(len(vals)) + 1.), silent=True)
    fit_mode(rng, S2, 'evidence')
    rec.count('usable_after_refusal')
    rec.situation('refused', gen.describe(s.spec), len(vals))


@CHECK.gen(100, 2000)
def repeated(rng, rec, i):
    """Changing order of parts permutes the axes, nothing else (parts act on different parameters, so they commute)."""
    B = gen.bl()
    om = gen.gen_om(rng, ndim=2, kinds=['table2'], irregular=0., prior_kinds=['array', 'none'])
    s = scenario(rng, om=om, T=int(rng.integers(2, 6)), spec={'k': 'static'}, missing=0.)
    lc = [ref.lattice_constant(g) for g in om.grids]
    va = np.round(np.sort(rng.uniform(0.2, 2., int(rng.integers(1, 5)))), 3) * lc[0]
    vb = np.round(np.linspace(0.3, 1.5, int(rng.integers(2, 5))), 3) * lc[1]
    pa = gen.gen_hyper_prior(rng, va, KINDS)
    pb = gen.gen_hyper_prior(rng, vb, KINDS)
    a = {'k': 'grw', 'n': ['ha'], 'v': [va], 'pr': [pa], 'ax': 0}
    b = {'k': 'grw', 'n': ['hb'], 'v': [vb], 'pr': [pb], 'ax': 1}
    st = {'k': 'static'}
    forms = [{'k': 'comb', 'm': [a, b]}, {'k': 'comb', 'm': [b, a]}, {'k': 'comb', 'm': [st, a, {'k': 'comb', 'm': [b]}]},
             {'k': 'comb', 'm': [{'k': 'comb', 'm': [{'k': 'comb', 'm': [b]}, st]}, a]}]
    res = []
    mode = pick(rng, ['complete', 'forward'])
    for f in forms:
        s.spec = f
        S = build(rng, s)
        fit_mode(rng, S, mode)
        res.append(dict(e=float(S.logEvidence), A=np.atleast_1d(S.getHPD('ha')[1]), B=np.atleast_1d(S.getHPD('hb')[1]), J=S.getJHPD(['ha', 'hb'])[2],
                        K=S.getJHPD(['hb', 'ha'])[2].T, P=np.array(S.posteriorSequence)))
    for r in res:
        for k in r:
            rec.close('repeated_values', r[k], res[0]['J' if k == 'K' else k], 'result %s after permuting the parts' % k, rtol=1e-7, atol=1e-9)
    rec.situation('permuted', len(va), len(vb), mode, pa and pa.kind, pb and pb.kind)
