"""C01: filtering distributions and model evidence are exact on the grid."""
import numpy as np

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance

CHECK = Check('C01', 'distinct (observation model, grid, prior kind, transition model structure, time stamps, data layout) '
              'combinations whose forward recursion was compared step by step',
              ['reference recursion (explicit transition matrices, scipy.stats likelihoods) is right'])
CHECK.required = ['filter_log_evidence', 'filter_distributions', 'filter_local_evidence', 'filter_means', 'paths_evidence',
                  'evidence_modes_agree', 'outliers', 'conflicting',
                  'likelihood_types']


def run(rng, rec, s):
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    mode = pick(rng, ['forward', 'evidence', 'both', 'forward'])
    fit(rng, S, forwardOnly=mode in ('forward', 'both'), evidenceOnly=mode in ('evidence', 'both'))
    check_filter(rec, S, s, mode != 'forward')
    e = S.logEvidence
    # evidence must not depend on the mode of the fit
    fit(rng, S)
    if np.isfinite(e) and np.isfinite(S.logEvidence):
        rec.close('evidence_modes_agree', S.logEvidence, e, 'log-evidence of full fit vs %s' % mode, rtol=1e-10, atol=1e-9)
    if np.isfinite(e) and mode == 'forward':
        fit(rng, S, forwardOnly=True)
        check_getters(rec, S, s, S.posteriorSequence, S.posteriorMeanValues, rng)
    rec.situation(describe(s), mode)


@CHECK.gen(1200, 25000)
def random_models(rng, rec, i):
    run(rng, rec, scenario(rng, depth=pick(rng, [0, 1, 1, 2])))


@CHECK.gen(120, 2400)
def excluded_values(rng, rec, i):
    """Every observation excludes some values of the parameters (likelihood of zero)."""
    s = scenario(rng, om_kinds=gen.BOUND, ndim=pick(rng, [1, 1, 2, 3]), T=int(rng.integers(1, 10)), depth=pick(rng, [0, 1]), composite=0.3)
    run(rng, rec, s)


@CHECK.gen(40, 800)
def large(rng, rec, i):
    run(rng, rec, scenario(rng, size='large', ndim=pick(rng, [1, 2]), T=int(rng.integers(20, 120)), depth=1,
                           om_kinds=gen.CHEAP))


@CHECK.gen(25, 400)
def long_and_unlikely(rng, rec, i):
    """Log-evidence far below the range of floating point numbers, and far above."""
    om = gen.gen_om(rng, kinds=['white', 'gaussian', 'poisson'], size='small', irregular=0.)
    s = scenario(rng, om=om, T=int(rng.integers(150, 400)), depth=0, missing=pick(rng, [0., 0.1]), multidim=True,
                 tm_kinds={'static', 'grw', 'regime', 'cp', 'indep'})
    run(rng, rec, s)


@CHECK.gen(120, 2400)
def outliers(rng, rec, i):
    """Single data points that are very unlikely under every parameter value, but not impossible."""
    s = scenario(rng, om_kinds=OUTLIER_KINDS, depth=pick(rng, [0, 0, 1]), T=int(rng.integers(2, 10)), outliers=pick(rng, [1, 1, 2]), missing=pick(rng, [0., 0.1]),
                 tm_kinds=pick(rng, [None, {'static', 'grw', 'regime', 'cp', 'indep', 'noteq'}]))
    rec.count('outliers')
    run(rng, rec, s)


@CHECK.gen(40, 800)
def conflicting(rng, rec, i):
    """Parameter values that are all but excluded by some data and supported by later ones; up to several thousand grid points."""
    n = pick(rng, [[25], [300], [1500], [1100], [4000], [15, 12], [40, 40], [90, 60], [11, 10, 12]])
    lo, hi = -2., 6.
    names = list(pick(rng, gen.NAMES)[:len(n)])
    grids = [np.linspace(lo, hi, n[0])] + [np.linspace(0.5, 1.5, k) for k in n[1:]]
    scale = rng.uniform(0.5, 8.) / (hi - lo) ** 2 * 30.

    def lik(data, m, *a):
        z = -scale * (data - m) ** 2
        for k in a:
            z = z - 0.3 * (k - np.sin(data)) ** 2
        return np.exp(z)
    fn = {1: lambda data, m: lik(data, m), 2: lambda data, m, a: lik(data, m, a), 3: lambda data, m, a, b: lik(data, m, a, b)}[len(n)]

    def make(om):
        args = [x for p in zip(om.names, om.grids) for x in p]
        return gen.bl().om.NumPy(fn, *args)
    pr = gen.PriorSpec('none', None, gen.normed(np.ones(n), [ref.lattice_constant(g) for g in grids]))

    def sampler(rng, k):
        d = np.where(rng.random(k) < 0.5, lo, hi) + rng.normal(size=k) * 0.1
        d[0], d[1:3] = lo, hi
        return d
    om = gen.OM('conflict%d' % len(n), names, grids, grids, pr, make, lambda s, *m: fn(s[0], *m), sampler, multiply=False)
    T = int(rng.integers(3, 8))
    kinds = {'static', 'cp', 'indep'} if np.prod(n) > 1000 else {'static', 'cp', 'grw', 'regime', 'indep'}
    run(rng, rec, scenario(rng, om=om, T=T, depth=pick(rng, [0, 0, 1]), tm_kinds=kinds, missing=0., multidim=False))
    rec.count('conflicting')


@CHECK.gen(80, 1600)
def likelihood_types(rng, rec, i):
    """User-defined likelihoods that return single precision, integer or boolean values, values of any magnitude, read-only or
    repeatedly the same arrays."""
    om = gen.retype(rng, gen.gen_om(rng, kinds=['np1', 'np2', 'np3', 'table1', 'table2', 'table3']))
    run(rng, rec, scenario(rng, om=om, depth=pick(rng, [0, 0, 1])))
    rec.count('likelihood_types')


@CHECK.gen(150, 3000)
def paths(rng, rec, i):
    """Brute force over all parameter paths."""
    s = scenario(rng, size='tiny', ndim=pick(rng, [1, 1, 2]), T=int(rng.integers(1, 6)), om_kinds=gen.CHEAP,
                 tm_kinds={'static', 'grw', 'cp', 'indep'}, depth=1, composite=0.4)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S, evidenceOnly=True)

    def compare(active):
        tot, _ = ref.enumerate_paths(s.spec, s.liks, s.tsf, s.om.ctx(active))
        if tot == -np.inf:
            rec.check('paths_impossible', S.logEvidence == -np.inf, 'impossible data')
        else:
            rec.close('paths_evidence', S.logEvidence, tot, 'evidence as sum over all paths ' + describe(s), atol=1e-7)
    gen.match(rec, 'paths', compare, [f for f in s.flags if f == 'K1'], stable_fit(s))
    rec.situation('paths', describe(s))


@CHECK.gen(1, 1)
def known_change_point_scale(rng, rec, i):
    """Deterministic trigger of K1."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['none'], irregular=0.)
    for spec in ({'k': 'cp', 'n': ['tc'], 'v': [2], 'pr': [None]},
                 {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}],
                  'b': [{'k': 'change', 'n': ['tc'], 'v': [1], 'pr': [None]}]}):
        s = scenario(rng, om=om, T=6, ts_kinds=('none',), spec=spec, missing=0.)
        S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
        fit(rng, S, forwardOnly=True)
        check_filter(rec, S, s, False)
