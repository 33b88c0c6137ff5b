"""C02: smoothed distributions use all data exactly."""
import numpy as np

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance

CHECK = Check('C02', 'distinct (observation model, grid, prior kind, transition model structure, time stamps, data layout) '
              'combinations whose smoothed sequence was compared step by step',
              ['reference two-filter recursion is right (cross-checked by path enumeration)',
               'combined models apply their parts in listed order in both directions (pinned by the test suite)'])
CHECK.required = ['smooth_distributions', 'smooth_means', 'smooth_local_evidence', 'paths_distributions', 'last_is_filtering',
                  'leave_one_out', 'getters_distributions', 'outliers']


def run(rng, rec, s, last=None):
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    if chance(rng, 0.15):
        fit(rng, S, evidenceOnly=True)            # earlier fits must not matter
    fit(rng, S)
    check_smooth(rec, S, s)
    if np.isfinite(S.logEvidence):
        check_getters(rec, S, s, S.posteriorSequence, S.posteriorMeanValues, rng)
        if chance(rng, 0.4) if last is None else last:
            p, m, e = S.posteriorSequence[-1].copy(), np.array(S.posteriorMeanValues)[:, -1].copy(), S.logEvidence
            fit(rng, S, forwardOnly=True)
            rec.close('last_is_filtering', p, S.posteriorSequence[-1], 'last time step of complete and forward-only fit ' + describe(s))
            rec.close('last_is_filtering', m, np.array(S.posteriorMeanValues)[:, -1], 'last mean of complete and forward-only fit')
            rec.close('last_is_filtering', e, S.logEvidence, 'evidence of complete and forward-only fit')
    rec.situation(describe(s))


@CHECK.gen(900, 20000)
def random_models(rng, rec, i):
    run(rng, rec, scenario(rng, depth=pick(rng, [0, 1, 1, 2])))


@CHECK.gen(250, 5000)
def irregular_times(rng, rec, i):
    """Transition models that look at the time, on irregular time stamps."""
    k = {'cp', 'det', 'static', 'grw', 'indep'}
    s = scenario(rng, T=int(rng.integers(3, 14)), ts_kinds=('gaps', 'gaps', 'offset', 'neg', 'dyadic', 'decimal', 'decimal'), tm_kinds=k,
                 depth=1, serial=chance(rng, 0.5), om_kinds=gen.CHEAP)
    run(rng, rec, s)


@CHECK.gen(40, 600)
def large(rng, rec, i):
    run(rng, rec, scenario(rng, size='large', ndim=pick(rng, [1, 2]), T=int(rng.integers(20, 120)), depth=1,
                           om_kinds=gen.CHEAP))


@CHECK.gen(20, 300)
def long(rng, rec, i):
    om = gen.gen_om(rng, kinds=['white', 'gaussian', 'poisson'], size='small', irregular=0.)
    run(rng, rec, scenario(rng, om=om, T=int(rng.integers(150, 400)), depth=0, missing=pick(rng, [0., 0.1]),
                           tm_kinds={'static', 'grw', 'regime', 'cp', 'indep'}), last=True)


@CHECK.gen(100, 2000)
def outliers(rng, rec, i):
    """Single data points that are very unlikely under every parameter value, but not impossible."""
    s = scenario(rng, om_kinds=OUTLIER_KINDS, depth=pick(rng, [0, 0, 1]), T=int(rng.integers(2, 10)), outliers=pick(rng, [1, 1, 2]), missing=pick(rng, [0., 0.1]),
                 tm_kinds=pick(rng, [None, {'static', 'grw', 'cp', 'indep'}]))
    rec.count('outliers')
    run(rng, rec, s)


@CHECK.gen(120, 3000)
def paths(rng, rec, i):
    """Brute force over all parameter paths."""
    s = scenario(rng, size='tiny', ndim=pick(rng, [1, 1, 2]), T=int(rng.integers(1, 6)), om_kinds=gen.CHEAP,
                 tm_kinds={'static', 'grw', 'cp', 'indep'}, depth=1, composite=0.5)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)

    def compare(active):
        if 'K5' in active:
            r = ref.smoothing(s.spec, s.liks, s.tsf, s.om.ctx(active))
            rec.close('paths_distributions', S.posteriorSequence, r['post'], 'smoothed distributions')
            return
        tot, post = ref.enumerate_paths(s.spec, s.liks, s.tsf, s.om.ctx(active))
        if tot == -np.inf:
            rec.check('paths_impossible', S.logEvidence == -np.inf, 'impossible data')
        else:
            rec.close('paths_distributions', S.posteriorSequence, post, 'conditional distributions (sum over all paths) ' + describe(s))
    gen.match(rec, 'paths', compare, [f for f in s.flags if f == 'K5'], stable_fit(s))
    rec.situation('paths', describe(s))


@CHECK.gen(120, 3000)
def leave_one_out(rng, rec, i):
    """Local evidence is p(data point | all others): ratio of two evidences, one with the point declared missing."""
    kinds = {1: ['bernoulli', 'poisson', 'white', 'gmean', 'table1', 'scipy1', 'bound1'], 2: ['gaussian', 'laplace', 'table2', 'bound2'], 3: ['table3']}
    s = scenario(rng, om_kinds=kinds, missing=0., multidim=False, T=int(rng.integers(2, 9)),
                 tm_kinds={'static', 'grw', 'cp', 'indep'}, depth=1, composite=0.3)
    if 'K5' in s.flags or 'comb' in ref.kinds(s.spec):
        s.spec = {'k': 'grw', 'n': ['s'], 'v': [ref.lattice_constant(s.om.grids[0])], 'pr': [None], 'ax': 0}
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)
    if not np.isfinite(S.logEvidence) or not positive_liks(s):
        return
    e, loc = S.logEvidence, np.array(S.localEvidence)
    k = int(rng.integers(s.T))
    d = np.array(s.data, dtype=float)
    d[k] = np.nan
    S2 = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), d, s.ts)
    fit(rng, S2, evidenceOnly=True)
    rec.close('leave_one_out', np.log(loc[k]), e - S2.logEvidence, 'log of local evidence at step %d vs ratio of evidences %s' % (k, describe(s)),
              rtol=1e-6, atol=1e-6)
    rec.situation('loo', describe(s))


@CHECK.gen(150, 3000)
def excluded_values(rng, rec, i):
    """Every observation excludes some values of the parameters (likelihood of zero)."""
    s = scenario(rng, om_kinds=gen.BOUND, ndim=pick(rng, [1, 1, 2, 3]), T=int(rng.integers(1, 10)), depth=pick(rng, [0, 1]), composite=0.3,
                 tm_kinds=None if chance(rng, 0.7) else {'grw', 'cp', 'indep'})
    if not any(np.any(l == 0) for l in s.liks):
        return
    run(rng, rec, s)
    rec.situation('excluded', describe(s))


@CHECK.gen(1, 1)
def known_serial_reset(rng, rec, i):
    """Deterministic trigger of K5 (serial change-point with a non-flat prior)."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    spec = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}], 'b': [{'k': 'change', 'n': ['tc'], 'v': [2], 'pr': [None]}]}
    s = scenario(rng, om=om, T=6, ts_kinds=('none',), spec=spec, missing=0.)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)
    check_smooth(rec, S, s)
