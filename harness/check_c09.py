"""C09: a hyper-study averages all hyper-parameter combinations by their evidence."""
import numpy as np
from scipy.special import logsumexp

import gen
import ref
from common import *
from engine import Check, Violation
from gen import pick, chance
from studies import *

CHECK = Check('C09', 'distinct (transition model, hyper-parameter grid, hyper-prior, fit mode, data) combinations compared with the explicit average',
              ['reference recursion of C01/C02', 'combinations of up to a few hundred hyper-parameter values'])
CHECK.required = ['hyper_log_evidence', 'hyper_distribution', 'hyper_posterior', 'hyper_means', 'hyper_local_evidence', 'hyper_individual_evidences',
                  'explicit_average', 'single_combination', 'impossible_combination', 'modes_agree', 'no_hyper_parameters', 'extreme_log_evidence', 'exchanged_values']


def build(rng, s):
    return gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts, cls=gen.bl().HyperStudy)


MODES = ['complete', 'forward', 'evidence']


@CHECK.gen(700, 14000)
def average(rng, rec, i):
    mode = MODES[i % 3]
    s = hyper_scenario(rng, 2, 24, depth=pick(rng, [0, 1, 1, 2]), T=int(rng.integers(1, 9)))
    S = build(rng, s)
    for _ in range(pick(rng, [1, 1, 1, 2])):
        fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode)
    rec.situation('average', mode, describe(s), n_combos(s.spec, s.tsf))


@CHECK.gen(120, 2400)
def excluded_values(rng, rec, i):
    """Every observation excludes some values of the parameters (likelihood of zero)."""
    mode = MODES[i % 3]
    s = hyper_scenario(rng, 2, 12, depth=pick(rng, [0, 1]), T=int(rng.integers(1, 9)), om_kinds=gen.BOUND)
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode)
    rec.situation('excluded', mode, describe(s), n_combos(s.spec, s.tsf))


@CHECK.gen(40, 900)
def large_grid(rng, rec, i):
    mode = MODES[i % 3]
    s = hyper_scenario(rng, 30, 300, depth=1, T=int(rng.integers(2, 5)), max_values=pick(rng, [8, 12, 40]), ok=lambda s: True, om_kinds=gen.CHEAP)
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode)
    rec.situation('large', mode, describe(s), n_combos(s.spec, s.tsf))


@CHECK.gen(60, 1200)
def extreme(rng, rec, i):
    """Evidences that differ by many orders of magnitude, or are far outside of the floating point range."""
    mode = MODES[i % 3]
    s = hyper_scenario(rng, 2, 8, depth=0, tm_kinds={'det', 'grw', 'regime', 'cp'}, T=int(rng.integers(60, 250)),
                       om_kinds=pick(rng, [['gaussian'], ['white'], gen.CHEAP, None]), max_values=4)
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode, mon='extreme')
    rec.situation('extreme', mode, describe(s), round(float(S.logEvidence)) if np.isfinite(S.logEvidence) else 'impossible')


@CHECK.gen(40, 800)
def exchanged(rng, rec, i):
    """Successive combinations consist of the same numbers in another order (same sum, same product)."""
    mode = MODES[i % 3]
    k = ['alpha', 'biv', 'grw2', 'det'][i % 4]
    for _ in range(300):
        om = gen.gen_om(rng, ndim={'alpha': pick(rng, [1, 2]), 'det': 1}.get(k, 2), kinds=gen.MILD if k == 'alpha' else gen.CHEAP, irregular=0.)
        lc = [ref.lattice_constant(g) for g in om.grids]
        ax = int(rng.integers(len(lc)))
        if k != 'alpha' or 0.15 <= lc[ax] <= 4.:
            break
    else:
        raise Skip('no grid')
    a, b = (1., 2.) if k == 'alpha' else (0.6 * max(lc), 1.7 * max(lc))
    v = pick(rng, [[a, b], [a, b, a + b - 1e-3 * a], [b, a]]) if k != 'alpha' else pick(rng, [[1., 2.], [2., 1.], [1., 1.5, 2.]])
    v, w = np.array(v), np.array(v)
    if k == 'alpha':
        spec = {'k': 'alpha', 'n': ['c', 'al'], 'v': [v, w], 'pr': [None, None], 'ax': ax}
    elif k == 'biv':
        spec = {'k': 'biv', 'n': ['s1', 's2', 'r'], 'v': [v, w, pick(rng, [0., 0.4])], 'pr': [None, None, None]}
    elif k == 'grw2':
        spec = {'k': 'comb', 'm': [{'k': 'grw', 'n': ['s%d' % j], 'v': [v], 'pr': [None], 'ax': j} for j in (0, 1)]}
    else:
        spec = {'k': 'comb', 'm': [{'k': 'grw', 'n': ['s'], 'v': [v], 'pr': [None], 'ax': 0}, {'k': 'regime', 'n': ['p'], 'v': [-v / v.max() * 3.], 'pr': [None]}]}
    s = scenario(rng, om=om, spec=spec, T=int(rng.integers(3, 8)), missing=0.)
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode)
    rec.count('exchanged_values')
    rec.situation('exchanged', mode, describe(s), k)


@CHECK.gen(150, 3000)
def explicit(rng, rec, i):
    """Average computed from ordinary fits of all combinations by the library itself."""
    mode = pick(rng, MODES[:2])
    s = hyper_scenario(rng, 2, 12, depth=1, T=int(rng.integers(1, 8)))
    S = build(rng, s)
    fit_mode(rng, S, mode)
    combos, prior, consts, axes = ref.hyper_grid(s.spec, s.tsf)
    vol = np.prod(consts)
    logs, posts = [], []
    for c in combos:
        P = gen.make_study(rng, s.om, gen.build_tm(ref.with_values(s.spec, c), s.om.names), s.data, s.ts)
        fit_mode(rng, P, mode)
        logs.append(P.logEvidence)
        posts.append(None if np.isneginf(P.logEvidence) else np.array(P.posteriorSequence))
    logs = np.array(logs)
    rec.close('explicit_list', S.logEvidenceList, logs, 'individual log-evidences', rtol=1e-10, atol=1e-9)
    w = logs + np.log(prior * vol)
    if not np.any(np.isfinite(w)):
        rec.check('explicit_impossible', S.logEvidence == -np.inf, 'impossible data')
        return
    le = logsumexp(w)
    m = np.exp(w - le)
    rec.close('explicit_average', S.logEvidence, le, 'evidence of average model', rtol=1e-10, atol=1e-9)
    rec.close('explicit_average', np.asarray(S.hyperParameterDistribution) * vol, m, 'hyper-parameter distribution', rtol=1e-7, atol=1e-12)
    rec.close('explicit_average', S.posteriorSequence, sum(mi * p for mi, p in zip(m, posts) if p is not None), 'averaged distributions', rtol=1e-7, atol=1e-12)
    rec.situation('explicit', mode, describe(s))


@CHECK.gen(120, 2400)
def single(rng, rec, i):
    """Exactly one combination (given as scalars or lists of one value), or no hyper-parameters at all."""
    mode = MODES[i % 3]
    none = chance(rng, 0.3)
    if none:
        s = hyper_scenario(rng, 1, 1, depth=1, tm_kinds={'static', 'indep'}, composite=0.5, ok=lambda s: not ref.flat(s.spec))
    else:
        s = hyper_scenario(rng, 1, 1, depth=1, max_values=1, ok=lambda s: ref.flat(s.spec))
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode, mon='single')
    sp = ref.with_values(s.spec, [user_values(v, s.tsf)[0] for _, v, _ in ref.flat(s.spec)])
    P = gen.make_study(rng, s.om, gen.build_tm(sp, s.om.names), s.data, s.ts)
    fit_mode(rng, P, mode)
    for a in ['logEvidence', 'localEvidence'] + (['posteriorSequence', 'posteriorMeanValues'] if mode != 'evidence' else []):
        if np.isneginf(P.logEvidence) and a != 'logEvidence':
            continue
        x, y = np.asarray(getattr(S, a), float), np.asarray(getattr(P, a), float)
        rec.check('single_combination', x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True),
                  lambda: '%s of a single combination differs from that of an ordinary fit' % a)
    rec.count('no_hyper_parameters' if none else 'one_hyper_combination')
    rec.situation('single', mode, describe(s))


@CHECK.gen(160, 3200)
def impossible_combinations(rng, rec, i):
    """Some combinations cannot produce the data: probability zero, others unaffected."""
    B = gen.bl()
    mode = MODES[i % 3]
    n = int(rng.integers(8, 24))
    x = np.arange(n) * pick(rng, [1., 0.5, 1e-3])
    lc = x[1]
    T = int(rng.integers(3, 8))
    width = pick(rng, [0, 0, 1, 2])
    # likelihood is zero away from the observed position: only drifts of matching rate are possible
    rates = np.unique(np.round(pick(rng, [1., 2.]) * rng.integers(-2, 3, int(rng.integers(2, 6))), 2))
    rates = np.concatenate([[0.], rates[rates != 0.]]) if chance(rng, 0.7) else rates
    start = int(rng.integers(2, n - 2))
    drift = pick(rng, [0, 1, -1])
    data = np.clip(start + drift * np.arange(T), 0, n - 1).astype(float)

    def lik(data, a):
        k = np.abs(a / lc - np.ravel(data)[0])
        return np.where(k < width + 0.5, np.exp(-0.3 * k), 0.)
    om_names = ['a']
    vals = rates * lc
    prior = None if chance(rng, 0.5) else rng.random(len(vals)) + 0.1
    two = chance(rng, 0.4)
    spec = {'k': 'det', 'fn': 'lin', 'n': ['r'], 'v': [vals], 'pr': [None if prior is None else gen.HyperPrior('array', prior, lambda v, c: prior / prior.sum() / c)], 'ax': 0}
    if two:
        spec = {'k': 'comb', 'm': [spec, {'k': 'grw', 'n': ['s'], 'v': [np.array([0., 1.]) * lc], 'pr': [None], 'ax': 0}]}
    if len(vals) < 2 and not two:
        return
    s = Scenario()
    s.spec, s.tsf, s.ts, s.data, s.T, s.alpha = spec, list(range(T)), None, data, T, False
    s.flags = []
    s.liks = [lik([d], x) for d in data]

    class Om(object):
        names, grids, shape, seg, multiply = om_names, [x], (n,), 1, False

        def ctx(self, flags=()):
            return ref.Ctx([x], np.ones(n) / n / lc, frozenset(flags))

        def describe(self):
            return 'window%d/%d' % (n, width)

        def build(self):
            o = B.om.NumPy(lik, 'a', x, prior=None)
            return o
    s.om = Om()
    r = ref.hyper(spec, s.liks, s.tsf, s.om.ctx(), mode != 'complete')
    for cmb in r['combos']:
        norms = ref.filtering(ref.with_values(spec, cmb), s.liks, s.tsf, s.om.ctx())[1]
        if norms is not None and np.min(norms) < 1e-8:
            return         # possible only because of the rounding errors of the interpolation
    S = build(rng, s)
    fit_mode(rng, S, mode)
    check_hyper(rec, S, s, mode, mon='impossible')
    if r['mass'] is not None and np.any(np.isneginf(r['logs'])):
        rec.check('impossible_combination', np.all(np.asarray(S.hyperParameterDistribution)[np.isneginf(r['logs'])] == 0.), 'impossible combination has non-zero probability')
        rec.situation('impossible', mode, describe(s), list(np.isneginf(r['logs'])))


@CHECK.gen(80, 1600)
def modes(rng, rec, i):
    """Evidence and hyper-parameter distribution do not depend on the fit mode."""
    s = hyper_scenario(rng, 2, 16, depth=1, T=int(rng.integers(1, 8)))
    S = build(rng, s)
    res = []
    r = ref.hyper(s.spec, s.liks, s.tsf, s.om.ctx(s.flags))
    f = ref.hyper(s.spec, s.liks, s.tsf, s.om.ctx(s.flags), True)
    if np.any(np.isneginf(r['logs']) != np.isneginf(f['logs'])):
        return             # forward and backward pass of some combination do not overlap: a complete fit reports that
    for mode in rng.permutation(MODES):
        fit_mode(rng, S, mode)
        res.append((float(S.logEvidence), np.array(S.hyperParameterDistribution), np.array(S.logEvidenceList)))
    for r in res[1:]:
        if not np.isfinite(res[0][0]):
            rec.check('modes_agree', r[0] == res[0][0], 'impossible data')
            continue
        rec.close('modes_agree', r[0], res[0][0], 'evidence in different fit modes', rtol=1e-11, atol=1e-11)
        rec.close('modes_agree', r[1], res[0][1], 'hyper-parameter distribution in different fit modes', rtol=1e-9, atol=1e-12)
        rec.close('modes_agree', r[2], res[0][2], 'evidences in different fit modes', rtol=1e-11, atol=1e-11)
    rec.situation('modes', describe(s))


@CHECK.gen(1, 1)
def known_change_point(rng, rec, i):
    """Deterministic triggers of K1 and K5."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    om.user_grids[0] = np.asarray(om.grids[0])
    for spec in ({'k': 'cp', 'n': ['tc'], 'v': [np.array([1, 2])], 'pr': [None]},
                 {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}], 'b': [{'k': 'change', 'n': ['tc'], 'v': [np.array([1, 2])], 'pr': [None]}]}):
        s = scenario(rng, om=om, T=5, ts_kinds=('none',), spec=spec, missing=0.)
        S = build(rng, s)
        fit_mode(rng, S, 'complete')
        check_hyper(rec, S, s, 'complete')
