"""C11: a change-point study weighs exactly all ordered change-point combinations."""
import itertools

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation
from gen import pick, chance
from readout import *
from studies import *

CHECK = Check('C11', 'distinct (kind, number and values of change-/break-points, time stamps, extra hyper-parameters, hyper-priors, fit mode) combinations compared',
              ['reference recursion of C01/C02', 'up to five points and about 1500 combinations'])
CHECK.required = ['improbable_combinations', 'cp_log_evidence', 'cp_distribution', 'cp_posterior', 'cp_means', 'cp_individual_evidences', 'cp_local_evidence', 'unordered_excluded', 'dd_distribution',
                  'dd_values', 'hpd_marginal', 'jhpd_marginal', 'prior_ordered', 'refused', 'single_combination', 'number_of_analyses', 'brute_force', 'plot_dd', 'many_points', 'stamp_results', 'stamp_durations']
MODES = ['complete', 'complete', 'forward', 'evidence']


def unordered(rec, S, c):
    combos, _, _, _ = ref.hyper_grid(c.s.spec, c.s.tsf)
    keep = np.array([c.mask(x) for x in combos])
    d = np.asarray(S.hyperParameterDistribution, float)
    rec.check('unordered_excluded', d.shape == (len(combos),) and np.all(d[~keep] == 0.), 'unordered combination has non-zero probability')
    if keep.sum() > 1:
        rec.check('number_of_analyses', len(S.logEvidenceList) == keep.sum(), lambda: '%d analyses for %d ordered combinations' % (len(S.logEvidenceList), keep.sum()))
    return keep


def full(rng, rec, c, plots=0.2):
    S = c.build(rng)
    for _ in range(pick(rng, [1, 1, 2])):
        c.run(rng, S)
    check_hyper(rec, S, c.s, c.mode, c.mask, mon='cp')
    if np.isneginf(S.logEvidence):
        return S
    unordered(rec, S, c)
    check_hyper_readouts(rec, rng, S, c, plots=chance(rng, plots))
    check_durations(rec, rng, S, c, plots=chance(rng, plots))
    return S


@CHECK.gen(600, 12000)
def weights(rng, rec, i):
    c = cp_case(rng, hi=60)
    c.mode = MODES[i % 4]
    full(rng, rec, c)
    rec.situation(c.describe(), len(ref.hyper_grid(c.s.spec, c.s.tsf)[0]))


@CHECK.gen(60, 1200)
def many(rng, rec, i):
    """Longer data, "all" for every point."""
    k = pick(rng, [1, 2, 2, 3])
    T = {1: int(rng.integers(20, 60)), 2: int(rng.integers(9, 17)), 3: int(rng.integers(6, 8))}[k]
    style = pick(rng, ['change', 'break'])

    def spec(g):
        sp = cp_spec(rng, g, npoints=k, style=style, extra=0.2)

        def setall(s):
            for m in s.get('m', []):
                setall(m)
            if s['k'] == 'cp':
                s['v'], s['pr'] = ['all'], [None]
            for b in s.get('b', []):
                b['v'], b['pr'] = ['all'], [None]
        setall(sp)
        return sp
    c = cp_case(rng, hi=350, spec_fn=spec, T=T, om_kinds=['table1', 'gmean', 'poisson', 'bernoulli'], missing=0.)
    c.mode = MODES[i % 4]
    full(rng, rec, c)
    rec.situation('all', k, T, style, c.mode)


@CHECK.gen(110, 1200)
def sharp(rng, rec, i):
    """Data with one or two steps of extreme size: most of the combinations are very improbable, none is impossible."""
    k = pick(rng, [2, 2, 3])
    c = cp_case(rng, hi=800, spec_fn=lambda g: cp_spec(rng, g, npoints=k, style=pick(rng, ['change', 'break']), extra=0.2, max_values=4), T=int(rng.integers(12, 40)),
                om_kinds=['gmean', 'poisson', 'bernoulli'], missing=0., multidim=False)
    s = c.s
    d = np.asarray(s.data)
    n = len(d)
    col = d if d.ndim == 1 else d[:, 0]
    lo, hi = d[np.argmin(col)], d[np.argmax(col)]
    edges = sorted(int(x) for x in rng.integers(1, n, pick(rng, [1, 2])))
    level = np.searchsorted(edges, np.arange(n), side='right') % 2
    s.data = np.array([lo if l == 0 else hi for l in level]).astype(d.dtype)
    s.liks = s.om.liks(s.data)
    c.mode = MODES[i % 4]
    S = full(rng, rec, c)
    p = np.asarray(S.hyperParameterDistribution, float) if S.hyperParameterDistribution is not None else np.ones(1)
    if np.isfinite(S.logEvidence) and np.any((p > 0.) & (p < 1e-9 * np.max(p))):
        rec.count('improbable_combinations')
    rec.situation('sharp', c.describe(), edges)


@CHECK.gen(60, 1200)
def many_points(rng, rec, i):
    """Three to five change- or break-points."""
    k = pick(rng, [3, 4, 4, 5])
    style = pick(rng, ['change', 'break'])
    T = int(rng.integers(k + 2, k + 4))
    allp = i % 3 == 0

    def spec(g):
        sp = cp_spec(rng, g, npoints=k, style=style, extra=0.15, max_values=3)
        if allp:
            def setall(s):
                for m in s.get('m', []):
                    setall(m)
                if s['k'] == 'cp' and chance(rng, 0.8):
                    s['v'], s['pr'] = ['all'], [None]
                for b in s.get('b', []):
                    if chance(rng, 0.8):
                        b['v'], b['pr'] = ['all'], [None]
            setall(sp)
        return sp
    c = cp_case(rng, hi=1500, spec_fn=spec, T=T, om_kinds=['table1', 'gmean', 'poisson', 'bernoulli'])
    if len(c.point_names()) < 3 or sum(c.mask(x) for x in ref.hyper_grid(c.s.spec, c.s.tsf)[0]) > 80:
        raise Skip('too few points or too many combinations')
    c.mode = MODES[i % 4]
    full(rng, rec, c, plots=0.1)
    rec.count('many_points')
    rec.situation('points', k, T, style, c.mode, c.describe())


@CHECK.gen(150, 3000)
def prior_ordered(rng, rec, i):
    """Without data, the probability of each ordered combination is its re-normalised prior."""
    n = int(rng.integers(3, 9))
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['none', 'array'], irregular=0.)
    om.grids = [np.arange(len(om.grids[0])) * 1.]
    om.user_grids = [om.grids[0]]
    om.mesh = np.meshgrid(*om.grids, indexing='ij')
    a = rng.random(len(om.grids[0])) + 0.1
    om.prior = gen.PriorSpec('array', a.copy(), a / a.sum())
    c = cp_case(rng, hi=120, om=om, om_kinds=None, T=n)
    s = c.s
    s.data = np.full(len(s.data), np.nan)
    s.liks = om.liks(s.data)
    c.mode = 'evidence'
    S = c.build(rng)
    c.run(rng, S)
    combos, prior, consts, axes = ref.hyper_grid(s.spec, s.tsf)
    keep = unordered(rec, S, c)
    if keep.sum() < 2:
        return
    w = np.where(keep, prior, 0.)
    w = w / w.sum()
    rec.close('prior_ordered', np.asarray(S.hyperParameterDistribution) * np.prod(consts), w, 'distribution of change-points without data ' + describe(s), rtol=1e-6, atol=1e-9)
    rec.close('prior_ordered', S.logEvidence, 0. if 'sympy' not in [p and p.kind for _, _, p in ref.flat(s.spec)] else np.log(prior.sum() * np.prod(consts)),
              'evidence without data', rtol=1e-7, atol=1e-7)
    check_durations(rec, rng, S, c, plots=False)
    rec.situation('prior', gen.describe(s.spec), n)


@CHECK.gen(100, 2000)
def brute_force(rng, rec, i):
    """Average over ordinary fits of all ordered combinations by the library itself."""
    c = cp_case(rng, hi=30)
    s = c.s
    c.mode = pick(rng, ['complete', 'forward'])
    S = c.build(rng)
    c.run(rng, S)
    combos, prior, consts, axes = ref.hyper_grid(s.spec, s.tsf)
    keep = np.array([c.mask(x) for x in combos])
    prior = np.where(keep, prior, 0.) * prior.sum() / prior[keep].sum()
    if keep.sum() < 2:
        return
    vol = np.prod(consts)
    logs, posts = [], []
    for k, cmb in enumerate(combos):
        if keep[k]:
            P = gen.make_study(rng, s.om, gen.build_tm(ref.with_values(s.spec, cmb), s.om.names), s.data, s.ts)
            fit_mode(rng, P, c.mode)
            logs.append(P.logEvidence)
            posts.append(None if np.isneginf(P.logEvidence) else np.array(P.posteriorSequence))
    w = np.array(logs) + np.log(prior[keep] * vol)
    if not np.any(np.isfinite(w)):
        rec.check('brute_force_impossible', S.logEvidence == -np.inf, 'impossible data')
        return
    from scipy.special import logsumexp
    le = logsumexp(w)
    m = np.exp(w - le)
    rec.close('brute_force', S.logEvidence, le, 'evidence', rtol=1e-9, atol=1e-8)
    rec.close('brute_force', np.asarray(S.hyperParameterDistribution)[keep] * vol, m, 'distribution of change-points', rtol=1e-7, atol=1e-11)
    rec.close('brute_force', S.posteriorSequence, sum(a * p for a, p in zip(m, posts) if p is not None), 'averaged distributions', rtol=1e-7, atol=1e-11)
    rec.situation('brute', c.describe())


@CHECK.gen(120, 2000)
def stamps(rng, rec, i):
    """The same analysis with integer and with fractional, tiny, huge or shifted time stamps, which are not exact in binary."""
    B = gen.bl()
    k = pick(rng, [2, 2, 3])
    T = int(rng.integers(k + 2, 12 if k == 2 else 8))
    steps = np.arange(T) if chance(rng, 0.7) else np.cumsum(rng.integers(1, 4, T))
    unit = pick(rng, [0.1, 0.1, 0.01, 1. / 3., 1. / 365.25, 1e-9, 1e-12, 3.3e8, 0.7])
    offset = pick(rng, [0., 0., 5.3, -7.7, 2016.2, 1e6 / 7.]) * pick(rng, [1., unit])
    if abs(offset) > 1e7 * unit:
        offset = 0.
    stamp = steps * unit + offset
    data = rng.poisson(pick(rng, [1., 4.]), T) + (np.arange(T) >= T // 2) * int(rng.integers(0, 5))
    grid = B.oint(0, 12, int(rng.integers(5, 15)))
    vals = ['all' if chance(rng, 0.6) else np.sort(rng.choice(T, int(rng.integers(2, T)), replace=False)) for _ in range(k)]
    style, names = pick(rng, ['change', 'break']), ['p%d' % j for j in range(k)]
    if style == 'break' and any(not isinstance(v, str) for v in vals):
        style = 'change'
    mode = pick(rng, ['complete', 'forward', 'evidence'])

    def build(ts):
        S = B.ChangepointStudy(silent=True)
        S.load(data, timestamps=ts, silent=True)
        v = [x if isinstance(x, str) else np.asarray(ts)[x] for x in vals]
        if style == 'change':
            tm = B.tm.CombinedTransitionModel(*[B.tm.ChangePoint(n, x) for n, x in zip(names, v)])
        else:
            parts = [B.tm.Static()]
            for n, x in zip(names, v):
                parts += [B.tm.BreakPoint(n, x), B.tm.RegimeSwitch('log' + n, -2)]
            tm = B.tm.SerialTransitionModel(*parts)
        S.set(B.om.Poisson('x', grid), tm, silent=True)
        return fit_mode(rng, S, mode)
    idx = [np.arange(T - 1) if isinstance(v, str) else v for v in vals]
    if not any(all(a < b for a, b in zip(q, q[1:])) for q in itertools.product(*idx)):
        raise Skip('no ordered combination')
    R, S = build(steps), build(stamp)
    if np.size(R.logEvidenceList) < 2 or np.isneginf(R.logEvidence):
        raise Skip('a single combination')
    msg = lambda what: '%s with time stamps %s... (unit %r, offset %r, %s, %s) and %s' % (what, stamp[:3], unit, offset, vals, style, steps[:3])
    rec.close('stamp_results', S.logEvidence, R.logEvidence, msg('evidence'), rtol=1e-9, atol=1e-9)
    for n in names:
        (x, p), (y, q) = S.getHPD(n), R.getHPD(n)
        rec.close('stamp_results', p, q, msg('distribution of ' + n), rtol=1e-7, atol=1e-12)
        rec.close('stamp_results', x, np.asarray(y) * unit + offset, msg('values of ' + n), rtol=1e-12, atol=1e-12 * unit)
    if mode != 'evidence':
        rec.close('stamp_results', S.posteriorSequence, R.posteriorSequence, msg('parameter distributions'), rtol=1e-7, atol=1e-12)
    for a, b in itertools.combinations(names, 2):
        (x, p), (y, q) = S.getDD([a, b]), R.getDD([a, b])
        rec.check('stamp_durations', len(x) == len(y) and np.allclose(x, np.asarray(y) * unit, rtol=1e-7, atol=1e-14 * abs(offset)), lambda: msg('durations %s instead of %s (times unit)' % (x, y)))
        rec.check('stamp_durations', len(p) == len(q) and np.allclose(p, q, rtol=1e-7, atol=1e-12), lambda: msg('probabilities %s instead of %s of durations' % (p, q)))
    rec.situation(T, unit, offset, str(vals), style, mode)


@CHECK.gen(80, 1600)
def single(rng, rec, i):
    """Exactly one ordered combination."""
    c = cp_case(rng, hi=12, spec_fn=lambda g: single_spec(rng, g))
    c.mode = MODES[i % 4]
    combos, _, _, _ = ref.hyper_grid(c.s.spec, c.s.tsf)
    keep = [x for x in combos if c.mask(x)]
    if len(keep) != 1:
        return
    S = c.build(rng)
    c.run(rng, S)
    check_hyper(rec, S, c.s, c.mode, c.mask, mon='single')
    if np.isneginf(S.logEvidence):
        return
    unordered(rec, S, c)
    P = gen.make_study(rng, c.s.om, gen.build_tm(ref.with_values(c.s.spec, keep[0]), c.s.om.names), c.s.data, c.s.ts)
    fit_mode(rng, P, c.mode)
    rec.close('single_combination', S.logEvidence, P.logEvidence, 'evidence of a single combination vs ordinary fit', rtol=1e-10, atol=1e-10)
    if c.mode != 'evidence':
        rec.close('single_combination', S.posteriorSequence, P.posteriorSequence, 'distributions of a single combination vs ordinary fit')
    rec.situation('single', c.describe())


def single_spec(rng, g):
    ts = g.ts
    k = pick(rng, [1, 2, 2, 3])
    k = min(k, len(ts) - 1)
    idx = np.sort(rng.choice(len(ts), k, replace=False))
    vals = [ts[j] if chance(rng, 0.5) else np.array([ts[j]]) for j in idx]
    if k == 2 and chance(rng, 0.5):
        # several values, but only one in ascending order
        a = np.array(ts[idx[1]:][:3])[::1]
        vals = [np.concatenate([[ts[idx[0]]], a]) if idx[0] < idx[1] else a, np.array([ts[idx[1]]])]
    if chance(rng, 0.5):
        return {'k': 'comb', 'm': [{'k': 'cp', 'n': [g.name()], 'v': [v], 'pr': [None]} for v in vals]}
    return {'k': 'serial', 'm': [{'k': 'static'} for _ in range(k + 1)],
            'b': [{'k': pick(rng, ['break', 'change']), 'n': [g.name()], 'v': [v], 'pr': [None]} for v in vals]}


@CHECK.gen(80, 1600)
def refused(rng, rec, i):
    """Unsupported mixtures, models without points, and values without any ordered combination."""
    B = gen.bl()
    from bayesloop.exceptions import ConfigurationError, PostProcessingError
    s = scenario(rng, T=int(rng.integers(4, 9)), om_kinds=gen.CHEAP, spec={'k': 'static'}, missing=0.)
    ts = s.tsf
    lc = ref.lattice_constant(s.om.grids[0])
    n0 = s.om.names[0]
    tm = B.tm
    ser = lambda a, x: tm.SerialTransitionModel(tm.Static(), tm.BreakPoint(a, x), tm.Static())
    cases = {
        'mixture': (NotImplementedError, lambda: tm.CombinedTransitionModel(tm.ChangePoint('a', 'all'), ser('b', 'all'))),
        'nested mixture': (NotImplementedError, lambda: tm.SerialTransitionModel(tm.Static(), tm.BreakPoint('a', 'all'), tm.CombinedTransitionModel(tm.ChangePoint('b', 'all')))),
        'two serial models': (NotImplementedError, lambda: tm.CombinedTransitionModel(ser('a', 'all'), ser('b', 'all'))),
        'nested serial': (NotImplementedError, lambda: tm.SerialTransitionModel(ser('a', ts[1]), tm.BreakPoint('b', 'all'), tm.Static())),
        'no points': (ConfigurationError, lambda: tm.GaussianRandomWalk('s', np.array([0.5, 1.]) * lc, target=n0)),
        'static': (ConfigurationError, lambda: tm.Static()),
        'independent': (ConfigurationError, lambda: tm.CombinedTransitionModel(tm.Static(), tm.Independent())),
        'no ordered combination': (ConfigurationError, lambda: tm.CombinedTransitionModel(tm.ChangePoint('a', np.array(ts[2:4])), tm.ChangePoint('b', np.array(ts[:2])))),
        'equal': (ConfigurationError, lambda: tm.CombinedTransitionModel(tm.ChangePoint('a', ts[1]), tm.ChangePoint('b', ts[1]))),
    }
    k = list(cases)[i % len(cases)]
    exc, mk = cases[k]
    S = gen.make_study(rng, s.om, mk(), s.data, s.ts, cls=B.ChangepointStudy)
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    rec.raises('refused', exc, lambda: fit_mode(rng, S, mode), k)
    S.set(tm.ChangePoint('a', 'all'), silent=True)
    fit_mode(rng, S, mode)
    s.spec = {'k': 'cp', 'n': ['a'], 'v': ['all'], 'pr': [None]}
    s.flags = gen.known_flags(s.spec)
    check_hyper(rec, S, s, mode, cp_mask(s.spec), mon='after_refusal')
    if np.isfinite(S.logEvidence):
        for f in (S.getDD, S.getDurationDistribution):
            rec.raises('refused_duration', PostProcessingError, lambda: f(['a']), 'duration needs two points')
            rec.raises('refused_duration', PostProcessingError, lambda: f(['a', 'nosuchpoint']), 'unknown point')
            rec.raises('refused_duration', PostProcessingError, lambda: f(7), 'no names')
    rec.situation('refused', k, mode)


@CHECK.gen(1, 1)
def known_change_point(rng, rec, i):
    """Deterministic triggers of K1 and K5."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    for spec in ({'k': 'cp', 'n': ['tc'], 'v': [np.array([1, 2])], 'pr': [None]},
                 {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}], 'b': [{'k': 'change', 'n': ['tc'], 'v': [np.array([1, 2])], 'pr': [None]}]}):
        s = scenario(rng, om=om, T=5, ts_kinds=('none',), spec=spec, missing=0.)
        c = Case('cp', s, mask=cp_mask(spec))
        S = c.build(rng)
        c.run(rng, S)
        check_hyper(rec, S, s, 'complete', c.mask, mon='cp')
