"""C21: incomplete or contradictory configurations and impossible data are reported."""
import contextlib
import io

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C21', 'distinct (study type, stage of its life, kind of misuse or position of impossible data) combinations; every refused call is followed by a comparison with a study that was never misused',
              ['catalogue of misuse taken from the documentation and the argument checks'])
CHECK.required = ['rare_collision', 'off_grid', 'off_grid_possible', 'off_grid_impossible', 'missing_part', 'complete_afterwards', 'unfitted_readout', 'evidence_only_readout', 'wrong_parameter', 'unknown_time', 'unknown_hyper_parameter', 'readouts_untouched', 'bad_model', 'bad_observation_model', 'bad_prior',
                  'bad_hyper_prior', 'duplicate_names', 'break_point_alone', 'serial_order', 'serial_number', 'bad_set', 'bad_data', 'no_points', 'both_kinds_of_points', 'several_serials', 'no_ascending', 'online_history', 'online_misuse',
                  'colliding_points', 'online_duplicates', 'estimation_failed', 'usable', 'impossible_evidence', 'impossible_readout', 'impossible_then_possible', 'stale', 'impossible_online', 'partly_impossible', 'jointly_impossible',
                  'not_available', 'wrong_target', 'parser_unfitted', 'interrupted_fit', 'after_interruption', 'refused_data_point', 'after_refused_data_point']


def exceptions():
    from bayesloop.exceptions import ConfigurationError, PostProcessingError
    return ConfigurationError, PostProcessingError


def reads(S, c, n, t):
    """Parameter read-outs of a batch study."""
    yield 'getPDs', lambda: S.getPDs(n)
    yield 'getParameterDistributions', lambda: S.getParameterDistributions(n, density=False)
    yield 'getPD', lambda: S.getPD(t, n)
    yield 'getParameterDistribution', lambda: S.getParameterDistribution('avg', n)
    yield 'getParameterMeanValues', lambda: S.getParameterMeanValues(n)
    yield 'plot', lambda: S.plot(n)
    yield 'plot(t)', lambda: S.plot(n, t=t)
    yield 'plotParameterEvolution', lambda: S.plotParameterEvolution(n)
    if c.s.om.seg == 1:
        yield 'simulate', lambda: S.simulate([1, 2])
        yield 'simulate(t)', lambda: S.simulate([1, 2], t=t, density=True)
    yield 'eval', lambda: S.eval('%s@%s > 0' % (n, num(t)), silent=True)
    yield 'eval(t)', lambda: S.eval('%s > 0' % n, t=t, silent=True)


def num(t):
    return str(int(t)) if float(t) == int(t) else repr(float(t))


CLS = {'study': 'Study', 'hyper': 'HyperStudy', 'cp': 'ChangepointStudy', 'online': 'OnlineStudy'}


def batch(rng, i=None, **kw):
    kinds = ('study', 'hyper', 'cp')
    for _ in range(60):
        c = any_case(rng, kinds=(kinds[i % 3],) if i is not None else kinds, om_kinds=gen.CHEAP, **kw)
        if not any('ar1' in k for k in [c.s.om.kind]) and np.prod(c.s.om.shape) < 900:
            return c
    raise Skip('no case')


def finish(rng, rec, S, c, mon, msg, set_all=True):
    """Complete the configuration, fit, and compare with a study that was never misused."""
    if set_all:
        S.load(c.s.data, timestamps=c.s.ts, silent=True)
        S.set(c.s.om.build(), gen.build_tm(c.s.spec, c.s.om.names), silent=True)
    fit_mode(rng, S, c.mode)
    W = c.build(rng)
    fit_mode(rng, W, c.mode)
    same(rec, mon, observe(S, c), observe(W, c), msg + ' (%s)' % c.describe())


@CHECK.gen(90, 1800)
def incomplete(rng, rec, i):
    """Data and models set in any order; fits before the last one are refused."""
    CE, PE = exceptions()
    c = batch(rng, i)
    S = getattr(bl(), CLS[c.kind])(silent=True)
    todo = ['data', 'om', 'tm']
    order = [todo[k] for k in rng.permutation(3)]
    n = c.s.om.names[0]
    for k, part in enumerate(order + ['end']):
        missing = order[k:]
        if part != 'end':
            for m in ('complete', 'forward', 'evidence'):
                rec.raises('missing_part', CE, lambda: fit_mode(rng, S, m), '%s fit without %s' % (c.kind, missing))
            if c.kind == 'study' and chance(rng, 0.5):
                rec.raises('missing_part', CE, lambda: S.optimize(), 'optimisation without %s' % missing)
        t = c.s.tsf[int(rng.integers(len(c.s.tsf)))]
        for l, f in reads(S, c, n, t):
            rec.raises('unfitted_readout', PE if l.startswith(('getPD', 'getParameterDist', 'plot')) else Exception, f, '%s of %s study that was not fitted (missing: %s)' % (l, c.kind, missing))
        if c.kind in ('hyper', 'cp'):
            for h in (c.names() or ['x'])[:2]:
                rec.raises('unfitted_readout', Exception, lambda: S.getHPD(h), 'hyper-parameter distribution of study that was not fitted')
        if part == 'data':
            S.load(c.s.data, timestamps=c.s.ts, silent=True)
        elif part == 'om':
            pick(rng, [S.setOM, S.setObservationModel, S.set])(c.s.om.build(), silent=True)
        elif part == 'tm':
            pick(rng, [S.setTM, S.setTransitionModel, S.set])(gen.build_tm(c.s.spec, c.s.om.names), silent=True)
    finish(rng, rec, S, c, 'complete_afterwards', 'fit after refused fits', set_all=False)
    rec.situation('incomplete', c.kind, *order)


@CHECK.gen(90, 1800)
def wrong_requests(rng, rec, i):
    """Read-outs of results that do not exist leave everything as it was."""
    CE, PE = exceptions()
    c = batch(rng, i)
    S = c.build(rng)
    fit_mode(rng, S, c.mode)
    if not np.isfinite(S.logEvidence):
        raise Skip('impossible data')
    before = observe(S, c)
    names, ts = c.s.om.names, list(c.s.tsf)
    n, t = pick(rng, names), pick(rng, ts)
    if c.mode == 'evidence':
        for l, f in reads(S, c, n, t):
            rec.raises('evidence_only_readout', PE if l.startswith(('getPD', 'getParameterDist', 'plot', 'simul')) else Exception, f, '%s after evidence-only fit' % l)
    else:
        for bad in ('nosuch', n + 'x', n.upper() + '!', ''):
            for l, f in (('getPDs', lambda: S.getPDs(bad)), ('getPD', lambda: S.getPD(t, bad)), ('avg', lambda: S.getPD('avg', bad)), ('mean', lambda: S.getParameterMeanValues(bad)), ('evolution', lambda: S.plotParameterEvolution(bad))):
                rec.raises('wrong_parameter', PE, f, '%s of parameter %r' % (l, bad))
            rec.raises('wrong_parameter', Exception, lambda: S.plot(bad), 'plot of %r' % bad)
            rec.raises('wrong_parameter', Exception, lambda: S.eval('%s > 0' % (bad or '.'), t=t, silent=True), 'query of %r' % bad)
        gaps = [x for x in range(int(np.floor(ts[0])), int(np.ceil(ts[-1]))) if not np.any(np.asarray(ts, float) == x)]
        inside = [pick(rng, gaps)] if gaps else []
        inside.append((ts[0] + ts[-1]) / 2. if not np.any(np.asarray(ts, float) == (ts[0] + ts[-1]) / 2.) else ts[0] + 0.125)
        for bad in (ts[-1] + 1, ts[0] - 1, ts[-1] + 0.125, ts[-1] + 10 ** 6, 'no', None, *inside):
            if bad is not None:
                rec.raises('unknown_time', PE, lambda: S.getPD(bad, n), 'distribution at %r' % bad)
                rec.raises('unknown_time', PE, lambda: S.plot(n, t=bad), 'plot at %r' % bad)
            if bad not in (None, 'no'):
                rec.raises('unknown_time', Exception, lambda: S.eval('%s > 0' % n, t=bad, silent=True), 'query at %r' % bad)
                if bad >= 0:
                    rec.raises('unknown_time', Exception, lambda: S.eval('%s@%s > 0' % (n, num(bad)), silent=True), 'query of %s@%r' % (n, bad))
                if c.s.om.seg == 1:
                    rec.raises('unknown_time', PE, lambda: S.simulate([1], t=bad), 'simulation at %r' % bad)
    h = c.names()
    for bad in ('nosuch', (h[0] if h else 'a') + 'x', n):
        rec.raises('unknown_hyper_parameter', PE, lambda: S.getHyperParameterValue(bad), 'value of %r' % bad)
        if c.kind in ('hyper', 'cp'):
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getHPD(bad), 'distribution of %r' % bad)
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getJHPD([h[0] if h else 'a', bad]), 'joint distribution of %r' % bad)
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getJHPD([bad, h[0] if h else 'a']), 'joint distribution of %r' % bad)
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getJHPD((h + ['a', 'b'])[:1]), 'joint distribution of one')
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getJHPD((h + ['a', 'b', 'c'])[:3]), 'joint distribution of three')
        if c.kind == 'cp':
            p = c.point_names()
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getDD([p[0], bad]), 'duration up to %r' % bad)
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getDD([bad, p[0]]), 'duration from %r' % bad)
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getDD(p[:1]), 'duration of one')
            rec.raises('unknown_hyper_parameter', PE, lambda: S.getDD((p * 3)[:3]), 'duration of three')
    if c.kind in ('hyper', 'cp') and n_combos(c.s.spec, c.s.tsf) < 2:
        for x in h:
            rec.raises('not_available', PE, lambda: S.getHPD(x), 'distribution of a single combination')
    same(rec, 'readouts_untouched', observe(S, c), before, 'results after refused requests (%s)' % c.describe())
    rec.situation('requests', c.kind, c.mode, c.describe())


def bad_models(rng, c, B):
    """(label, exception, constructor or setter)"""
    CE, PE = exceptions()
    n = c.s.om.names[0]
    ts = list(c.s.tsf)
    v = np.linspace(0.1, 1., 4)
    yield 'bad_model', CE, lambda S: S.set(B.tm.GaussianRandomWalk('s', 0.1, target=None))
    yield 'bad_model', CE, lambda S: S.set(B.tm.GaussianRandomWalk('s', 0.1))
    yield 'bad_model', CE, lambda S: S.set(B.tm.AlphaStableRandomWalk('a', 0.1, 'b', 1.5))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda t, a=1: a * t))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda t, q, a=1: a * t, target=n))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda t, q: q * t, target=n))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda: 1., target=n))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda t: 1. * t, target=n, prior=[None]))
    yield 'bad_model', CE, lambda S: S.set(B.tm.Deterministic(lambda t, a=1, b=2: a * t + b, target=n, prior=[lambda x: x] * 3))
    yield 'break_point_alone', CE, lambda S: S.set(B.tm.BreakPoint('b', ts[0]))
    yield 'break_point_alone', CE, lambda S: S.setTM(B.tm.BreakPoint('b', 'all'))
    yield 'break_point_alone', CE, lambda S: S.set(B.tm.CombinedTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', ts[0])))
    yield 'serial_order', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', 5), B.tm.Static(), B.tm.BreakPoint('d', 4), B.tm.Static()))
    yield 'serial_order', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', 5), B.tm.Static(), B.tm.BreakPoint('d', 5), B.tm.Static()))
    yield 'serial_order', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.ChangePoint('b', [6, 7]), B.tm.Static(), B.tm.BreakPoint('d', [5, 9]), B.tm.Static()))
    yield 'serial_number', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', 5)))
    yield 'serial_number', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.Static()))
    yield 'serial_number', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', 5), B.tm.ChangePoint('d', 6), B.tm.Static()))
    yield 'serial_number', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('b', 5), B.tm.Static(), B.tm.Static()))
    yield 'serial_number', CE, lambda S: S.set(B.tm.SerialTransitionModel(B.tm.BreakPoint('b', 5)))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.NumPy('nofunction', 'q', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.NumPy(lambda data, q, r: q * 1., 'q', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.NumPy(lambda data, q: q * 1., 'q', v, 'r', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.NumPy(lambda x, q: q * 1., 'q', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.NumPy(lambda q, data: q * 1., 'q', v))
    yield 'bad_observation_model', TypeError, lambda S: S.set(B.om.NumPy(lambda data, q: q * 1., 'q', v, priors=None))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.SciPy('no', 'q', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.SymPy('no', 'q', v))
    import scipy.stats
    import sympy.stats
    import sympy
    yield 'bad_observation_model', TypeError, lambda S: S.set(B.om.SciPy(scipy.stats.norm, 'loc', v, pri=None))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.SciPy(scipy.stats.norm, 'location', v))
    yield 'bad_observation_model', CE, lambda S: S.set(B.om.SymPy(sympy.stats.Normal('x', sympy.Symbol('m', real=True), 1), 'q', v))
    yield 'bad_set', CE, lambda S: S.set(5)
    yield 'bad_set', CE, lambda S: S.set('Gaussian')
    yield 'bad_set', CE, lambda S: S.set(B.om.Poisson, B.tm.Static)
    yield 'bad_set', CE, lambda S: S.set(B.tm.Static(), B.tm.Static())
    yield 'bad_set', CE, lambda S: S.set(c.s.om.build(), c.s.om.build())
    yield 'bad_set', CE, lambda S: S.set(c.s.om.build(), B.tm.Static(), c.s.om.build())
    yield 'bad_set', TypeError, lambda S: S.set(c.s.om.build(), quiet=True)
    for d in ('abc', 5, {1: 2}, None, (1, 2, 3), 3.5):
        yield 'bad_data', CE, lambda S, d=d: S.load(d)
        yield 'bad_data', CE, lambda S, d=d: S.loadData(d, timestamps=[1, 2, 3], silent=True)


@CHECK.gen(60, 1200)
def contradictory_models(rng, rec, i):
    B = bl()
    c = batch(rng, i)
    S = c.build(rng)
    fitted = chance(rng, 0.6)
    if fitted:
        fit_mode(rng, S, c.mode)
        before = observe(S, c)
    for l, exc, f in bad_models(rng, c, B):
        rec.raises(l, exc, lambda: f(S), 'contradictory input')
        if l not in ('bad_set',) and fitted and chance(rng, 0.15):
            same(rec, 'usable', observe(S, c), before, 'results after refused input of kind %s (%s)' % (l, c.describe()))
        if l == 'bad_set':
            S.set(c.s.om.build(), gen.build_tm(c.s.spec, c.s.om.names), silent=True)       # the first model may have been set
            if fitted:
                fit_mode(rng, S, c.mode)
        if chance(rng, 0.06):
            finish(rng, rec, S, c, 'usable', 'fit after refused input of kind %s' % l, set_all=False)
    finish(rng, rec, S, c, 'usable', 'fit after refused input', set_all=True)
    rec.situation('models', c.kind, fitted, c.describe())


@CHECK.gen(60, 1200)
def failing_fits(rng, rec, i):
    """Configurations whose contradiction shows when the fit is started."""
    CE, PE = exceptions()
    B = bl()
    c = batch(rng, i)
    S = c.build(rng)
    if chance(rng, 0.5):
        fit_mode(rng, S, c.mode)
    names, ug = c.s.om.names, c.s.om.user_grids
    n = names[0]
    shape = list(c.s.om.shape)
    args = [x for p in zip(names, ug) for x in p]
    fn = gen.arity(lambda data, *p: np.ones_like(p[0]), len(names))
    ok_tm = gen.build_tm(c.s.spec, names)
    modes = ['complete', 'forward', 'evidence']
    # priors of the parameters
    S.set(ok_tm, silent=True)
    import sympy.stats
    import sympy
    bad = [np.ones([k + 1 for k in shape]), np.ones(int(np.prod(shape)) + 1), 'flat', 5, [sympy.stats.Normal('a', sympy.Symbol('zz'), 1)] * len(names), [sympy.stats.Normal('a%d' % k, 0, 1) for k in range(len(names) + 1)]]
    plain = pick(rng, [sympy.Symbol('q'), 0.5, 'flat', sympy.stats.Normal, sympy.Float(2)])
    k = int(rng.integers(len(names)))
    bad.append([plain if j == k else sympy.stats.Normal('n%d' % j, 0, 1) for j in range(len(names))])
    for p in bad:
        S.set(B.om.NumPy(fn, *args, prior=p), silent=True)
        rec.raises('bad_prior', Exception if isinstance(p, (str, int)) else CE, lambda: fit_mode(rng, S, pick(rng, modes)), 'prior %.60r' % (p,))
    S.set(c.s.om.build(), silent=True)
    # names of hyper-parameters and targets
    for tm in (B.tm.CombinedTransitionModel(B.tm.GaussianRandomWalk('s', 0.1, target=n), B.tm.GaussianRandomWalk('s', 0.2, target=n)),
               B.tm.CombinedTransitionModel(B.tm.GaussianRandomWalk('s', 0.1, target=n), B.tm.CombinedTransitionModel(B.tm.Static(), B.tm.RegimeSwitch('s', -3))),
               B.tm.SerialTransitionModel(B.tm.GaussianRandomWalk('b', 0.1, target=n), B.tm.BreakPoint('b', c.s.tsf[0]), B.tm.Static())):
        S.set(tm, silent=True)
        rec.raises('duplicate_names', CE, lambda: fit_mode(rng, S, pick(rng, modes)), 'duplicate hyper-parameter names')
        if c.kind == 'study':
            rec.raises('duplicate_names', CE, lambda: S.optimize(), 'duplicate hyper-parameter names')
    if len(c.s.tsf) > 1 and c.kind == 'study':
        for tm in (B.tm.GaussianRandomWalk('s', 0.1, target='nosuch'), B.tm.AlphaStableRandomWalk('a', 0.1, 'b', 1.5, target='nosuch'), B.tm.Deterministic(lambda t, a=1: a * t, target='nosuch')):
            S.set(tm, silent=True)
            rec.raises('wrong_target', Exception, lambda: fit_mode(rng, S, pick(rng, modes)), 'target is not a parameter')
    if c.kind in ('hyper', 'cp'):
        k = B.tm.ChangePoint('t0', c.s.tsf[:2])
        for p in (np.ones(7), lambda x, y: x, [1, 2, 3, 4, 5, 6, 7], sympy.stats.Normal('q', sympy.Symbol('zz'), 1)):
            S.set(B.tm.CombinedTransitionModel(k, B.tm.GaussianRandomWalk('s', [0.1, 0.2, 0.3], target=n, prior=p)), silent=True)
            rec.raises('bad_hyper_prior', Exception if isinstance(p, list) else CE, lambda: fit_mode(rng, S, pick(rng, modes)), 'hyper-prior %.60r' % (p,))
    if c.kind == 'hyper':
        t = c.s.tsf[0]
        for tm in (B.tm.CombinedTransitionModel(B.tm.ChangePoint('a', [t, t + 1]), B.tm.ChangePoint('b', [t + 1, t + 2])), B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('a', [t, t + 2]), B.tm.Static(), B.tm.BreakPoint('b', [t + 1, t + 2]), B.tm.Static()),
                   B.tm.CombinedTransitionModel(B.tm.ChangePoint('a', t), B.tm.ChangePoint('b', [t, t + 2]))):
            S.set(tm, silent=True)
            rec.raises('colliding_points', CE, lambda: fit_mode(rng, S, pick(rng, modes)), 'change-/break-points in different or unclear order')
        # the collision shows in one or few of many combinations only
        m, at = int(rng.integers(4, 30)), int(rng.integers(2, 5))
        early = [t - m + k for k in range(m)]
        early.insert(pick(rng, [0, len(early), int(rng.integers(m))]), t + 1)
        walk = B.tm.GaussianRandomWalk('s', np.linspace(0.1, 0.2, at), target=n)
        pts = [('a', early), ('b', [t + 1, t + 2][:int(rng.integers(1, 3))])]
        if chance(rng, 0.5):
            pts = pts[::-1]
        if chance(rng, 0.5):
            tm = B.tm.CombinedTransitionModel(*([walk] if chance(rng, 0.5) else []) + [B.tm.ChangePoint(q, v) for q, v in pts])
        else:
            pts = sorted(pts)
            if pts[0][1][0] == t + 1:
                pts[0] = ('a', pts[0][1][::-1])
            tm = B.tm.SerialTransitionModel(walk if chance(rng, 0.5) else B.tm.Static(), B.tm.BreakPoint(*pts[0]), B.tm.Static(), B.tm.BreakPoint(*pts[1]), B.tm.Static())
        S.set(tm, silent=True)
        rec.raises('rare_collision', CE, lambda: fit_mode(rng, S, pick(rng, modes)), 'change-/break-points that coincide in few of many combinations')
    if c.kind == 'cp':
        t = c.s.tsf[0]
        ser = lambda q: B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint(q, t), B.tm.Static())
        for l, exc, tm in (('no_points', CE, B.tm.Static()), ('no_points', CE, B.tm.GaussianRandomWalk('s', [0.1, 0.2], target=n)), ('no_points', CE, B.tm.CombinedTransitionModel(B.tm.Static(), B.tm.RegimeSwitch('p', -4))),
                           ('both_kinds_of_points', NotImplementedError, B.tm.CombinedTransitionModel(ser('b'), B.tm.ChangePoint('d', t))),
                           ('several_serials', NotImplementedError, B.tm.CombinedTransitionModel(ser('b'), ser('d'))),
                           ('no_ascending', CE, B.tm.CombinedTransitionModel(B.tm.ChangePoint('a', t + 1), B.tm.ChangePoint('b', t))),
                           ('no_ascending', CE, B.tm.CombinedTransitionModel(B.tm.ChangePoint('a', [t + 1, t + 2]), B.tm.ChangePoint('b', [t, t + 1]))),
                           ('no_ascending', CE, B.tm.CombinedTransitionModel(B.tm.ChangePoint('a', t), B.tm.ChangePoint('b', t)))):
            S.set(tm, silent=True)
            rec.raises(l, exc, lambda: fit_mode(rng, S, pick(rng, modes)), 'change-point study')
    # estimation of parameter values without (usable) data
    E = getattr(B, CLS[c.kind])(silent=True)
    E.set(c.s.om.build(), gen.build_tm(c.s.spec, names), silent=True)
    bad_om = pick(rng, [lambda: B.om.Gaussian('mean', None, 'std', None), lambda: B.om.Poisson('rate', None), lambda: B.om.GaussianMean('mean', None), lambda: B.om.WhiteNoise('std', None), lambda: B.om.Laplace('a', None, 'b', None)])
    if chance(rng, 0.5):
        E.load(np.ones(4) * 0., silent=True)
    rec.raises('estimation_failed', CE, lambda: E.set(bad_om(), silent=True), 'parameter values cannot be estimated')
    E.load(c.s.data, timestamps=c.s.ts, silent=True)
    finish(rng, rec, E, c, 'usable', 'fit after failed estimation of parameter values', set_all=False)
    if c.kind == 'study':
        H = pick(rng, [B.HyperStudy, B.ChangepointStudy, B.OnlineStudy])(silent=True)
        rec.raises('not_available', NotImplementedError, lambda: H.optimize(), 'optimisation')
    finish(rng, rec, S, c, 'usable', 'fit after refused fits')
    rec.situation('failing', c.kind, c.describe())


@CHECK.gen(60, 1200)
def online(rng, rec, i):
    CE, PE = exceptions()
    B = bl()
    c = online_case(rng, T=int(rng.integers(2, 6)), single=False)
    s = c.s
    S = B.OnlineStudy(storeHistory=c.history, silent=True)
    x0 = c.point(s.data[0])
    n = s.om.names[0]

    def early(k):
        for l, f in (('getPDs', lambda: S.getPDs(n)), ('getPD', lambda: S.getPD(0, n)), ('getCPD', lambda: S.getCPD(n)), ('mean', lambda: S.getCurrentParameterMeanValue(n)), ('means', lambda: S.getParameterMeanValues(n)),
                     ('plot', lambda: S.plot(n)), ('eval', lambda: S.eval('%s > 0' % n, silent=True))):
            rec.raises('unfitted_readout', Exception, f, '%s of online study before the first data point' % l)

    early(0)
    rec.raises('missing_part', CE, lambda: S.step(x0), 'step without models')
    if chance(rng, 0.5):
        # transition models first
        for m, sp in zip(c.tm_names, c.specs):
            S.add(m, gen.build_tm(sp, s.om.names))
        early(1)
        for _ in range(2):
            rec.raises('missing_part', CE, lambda: S.step(x0), 'step without observation model')
        S.set(s.om.build(), silent=True)
    else:
        S.set(s.om.build(), silent=True)
        early(1)
        for _ in range(2):
            rec.raises('missing_part', CE, lambda: S.step(x0), 'step without transition model')
        for m, sp in zip(c.tm_names, c.specs):
            S.add(m, gen.build_tm(sp, s.om.names))
    early(2)
    k = len(c.specs)
    for bad in ([0.5] * (k + 1), np.ones(k + 2), [0.3] * (k - 1) if k > 1 else []):
        rec.raises('online_misuse', CE, lambda: S.setTransitionModelPrior(bad), 'transition model prior of wrong length')
    if c.tm_prior is not None:
        S.setTransitionModelPrior(c.tm_prior, silent=True)
    rec.raises('not_available', NotImplementedError, lambda: S.fit(), 'fit of online study')
    W = c.build(rng)
    for j, x in enumerate(s.data):
        S.step(c.point(x))
        W.step(c.point(x))
        if j < s.om.seg - 1:
            continue
        rec.raises('online_misuse', Exception, lambda: S.getCPD('nosuch'), 'unknown parameter')
        rec.raises('online_misuse', Exception, lambda: S.getCTMP('nosuch'), 'unknown transition model')
        rec.raises('online_misuse', PE, lambda: S.getCHPD('nosuch'), 'unknown hyper-parameter')
        rec.raises('online_misuse', NotImplementedError, lambda: S.getJHPD(['a', 'b']), 'joint distribution')
        rec.raises('online_misuse', Exception, lambda: S.plot('nosuch'), 'plot of unknown name')
        h = c.names()
        t_ = s.tsf[int(rng.integers(j - s.om.seg + 2))]
        for bad in ('nosuch', n + '_'):
            for l, f in (('getCPD', lambda: S.getCPD(bad)), ('current mean', lambda: S.getCurrentParameterMeanValue(bad)), ('getPD', lambda: S.getPD(t_, bad)), ('average', lambda: S.getPD('avg', bad)), ('getPDs', lambda: S.getPDs(bad)),
                         ('mean', lambda: S.getParameterMeanValue(t_, bad)), ('means', lambda: S.getParameterMeanValues(bad)), ('evolution', lambda: S.plotParameterEvolution(bad))):
                rec.raises('wrong_parameter', PE, f, '%s of unknown parameter in online study' % l)
            for l, f in (('getCHPD', lambda: S.getCHPD(bad)), ('getHPD', lambda: S.getHPD(t_, bad)), ('average', lambda: S.getHPD('avg', bad)), ('getHPDs', lambda: S.getHPDs(bad)), ('mean', lambda: S.getHyperParameterMeanValue(t_, bad)),
                         ('means', lambda: S.getHyperParameterMeanValues(bad)), ('evolution', lambda: S.plotHyperParameterEvolution(bad))):
                rec.raises('unknown_hyper_parameter', PE, f, '%s of unknown hyper-parameter in online study' % l)
            rec.raises('online_misuse', Exception, lambda: S.getTMPs(bad), 'unknown transition model')
            rec.raises('online_misuse', Exception, lambda: S.plot(bad, t=t_), 'plot of unknown name')
        past = [('getPDs', lambda: S.getPDs(n)), ('getPD', lambda: S.getPD(s.tsf[0], n)), ('means', lambda: S.getParameterMeanValues(n)), ('mean', lambda: S.getParameterMeanValue(s.tsf[0], n)),
                ('TMPs', lambda: S.getTMPs(c.tm_names[0])), ('TMDs', lambda: S.getTransitionModelDistributions()), ('evolution', lambda: S.plotParameterEvolution(n)), ('eval', lambda: S.eval('%s@%s > 0' % (n, num(s.tsf[0])), silent=True))]
        if h:
            past += [('HPDs', lambda: S.getHPDs(h[0])), ('HPD', lambda: S.getHPD(s.tsf[0], h[0])), ('HPM', lambda: S.getHyperParameterMeanValues(h[0])), ('HPM1', lambda: S.getHyperParameterMeanValue(s.tsf[0], h[0]))]
        if s.om.seg == 1:
            past += [('simulate', lambda: S.simulate([1, 2]))]
        if not c.history:
            for l, f in past:
                rec.raises('online_history', Exception if l in ('eval', 'TMPs', 'TMDs') else PE, f, '%s of past results without history' % l)
        else:
            rec.count('online_history')
            bad = s.tsf[j - s.om.seg + 1] + pick(rng, [1, 2, 0.5])
            for l, f in (('PD', lambda: S.getPD(bad, n)), ('mean', lambda: S.getParameterMeanValue(bad, n)), ('plot', lambda: S.plot(n, t=bad))):
                rec.raises('unknown_time', PE, f, '%s of online study at time %r that has not come' % (l, bad))
            for x_ in h[:1]:
                rec.raises('unknown_time', PE, lambda: S.getHPD(bad, x_), 'HPD of online study at time %r that has not come' % bad)
                rec.raises('unknown_time', PE, lambda: S.getHyperParameterMeanValue(bad, x_), 'HPM of online study at time %r that has not come' % bad)
    same(rec, 'usable', observe(S, c), observe(W, c), 'online study after refused calls (%s)' % c.describe())
    rec.situation('online', c.describe())


@CHECK.gen(120, 2400)
def random_duplicates(rng, rec, i):
    """Nested transition models in which any two hyper-parameters have the same name."""
    CE, PE = exceptions()
    B = bl()
    kind = ['study', 'hyper', 'online'][i % 3]
    for _ in range(60):
        s = scenario(rng, om_kinds=gen.CHEAP, depth=pick(rng, [1, 2, 2]), composite=0.9, T=int(rng.integers(4, 7)), hyper=kind != 'study', max_values=2, missing=0.)
        names = [n for n, _, _ in ref.flat(s.spec)]
        if 2 <= len(names) <= 8 and 'det' not in ref.kinds(s.spec):
            break
    else:
        raise Skip('no nested model')
    a, b = [names[int(k)] for k in rng.choice(len(names), 2, replace=False)]

    def ren(sp):
        sp = dict(sp)
        if 'n' in sp:
            sp['n'] = [a if n == b else n for n in sp['n']]
        for k in ('m', 'b'):
            if k in sp:
                sp[k] = [ren(x) for x in sp[k]]
        return sp
    tm = gen.build_tm(ren(s.spec), s.om.names)
    if kind == 'online':
        S = B.OnlineStudy(silent=True)
        S.set(s.om.build(), silent=True)
        if chance(rng, 0.3):
            S.add('first', B.tm.Static())

        def go():
            S.add('model', tm)
            for x in s.data:
                S.step(x)
        rec.raises('duplicate_names', CE, go, 'hyper-parameters with the same name, %s' % gen.describe(s.spec))
    else:
        S = gen.make_study(rng, s.om, tm, s.data, s.ts, cls=B.Study if kind == 'study' else B.HyperStudy)
        rec.raises('duplicate_names', CE, lambda: fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence'])), 'hyper-parameters with the same name, %s' % gen.describe(s.spec))
    rec.situation('duplicates', kind, gen.describe(s.spec), names.index(a), names.index(b))


@CHECK.gen(16, 320)
def online_duplicates(rng, rec, i):
    CE, PE = exceptions()
    B = bl()
    S = B.OnlineStudy(storeHistory=True, silent=True)
    S.set(B.om.Poisson('rate', B.oint(0, 6, 10)), silent=True)
    h = pick(rng, ['s', 'sigma'])
    S.add('a', B.tm.GaussianRandomWalk(h, [0.1, 0.2], target='rate'))
    S.add('b', pick(rng, [B.tm.GaussianRandomWalk(h, [0.3], target='rate'), B.tm.RegimeSwitch(h, [-3, -2]), B.tm.CombinedTransitionModel(B.tm.Static(), B.tm.GaussianRandomWalk(h, 0.3, target='rate'))]))
    for _ in range(2):
        rec.raises('online_duplicates', CE, lambda: S.step(2), 'duplicate hyper-parameter names in two transition models')
    rec.situation('duplicates', i % 8)


@CHECK.gen(24, 480)
def parser_unfitted(rng, rec, i):
    """Queries to studies without results."""
    B = bl()
    c = batch(rng, i)
    S = c.build(rng)
    n = c.s.om.names[0]
    st = pick(rng, ['unfitted', 'evidence'])
    if st == 'evidence':
        fit_mode(rng, S, 'evidence')
    for q in ('%s > 1' % n, '%s@%s > 1' % (n, num(c.s.tsf[0])), '2*%s@%s + 1' % (n, num(c.s.tsf[0]))):
        rec.raises('parser_unfitted', Exception, lambda: B.Parser(S)(q, silent=True), 'query %r to %s study' % (q, st))
        rec.raises('parser_unfitted', Exception, lambda: S.eval(q, t=c.s.tsf[0], silent=True), 'query %r to %s study' % (q, st))
    finish(rng, rec, S, c, 'usable', 'fit after refused queries', set_all=False)
    rec.situation('parser', st, c.kind, n)


# ------------------------------------------------------------------------------------------------- impossible data
def gap_om(rng):
    """Observation model with values that are impossible (99), or possible in the lower (0) or upper (1) half only."""
    m = int(rng.integers(4, 12))
    g = np.linspace(0.5, m * 0.5, m)
    h = m // 2
    two = chance(rng, 0.3)
    grids = [g, np.linspace(-1., 1., 3)] if two else [g]
    names = ['aa', 'bb'][:len(grids)]

    def lik(x, a):
        if x == 99:
            return np.zeros_like(a)
        if x == 0:
            return np.where(a <= g[h - 1] + 1e-9, 0.5 + 0.1 * a, 0.)
        if x == 1:
            return np.where(a > g[h - 1] + 1e-9, 0.4, 0.)
        return np.exp(-(a - x) ** 2)
    fn = (lambda data, aa, bb: lik(np.ravel(data)[0], aa)) if two else (lambda data, aa: lik(np.ravel(data)[0], aa))
    l1 = (lambda s, a, b: lik(s[0], a)) if two else (lambda s, a: lik(s[0], a))
    B = bl()
    return gen.OM('np%d' % len(grids), names, grids, grids, gen.gen_prior(rng, grids, kinds=['none']), lambda o: B.om.NumPy(fn, *[x for p in zip(names, grids) for x in p], prior=None), l1,
                  lambda r, k: np.full(k, 2.))


def impossible_scenario(rng, kind, where, T):
    om = gap_om(rng)
    kw = dict(om=om, T=T, missing=0., multidim=False, ts_kinds=('none', 'offset', 'gaps'))
    if kind == 'study':
        s = scenario(rng, depth=1, tm_kinds=pick(rng, [None, {'static'}, {'grw'}, {'regime'}]) and {'static', 'grw', 'det', 'regime', 'cp'}, **kw)
    elif kind == 'hyper':
        s = hyper_scenario(rng, 1, 12, depth=1, tm_kinds={'static', 'grw', 'regime', 'cp'}, **kw)
    else:
        s = cp_case(rng, hi=20, om=om, T=T, missing=0., multidim=False).s
    d = np.array([pick(rng, [2., 3., 2.5]) for _ in range(s.T)])
    for k in where:
        if k < s.T:
            d[k] = 99.
    s.data = d
    s.liks = om.liks(d)
    return s


@CHECK.gen(150, 3000)
def impossible(rng, rec, i):
    """One or several impossible data points at every position, before and after possible data."""
    CE, PE = exceptions()
    kind = ('study', 'hyper', 'cp')[i % 3]
    T = int(rng.integers(3 if kind == 'cp' else 1, 7))
    k = (i // 3) % T
    s = impossible_scenario(rng, kind, [k] + ([int(rng.integers(T))] if chance(rng, 0.2) else []), T)
    c = Case(kind, s)
    S = c.build(rng)
    good = np.array([pick(rng, [2., 3.]) for _ in range(s.T)])
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    c.mode = pick(rng, ['complete', 'forward', 'evidence'])
    if chance(rng, 0.6):
        # results of an earlier fit exist
        S.load(good, timestamps=s.ts, silent=True)
        fit_mode(rng, S, pick(rng, ['complete', 'forward']))
        S.load(s.data, timestamps=s.ts, silent=True)
        rec.count('stale')
    fit_mode(rng, S, mode)
    what = '%s/%s, impossible data point %d of %d, %s' % (kind, mode, k, s.T, gen.describe(s.spec))
    rec.check('impossible_evidence', S.logEvidence == -np.inf and S.log10Evidence == -np.inf, lambda: 'log-evidence %r: %s' % (S.logEvidence, what))
    if kind == 'study':
        rec.check('impossible_local', np.shape(S.localEvidence) == (len(s.tsf),) and np.all(np.isfinite(S.localEvidence)) and np.min(S.localEvidence) == 0.,
                  lambda: 'local evidence %r: %s' % (S.localEvidence, what))
    t = pick(rng, s.tsf)
    for l, f in reads(S, c, 'aa', t):
        rec.raises('impossible_readout', Exception, f, '%s although there is no posterior: %s' % (l, what))
    if kind in ('hyper', 'cp'):
        for h in c.names():
            r = attempt(lambda: S.getHPD(h))
            rec.check('impossible_readout', r[0] == 'EXC' or not np.any(np.asarray(r[1], float) > 0), lambda: 'distribution of %s: %r although no value is possible: %s' % (h, r, what))
    S.load(good, timestamps=s.ts, silent=True)
    fit_mode(rng, S, c.mode)
    W = c.build(rng, data=good)
    fit_mode(rng, W, c.mode)
    c.s.data = good
    same(rec, 'impossible_then_possible', observe(S, c), observe(W, c), 'fit after impossible data (%s)' % c.describe())
    rec.situation('impossible', kind, mode, k, s.T, gen.describe(s.spec))


@CHECK.gen(60, 1200)
def jointly(rng, rec, i):
    """Data points that exclude each other unless the parameter may change in between."""
    B = bl()
    om = gap_om(rng)
    T = int(rng.integers(2, 7))
    d = np.full(T, 2.)
    a, b = sorted(rng.choice(T, 2, replace=False)) if T > 1 else (0, 0)
    u, v = pick(rng, [(0., 1.), (1., 0.)])
    d[a], d[b] = u, v
    change = chance(rng, 0.5)
    t = int(rng.integers(0, T))
    spec = {'k': 'static'} if not change else {'k': 'cp', 'n': ['tc'], 'v': [t], 'pr': [gen.gen_hyper_prior(rng, np.arange(2.), ['none'])]}
    possible = change and a <= t < b          # a change-point lies between its time step and the next one
    for mode in ('complete', 'forward', 'evidence'):
        S = B.Study(silent=True)
        S.load(d, silent=True)
        S.set(om.build(), gen.build_tm(spec, om.names), silent=True)
        fit_mode(rng, S, mode)
        rec.check('jointly_impossible', (S.logEvidence > -np.inf) == possible and not np.isnan(S.logEvidence), lambda: 'log-evidence %r in mode %s, data %s, change-point %s' % (S.logEvidence, mode, d, t if change else None))
        if possible and mode != 'evidence':
            rec.dist('possible_distribution', S.posteriorSequence[0], 1., 'posterior')
        elif not possible:
            rec.raises('impossible_readout', Exception, lambda: S.getPDs('aa'), 'distributions although impossible')
    # hyper-study over all change-points: exactly those between the two data points are possible
    H = pick(rng, [B.HyperStudy, B.ChangepointStudy])(silent=True)
    H.load(d, silent=True)
    vals = np.arange(T)
    H.set(om.build(), B.tm.ChangePoint('tc', vals), silent=True)
    m = pick(rng, ['complete', 'forward', 'evidence'])
    fit_mode(rng, H, m)
    x, p = H.getHPD('tc')
    want = (vals >= a) & (vals < b)
    rec.check('partly_impossible', np.array_equal(np.asarray(p) > 0, want) and abs(np.sum(p) - 1) < 1e-9, lambda: 'change-point probabilities %s for data %s (%s)' % (p, d, m))
    rec.situation('jointly', a, b, T, t if change else None, m)


@CHECK.gen(60, 1200)
def leaving_grid(rng, rec, i):
    """Deterministic models may shift all probability off the grid, in either direction: no distributions then."""
    B = bl()
    m = int(rng.integers(6, 13))
    g = np.arange(m) * 1.
    w = float(pick(rng, [0.6, 1.1]))
    fn = lambda data, aa: (np.abs(data - aa) < w) * 0.5
    speed = float(pick(rng, [-4, -3, -2, 2, 3, 4]))

    def drift(t, v=speed):
        return v * t
    T = int(rng.integers(2, 5))
    d = np.clip(np.round(rng.uniform(-0.5, m - 0.5) + speed * np.arange(T) + rng.normal(size=T)), 0, m - 1)
    d[int(rng.integers(T))] = pick(rng, [0., 1., 2., m - 1., m - 2., m - 3.])
    tm = B.tm.Deterministic(drift, target='aa')
    if chance(rng, 0.4):
        tm = B.tm.CombinedTransitionModel(tm, B.tm.Static())
    S = B.Study(silent=True)
    S.set(B.om.NumPy(fn, 'aa', g), tm, silent=True)
    mode = pick(rng, ['complete', 'complete', 'forward', 'evidence'])
    if chance(rng, 0.6):
        S.load(np.full(T, 2. if speed < 0 else m - 3.), silent=True)
        S.set(B.tm.Static(), silent=True)
        fit_mode(rng, S, 'complete')
        S.set(tm, silent=True)
        rec.count('stale')
    S.load(d, silent=True)
    fit_mode(rng, S, mode)
    what = '%s, data %s, speed %s, %d values' % (mode, d, speed, m)
    e = S.logEvidence
    rec.check('off_grid', e == e and e < np.inf, lambda: 'log-evidence %r: %s' % (e, what))
    rec.count('off_grid_possible' if e > -np.inf else 'off_grid_impossible')
    if e > -np.inf:
        if mode != 'evidence':
            for p in S.getPDs('aa', density=False)[1]:
                rec.dist('off_grid', p, 1., 'distribution: ' + what)
            for t in range(T):
                rec.dist('off_grid', S.getPD(t, 'aa', density=False)[1], 1., 'distribution: ' + what)
    else:
        for l, f in (('getPDs', lambda: S.getPDs('aa')), ('getPD', lambda: S.getPD(0, 'aa')), ('avg', lambda: S.getPD('avg', 'aa')), ('means', lambda: S.getParameterMeanValues('aa')), ('plot', lambda: S.plot('aa'))):
            rec.raises('off_grid', Exception, f, '%s although log-evidence is %r: %s' % (l, e, what))
    rec.situation('off grid', mode, m, speed, T, e > -np.inf)


@CHECK.gen(40, 800)
def online_impossible(rng, rec, i):
    B = bl()
    om = gap_om(rng)
    S = B.OnlineStudy(storeHistory=chance(rng, 0.7), silent=True)
    S.set(om.build(), silent=True)
    k = int(rng.integers(1, 4))
    for j in range(k):
        S.add('m%d' % j, pick(rng, [B.tm.Static(), B.tm.GaussianRandomWalk('s%d' % j, [0.1, 0.3], target='aa'), B.tm.RegimeSwitch('p%d' % j, -2)]))
    T = int(rng.integers(1, 6))
    bad = int(rng.integers(T))
    for q in range(T):
        S.step(99. if q == bad else pick(rng, [2., 3., 2.5]))
        if q < bad:
            rec.check('impossible_online', np.isfinite(S.logEvidence), 'possible data')
        else:
            rec.check('impossible_online', S.logEvidence == -np.inf, lambda: 'log-evidence %r after an impossible data point (%d steps later)' % (S.logEvidence, q - bad))
            for n in om.names:
                r = attempt(lambda: S.getCPD(n))
                rec.check('impossible_online', r[0] == 'EXC' or not np.any(np.asarray(r[1], float) > 0), 'parameter distribution after an impossible data point')
    rec.situation('online_impossible', T, bad, k)


# ------------------------------------------------------------------------------------------------- errors and interruptions during an analysis
class Injector(object):
    """Raises an exception at one of the evaluations of the likelihood."""

    def __init__(self, om):
        self.om, self.real = om, om.pdf
        self.n, self.at, self.error = 0, None, None
        om.pdf = self

    def __call__(self, *args, **kwargs):
        self.n += 1
        if self.at is not None and self.n > self.at:
            raise self.error
        return self.real(*args, **kwargs)

    def arm(self, at, error):
        self.n, self.at, self.error = 0, at, error

    def remove(self):
        self.at = None
        self.om.pdf = self.real


@CHECK.gen(120, 2400)
def interrupted(rng, rec, i):
    """A fit that ends with an error (or is interrupted) at any evaluation of the likelihood leaves no distributions behind."""
    c = batch(rng, i)
    om = c.s.om.build()
    S = c.build(rng, om=om)
    inj = Injector(om)
    mode = pick(rng, ['complete', 'complete', 'forward', 'evidence'])
    fit_mode(rng, S, mode)
    total = inj.n
    before = chance(rng, 0.5)
    if not before:
        S = c.build(rng, om=om)
    elif chance(rng, 0.5):
        fit_mode(rng, S, 'complete')
    at = int(rng.integers(total)) if total else 0
    if total == 0:
        raise Skip('no likelihood')
    par = {'nJobs': 2} if c.kind != 'study' and chance(rng, 0.02) else {}
    err = RuntimeError('injected') if par else pick(rng, [RuntimeError('injected'), KeyboardInterrupt(), ValueError('injected'), MemoryError()])
    inj.arm(0 if par else at, err)
    what = '%s of %s, %s at likelihood %d of %d %s' % (mode, c.describe(), type(err).__name__, at, total, par)
    try:
        fit_mode(rng, S, mode, **par)
    except BaseException as e:
        if type(e) is not type(err):
            raise
    else:
        if not par and inj.n <= inj.at:
            raise Skip('the likelihood was evaluated less often than in the first fit')
        raise Violation('interrupted_fit: no error reported by the %s' % what)
    n, t = pick(rng, c.s.om.names), pick(rng, c.s.tsf)
    for l, f in reads(S, c, n, t):
        rec.raises('interrupted_fit', Exception, f, '%s after interrupted %s' % (l, what))
    for h in c.names() if c.kind != 'study' and n_combos(c.s.spec, c.s.tsf) > 1 else []:
        rec.raises('interrupted_fit', Exception, lambda: S.getHPD(h), 'getHPD(%s) after interrupted %s' % (h, what))
    inj.remove()
    finish(rng, rec, S, c, 'after_interruption', 'fit after interrupted ' + what, set_all=False)
    rec.situation('interrupted', what, before)


@CHECK.gen(60, 1200)
def refused_points(rng, rec, i):
    """Data points that cannot be processed raise an error and leave an online study as it was."""
    B = bl()
    c = online_case(rng, T=int(rng.integers(2, 7)))
    c.python_scalars = False
    s = c.s
    om = s.om.build()
    S, W = c.build(rng, om=om), c.build(rng)
    inj = Injector(om)
    bad_prior = chance(rng, 0.3)
    log = []

    def refuse(point, how):
        log.append((j, how))
        try:
            S.step(point)
        except Exception:
            rec.count('refused_data_point')
        else:
            raise Violation('refused_data_point: %s accepted by %s, history %s' % (how, c.describe(), log))

    for j, x in enumerate(s.data):
        x = c.point(x)
        while chance(rng, 0.5):
            how = pick(rng, ['type', 'shape', 'likelihood', 'likelihood'])
            if how == 'type' and j >= s.om.seg - 1:
                b = pick(rng, ['x', None, {}, 'nan'])
                refuse(np.array([b] * len(x), dtype=object) if np.ndim(x) else b, 'data point %r' % (b,))
            elif how == 'shape' and j > 0:
                b = (np.append(x, x[0]) if chance(rng, 0.5) else x[0]) if np.ndim(x) else np.array([x, x])
                refuse(b, 'data point %r among points %r' % (b, x))
            elif how == 'likelihood' and j >= s.om.seg - 1 and not np.isnan(np.asarray(s.data[j - s.om.seg + 1:j + 1], float)).any():
                inj.arm(0, ZeroDivisionError('injected'))
                refuse(x, 'error in the likelihood')
                inj.arm(None, None)
        if bad_prior and j == s.om.seg - 1:
            args = [y for p in zip(s.om.names, s.om.grids) for y in p]
            S.set(B.om.NumPy(gen.arity(lambda data, *p: 1. / (1. + p[0] ** 2), len(s.om.names)), *args, prior=np.ones(tuple(k + 1 for k in s.om.shape))), silent=True)
            if s.om.seg == 1:
                rec.raises('refused_data_point', exceptions()[0], lambda: S.step(x), 'prior of wrong shape')
                log.append((j, 'prior'))
            S.set(om, silent=True)
        S.step(x)
        W.step(x)
        if j >= s.om.seg - 1:
            same(rec, 'after_refused_data_point', observe(S, c, times=s.tsf[:j + 2 - s.om.seg]), observe(W, c, times=s.tsf[:j + 2 - s.om.seg]), 'online study (%s) after refused data points %s' % (c.describe(), log))
    rec.situation('refused', c.describe(), log)
