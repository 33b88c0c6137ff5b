"""C20: optimisation reports the hyper-parameters it selected and their exact fit."""
import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C20', 'distinct (models, selection of hyper-parameters, mode, optimiser options, history) combinations; event log of the hyper-parameter values in force at every likelihood evaluation, comparison with fresh studies',
              ['SciPy returns the last trial point of COBYLA, which lies within the tolerance of the best one: "never worse than the start" is judged up to this tolerance'])
CHECK.required = ['similar_names', 'others_untouched', 'fit_of_reported_values', 'not_worse', 'default_selection', 'single_name', 'name_list', 'permuted_list', 'refused_name', 'nothing_to_optimise', 'usable_after_refusal', 'later_fit', 'again',
                  'mode_complete', 'mode_forward', 'nested', 'serial', 'points_kept', 'not_for_hyper_studies', 'point_by_name', 'improves', 'trace_only_selected', 'trace_all_selected', 'evaluations_logged', 'local_optimum']


class Watched(object):
    """Wraps the observation model: logs the hyper-parameter values in force whenever a likelihood is computed."""

    def __init__(self, om, names):
        self.om, self.names, self.log, self.S = om, names, [], None
        real = om.pdf

        def pdf(grid, seg):
            if self.S is not None:
                v = tuple(float(self.S.getHyperParameterValue(n)) for n in self.names)
                if not self.log or self.log[-1] != v:
                    self.log.append(v)
            return real(grid, seg)
        om.pdf = pdf


def spec_ok(s):
    return not set(ref.kinds(s.spec)) & {'biv', 'alpha'} and len(ref.flat(s.spec)) > 0


def make(rng, **kw):
    kw.setdefault('om_kinds', gen.CHEAP)
    for _ in range(60):
        s = scenario(rng, T=int(rng.integers(2, 7)), depth=pick(rng, [0, 1, 1, 2]), missing=0., irregular=0.05, composite=0.7, **kw)
        if spec_ok(s) and int(np.prod(s.om.shape)) <= 400:
            return s
    raise Skip('no scenario')


def movable(spec):
    c, b = points(spec)
    fixed = [n for n, _ in c + b]
    return [n for n, _, _ in ref.flat(spec) if n not in fixed], [n for n, _ in c], [n for n, _ in b]


def evidence(rng, s, values):
    S = gen.make_study(rng, s.om, gen.build_tm(ref.with_values(s.spec, values), s.om.names), s.data, s.ts, silent=True)
    S.fit(evidenceOnly=True, silent=True)
    return S.logEvidence


def start_values(s):
    return [float(np.asarray(v)) for _, v, _ in ref.flat(s.spec)]


def compare(rec, rng, S, s, vals, forward, mon, msg):
    W = gen.make_study(rng, s.om, gen.build_tm(ref.with_values(s.spec, vals), s.om.names), s.data, s.ts, silent=True)
    W.fit(forwardOnly=forward, silent=True)
    c = Case('study', s)
    same(rec, mon, observe(S, c), observe(W, c), msg, rtol=1e-12, atol=1e-300)


def optimise(rng, rec, S, s, om, opts, forward, selection):
    """One optimisation with all its monitors; returns the values of all hyper-parameters."""
    names = [n for n, _, _ in ref.flat(s.spec)]
    free, cps, bps = movable(s.spec)
    x0 = [float(S.getHyperParameterValue(n)) for n in names]
    sel = free if selection is None else ([selection] if isinstance(selection, str) else list(selection))
    w = Watched(om, names) if om is not None else None
    if w:
        w.S = S
    fn = S.optimize
    args = () if selection is None else (selection,)
    kw = dict(opts)
    if forward or chance(rng, 0.3):
        kw['forwardOnly'] = forward
    given = list(selection) if isinstance(selection, list) else None
    fn(*args, **kw)
    if given is not None:
        rec.check('arguments_kept', given == selection, 'list of names was altered')
    if w:
        w.S = None
    vals = [S.getHyperParameterValue(n) for n in names]
    rec.check('values_are_numbers', all(np.ndim(v) == 0 and np.isfinite(float(v)) for v in vals), lambda: 'optimal values %r' % vals)
    vals = [float(v) for v in vals]
    for n, a, b in zip(names, x0, vals):
        if n not in sel:
            rec.check('others_untouched', a == b, lambda: 'hyper-parameter %s was not selected, but changed from %r to %r (selection %s)' % (n, a, b, selection))
            if n in cps + bps:
                rec.count('points_kept')
    compare(rec, rng, S, s, vals, forward, 'fit_of_reported_values', 'results after optimisation vs fit of the reported values %s %s' % (vals, describe(s)))
    e0 = evidence(rng, s, x0)
    e1 = S.logEvidence
    tol = opts.get('tol', 1e-4)
    ok = e1 >= e0 - 1e-9 * (1 + abs(e0))
    if not ok and w and w.log:
        # last trial point of the optimiser: some evaluated point within its tolerance is not worse than the start
        near = [v for v in w.log if np.linalg.norm(np.array(v) - np.array(vals)) <= 2.5 * tol * np.sqrt(len(sel)) + 1e-12]
        ok = any(evidence(rng, s, v) >= e0 - 1e-9 * (1 + abs(e0)) for v in near)
    if np.isfinite(e0):
        rec.check('not_worse', ok, lambda: 'log-evidence %r after optimisation, %r before (values %s -> %s) %s' % (e1, e0, x0, vals, describe(s)))
        if e1 > e0 + 1e-6:
            rec.count('improves')
    if w:
        rec.count('evaluations_logged', len(w.log))
        for v in w.log:
            for n, a, b in zip(names, x0, v):
                if n not in sel:
                    rec.check('trace_only_selected', a == b, lambda: 'hyper-parameter %s was not selected, but set to %r during optimisation' % (n, b))
        if opts.get('options', {}).get('maxiter', 1000) >= len(sel) + 1 and w.log and np.isfinite(e0):
            for n, k in [(n, k) for k, n in enumerate(names) if n in sel]:
                rec.check('trace_all_selected', len(set(v[k] for v in w.log)) > 1, lambda: 'selected hyper-parameter %s was never varied' % n)
    return vals


def options(rng):
    o = {}
    r = rng.random()
    if r < 0.7:
        o['options'] = {'maxiter': int(rng.integers(1, 40))}
    if r > 0.5:
        o['tol'] = pick(rng, [1e-2, 1e-3, 1e-4, 0.1])
    if chance(rng, 0.15):
        o.setdefault('options', {'maxiter': 40})['rhobeg'] = pick(rng, [0.1, 0.5])
    return o


def study(rng, s, watch=True):
    om = s.om.build()
    S = gen.make_study(rng, _Given(om), gen.build_tm(s.spec, s.om.names), s.data, s.ts, silent=True)
    return S, om if watch else None


class _Given(object):
    def __init__(self, obj):
        self.obj = obj

    def build(self):
        return self.obj


def situation(rec, s, sel, forward, opts, what):
    rec.count('mode_forward' if forward else 'mode_complete')
    if s.spec['k'] in ('comb', 'serial'):
        rec.count('nested')
    if 'serial' in ref.kinds(s.spec):
        rec.count('serial')
    rec.situation(what, describe(s), sel, forward, sorted(opts))


def make_free(rng, **kw):
    for _ in range(60):
        s = make(rng, **kw)
        if movable(s.spec)[0]:
            return s
    raise Skip('no scenario')


@CHECK.gen(150, 3000)
def default_selection(rng, rec, i):
    s = make_free(rng)
    S, om = study(rng, s)
    forward = chance(rng, 0.4)
    o = options(rng)
    if chance(rng, 0.3):
        fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence']))
    optimise(rng, rec, S, s, om, o, forward, None)
    rec.count('default_selection')
    situation(rec, s, None, forward, o, 'default')


@CHECK.gen(200, 4000)
def named(rng, rec, i):
    s = make_free(rng)
    free, cps, bps = movable(s.spec)
    S, om = study(rng, s)
    forward = chance(rng, 0.4)
    o = options(rng)
    pool = free + (cps if chance(rng, 0.3) else [])
    k = int(rng.integers(1, len(pool) + 1))
    sel = [pool[j] for j in rng.permutation(len(pool))[:k]]
    if any(n in cps for n in sel):
        rec.count('point_by_name')
    if k > 1 and [n for n, _, _ in ref.flat(s.spec) if n in sel] != sel:
        rec.count('permuted_list')
    if k == 1 and chance(rng, 0.6):
        sel = sel[0]
        rec.count('single_name')
    else:
        rec.count('name_list')
        if chance(rng, 0.2):
            sel = tuple(sel)
    optimise(rng, rec, S, s, om, o, forward, sel)
    situation(rec, s, sel, forward, o, 'named')


@CHECK.gen(16, 320)
def point_by_name(rng, rec, i):
    """A change-point is optimised if it is named, together with another hyper-parameter, in any order."""
    s = make(rng, spec=lambda g: {'k': 'comb', 'm': [g.elementary({'grw'}), g.elementary({'cp'}), g.elementary({'regime'})]}, ts_kinds=('none', 'offset'))
    free, cps, bps = movable(s.spec)
    S, om = study(rng, s)
    o = options(rng)
    sel = [cps, [cps[0], free[-1]], [free[0], cps[0]], cps[0]][i % 4]
    optimise(rng, rec, S, s, om, o, False, sel)
    rec.count('point_by_name')
    situation(rec, s, sel, False, o, 'point')


@CHECK.gen(30, 600)
def similar_names(rng, rec, i):
    """Names of walks are parts of the names of change- and break-points, and vice versa."""
    if i % 2:
        s = make(rng, spec=lambda g: {'k': 'comb', 'm': [g.elementary({'cp'}), g.elementary({'grw'}), g.elementary({'regime'})]}, ts_kinds=('none', 'offset'))
    else:
        s = make(rng, serial=True)
    n = len(ref.flat(s.spec))
    pool = ['t', 't1', 'tt', 't_1', 'at', 't1t', 'a', 't11', 'at1', 'T'] + ['t%dt' % k for k in range(12, 12 + n)]
    it = iter([pool[k] for k in rng.permutation(10)] + pool[10:])

    def rename(sp):
        if sp.get('n') and sp['k'] != 'det':
            sp['n'] = [next(it) for _ in sp['n']]
        for x in sp.get('m', []) + sp.get('b', []):
            rename(x)
    rename(s.spec)
    if not movable(s.spec)[0]:
        raise Skip('nothing to optimise')
    S, om = study(rng, s)
    o = options(rng)
    free = movable(s.spec)[0]
    sel = None if chance(rng, 0.6) else [pick(rng, free)]
    optimise(rng, rec, S, s, om, o, chance(rng, 0.4), sel)
    rec.count('similar_names')
    situation(rec, s, sel, False, o, 'similar names')


@CHECK.gen(60, 1200)
def history(rng, rec, i):
    """Optimisations, fits, other data and other models in one study; it must behave as if the values had been set by hand."""
    s = make_free(rng)
    S, om = study(rng, s)
    free = movable(s.spec)[0]
    c = Case('study', s)
    vals = start_values(s)
    for k in range(int(rng.integers(2, 5))):
        r = rng.random()
        if r < 0.6 or k == 0:
            sel = None if chance(rng, 0.4) else pick(rng, free)
            o = options(rng)
            o.setdefault('options', {})['maxiter'] = int(rng.integers(2, 15))
            vals = optimise(rng, rec, S, s, om, o, chance(rng, 0.4), sel)
            if k:
                rec.count('again')
        elif r < 0.8:
            m = pick(rng, ['complete', 'forward'])
            fit_mode(rng, S, m)
            compare(rec, rng, S, s, vals, m == 'forward', 'later_fit', 'fit after optimisation')
        else:
            s.data = np.array(s.data)[::-1].copy()
            s.liks = s.om.liks(s.data)
            S.load(s.data, timestamps=s.ts, silent=True)
            fit_mode(rng, S, 'complete')
            compare(rec, rng, S, s, vals, False, 'later_fit', 'fit of other data after optimisation')
    m = pick(rng, ['complete', 'forward'])
    fit_mode(rng, S, m)
    compare(rec, rng, S, s, vals, m == 'forward', 'later_fit', 'fit after optimisations')
    rec.situation('history', describe(s), k)


@CHECK.gen(60, 1200)
def refusals(rng, rec, i):
    from bayesloop.exceptions import ConfigurationError
    B = bl()
    s = make_free(rng)
    S, om = study(rng, s)
    free, cps, bps = movable(s.spec)
    c = Case('study', s)
    vals = start_values(s)
    for sel in ['nosuch', ['nosuch'], [free[0], 'nosuch'], ['nosuch', free[0]], free[0] + 'x', [free[0], free[0]]]:
        rec.raises('refused_name', ConfigurationError, lambda: S.optimize(sel), 'unknown hyper-parameter %r' % (sel,))
        now = [float(S.getHyperParameterValue(n)) for n, _, _ in ref.flat(s.spec)]
        rec.check('usable_after_refusal', now == vals, lambda: 'refused optimisation changed values from %s to %s' % (vals, now))
    m = pick(rng, ['complete', 'forward'])
    fit_mode(rng, S, m)
    compare(rec, rng, S, s, vals, m == 'forward', 'usable_after_refusal', 'fit after refused optimisation')
    optimise(rng, rec, S, s, om, {'options': {'maxiter': 6}}, False, None)
    rec.count('usable_after_refusal')
    # nothing to optimise
    T2 = pick(rng, [B.tm.Static(), B.tm.CombinedTransitionModel(B.tm.Static(), B.tm.Static()), B.tm.Independent(), B.tm.ChangePoint('t', s.tsf[0]), B.tm.SerialTransitionModel(B.tm.Static(), B.tm.BreakPoint('q', s.tsf[0]), B.tm.Static())])
    S.set(T2, silent=True)
    rec.raises('nothing_to_optimise', ConfigurationError, lambda: S.optimize(), 'no hyper-parameters')
    S.set(gen.build_tm(s.spec, s.om.names), silent=True)
    optimise(rng, rec, S, s, om, {'options': {'maxiter': 4}}, False, free[0])
    E = B.Study(silent=True)
    rec.raises('refused_unconfigured', ConfigurationError, lambda: E.optimize(), 'nothing configured')
    for cls in (B.HyperStudy, B.ChangepointStudy, B.OnlineStudy):
        H = cls(silent=True)
        rec.raises('not_for_hyper_studies', NotImplementedError, lambda: H.optimize(), cls.__name__)
    rec.situation('refusal', describe(s))


@CHECK.gen(24, 240)
def convergence(rng, rec, i):
    """Smooth problems with default options: the result is a local optimum in every selected direction."""
    s = make(rng, spec=lambda g: pick(rng, [g.elementary({'regime'}), {'k': 'comb', 'm': [g.elementary({'grw'}), g.elementary({'regime'})]}, g.elementary({'grw'})]), ndim=1)
    S, om = study(rng, s)
    free = movable(s.spec)[0]
    vals = optimise(rng, rec, S, s, om, {'options': {'maxiter': 300}}, False, None)
    e = S.logEvidence
    names = [n for n, _, _ in ref.flat(s.spec)]
    if not np.isfinite(e):
        return
    # not worse than the points next to it by more than the tolerance can explain
    for k, n in enumerate(names):
        for d in (-0.02, 0.02):
            v = list(vals)
            v[k] += d
            en = evidence(rng, s, v)
            rec.check('local_optimum', en <= e + 0.1, lambda: 'log-evidence %r at the reported optimum %s, but %r at %s' % (e, vals, en, v))
    rec.situation('convergence', describe(s))
