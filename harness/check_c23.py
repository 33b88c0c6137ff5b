"""C23: predicted observation probabilities mix the likelihood over the posterior."""
import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl

from studies import *
from studies import _same

CHECK = Check('C23', 'distinct (study type, fit mode, observation model, kind of time argument, normalisation) combinations simulated',
              ['likelihoods of single observations are trusted to the reference of C05, parameter distributions to C01, C02, C09 and C12'])
CHECK.required = ['density', 'normalised', 'time_average', 'time_step', 'type_study', 'type_hyper', 'type_cp', 'type_online', 'mode_complete', 'mode_forward', 'refused_time', 'refused_segments', 'refused_no_posterior', 'unchanged',
                  'single_value', 'unsorted_values', 'repeated_values', 'list_values', 'int_values', 'impossible_value', 'averaged_hyper', 'total_probability', 'during_stream', 'vector_observation', 'ordering_independent']


def candidates(rng, om):
    """Observation values: from the data generator of the model, and around it."""
    x = np.asarray(om.sampler(rng, int(rng.integers(1, 9)) if chance(rng, 0.85) else int(rng.integers(20, 150))))
    return x


def values(rng, rec, om):
    x = candidates(rng, om)
    if om.columns > 1:
        rec.count('vector_observation')
        return [np.array(v) for v in x] if chance(rng, 0.5) else x
    if om.kind in ('gaussian', 'laplace', 'white') and chance(rng, 0.4):
        x = np.insert(np.asarray(x, float), int(rng.integers(len(x) + 1)), pick(rng, [-1., 1.]) * (1. + np.max(np.abs(om.grids[0]))) * 1e6)
    if len(x) == 1:
        rec.count('single_value')
    if len(x) > 1 and chance(rng, 0.3):
        x = np.concatenate([x, x[:1]])
        rec.count('repeated_values')
    if len(x) > 1 and np.any(np.diff(x) < 0):
        rec.count('unsorted_values')
    if x.dtype.kind in 'iu' or np.all(x == np.round(x)) and chance(rng, 0.5):
        x = x.astype(int)
        rec.count('int_values')
    if chance(rng, 0.3):
        x = x.tolist()
        rec.count('list_values')
    elif chance(rng, 0.1):
        x = tuple(x)
    return x


def expected(om, x, post):
    return np.array([np.sum(om.lik(np.array([v])) * post) for v in x])


def judge(rng, rec, S, c, post, mon='simulated', tol=None):
    """simulate() for random values and times, against the mixture over the given sequence of distributions."""
    om = c.s.om
    post = np.asarray(post, float)
    T = len(post)
    ts = list(c.s.tsf)[:T]
    t = tol or dict(rtol=1e-8, atol=1e-300)
    for _ in range(int(rng.integers(1, 5))):
        x = values(rng, rec, om)
        keep = freeze(list(x)) if not isinstance(x, np.ndarray) else x.copy()
        dens = chance(rng, 0.5)
        r = rng.random()
        if r < 0.35:
            k = None
            p = np.mean(post, axis=0)
        else:
            k = int(rng.integers(T))
            p = post[k]
        want = expected(om, x, p)
        total = np.sum(want)
        if not dens and not total > 1e-290:
            continue
        if np.any(want == 0.):
            rec.count('impossible_value')
        kw = {} if not dens and chance(rng, 0.5) else {'density': dens}
        if k is None:
            got = S.simulate(x, **kw) if chance(rng, 0.7) else S.simulate(x, None, dens)
            rec.count('time_average')
        else:
            tt = ts[k]
            if float(tt) == int(tt):
                tt = pick(rng, [tt, int(tt), float(tt)])
            got = S.simulate(x, t=tt, **kw) if chance(rng, 0.7) else S.simulate(x, tt, dens)
            rec.count('time_step')
        if not dens:
            want = want / total
        rec.count('density' if dens else 'normalised')
        what = '%s at %s' % ('density' if dens else 'probability', 'average' if k is None else ts[k])
        rec.check(mon, np.shape(got) == (len(x),), lambda: 'shape of simulated values is %s for %d observations' % (np.shape(got), len(x)))
        rec.close(mon, np.asarray(got, float), want, '%s of observations %.100r, %s' % (what, x, c.describe()), **t)
        if not dens:
            rec.close(mon, np.sum(got), 1., 'sum of probabilities', rtol=1e-9)
        rec.check('unchanged', _same(keep, list(x) if not isinstance(x, np.ndarray) else x, 0, 0), 'observation values were changed by simulate')
        if len(x) > 1 and om.columns == 1 and chance(rng, 0.3):
            p_ = rng.permutation(len(x))
            g2 = S.simulate(np.asarray(x)[p_], density=dens, t=None if k is None else ts[k])
            rec.close('ordering_independent', g2, np.asarray(got, float)[p_], 'observations in other order', rtol=1e-9)
        rec.situation(c.kind, getattr(c, 'mode', ''), om.describe(), k is None, dens, len(x))


def case(rng, kind, **kw):
    kw.setdefault('om_kinds', None if chance(rng, 0.6) else gen.CHEAP)
    for _ in range(60):
        c = any_case(rng, kinds=(kind,), **kw)
        if c.s.om.seg == 1:
            return c
    raise Skip('no suitable model')


@CHECK.gen(240, 6000)
def batch(rng, rec, i):
    kind = ['study', 'hyper', 'cp'][i % 3]
    c = case(rng, kind, mode=pick(rng, ['complete', 'complete', 'forward']), **({'om_kinds': ('gmean',)} if i % 24 == 0 else {}))
    S = c.build(rng)
    c.run(rng, S)
    if not np.isfinite(S.logEvidence):
        raise Skip('impossible data')
    if kind != 'study':
        rec.count('averaged_hyper')
    rec.count('type_' + kind)
    rec.count('mode_' + c.mode)
    before = np.array(S.posteriorSequence)
    judge(rng, rec, S, c, before)
    rec.check('unchanged', np.array_equal(before, S.posteriorSequence), 'parameter distributions were changed by simulate')
    PE = bl().exceptions.PostProcessingError
    ts = [float(t) for t in c.s.tsf]
    for bad in (ts[-1] + 1, ts[0] - 0.5, 1e9):
        if bad not in ts:
            rec.raises('refused_time', PE, lambda: S.simulate(candidates(rng, c.s.om), t=bad), 'simulation at unknown time stamp %r' % bad)


@CHECK.gen(100, 2400)
def online(rng, rec, i):
    for _ in range(50):
        c = online_case(rng, history=True, om_kinds=None if chance(rng, 0.5) else gen.CHEAP)
        if c.s.om.seg == 1:
            break
    else:
        raise Skip('no suitable model')
    S = c.build(rng)
    posts = []
    for k, x in enumerate(c.s.data):
        S.step(c.point(x))
        if not np.isfinite(S.logEvidence) or not np.all(np.isfinite(S.marginalizedPosterior)):
            raise Skip('impossible data')
        posts.append(np.array(S.marginalizedPosterior))
        if chance(rng, 0.3):
            judge(rng, rec, S, c, posts)
            rec.count('during_stream')
    judge(rng, rec, S, c, posts)
    rec.close('online_history', S.posteriorSequence, posts, 'stored parameter distributions', rtol=0, atol=0)
    rec.count('type_online')


@CHECK.gen(60, 1200)
def total_probability(rng, rec, i):
    """For count models, the densities of all possible observations add up to one; for others they integrate to one."""
    B = bl()
    c = case(rng, pick(rng, ['study', 'hyper']), mode=pick(rng, ['complete', 'forward']), om_kinds=[('bernoulli',), ('poisson',), ('gaussian',), ('laplace',)][i % 4])
    S = c.build(rng)
    c.run(rng, S)
    if not np.isfinite(S.logEvidence):
        raise Skip('impossible data')
    om = c.s.om
    t = pick(rng, [None] + list(c.s.tsf))
    if om.kind.startswith('bernoulli'):
        p = S.simulate([0, 1], t=t, density=True)
        rec.close('total_probability', np.sum(p), 1., 'probabilities of 0 and 1', rtol=1e-9)
        m = np.mean(S.getParameterMeanValues(om.names[0])) if t is None else S.getParameterMeanValues(om.names[0])[list(c.s.tsf).index(t)]
        rec.close('total_probability', p[1], m, 'probability of success vs mean of the parameter', rtol=1e-9)
        q = S.simulate([0, 1], t=t)
        rec.close('total_probability', q, p, 'probability and density', rtol=1e-9)
    elif om.kind.startswith('poisson'):
        hi = int(np.max(om.grids[0]) * 2 + 60)
        if hi > 4000:
            raise Skip('large rates')
        ks = np.arange(hi)
        p = S.simulate(ks, t=t, density=True)
        rec.close('total_probability', np.sum(p), 1., 'probabilities of all counts', rtol=1e-6)
        m = np.mean(S.getParameterMeanValues(om.names[0])) if t is None else S.getParameterMeanValues(om.names[0])[list(c.s.tsf).index(t)]
        rec.close('total_probability', np.sum(ks * p), m, 'expected count vs mean rate', rtol=1e-6)
    else:
        s = float(np.max(om.grids[1]))
        lo, hi = np.min(om.grids[0]) - 40 * s, np.max(om.grids[0]) + 40 * s
        n = int((hi - lo) / float(np.min(om.grids[1])) * 6)
        if not 10 < n < 60000 or n < 10:
            raise Skip('too fine')
        xs = np.linspace(lo, hi, max(n, 2000))
        p = S.simulate(xs, t=t, density=True)
        rec.close('total_probability', np.sum(p) * (xs[1] - xs[0]), 1., 'integral of the simulated density', rtol=1e-2 if om.kind.startswith('laplace') else 1e-4)


@CHECK.gen(48, 600)
def refused(rng, rec, i):
    B = bl()
    E = B.exceptions
    if i % 3 == 0:
        # observation models that depend on several data points
        for _ in range(50):
            c = any_case(rng, kinds=('study', 'hyper', 'online'), om_kinds=('ar1', 'sar1'), mode='complete')
            if c.s.om.seg > 1:
                break
        S = c.build(rng)
        c.run(rng, S)
        for kw in ({}, {'t': c.s.tsf[-1]}, {'density': True}):
            rec.raises('refused_segments', NotImplementedError, lambda: S.simulate([0.1, 0.2], **kw), 'simulation with segments')
    elif i % 3 == 1:
        # no parameter distributions
        c = case(rng, pick(rng, ['study', 'hyper', 'cp']), mode='evidence')
        S = c.build(rng)
        x = candidates(rng, c.s.om)
        rec.raises('refused_no_posterior', E.PostProcessingError, lambda: S.simulate(x), 'simulation before fit')
        c.run(rng, S)
        rec.raises('refused_no_posterior', E.PostProcessingError, lambda: S.simulate(x, density=True), 'simulation after evidence-only fit')
        rec.raises('refused_no_posterior', E.PostProcessingError, lambda: S.simulate(x, t=c.s.tsf[0]), 'simulation after evidence-only fit')
    else:
        c = online_case(rng, history=False)
        if c.s.om.seg > 1:
            raise Skip('segments')
        S = c.build(rng)
        c.run(rng, S)
        rec.raises('refused_no_posterior', E.PostProcessingError, lambda: S.simulate(candidates(rng, c.s.om)), 'simulation without history')


@CHECK.gen(30, 600)
def refit(rng, rec, i):
    """The prediction follows the last fit."""
    c = case(rng, pick(rng, ['study', 'hyper', 'cp']), mode='complete')
    S = c.build(rng)
    for mode in [pick(rng, ['complete', 'forward']) for _ in range(2)]:
        c.mode = mode
        c.run(rng, S)
        if not np.isfinite(S.logEvidence):
            raise Skip('impossible data')
        judge(rng, rec, S, c, S.posteriorSequence, mon='refitted')
    data = c.s.om.data(rng, c.s.T)
    S.load(data, silent=True)
    tsf = c.s.tsf
    c.s.tsf = gen.formatted(None, c.s.T, 1)
    S2 = S
    if c.kind == 'cp' or set(ref.kinds(c.s.spec)) & {'cp', 'break', 'change'}:
        return
    c.run(rng, S2)
    if not np.isfinite(S2.logEvidence):
        raise Skip('impossible data')
    judge(rng, rec, S2, c, S2.posteriorSequence, mon='refitted')
