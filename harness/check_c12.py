"""C12: online analysis equals the batch analysis of the data seen so far."""
import numpy as np

import gen
import ref
import windows
from common import *
from engine import Check, Violation
from gen import pick, chance
from online import *
from studies import *

CHECK = Check('C12', 'distinct (stream, observation model, transition model(s), history flag, query pattern) combinations; every prefix of each stream is compared',
              ['reference recursion of C01', 'streams of up to a few hundred points'])
CHECK.required = ['online_log_evidence', 'online_parameters', 'online_mean', 'online_joint', 'online_hyper', 'prefix_log_evidence', 'prefix_distribution', 'prefix_mean', 'history_distribution',
                  'history_mean', 'history_times', 'history_models', 'history_hyper', 'history_flag', 'long_log_evidence', 'waiting', 'window_stream', 'with_queries', 'batch_hyper']


def queries(rng, c):
    """Random read-outs between the steps."""
    names, hn = c.s.om.names, c.names()

    def q(S, k):
        for _ in range(int(rng.integers(0, 4))):
            r = pick(rng, ['cpd', 'pds', 'avg', 'mean', 'tmd', 'hpd', 'bad', 'hist', 'tms', 'sim', 'eval'])
            n = pick(rng, names)
            f = {'cpd': lambda: S.getCPD(n), 'pds': lambda: S.getPDs(n), 'avg': lambda: S.getPD('avg', n), 'mean': lambda: S.getParameterMeanValues(n),
                 'tmd': lambda: S.getCTMD(local=True), 'hpd': lambda: S.getCHPD(pick(rng, hn)) if hn else None, 'bad': lambda: S.getCPD('nosuchname'),
                 'hist': lambda: S.getPD(0, n), 'tms': lambda: S.getTransitionModelDistributions(), 'sim': lambda: S.simulate([0, 1]),
                 'eval': lambda: S.eval('%s > 1' % n, silent=True)}[r]
            attempt(f)
    return q


@CHECK.gen(400, 8000)
def stream(rng, rec, i):
    om = None
    if i % 10 == 0:
        # observation model that needs several data points
        om = windows.window_model(rng, int(rng.integers(2, 6)))
        rec.count('window_stream')
    c = online_case(rng, depth=pick(rng, [0, 1]), om=om, om_kinds=None if chance(rng, 0.7) else gen.KINDS, T=int(rng.integers(1, 10)))
    S = c.build(rng)
    q = None
    if chance(rng, 0.5):
        q = queries(rng, c)
        rec.count('with_queries')
    rc = record(rng, S, c, query=q)
    check_stream(rec, rc, c)
    history(rec, S, c, rc)
    rec.situation('stream', c.describe(), len(c.s.data))


def history(rec, S, c, rc):
    """What is stored equals what was reported when the step was processed."""
    if not c.history or not rc or any('cpd' not in o for o in rc):
        return
    from bayesloop.exceptions import PostProcessingError
    s = c.s
    ts = list(range(s.om.seg - 1, s.om.seg - 1 + len(rc)))
    for ax, n in enumerate(s.om.names):
        for k, t in enumerate(ts):
            rec.close('history_distribution', S.getPD(t, n, density=False)[1], rc[k]['cpd'][ax], 'stored distribution of step %d' % t, rtol=1e-10, atol=1e-13)
            rec.close('history_mean', S.getParameterMeanValue(t, n), rc[k]['mean'][ax], 'stored mean of step %d' % t, rtol=1e-9, atol=1e-12)
        rec.close('history_mean', S.getParameterMeanValues(n), [o['mean'][ax] for o in rc], 'stored means', rtol=1e-9, atol=1e-12)
        rec.close('history_distribution', S.getPDs(n, density=False)[1], [o['cpd'][ax] for o in rc], 'stored distributions', rtol=1e-10, atol=1e-13)
        for t in (ts[-1] + 1, ts[0] - 1, -1):
            if t not in ts:
                rec.raises('history_times', PostProcessingError, lambda: S.getPD(t, n), 'time step %r does not exist' % t)
    for loc in (False, True):
        rec.close('history_models', S.getTransitionModelDistributions(local=loc)[1], [o['ltmd' if loc else 'tmd'] for o in rc], 'stored model probabilities', rtol=1e-10, atol=1e-13)
    for j, sp in enumerate(c.specs):
        for a, (n, v, _) in enumerate(ref.flat(sp)):
            for k, t in enumerate(ts):
                if rc[k]['tmd'][j] > 0:
                    rec.close('history_hyper', np.atleast_1d(S.getHPD(t, n)[1]), rc[k]['hpd'][j][a], 'stored distribution of %s' % n, rtol=1e-10, atol=1e-13)


@CHECK.gen(200, 4000)
def prefixes(rng, rec, i):
    """Every prefix is analysed by a forward-only batch study of the library."""
    c = online_case(rng, nmodels=1, hyper=0., depth=1, om_kinds=None if chance(rng, 0.6) else gen.KINDS, T=int(rng.integers(1, 8)), prior=False)
    s = c.s
    S = c.build(rng)
    tsb = None
    for k in range(len(s.data)):
        S.step(c.point(s.data[k]))
        if k + 1 < s.om.seg:
            rec.count('waiting')
            continue
        P = gen.make_study(rng, s.om, gen.build_tm(c.specs[0], s.om.names), s.data[:k + 1].copy(), tsb)
        fit(rng, P, forwardOnly=True)
        if np.isneginf(P.logEvidence):
            rec.check('prefix_impossible', S.logEvidence == -np.inf, 'impossible data: online log-evidence is %r' % S.logEvidence)
            break
        rec.close('prefix_log_evidence', S.logEvidence, P.logEvidence, 'online vs batch log-evidence after %d points %s' % (k + 1, c.describe()), rtol=1e-9, atol=1e-9)
        rec.close('prefix_log_evidence', S.log10Evidence, P.log10Evidence, 'online vs batch log10-evidence', rtol=1e-9, atol=1e-9)
        for ax, n in enumerate(s.om.names):
            d = chance(rng, 0.5)
            rec.close('prefix_distribution', S.getCPD(n, density=d)[1], P.getPD(k, n, density=d)[1], 'online vs batch distribution of %s after %d points' % (n, k + 1), rtol=1e-8, atol=1e-12)
            rec.close('prefix_mean', S.getCurrentParameterMeanValue(n), P.getParameterMeanValues(n)[-1], 'online vs batch mean of %s' % n, rtol=1e-8, atol=1e-10 * (1 + np.max(np.abs(s.om.grids[ax]))))
    rec.situation('prefix', c.describe(), len(s.data))


@CHECK.gen(100, 2000)
def hyper_prefixes(rng, rec, i):
    """Online study with one transition model and several hyper-parameter values vs forward-only hyper-study."""
    c = online_case(rng, nmodels=1, hyper=1., depth=1, T=int(rng.integers(2, 7)), prior=False, tm_kinds={'grw', 'det', 'regime', 'noteq', 'biv', 'static'},
                    hyper_prior_kinds=['none', 'array', 'func'])
    s = c.s
    if c.s.flags or not ref.flat(c.specs[0]) or points_collide(c.specs[0], s.tsf):
        return
    vol = np.prod(ref.hyper_grid(c.specs[0], s.tsf)[2])
    S = c.build(rng)
    B = gen.bl()
    for k in range(len(s.data)):
        S.step(c.point(s.data[k]))
        if k + 1 < s.om.seg:
            continue
        P = gen.make_study(rng, s.om, gen.build_tm(c.specs[0], s.om.names), s.data[:k + 1].copy(), None, cls=B.HyperStudy)
        fit(rng, P, forwardOnly=True)
        if np.isneginf(P.logEvidence):
            break
        rec.either('batch_hyper', lambda: rec.close('batch_hyper', S.logEvidence, P.logEvidence, 'online vs hyper-study log-evidence', rtol=1e-8, atol=1e-8),
                   lambda: rec.close('batch_hyper', S.logEvidence, P.logEvidence - np.log(vol), 'online vs hyper-study log-evidence', rtol=1e-8, atol=1e-8), 'K3')
        for ax, n in enumerate(s.om.names):
            rec.close('batch_hyper', S.getCPD(n, density=False)[1], P.getPD(k, n, density=False)[1], 'online vs hyper-study distribution', rtol=1e-7, atol=1e-10)
        if n_combos(c.specs[0], s.tsf) > 1:
            for n, _, _ in ref.flat(c.specs[0]):
                rec.close('batch_hyper', S.getCHPD(n)[1], P.getHPD(n)[1], 'online vs hyper-study distribution of %s' % n, rtol=1e-7, atol=1e-10)
    rec.situation('hyper', c.describe(), len(s.data))


@CHECK.gen(100, 2000)
def history_flag(rng, rec, i):
    """Storing the history, printing and querying do not change the stream."""
    c = online_case(rng, depth=1, T=int(rng.integers(1, 8)))
    res = []
    for h, q in ((False, False), (True, False), (True, True), (False, True)):
        c.history = h
        S = c.build(rng)
        res.append(record(rng, S, c, query=queries(rng, c) if q else None))
    for r in res[1:]:
        for k, (a, b) in enumerate(zip(res[0], r)):
            a, b = dict(a), dict(b)
            a.pop('joint', None), b.pop('joint', None)
            for key in a:
                rec.check('history_flag', key in b and len(differences({0: freeze(a[key])}, {0: freeze(b[key])}, rtol=1e-12, atol=1e-14)) == 0,
                          lambda: '%s after step %d depends on the history flag or on queries: %.200r vs %.200r' % (key, k, a[key], b.get(key)))
    rec.situation('flag', c.describe(), len(c.s.data))


@CHECK.gen(30, 500)
def long_streams(rng, rec, i):
    """Long streams (evidence outside of the floating point range)."""
    c = online_case(rng, depth=0, nmodels=pick(rng, [1, 2]), hi=4, T=int(rng.integers(80, 300)), history=chance(rng, 0.5), tm_kinds={'grw', 'regime', 'cp', 'static', 'indep'})
    S = c.build(rng)
    rc = record(rng, S, c)
    check_stream(rec, rc, c, mon='long')
    history(rec, S, c, rc[:])
    rec.situation('long', c.describe(), len(c.s.data))


@CHECK.gen(1, 1)
def known_deviations(rng, rec, i):
    """Deterministic triggers of K1, K2 and K3."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    lc = ref.lattice_constant(om.grids[0])
    grw = {'k': 'grw', 'n': ['s'], 'v': [np.array([1., 2., 3.]) * lc * 0.3], 'pr': [None], 'ax': 0}
    cp = {'k': 'cp', 'n': ['tc'], 'v': [2], 'pr': [None]}
    st = {'k': 'static'}
    for specs, prior in (([cp], None), ([st, {'k': 'indep'}], [0.9, 0.1]), ([grw], None)):
        c = online_case(rng, om=om, nmodels=len(specs), T=5, prior=False, history=True, missing=0., multidim=False)
        c.specs, c.tm_prior, c.single = specs, prior, False
        c.s.flags = sorted(set(f for sp in specs for f in gen.known_flags(sp) if f == 'K1'))
        c.s.alpha = False
        c.tm_names = ['model A', 'model B'][:len(specs)]
        S = c.build(rng)
        check_stream(rec, record(rng, S, c), c)
