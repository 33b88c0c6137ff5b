"""C13: online model selection follows Bayes' rule over models and hyper-parameters."""
import itertools

import numpy as np
from scipy.special import logsumexp

import gen
import ref
from common import *
from engine import Check, Violation
from gen import pick, chance
from online import *
from readout import check_online_readouts
from studies import *

CHECK = Check('C13', 'distinct (set of transition models, hyper-parameter grids, hyper-priors, model prior, stream) combinations; all steps of each stream are compared',
              ['reference recursion of C01', 'up to 4 models with up to 12 combinations each'])
CHECK.required = ['online_models', 'online_models_local', 'online_hyper', 'online_parameters', 'online_log_evidence', 'separate_streams', 'order', 'impossible_zero', 'impossible_others',
                  'names', 'history_single', 'hpds_single', 'tm_history_single', 'hpds_means', 'refused_prior', 'outliers']


@CHECK.gen(450, 9000)
def selection(rng, rec, i):
    c = online_case(rng, nmodels=pick(rng, [1, 2, 2, 3, 4]), hi=12, depth=pick(rng, [0, 1]), T=int(rng.integers(1, 8)), hyper=0.7,
                    hyper_prior_kinds=['none', 'array', 'intarray', 'func', 'const', 'sympy'])
    S = c.build(rng)
    rc = record(rng, S, c)
    check_stream(rec, rc, c)
    if rc and np.isfinite(S.logEvidence) and all('cpd' in o for o in rc):
        check_online_readouts(rec, rng, S, c, plots=chance(rng, 0.1))
        for k, n in enumerate(c.tm_names):
            rec.close('names', S.getCTMP(n), S.getCTMD()[1][k], 'probability by name')
    rec.situation('selection', c.describe(), len(c.s.data))


@CHECK.gen(120, 2400)
def outliers(rng, rec, i):
    """Data points that are very unlikely under all models and hyper-parameter values: their probabilities are still compared."""
    c = online_case(rng, nmodels=pick(rng, [2, 2, 3]), hi=6, depth=pick(rng, [0, 0, 1]), T=int(rng.integers(2, 8)), hyper=0.5, om_kinds=OUTLIER_KINDS,
                    outliers=pick(rng, [1, 1, 2]), missing=0., tm_kinds=pick(rng, [None, {'static', 'grw', 'regime', 'indep', 'det'}]))
    S = c.build(rng)
    rc = record(rng, S, c)
    check_stream(rec, rc, c)
    rec.count('outliers')
    rec.situation('outliers', c.describe(), len(c.s.data))


@CHECK.gen(200, 4000)
def separate_streams(rng, rec, i):
    """Models compared in one study vs each of them in a study of its own (same library)."""
    c = online_case(rng, nmodels=pick(rng, [2, 3]), hi=6, depth=1, T=int(rng.integers(2, 8)), prior=False, hyper=0.5)
    s = c.s
    S = c.build(rng)
    singles = []
    for sp, n in zip(c.specs, c.tm_names):
        d = Case('online', s, specs=[sp], tm_prior=None, tm_names=[n], history=False, single=False, python_scalars=c.python_scalars)
        singles.append((d, d.build(rng)))
    old = np.zeros(len(singles))
    for k in range(len(s.data)):
        S.step(c.point(s.data[k]))
        for d, X in singles:
            X.step(d.point(s.data[k]))
        if k + 1 < s.om.seg:
            continue
        e = np.array([X.logEvidence for _, X in singles])
        if not np.all(np.isfinite(e)):
            break
        w = np.exp(e - logsumexp(e))
        rec.close('separate_streams', S.logEvidence, logsumexp(e) - np.log(len(e)), 'evidence of all models', rtol=1e-8, atol=1e-8)
        rec.close('separate_streams', S.getCTMD()[1], w, 'model probabilities vs evidences of separate studies after step %d %s' % (k, c.describe()), rtol=1e-7, atol=1e-10)
        l = e - old
        rec.close('separate_streams', S.getCTMD(local=True)[1], np.exp(l - logsumexp(l)), 'local model probabilities after step %d' % k, rtol=1e-6, atol=1e-9)
        old = e
        for n in s.om.names:
            rec.close('separate_streams', S.getCPD(n, density=False)[1], sum(a * X.getCPD(n, density=False)[1] for a, (_, X) in zip(w, singles)),
                      'averaged parameter distribution', rtol=1e-7, atol=1e-10)
        for sp, (_, X) in zip(c.specs, singles):
            for n, _, _ in ref.flat(sp):
                rec.close('separate_streams', S.getCHPD(n)[1], X.getCHPD(n)[1], 'hyper-parameter distribution of %s' % n, rtol=1e-7, atol=1e-10)
    rec.situation('separate', c.describe(), len(s.data))


@CHECK.gen(120, 2400)
def order(rng, rec, i):
    """The order in which the models are added does not matter."""
    c = online_case(rng, nmodels=pick(rng, [2, 3]), hi=6, depth=1, T=int(rng.integers(1, 7)), history=True)
    S = c.build(rng)
    c.run(rng, S)
    perm = [int(x) for x in rng.permutation(len(c.specs))]
    d = Case('online', c.s, specs=[c.specs[p] for p in perm], tm_prior=None if c.tm_prior is None else np.asarray(c.tm_prior)[perm], tm_names=[c.tm_names[p] for p in perm],
             history=True, single=False, python_scalars=c.python_scalars)
    X = d.build(rng)
    d.run(rng, X)
    if np.isneginf(S.logEvidence) or len(c.s.data) < c.s.om.seg:
        rec.check('order', X.logEvidence == S.logEvidence, 'evidence')
        return
    rec.close('order', X.logEvidence, S.logEvidence, 'evidence after changing the order of models', rtol=1e-10, atol=1e-10)
    for loc in (False, True):
        for n in c.tm_names:
            rec.close('order', X.getTMPs(n, local=loc), S.getTMPs(n, local=loc), 'probabilities of model %s after changing the order of models' % n, rtol=1e-8, atol=1e-11)
    for n in c.s.om.names:
        rec.close('order', X.getPDs(n)[1], S.getPDs(n)[1], 'parameter distributions after changing the order of models', rtol=1e-8, atol=1e-11)
    for j, sp in enumerate(c.specs):
        if S.getCTMP(c.tm_names[j]) > 0:
            for n, _, _ in ref.flat(sp):
                rec.close('order', X.getHPDs(n)[1], S.getHPDs(n)[1], 'distributions of %s after changing the order of models' % n, rtol=1e-8, atol=1e-11)
                rec.close('order', X.getHyperParameterMeanValues(n), S.getHyperParameterMeanValues(n), 'means of %s after changing the order of models' % n, rtol=1e-8, atol=1e-9)
    rec.situation('order', c.describe(), perm)


@CHECK.gen(200, 4000)
def impossible(rng, rec, i):
    """Hypotheses (models or hyper-parameter values) that become impossible."""
    B = gen.bl()
    n = int(rng.integers(8, 20))
    lc = pick(rng, [1., 0.5, 1e-3])
    x = np.arange(n) * lc
    T = int(rng.integers(3, 9))
    width = pick(rng, [0, 1])

    def lik(data, a):
        k = np.abs(a / lc - np.ravel(data)[0])
        return np.where(k < width + 0.5, np.exp(-0.3 * k), 0.)
    start = int(rng.integers(2, n - 2))
    data = np.clip(start + np.cumsum(rng.choice([0, 0, 1, -1, 2], T) if chance(rng, 0.5) else np.full(T, pick(rng, [0, 1, -1]))), 0, n - 1).astype(float)
    st = {'k': 'static'}
    det = lambda nm: {'k': 'det', 'fn': 'lin', 'n': [nm], 'v': [np.array(sorted(set(rng.integers(-2, 3, 3).tolist()))) * lc], 'pr': [None], 'ax': 0}
    grw = {'k': 'grw', 'n': ['w'], 'v': [np.array([0., 0.6]) * lc], 'pr': [None], 'ax': 0}
    reg = {'k': 'regime', 'n': ['p'], 'v': [np.array([-8., -3.])], 'pr': [None]}
    pool = [st, det('r1'), det('r2'), grw, reg]
    k = int(rng.integers(1, 5))
    specs = [pool[j] for j in rng.permutation(len(pool))[:k]]
    s = Scenario()
    s.tsf, s.ts, s.data, s.T, s.alpha, s.flags = list(range(T)), None, data, T, False, []
    s.liks = [lik([d], x) for d in data]
    s.spec = specs[0]

    class Om(object):
        names, grids, shape, seg, multiply = ['a'], [x], (n,), 1, False

        def ctx(self, flags=()):
            return ref.Ctx([x], np.ones(n) / n / lc, frozenset(flags))

        def describe(self):
            return 'window%d/%d' % (n, width)

        def build(self):
            return B.om.NumPy(lik, 'a', x, prior=None)
    s.om = Om()
    c = Case('online', s, specs=specs, tm_prior=None, tm_names=['m%d' % j for j in range(k)], history=chance(rng, 0.6), single=False, python_scalars=True)
    S = c.build(rng)
    rc = record(rng, S, c)
    out, _ = ref.online(specs, s.liks, s.om.ctx(('K3',)), ('K3',), None, s.tsf)
    last = None
    for o in out:
        if o is not None:
            cur = np.concatenate(o['loges'])
            if np.any(np.isfinite(cur) & (cur - (0. if last is None else np.where(np.isfinite(last), last, 0.)) < np.log(1e-8))):
                return         # possible only because of the rounding errors of the interpolation
            last = cur
    check_stream(rec, rc, c, mon='possible')
    dead = np.zeros(k, dtype=bool)
    for r, o in zip(rc, out):
        if o is None or 'tmd' not in r:
            break
        now = np.isneginf(o['hl'])
        rec.check('impossible_zero', np.all(r['tmd'][now] == 0.) and np.all(r['ltmd'][now] == 0.), 'impossible model has non-zero probability')
        rec.check('impossible_others', np.all(np.isfinite(r['tmd'])) and np.all(np.isfinite(r['ltmd'])) and all(np.all(np.isfinite(p)) for p in r['cpd']), 'impossible hypothesis disturbs the others')
        rec.check('impossible_for_good', np.all(now[dead]), 'impossible model became possible again')
        for j in range(k):
            if not now[j] and ref.flat(specs[j]):
                z = np.isneginf(o['loges'][j])
                if len(z) == len(r['hpd'][j][0]):
                    rec.check('impossible_zero', np.all(r['hpd'][j][0][z] == 0.), 'impossible hyper-parameter value has non-zero probability')
        dead = now
    rec.situation('impossible', n, width, [gen.describe(sp) for sp in specs], data.tolist())


@CHECK.gen(60, 1200)
def model_prior(rng, rec, i):
    """Model priors: scaled and in any container, wrong numbers are refused."""
    from bayesloop.exceptions import ConfigurationError
    c = online_case(rng, nmodels=pick(rng, [2, 3]), hi=4, depth=0, T=int(rng.integers(1, 6)), prior=True, history=True)
    w = np.asarray(c.tm_prior, float)
    res = []
    for p in (w, w * 10., (w * 3.).tolist(), tuple(w / w.sum())):
        c.tm_prior = p
        keep = np.array(p, copy=True)
        S = c.build(rng)
        for bad in (np.ones(len(w) + 1), [1.] * (len(w) - 1)):
            rec.raises('refused_prior', ConfigurationError, lambda: S.setTransitionModelPrior(bad, silent=True), 'prior for %d of %d models' % (len(bad), len(w)))
        rec.check('prior_untouched', np.array_equal(keep, np.array(p)), 'prior was modified')
        rc = record(rng, S, c)
        res.append(rc)
        check_stream(rec, rc, c)
    for rc in res[1:]:
        for a, b in zip(res[0], rc):
            rec.check('prior_scale', len(differences(freeze_dict(a), freeze_dict(b), rtol=1e-6, atol=1e-8)) == 0, 'results depend on the scale of the model prior')
    rec.situation('prior', c.describe(), w.tolist())


def freeze_dict(d):
    return {k: freeze(v) for k, v in d.items()}


@CHECK.gen(1, 1)
def known_deviations(rng, rec, i):
    """Deterministic triggers of K1, K2 and K3."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    lc = ref.lattice_constant(om.grids[0])
    grw = {'k': 'grw', 'n': ['s'], 'v': [np.array([1., 2., 3.]) * lc * 0.3], 'pr': [None], 'ax': 0}
    cp = {'k': 'cp', 'n': ['tc'], 'v': [2], 'pr': [None]}
    st = {'k': 'static'}
    for specs, prior in (([cp], None), ([st, {'k': 'indep'}], [0.9, 0.1]), ([grw, st], None)):
        c = online_case(rng, om=om, nmodels=len(specs), T=5, prior=False, history=True, missing=0., multidim=False)
        c.specs, c.tm_prior, c.single = specs, prior, False
        c.s.flags = sorted(set(f for sp in specs for f in gen.known_flags(sp) if f == 'K1'))
        c.s.alpha = False
        c.tm_names = ['model A', 'model B'][:len(specs)]
        S = c.build(rng)
        check_stream(rec, record(rng, S, c), c)
