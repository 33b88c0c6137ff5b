"""Scenario construction and comparisons shared by the checks."""
import numpy as np

import gen
import ref
from gen import pick, chance, match
from engine import Violation, Skip


INTEGRAL_OK = ['gaussian', 'laplace', 'white', 'ar1', 'sar1', 'np1', 'np3', 'table1', 'table2', 'table3', 'scipy2', 'sympy2']
OUTLIER_KINDS = ['gaussian', 'laplace', 'white', 'gmean', 'poisson']


class Scenario(object):
    pass


def scenario(rng, ndim=None, om_kinds=None, prior_kinds=None, size='small', T=None, spec=None, tm_kinds=None, depth=1,
             composite=0.4, hyper=False, max_values=4, missing=None, multidim=True, ts_kinds=None, irregular=0.1,
             serial=None, hyper_prior_kinds=None, om=None, outliers=0):
    s = Scenario()
    if om is None:
        if tm_kinds is not None and set(tm_kinds) <= {'alpha'} and om_kinds is None:
            om_kinds = gen.MILD
            ndim = ndim or pick(rng, [1, 2])
        if tm_kinds is None and om_kinds is None and chance(rng, 0.2):
            om_kinds = gen.MILD                       # alpha-stable random walks need a bounded likelihood ratio
            ndim = ndim or pick(rng, [1, 2])
        om = gen.gen_om(rng, ndim=ndim, kinds=om_kinds, size=size, prior_kinds=prior_kinds, irregular=irregular)
    s.om = om
    T = int(rng.integers(1, 13)) if T is None else T
    s.T = T + om.seg - 1
    miss = pick(rng, [0., 0., 0., 0.2]) if missing is None else missing
    dims = pick(rng, [1, 1, 1, 2, 3]) if (multidim and om.multiply) else 1
    s.data = om.data(rng, s.T, dims=dims if om.multiply else None, missing=miss)
    if outliers:
        d = om.add_outliers(rng, s.data, outliers)
        if d is None:
            raise Skip('observation model without outliers')
        s.data = d
    if om.kind in INTEGRAL_OK and s.data.dtype.kind == 'f' and chance(rng, 0.12):
        # some integral values among the others
        k = rng.random(s.data.shape) < pick(rng, [0.3, 1. / s.T])
        if chance(rng, 0.6):
            k[0] = True
        s.data = np.where(k, np.round(s.data), s.data)
    s.ts = gen.gen_timestamps(rng, s.T, ts_kinds or ('none', 'none', 'offset', 'gaps', 'dyadic', 'neg', 'decimal'))
    s.tsf = gen.formatted(s.ts, s.T, om.seg)
    s.liks = om.liks(s.data)
    s.g = gen.TMGen(rng, om, s.tsf, hyper=hyper, max_values=max_values, prior_kinds=hyper_prior_kinds)
    if spec is None:
        s.spec = s.g.serial(depth, tm_kinds) if serial else s.g.spec(depth, tm_kinds, composite)
    else:
        s.spec = spec(s.g) if callable(spec) else spec
    s.flags = gen.known_flags(s.spec)
    s.alpha = 'alpha' in ref.kinds(s.spec)
    return s


def tols(s):
    return dict(rtol=1e-5, atol=1e-8) if s.alpha else dict(rtol=1e-7, atol=1e-10)


def describe(s):
    return '%s T=%d dims=%d ts=%s tm=%s' % (s.om.describe(), s.T, s.data.ndim,
                                            'default' if s.ts is None else str(s.ts[:2]), gen.describe(s.spec))


def stable_fit(s):
    def fn(ctx):
        r = ref.smoothing(s.spec, s.liks, s.tsf, ctx)
        loge, norms, filt = ref.filtering(s.spec, s.liks, s.tsf, ctx)
        return [r['loge'], r['post'], None if r['post'] is None else ref.means(r['post'], ctx), loge, filt,
                None if norms is None else np.log(norms), r['local']]
    return lambda: ref.stable(fn, s.om.ctx(s.flags))


def check_filter(rec, S, s, evidence_only, flags=('K1',), mon='filter'):
    """Forward-only/evidence-only fit against the reference."""
    t = tols(s)

    def compare(active):
        ctx = s.om.ctx(active)
        loge, norms, filt = ref.filtering(s.spec, s.liks, s.tsf, ctx)
        if filt is None:
            rec.check(mon + '_impossible', S.logEvidence == -np.inf, lambda: 'impossible data, but log-evidence is %r' % S.logEvidence)
            return
        rec.close(mon + '_log_evidence', S.logEvidence, loge, 'log-evidence ' + describe(s), rtol=max(t['rtol'], 1e-9), atol=1e-7)
        rec.close(mon + '_log10_evidence', S.log10Evidence, loge / np.log(10.), 'log10-evidence', rtol=max(t['rtol'], 1e-9), atol=1e-7)
        rec.close(mon + '_local_evidence', S.localEvidence, norms, 'local evidence', rtol=max(t['rtol'], 1e-6), atol=1e-300)
        if not evidence_only:
            rec.close(mon + '_distributions', S.posteriorSequence, filt, 'filtering distributions ' + describe(s), **t)
            rec.close(mon + '_means', S.posteriorMeanValues, ref.means(filt, ctx), 'filtering means',
                      rtol=t['rtol'], atol=t['atol'] * (1 + max(np.max(np.abs(g)) for g in s.om.grids)))
    return match(rec, mon, compare, [f for f in s.flags if f in flags], stable_fit(s))


def check_smooth(rec, S, s, flags=('K1', 'K5'), mon='smooth', local=True):
    t = tols(s)

    def compare(active):
        ctx = s.om.ctx(active)
        r = ref.smoothing(s.spec, s.liks, s.tsf, ctx)
        if r['post'] is None:
            rec.check(mon + '_impossible', S.logEvidence == -np.inf, lambda: 'impossible data, but log-evidence is %r' % S.logEvidence)
            return
        rec.close(mon + '_log_evidence', S.logEvidence, r['loge'], 'log-evidence ' + describe(s), rtol=max(t['rtol'], 1e-9), atol=1e-7)
        rec.close(mon + '_distributions', S.posteriorSequence, r['post'], 'smoothed distributions ' + describe(s), **t)
        rec.close(mon + '_means', S.posteriorMeanValues, ref.means(r['post'], ctx), 'smoothed means',
                  rtol=t['rtol'], atol=t['atol'] * (1 + max(np.max(np.abs(g)) for g in s.om.grids)))
        if local and positive_liks(s):
            rec.close(mon + '_local_evidence', S.localEvidence, r['local'], 'local evidence', rtol=max(t['rtol'], 1e-6), atol=1e-300)
    return match(rec, mon, compare, [f for f in s.flags if f in flags], stable_fit(s))


def check_getters(rec, S, s, post, mean, rng, mon='getters'):
    """All read-out functions of a batch study agree with the stored distributions."""
    names, grids = s.om.names, s.om.grids
    lc = [ref.lattice_constant(g) for g in grids]
    T = len(post)
    for ax, n in enumerate(names):
        marg = np.array([ref.marginal(p, ax) for p in post])
        dens = chance(rng, 0.5)
        f = lc[ax] if dens else 1.
        opt = lambda: {} if dens and chance(rng, 0.5) else dict(density=dens)     # densities are returned by default
        x, p = pick(rng, [S.getPDs, S.getParameterDistributions])(n, **opt())
        rec.close(mon + '_grid', x, grids[ax], 'parameter values', rtol=1e-12, atol=1e-300)
        rec.close(mon + '_distributions', p, marg / f, 'sequence of marginal distributions of ' + n)
        i = int(rng.integers(T))
        dens = chance(rng, 0.5)
        f = lc[ax] if dens else 1.
        x, p = pick(rng, [S.getPD, S.getParameterDistribution])(s.tsf[i], n, **opt())
        rec.close(mon + '_grid', x, grids[ax], 'parameter values', rtol=1e-12, atol=1e-300)
        rec.close(mon + '_distribution', p, marg[i] / f, 'marginal distribution of %s at %s' % (n, s.tsf[i]))
        x, p = S.getPD('avg', n, density=False)
        rec.close(mon + '_average', p, marg.mean(axis=0), 'time-averaged distribution')
        rec.close(mon + '_mean', S.getParameterMeanValues(n), mean[ax], 'mean values')


def fit(rng, S, **kw):
    silent = kw.pop('silent', None)
    if silent is None:
        silent = chance(rng, 0.8)
    S.fit(silent=silent, **kw)
    return S


# ------------------------------------------------------------------------------------------------- hyper-studies
def points(spec):
    """Values of all change- and break-points in the order of the flat list of hyper-parameters (change-points first)."""
    cps, bps = [], []

    def rec(s):
        for m in s.get('m', []):
            rec(m)
        if s['k'] == 'cp':
            cps.append((s['n'][0], s['v'][0]))
        for b in s.get('b', []):
            bps.append((b['n'][0], b['v'][0]))
    rec(spec)
    return cps, bps


def n_combos(spec, ts):
    return int(np.prod([len(ref.hyper_axis(v, None, ts)[0]) for _, v, _ in ref.flat(spec)])) if ref.flat(spec) else 1


def points_collide(spec, ts):
    """True if some combination of values contains identical change-/break-points (refused by HyperStudy)."""
    cps, bps = points(spec)
    vals = [set(np.asarray(ref.hyper_axis(v, None, ts)[0]).tolist()) for _, v in cps + bps]
    return any(vals[i] & vals[j] for i in range(len(vals)) for j in range(i))


def hyper_scenario(rng, lo=1, hi=24, ok=None, **kw):
    """Scenario for a HyperStudy with lo..hi combinations of hyper-parameter values."""
    kw.setdefault('om_kinds', None if chance(rng, 0.3) else gen.CHEAP)
    kw.setdefault('hyper', True)
    best = None
    for _ in range(100):
        s = scenario(rng, **kw)
        n = n_combos(s.spec, s.tsf)
        if points_collide(s.spec, s.tsf) or (ok is not None and not ok(s)):
            continue
        if lo <= n <= hi:
            return s
    raise Skip('no suitable scenario found')


def stable_hyper(s, forward_only, mask=None):
    def fn(ctx):
        r = ref.hyper(s.spec, s.liks, s.tsf, ctx, forward_only, mask)
        return [r['loge'], r['mass'], r['post'], None if r['post'] is None else ref.means(r['post'], ctx),
                None if r['mass'] is None else r['local']]
    return lambda: ref.stable(fn, s.om.ctx(s.flags))


def positive_liks(s):
    """Local evidence divides by likelihoods: no values that are tiny, but not zero."""
    return all(np.all((l == 0) | (l > 1e-30)) for l in s.liks)


def hyper_tols(s):
    return dict(rtol=1e-5, atol=1e-8) if s.alpha else dict(rtol=1e-6, atol=1e-9)


def check_hyper(rec, S, s, mode, mask=None, mon='hyper', flags=('K1', 'K5'), distribution=True):
    """Fitted HyperStudy/ChangepointStudy against the explicit average. mode: complete/forward/evidence."""
    t = hyper_tols(s)
    fo = mode != 'complete'

    def compare(active):
        ctx = s.om.ctx(active)
        r = ref.hyper(s.spec, s.liks, s.tsf, ctx, fo, mask)
        n = int(np.sum(r['keep']))
        if r['mass'] is None:
            rec.check(mon + '_impossible', S.logEvidence == -np.inf, lambda: 'impossible data, log-evidence is %r' % S.logEvidence)
            return r
        rec.close(mon + '_log_evidence', S.logEvidence, r['loge'], 'log-evidence of average model ' + describe(s),
                  rtol=max(1e-9, t['rtol'] if s.alpha else 0), atol=1e-7)
        if n > 1:
            rec.close(mon + '_individual_evidences', S.logEvidenceList, r['logs'][r['keep']], 'list of log-evidences',
                      rtol=max(1e-9, t['rtol'] if s.alpha else 0), atol=1e-6)
        vol = float(np.prod(r['consts'])) if len(r['consts']) else 1.
        if distribution and (n > 1 or mask is not None):
            want = r['mass']
            rec.close(mon + '_distribution', np.asarray(S.hyperParameterDistribution) * vol, want,
                      'hyper-parameter distribution ' + describe(s), **t)
        if mode != 'evidence':
            rec.close(mon + '_posterior', S.posteriorSequence, r['post'], 'averaged parameter distributions ' + describe(s), **t)
            rec.close(mon + '_means', S.posteriorMeanValues, ref.means(r['post'], ctx), 'means of averaged distributions',
                      rtol=t['rtol'], atol=t['atol'] * (1 + max(np.max(np.abs(g)) for g in s.om.grids)))
        if fo or positive_liks(s):
            rec.close(mon + '_local_evidence', S.localEvidence, r['local'], 'local evidence of average model',
                      rtol=max(t['rtol'], 1e-6), atol=1e-300)
        return r
    return match(rec, mon, compare, [f for f in s.flags if f in flags], stable_hyper(s, fo, mask))


def fit_mode(rng, S, mode, **kw):
    # evidence-only fits consist of the forward pass anyway
    return fit(rng, S, forwardOnly=mode == 'forward' or (mode == 'evidence' and chance(rng, 0.3)), evidenceOnly=mode == 'evidence', **kw)


def user_values(v, ts):
    """Values of a hyper-parameter as an array."""
    return np.atleast_1d(np.asarray(ref.hyper_axis(v, None, ts)[0], dtype=float))
