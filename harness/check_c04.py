"""C04: missing data points carry no information and shift nothing."""
import numpy as np

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance
from online import *
from readout import check_readouts
from studies import *

CHECK = Check('C04', 'distinct (study type, observation model, transition model, pattern of missing values) combinations compared',
              ['a missing value is NaN'])
CHECK.required = ['missing_smooth_distributions', 'missing_filter_distributions', 'missing_hyper_posterior', 'missing_cp_posterior',
                  'missing_online_parameters', 'dropped_points', 'nothing_observed', 'component', 'default_ranges', 'timestamps_kept']


def pattern(rng, d, seg=1):
    """Float copy of the data with missing values in a hostile pattern."""
    d = np.array(d, dtype=float)
    n = len(d)
    m = np.zeros(n, dtype=bool)
    k = pick(rng, ['first', 'last', 'run', 'random', 'all', 'butone', 'ends', 'alternate'])
    if k == 'first':
        m[0] = True
    elif k == 'last':
        m[-1] = True
    elif k == 'run':
        a = int(rng.integers(n))
        m[a:a + int(rng.integers(1, 5))] = True
    elif k == 'random':
        m = rng.random(n) < 0.4
    elif k == 'all':
        m[:] = True
    elif k == 'butone':
        m[:] = True
        m[rng.integers(n)] = False
    elif k == 'ends':
        m[0] = m[-1] = True
    else:
        m[::2] = True
    if d.ndim == 1:
        d[m] = np.nan
    else:
        r = rng.random()
        if r < 0.4:
            d[m] = np.nan
            k += '-rows'
        elif r < 0.7:
            d[m, int(rng.integers(d.shape[1]))] = np.nan
            k += '-column'
        else:
            for i in np.where(m)[0]:
                d[i, rng.random(d.shape[1]) < 0.6] = np.nan
            k += '-components'
    return d, k


def prepare(rng, c):
    s = c.s
    s.data, k = pattern(rng, s.data, s.om.seg)
    s.liks = s.om.liks(s.data)
    return k


@CHECK.gen(420, 9000)
def against_reference(rng, rec, i):
    c = any_case(rng, missing=0.)
    k = prepare(rng, c)
    S = c.build(rng)
    rc = None
    if c.kind == 'online':
        rc = record(rng, S, c)
    else:
        c.run(rng, S)
    check_any(rec, rng, S, c, rc, mon='missing')
    if np.isfinite(S.logEvidence) and chance(rng, 0.3):
        check_readouts(rec, rng, S, c, plots=False)
    rec.situation(c.describe(), k)


@CHECK.gen(150, 3000)
def dropped(rng, rec, i):
    """With static parameters, leaving the missing points out altogether gives the same final distribution and evidence."""
    s = scenario(rng, spec={'k': 'static'}, T=int(rng.integers(3, 12)), missing=0., multidim=chance(rng, 0.5),
                 om_kinds={1: [k for k in gen.CHEAP[1]], 2: ['gaussian', 'laplace', 'np2', 'table2'], 3: ['np3']})
    c = Case('study', s)
    full = np.array(s.data, dtype=float)
    m = rng.random(len(full)) < 0.4
    if m.all():
        m[rng.integers(len(m))] = False
    d = full.copy()
    d[m] = np.nan
    S1 = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), d, s.ts)
    fit(rng, S1)
    e1, p1, t1 = S1.logEvidence, np.array(S1.posteriorSequence), list(S1.formattedTimestamps)
    ts2 = np.asarray(s.tsf)[~m]
    S2 = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), full[~m], ts2)
    fit(rng, S2)
    rec.check('timestamps_kept', np.array_equal(np.asarray(t1, float), np.asarray(s.tsf, float)),
              lambda: 'time stamps %s, expected %s' % (t1, s.tsf))
    if not np.isfinite(S2.logEvidence):
        rec.check('dropped_points', S1.logEvidence == S2.logEvidence, 'evidence with missing points')
        return
    rec.close('dropped_points', e1, S2.logEvidence, 'evidence with missing vs without these points ' + describe(s), rtol=1e-9, atol=1e-8)
    p2 = np.array(S2.posteriorSequence)
    rec.close('dropped_points', p1[~m], p2, 'distributions at observed points', rtol=1e-6, atol=1e-9)
    for t in ts2[:2]:
        rec.close('dropped_points', S1.getPD(t, s.om.names[0])[1], S2.getPD(t, s.om.names[0])[1], 'read-out at time stamp %s' % t, rtol=1e-6, atol=1e-9)
    rec.situation('dropped', describe(s), m.tolist())


@CHECK.gen(80, 1500)
def nothing(rng, rec, i):
    """Nothing observed at all: evidence one (prior mass), static distributions equal to the prior."""
    s = scenario(rng, spec={'k': 'static'}, missing=0.)
    s.data = np.full(np.shape(s.data), np.nan)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)
    mass = s.om.prior.density.sum() * np.prod([ref.lattice_constant(g) for g in s.om.grids])
    rec.close('nothing_observed', S.logEvidence, np.log(mass), 'log-evidence without any observation', atol=1e-9)
    want = s.om.prior.density / s.om.prior.density.sum()
    rec.close('nothing_observed', S.posteriorSequence, np.array([want] * len(s.tsf)), 'distributions without any observation')
    loc = np.ones(len(s.tsf))
    rec.close('nothing_observed', np.asarray(S.localEvidence, float)[1:], loc[1:], 'local evidence of missing points')
    rec.situation('nothing', describe(s))


@CHECK.gen(120, 2500)
def component(rng, rec, i):
    """Missing component of several independent observations: same as only having made the other observations."""
    kinds = {1: ['bernoulli', 'poisson', 'white', 'scipy1'], 2: ['gaussian', 'laplace', 'ar1', 'sar1', 'scipy2'], 3: ['np3']}
    om = gen.gen_om(rng, ndim=pick(rng, [1, 2]), kinds=kinds)
    if om.seg > 1:
        s = scenario(rng, om=om, multidim=False, missing=0., depth=1, T=int(rng.integers(2, 7)))
    else:
        s = scenario(rng, om=om, multidim=False, missing=0., depth=1)
    a = np.array(s.data, dtype=float)
    b = np.array(om.data(rng, len(a)), dtype=float)
    two = np.array([a, np.full(len(a), np.nan)] if chance(rng, 0.5) else [np.full(len(a), np.nan), a]).T
    k = int(rng.integers(len(a)))
    S1 = gen.make_study(rng, om, gen.build_tm(s.spec, om.names), two, s.ts)
    S2 = gen.make_study(rng, om, gen.build_tm(s.spec, om.names), a, s.ts)
    fit(rng, S1)
    fit(rng, S2)
    if np.isfinite(S2.logEvidence):
        rec.close('component', S1.logEvidence, S2.logEvidence, 'evidence with a missing component ' + describe(s), rtol=1e-10, atol=1e-10)
        rec.close('component', S1.posteriorSequence, S2.posteriorSequence, 'distributions with a missing component', rtol=1e-9, atol=1e-12)
    else:
        rec.check('component', S1.logEvidence == S2.logEvidence, 'evidence of impossible data')
    # one observation missing at one time step only
    if om.seg == 1:
        both = np.array([a, b]).T
        both[k, 1] = np.nan
        s.data = both
        s.liks = om.liks(both)
        S3 = gen.make_study(rng, om, gen.build_tm(s.spec, om.names), both, s.ts)
        fit(rng, S3, forwardOnly=True)
        check_filter(rec, S3, s, False, mon='component_filter')
    rec.situation('component', describe(s), k)


@CHECK.gen(240, 2400)
def default_ranges(rng, rec, i):
    """Default parameter ranges ignore missing values."""
    B = gen.bl()
    om = [lambda: B.om.Poisson('a'), lambda: B.om.Gaussian('a', None, 'b', None), lambda: B.om.Laplace('a', None, 'b', None),
          lambda: B.om.WhiteNoise('a'), lambda: B.om.GaussianMean('a'), lambda: B.om.AR1('a', None, 'b', None),
          lambda: B.om.ScaledAR1('a', None, 'b', None), lambda: B.om.Bernoulli('a')][i % 8]
    n = int(rng.integers(4, 12))
    kind = i % 8
    if kind == 0:
        full = rng.poisson(pick(rng, [4., 40., 0.5]), n).astype(float)
        full[0] = pick(rng, [3., 1., 200.])
    elif kind == 4:
        full = np.array([rng.standard_normal(n), 0.5 + rng.random(n)]).T
    elif kind == 7:
        full = rng.integers(0, 2, n).astype(float)
    else:
        full = 5. * rng.random() + 2. * rng.standard_normal(n)
        if kind in (1, 2, 3) and chance(rng, 0.4):
            full = np.array([full, full[::-1] + 1.]).T
    if kind not in (0, 7):
        full = full * pick(rng, [1., 1., 0.01, 1e-6, 300., 1e6])
        if kind in (1, 2, 3) and full.ndim == 1 and chance(rng, 0.5):
            full = full - pick(rng, [np.max(full) + 3. * np.std(full), np.min(full) - 3. * np.std(full)])    # far from zero on either side
    at = np.sort(rng.integers(0, n + 1, 3))
    d = np.insert(full, at, np.nan, axis=0)
    S1, S2 = B.Study(silent=True), B.Study(silent=True)
    if chance(rng, 0.25):
        # ranges alone, for values of any size (also all the same, or zero): same range or refused in both cases
        f = pick(rng, [1e-3, 0.05, 0.2, 1., 50., 0.])
        full, d = full * f, d * f
        out = []
        for S, x in ((S1, d), (S2, full)):
            try:
                S.load(x, silent=True)
                S.set(om(), silent=True)
                out.append([np.array(g) for g in S.marginalGrid])
            except B.exceptions.ConfigurationError:
                out.append(None)
        rec.check('default_ranges', (out[0] is None) == (out[1] is None), 'default range refused only with (or without) missing values')
        for g1, g2 in zip(out[0] or [], out[1] or []):
            rec.close('default_ranges', g1, g2, 'default parameter values with and without missing points', rtol=1e-10, atol=1e-12 * np.max(np.abs(full)))
        rec.situation('range', kind, n, f, at.tolist())
        return
    for S, x in ((S1, d), (S2, full)):
        S.load(x, silent=True)
        S.set(om(), B.tm.Static(), silent=True)
        S.fit(silent=True)
    for g1, g2 in zip(S1.marginalGrid, S2.marginalGrid):
        rec.close('default_ranges', g1, g2, 'default parameter values with and without missing points', rtol=1e-10, atol=1e-12 * np.max(np.abs(full)))
    if kind not in (5, 6):
        rec.close('default_ranges', S1.logEvidence, S2.logEvidence, 'evidence', rtol=1e-9, atol=1e-8)
    rec.situation('default', kind, n, at.tolist())
