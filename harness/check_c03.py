"""C03: every reported distribution is a proper probability distribution; all read-outs agree."""
import math

import numpy as np

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance, bl
from readout import *
from readout import _plt
from studies import *

CHECK = Check('C03', 'distinct (study type, fit mode, observation model, grid, prior kind, transition model structure, history) '
              'combinations whose read-outs were examined',
              ['matplotlib artists show what was passed to them'])
CHECK.required = ['plotted_on_request_only', 'repeated_stamps', 'sequence_proper', 'means_in_range', 'means_agree', 'getters_distributions', 'hyper_proper', 'hpd_marginal', 'jhpd_marginal',
                  'dd_distribution', 'current_proper', 'history_proper', 'hpds_proper', 'tm_history_proper', 'plot_evolution_map',
                  'plot_distribution', 'plot_hpd', 'plot_dd', 'plot_history_map', 'plot_current', 'plot_tm']


def run(rng, rec, c, plots=None):
    S = c.build(rng)
    if c.kind == 'online' and chance(rng, 0.3) and len(c.s.data) > c.s.om.seg + 1:
        k = int(rng.integers(c.s.om.seg, len(c.s.data)))
        c.run(rng, S, k)
        check_readouts(rec, rng, S, c, plots=chance(rng, 0.5), T=k - c.s.om.seg + 1)
        c.run(rng, S, start=k)
    else:
        c.run(rng, S)
    plots = chance(rng, 0.3) if plots is None else plots
    _plt().close('all')
    ok = check_readouts(rec, rng, S, c, plots=plots)
    if not plots:
        rec.check('plotted_on_request_only', not _plt().get_fignums(), 'figure created although no plot was requested')
    rec.situation(c.describe(), ok)
    return S


@CHECK.gen(260, 6000)
def batch(rng, rec, i):
    run(rng, rec, any_case(rng, ('study',)))


@CHECK.gen(200, 4000)
def hyper(rng, rec, i):
    run(rng, rec, any_case(rng, ('hyper',)))


@CHECK.gen(200, 4000)
def changepoints(rng, rec, i):
    run(rng, rec, any_case(rng, ('cp',)))


@CHECK.gen(260, 6000)
def online(rng, rec, i):
    run(rng, rec, any_case(rng, ('online',)))


@CHECK.gen(200, 4000)
def hostile_data(rng, rec, i):
    """Outliers, runs of missing values and priors with zeros: normalisation must survive extreme likelihood ratios."""
    c = any_case(rng, om_kinds={1: ['poisson', 'gmean', 'white', 'np1'], 2: ['gaussian', 'laplace', 'ar1', 'np2'], 3: ['np3']},
                 multidim=False)
    d = np.array(c.s.data, dtype=float)
    k = int(rng.integers(len(d)))
    f = pick(rng, [5., 20., 100., 1e4])
    if c.s.om.kind == 'poisson':
        d[k] = np.round(d[k] + f)
    elif d.ndim == 1:
        d[k] = d[k] * f + np.sign(d[k] + 1e-9) * f * 0.1
    else:
        d[k, 0] = d[k, 0] * f
    if chance(rng, 0.3):
        d[rng.integers(len(d))] = np.nan
    c.s.data = d
    run(rng, rec, c)


@CHECK.gen(60, 1500)
def tiny(rng, rec, i):
    """One or two data points, two grid points."""
    c = any_case(rng, ('study', 'hyper', 'online'), T=int(rng.integers(1, 3)), size='tiny')
    run(rng, rec, c, plots=chance(rng, 0.7))


@CHECK.gen(24, 400)
def long_streams(rng, rec, i):
    """Evidence far beyond the range of floating point numbers."""
    om = gen.gen_om(rng, kinds=['white', 'gaussian', 'poisson'], size='small', irregular=0.)
    T = int(rng.integers(150, 400))
    k = pick(rng, ['study', 'hyper', 'online'])
    if k == 'online':
        c = online_case(rng, om=om, T=T, nmodels=2, hi=4)
    elif k == 'hyper':
        c = Case('hyper', hyper_scenario(rng, 2, 6, om=om, T=T, depth=0, tm_kinds={'static', 'grw', 'regime'}))
        c.mode = pick(rng, ['complete', 'forward'])
    else:
        c = Case('study', scenario(rng, om=om, T=T, depth=0))
    run(rng, rec, c, plots=False)


@CHECK.gen(24, 400)
def repeated_stamps(rng, rec, i):
    """Several data points with the same time stamp are separate time steps."""
    B = bl()
    T = int(rng.integers(2, 9))
    ts = np.sort(rng.integers(0, max(2, T // 2), T)) + 1900
    two = chance(rng, 0.4)
    om = B.om.Gaussian('mean', np.linspace(-3., 3., 7), 'std', np.linspace(0.5, 2., 4)) if two else B.om.Poisson('rate', np.linspace(0.5, 6., 9))
    names = list(om.parameterNames)
    d = rng.normal(size=T) if two else rng.poisson(3., T)
    hyper = chance(rng, 0.5)
    S = (B.HyperStudy if hyper else B.Study)(silent=True)
    S.load(d, timestamps=ts, silent=True)
    S.set(om, B.tm.GaussianRandomWalk('s', [0.3, 0.6] if hyper else 0.4, target=names[0]), silent=True)
    fit_mode(rng, S, pick(rng, ['complete', 'forward']))
    post = np.asarray(S.posteriorSequence)
    rec.check('repeated_stamps', len(post) == T, 'number of time steps')
    for ax, n in enumerate(names):
        seq = np.array([ref.marginal(p, ax) for p in post])
        x, p = S.getPD('avg', n, density=False)
        rec.dist('repeated_stamps', p, 1., 'time-averaged distribution')
        rec.close('repeated_stamps', p, seq.mean(axis=0), 'time-averaged distribution of %s, time stamps %s' % (n, ts), rtol=1e-9, atol=1e-12)
        rec.close('repeated_stamps', S.getPDs(n, density=False)[1], seq, 'sequence of distributions', rtol=1e-9, atol=1e-12)
        rec.close('repeated_stamps', S.getParameterMeanValues(n), seq @ x, 'means', rtol=1e-9, atol=1e-9)
    if not two:
        v = np.arange(12)
        lik = np.array([[math.exp(-r) * r ** k / math.factorial(k) for r in x] for k in v])
        y = S.simulate(v, density=True)
        y = np.asarray(y[1] if isinstance(y, tuple) else y, float)
        rec.close('repeated_stamps', y, lik @ seq.mean(axis=0), 'predicted observations', rtol=1e-8, atol=1e-12)
    rec.situation('repeated stamps', T, len(set(ts)), hyper)
