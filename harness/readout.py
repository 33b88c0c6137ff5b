"""Monitors for everything a study reports: proper distributions, and agreement of all ways to read out a result."""
import itertools

import numpy as np

import gen
import ref
from common import *
from engine import Violation
from gen import pick, chance
from studies import *


def _plt():
    import matplotlib.pyplot as plt
    return plt


def proper_sequence(rec, mon, post, s, T=None):
    post = np.asarray(post, dtype=float)
    rec.check(mon + '_shape', post.shape == ((len(s.tsf) if T is None else T),) + s.om.shape,
              lambda: 'shape of sequence of distributions is %s, grid %s, %d time steps' % (post.shape, s.om.shape, len(s.tsf)))
    for k, p in enumerate(post):
        rec.dist(mon + '_proper', p, msg='parameter distribution at time step %d' % k)


def means_in_range(rec, mon, m, grid):
    lo, hi = np.min(grid), np.max(grid)
    e = 1e-9 * (abs(lo) + abs(hi) + hi - lo)
    m = np.atleast_1d(np.asarray(m, dtype=float))
    rec.check(mon, np.all(np.isfinite(m)) and np.all(m >= lo - e) and np.all(m <= hi + e),
              lambda: 'mean value(s) %s outside of the range [%r, %r] of the grid' % (m[:5], lo, hi))


def image_equals(rec, mon, want, gamma, extent=None):
    """The density map on the current axes shows `want` (time along the first axis)."""
    plt = _plt()
    ims = plt.gca().images
    rec.check(mon, len(ims) > 0, 'no density map has been plotted')
    a = np.asarray(ims[-1].get_array(), dtype=float)
    w = np.asarray(want, dtype=float)
    rec.check(mon, a.shape == w.T.shape, lambda: 'shape of density map %s, expected %s' % (a.shape, w.T.shape))
    ref_ = w.T ** gamma
    judged = (w.T > 1e-19 * w.max())
    rec.close(mon, a[judged], ref_[judged], 'plotted density map', rtol=1e-6, atol=1e-12)
    rest = a[~judged]
    rec.check(mon, np.all((rest >= 0) & (rest <= (1e-18 * w.max()) ** gamma)), 'density map shows probability where there is none')
    if extent is not None:
        e = ims[-1].get_extent()
        rec.close(mon, list(e), list(extent), 'extent of density map', rtol=1e-9, atol=1e-9)


def line_equals(rec, mon, x, y):
    plt = _plt()
    ls = plt.gca().lines
    rec.check(mon, len(ls) > 0, 'no line has been plotted')
    xy = np.asarray(ls[-1].get_xydata(), dtype=float)
    rec.close(mon, xy, np.array([np.asarray(x, float), np.asarray(y, float)]).T, 'plotted line', rtol=1e-7, atol=1e-9)


def fill_equals(rec, mon, x, p):
    plt = _plt()
    cs = plt.gca().collections
    rec.check(mon, len(cs) > 0, 'no distribution has been plotted')
    v = np.concatenate([q.vertices for q in cs[-1].get_paths()])
    sx, sp = max(np.max(np.abs(x)), 1e-300), max(np.max(np.abs(p)), 1e-300)
    for a, b in zip(x, p):
        d = np.min(np.abs(v[:, 0] - a) / sx + np.abs(v[:, 1] - b) / sp)
        rec.check(mon, d < 1e-6, lambda: 'point (%r, %r) of the distribution is not part of the plotted area' % (a, b))


def bars_equal(rec, mon, x, p):
    plt = _plt()
    bars = plt.gca().patches
    x, p = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(p, float))
    rec.check(mon, len(bars) == len(p), lambda: '%d bars plotted for %d values' % (len(bars), len(p)))
    rec.close(mon, [b.get_height() for b in bars], p, 'heights of bars', rtol=1e-7, atol=1e-12)
    pos = np.array([b.get_x() + b.get_width() / 2. for b in bars])
    if len(x) < 3 or ref.lattice_constant(x) != 1. or np.allclose(np.diff(x), np.diff(x)[0]):
        rec.close(mon, pos, x, 'positions of bars', rtol=1e-7, atol=1e-7 * max(1e-3, np.max(np.abs(x))))


def figure(fn, *a, **k):
    plt = _plt()
    plt.close('all')
    return fn(*a, **k)


def evolution_plot(rec, rng, S, s, name, marg, mean, ts, mon='plot_evolution'):
    ax = s.om.names.index(name)
    g = s.om.grids[ax]
    gamma = pick(rng, [None, 0.5, 1., 0.3])
    kw = {} if gamma is None else {'gamma': gamma}
    if chance(rng, 0.3):
        kw['color'] = pick(rng, ['r', 'g', '#00ffcc', 'k'])
    if chance(rng, 0.2):
        kw['lw'] = 3
    f = pick(rng, [S.plot, S.plotParameterEvolution])
    figure(f, name, **kw)
    image_equals(rec, mon + '_map', marg, gamma or 0.5, [ts[0], ts[-1], g[0], g[-1]] if len(ts) > 1 else None)
    line_equals(rec, mon + '_mean', ts, mean)
    labelled(rec, 'plot', y=name)


def check_batch_parameters(rec, rng, S, c, plots=True):
    s = c.s
    post, mean = np.array(S.posteriorSequence), np.array(S.posteriorMeanValues)
    proper_sequence(rec, 'sequence', post, s)
    mesh = s.om.mesh
    rec.check('means_shape', mean.shape == (len(s.om.names), len(s.tsf)), lambda: 'shape of mean values %s' % (mean.shape,))
    for ax in range(len(mesh)):
        means_in_range(rec, 'means_in_range', mean[ax], s.om.grids[ax])
        sc = 1 + np.max(np.abs(s.om.grids[ax]))
        rec.close('means_agree', mean[ax], [np.sum(p * mesh[ax]) for p in post], 'mean values vs distributions', rtol=1e-7, atol=1e-9 * sc)
    check_getters(rec, S, s, post, mean, rng, 'getters')
    lc = [ref.lattice_constant(g) for g in s.om.grids]
    for ax, n in enumerate(s.om.names):
        x, p = S.getPDs(n)
        rec.check('density_integral', np.allclose(np.sum(p, axis=1) * lc[ax], 1., rtol=0, atol=1e-7),
                  'densities do not integrate to one')
        for t in s.tsf:
            x, q = S.getPD(t, n)
            i = list(s.tsf).index(t)
            rec.close('single_vs_sequence', q, p[i], 'distribution at one time step vs sequence')
    if plots:
        ax = int(rng.integers(len(mesh)))
        n = s.om.names[ax]
        marg = np.array([ref.marginal(p, ax) for p in post])
        evolution_plot(rec, rng, S, s, n, marg, mean[ax], s.tsf)
        d = chance(rng, 0.5)
        f = 1. / lc[ax] if d else 1.
        t = pick(rng, list(s.tsf) + ['avg'])
        w = marg.mean(axis=0) if isinstance(t, str) else marg[list(s.tsf).index(t)]
        r = pick(rng, [0, 1, 2])
        if r == 0:
            figure(S.plot, n, t=t, density=d)
        else:
            figure(S.getPD if r == 1 else S.getParameterDistribution, t, n, plot=True, density=d)
        fill_equals(rec, 'plot_distribution', s.om.grids[ax], w * f)
        labelled(rec, 'plot', n, 'probability density' if d else 'probability')
        figure(pick(rng, [S.getPDs, S.getParameterDistributions]), n, plot=True, density=d)
        image_equals(rec, 'plot_sequence', marg * f, 1., [s.tsf[0], s.tsf[-1], s.om.grids[ax][0], s.om.grids[ax][-1]] if len(s.tsf) > 1 else None)


def joint(S, c):
    """Joint hyper-parameter probabilities as array, with the axes of the hyper-parameters."""
    combos, prior, consts, axes = ref.hyper_grid(c.s.spec, c.s.tsf)
    mass = np.asarray(S.hyperParameterDistribution, dtype=float) * np.prod(consts)
    return mass, [np.asarray(a, float) for a in axes]


def check_hyper_readouts(rec, rng, S, c, plots=True):
    B = gen.bl()
    s = c.s
    names = c.names()
    if not names:
        return
    combos, prior, consts, axes = ref.hyper_grid(s.spec, s.tsf)
    keep = [True] * len(combos) if c.kind == 'hyper' else [c.mask(x) for x in combos]
    if sum(keep) < 2:
        for f in (S.getHPD, S.getHyperParameterDistribution):
            rec.raises('no_distribution', B.exceptions.PostProcessingError,
                       lambda: f(names[0]), 'distribution of a single combination')
        return
    mass, axes = joint(S, c)
    rec.check('hyper_shape', mass.shape == (len(combos),), lambda: 'hyper-parameter distribution has shape %s for %d combinations' % (mass.shape, len(combos)))
    rec.dist('hyper_proper', mass, msg='hyper-parameter distribution')
    J = mass.reshape([len(a) for a in axes])
    for k, n in enumerate(names):
        x, p = pick(rng, [S.getHPD, S.getHyperParameterDistribution])(n)
        want = ref.marginal(J, k)
        rec.close('hpd_values', np.atleast_1d(np.asarray(x, float)), axes[k], 'values of hyper-parameter ' + n, rtol=1e-12, atol=1e-300)
        rec.check('hpd_shape', np.shape(p) == np.shape(x), lambda: 'shape of values %s and probabilities %s' % (np.shape(x), np.shape(p)))
        rec.dist('hpd_proper', np.atleast_1d(p), msg='distribution of ' + n)
        rec.close('hpd_marginal', np.atleast_1d(p), want, 'marginal distribution of ' + n, rtol=1e-8, atol=1e-280)
    if plots:
        k = int(rng.integers(len(names)))
        if chance(rng, 0.5):
            figure(S.plot, names[k])
        else:
            figure(pick(rng, [S.getHPD, S.getHyperParameterDistribution]), names[k], plot=True)
        bars_equal(rec, 'plot_hpd', axes[k], ref.marginal(J, k))
        labelled(rec, 'plot', names[k], 'probability')
    if len(names) > 1:
        for a, b in itertools.permutations(range(len(names)), 2):
            x, y, p = pick(rng, [S.getJHPD, S.getJointHyperParameterDistribution])([names[a], names[b]])
            rest = tuple(k for k in range(len(names)) if k not in (a, b))
            w = J.sum(axis=rest)
            w = w if a < b else w.T
            rec.close('jhpd_values', np.atleast_1d(np.asarray(x, float)), axes[a], 'values of ' + names[a], rtol=1e-12, atol=1e-300)
            rec.close('jhpd_values', np.atleast_1d(np.asarray(y, float)), axes[b], 'values of ' + names[b], rtol=1e-12, atol=1e-300)
            rec.dist('jhpd_proper', p, msg='joint distribution')
            rec.close('jhpd_marginal', p, w, 'joint distribution of %s and %s' % (names[a], names[b]), rtol=1e-8, atol=1e-280)
        if plots and chance(rng, 0.3):
            a, b = [names[k] for k in rng.permutation(len(names))[:2]]
            joint_plot(rec, S, a, b, names, axes, J)
            rec.count('plot_joint')


def joint_plot(rec, S, a, b, names, axes, J):
    """The bars of the plotted joint distribution stand at their values, along the axis that carries the name."""
    from mpl_toolkits.mplot3d import Axes3D
    plt = _plt()
    seen, orig = [], Axes3D.bar3d

    def bar3d(self, x, y, z, dx, dy, dz, *p, **k):
        seen.append([np.array(v, dtype=float) * np.ones(np.size(dz)) for v in (x, y, z, dx, dy, dz)])
        return orig(self, x, y, z, dx, dy, dz, *p, **k)
    Axes3D.bar3d = bar3d
    try:
        figure(S.getJHPD, [a, b], plot=True)
    finally:
        Axes3D.bar3d = orig
    ax = plt.gca()
    labels = [ax.get_xlabel(), ax.get_ylabel()]
    rec.check('plot_joint_labels', sorted(labels) == sorted([a, b]), lambda: 'axes of the joint distribution of %s and %s are labelled %s' % (a, b, labels))
    if not seen:
        return
    x, y, z, dx, dy, dz = seen[-1]
    i, j = [names.index(l) for l in labels]
    w = J.sum(axis=tuple(k for k in range(len(names)) if k not in (i, j)))
    w = w if i < j else w.T
    pos = [np.arange(len(v)) if len(v) > 2 and ref.lattice_constant(v) == 1. and not np.allclose(np.diff(v), np.diff(v)[0]) else v for v in (axes[i], axes[j])]
    if any(len(v) > 1 and len(np.unique(v)) < len(v) or len(v) == 2 and not v[1] > v[0] for v in pos):
        return
    want = np.array([(u, v, w[m, n]) for m, u in enumerate(pos[0]) for n, v in enumerate(pos[1])], dtype=float)
    got = np.array([x + dx / 2., y + dy / 2., z + dz]).T
    rec.check('plot_joint_bars', got.shape == want.shape, lambda: '%d bars for %d combinations' % (len(got), len(want)))
    order = lambda m: m[np.lexsort((np.round(m[:, 1] / (np.max(np.abs(want[:, 1])) or 1.), 9), np.round(m[:, 0] / (np.max(np.abs(want[:, 0])) or 1.), 9)))]
    got, want = order(got), order(want)
    for k in range(3):
        rec.close('plot_joint_bars', got[:, k], want[:, k], 'bars of the joint distribution (%s)' % ['position along %s' % labels[0], 'position along %s' % labels[1], 'height'][k],
                  rtol=1e-6, atol=1e-7 * (np.max(np.abs(want[:, k])) or 1.))


def labelled(rec, mon, x=None, y=None):
    """Axes labels name what is shown (whole words)."""
    ax = _plt().gca()
    for got, want, which in ((ax.get_xlabel(), x, 'x'), (ax.get_ylabel(), y, 'y')):
        rec.check(mon + '_labels', want is None or got == want, lambda: '%s-axis is labelled %r instead of %r' % (which, got, want))


def durations(J, axes, a, b):
    """Distribution of the difference between the values along axes a < b."""
    d = {}
    for idx in np.ndindex(*J.shape):
        k = float(axes[b][idx[b]]) - float(axes[a][idx[a]])
        d.setdefault(k, 0.)
        d[k] += J[idx]
    return d


def check_durations(rec, rng, S, c, plots=True):
    pn = c.point_names()
    if len(pn) < 2:
        return
    s = c.s
    names = c.names()
    combos, _, _, _ = ref.hyper_grid(s.spec, s.tsf)
    keep = np.array([c.mask(x) for x in combos])
    if keep.sum() < 2:
        return
    mass, axes = joint(S, c)
    for p, q in itertools.permutations(pn, 2):
        a, b = sorted([names.index(p), names.index(q)])
        x, d = pick(rng, [S.getDD, S.getDurationDistribution])([p, q])
        want = {}
        for i, cmb in enumerate(combos):
            if keep[i]:
                k = float(cmb[b]) - float(cmb[a])
                k = next((j for j in want if abs(j - k) <= 1e-14 * max(abs(float(cmb[a])), abs(float(cmb[b])))), k)     # time stamps that are not exact in binary
                want[k] = want.get(k, 0.) + mass[i]
        ks = sorted(want)
        rec.close('dd_values', x, ks, 'possible durations between %s and %s' % (p, q), rtol=1e-12, atol=1e-9)
        rec.dist('dd_proper', d, msg='duration distribution')
        rec.close('dd_distribution', d, [want[k] for k in ks], 'duration distribution', rtol=1e-8, atol=1e-280)
    if plots:
        p, q = pn[0], pn[-1]
        x, d = figure(S.getDD, [p, q], plot=True)
        bars_equal(rec, 'plot_dd', x, d)
        labelled(rec, 'plot', y='probability')


def check_online_readouts(rec, rng, S, c, plots=True, T=None):
    """After T processed time steps."""
    B = gen.bl()
    s = c.s
    ts = list(s.tsf)[:T] if T is not None else list(s.tsf)
    names, grids = s.om.names, s.om.grids
    lc = [ref.lattice_constant(g) for g in grids]
    cur = [S.getCPD(n, density=False)[1] for n in names]
    for ax, n in enumerate(names):
        x, p = pick(rng, [S.getCPD, S.getCurrentParameterDistribution])(n)
        rec.close('current_grid', x, grids[ax], 'parameter values', rtol=1e-12, atol=1e-300)
        rec.dist('current_proper', cur[ax], msg='current distribution of ' + n)
        rec.close('current_density', np.asarray(p) * lc[ax], cur[ax], 'density vs probability')
        m = S.getCurrentParameterMeanValue(n)
        means_in_range(rec, 'means_in_range', m, grids[ax])
        rec.close('current_mean', m, np.sum(cur[ax] * grids[ax]), 'current mean', rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(grids[ax]))))
    opt = lambda loc: {} if not loc and chance(rng, 0.5) else dict(local=loc)
    for loc in (False, True):
        nm, p = pick(rng, [S.getCTMD, S.getCurrentTransitionModelDistribution])(**opt(loc))
        rec.check('tm_names', list(nm) == list(c.tm_names), lambda: 'names of transition models %s' % (nm,))
        rec.dist('tm_proper', p, msg='transition model distribution')
        for k, n in enumerate(c.tm_names):
            rec.close('tm_single', pick(rng, [S.getCTMP, S.getCurrentTransitionModelProbability])(n, **opt(loc)), p[k], 'probability of ' + n)
    hp = []
    for j, sp in enumerate(c.specs):
        alive = S.getCTMP(c.tm_names[j]) > 0
        for n, v, pr in ref.flat(sp):
            vals = np.atleast_1d(np.asarray(v, float))
            hp.append((n, vals, alive))
            x, p = pick(rng, [S.getCHPD, S.getCurrentHyperParameterDistribution])(n)
            rec.close('chpd_values', np.atleast_1d(np.asarray(x, float)), vals, 'values of ' + n, rtol=1e-12, atol=1e-300)
            rec.check('chpd_shape', np.shape(p) == np.shape(x), 'shape of hyper-parameter distribution')
            if alive:
                rec.dist('chpd_proper', np.atleast_1d(p), msg='current distribution of ' + n)
    if not c.history:
        ax = int(rng.integers(len(names)))
        if plots:
            d = chance(rng, 0.5)
            if chance(rng, 0.5):
                figure(S.plot, names[ax], density=d)
            else:
                figure(S.getCPD, names[ax], plot=True, density=d)
            fill_equals(rec, 'plot_current', grids[ax], cur[ax] / (lc[ax] if d else 1.))
            labelled(rec, 'plot', names[ax], 'probability density' if d else 'probability')
            if hp:
                n, vals, alive = pick(rng, hp)
                if alive:
                    p = S.getCHPD(n)[1]
                    if chance(rng, 0.5):
                        figure(S.plot, n)
                    else:
                        figure(pick(rng, [S.getCHPD, S.getCurrentHyperParameterDistribution]), n, plot=True)
                    bars_equal(rec, 'plot_chpd', vals, p)
                    labelled(rec, 'plot', n, 'probability')
        for f in (lambda: S.getPD(ts[-1], names[0]), lambda: S.getPDs(names[0]), lambda: S.getParameterMeanValues(names[0]),
                  lambda: S.getTMPs(c.tm_names[0]), lambda: S.getParameterMeanValue(ts[-1], names[0]),
                  lambda: S.getTransitionModelDistributions(), lambda: S.plot(names[0], t=ts[-1]),
                  lambda: S.plotParameterEvolution(names[0])):
            rec.raises('no_history', B.exceptions.PostProcessingError, f, 'history of a study that does not store it')
        return
    for ax, n in enumerate(names):
        x, p = pick(rng, [S.getPDs, S.getParameterDistributions])(n, density=False)
        p = np.array(p)
        rec.close('history_grid', x, grids[ax], 'parameter values', rtol=1e-12, atol=1e-300)
        rec.check('history_length', p.shape == (len(ts), len(grids[ax])), lambda: 'shape of history %s for %d steps' % (p.shape, len(ts)))
        for k, t in enumerate(ts):
            rec.dist('history_proper', p[k], msg='stored distribution at step %s' % t)
            q = pick(rng, [S.getPD, S.getParameterDistribution])(t, n, density=False)[1]
            rec.close('history_single', q, p[k], 'stored distribution at step %s' % t)
            rec.close('history_mean', S.getParameterMeanValue(t, n), np.sum(p[k] * grids[ax]), 'stored mean',
                      rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(grids[ax]))))
        rec.close('history_last', p[-1], cur[ax], 'last stored vs current distribution')
        rec.close('history_density', np.asarray(S.getPDs(n)[1]) * lc[ax], p, 'density vs probability')
        rec.close('history_density', np.asarray(S.getPD(ts[-1], n)[1]) * lc[ax], p[-1], 'density vs probability')
        rec.close('history_average', S.getPD('avg', n, density=False)[1], p.mean(axis=0), 'time average')
        means = np.asarray(S.getParameterMeanValues(n), float)
        rec.close('history_means', means, p @ grids[ax], 'stored means', rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(grids[ax]))))
        if plots and ax == 0:
            evolution_plot(rec, rng, S, s, n, p, means, ts, 'plot_history')
            t = pick(rng, ts)
            figure(S.plot, n, t=t, density=False)
            fill_equals(rec, 'plot_history_single', grids[ax], p[ts.index(t)])
            labelled(rec, 'plot', n, 'probability')
            d = chance(rng, 0.5)
            f = 1. / lc[ax] if d else 1.
            figure(pick(rng, [S.getPDs, S.getParameterDistributions]), n, plot=True, density=d)
            image_equals(rec, 'plot_history_sequence', p * f, 1., [ts[0], ts[-1], grids[ax][0], grids[ax][-1]] if len(ts) > 1 else None)
            t = pick(rng, ts + ['avg'])
            w = p.mean(axis=0) if isinstance(t, str) else p[ts.index(t)]
            figure(pick(rng, [S.getPD, S.getParameterDistribution]), t, n, plot=True, density=d)
            fill_equals(rec, 'plot_history_single', grids[ax], w * f)
            labelled(rec, 'plot', n, 'probability density' if d else 'probability')
            figure(S.getCPD, n, plot=True, density=d)
            fill_equals(rec, 'plot_current', grids[ax], cur[ax] * f)
    for loc in (False, True):
        nm, p = S.getTransitionModelDistributions(**opt(loc))
        p = np.array(p)
        if not loc and chance(rng, 0.5):
            rec.close('tm_history_default', S.getTransitionModelDistributions(local=False)[1], p, 'stored transition model distributions')
        rec.check('tm_history', list(nm) == list(c.tm_names) and p.shape == (len(ts), len(c.specs)), lambda: 'shape %s' % (p.shape,))
        for q in p:
            rec.dist('tm_history_proper', q, msg='stored transition model distribution')
        rec.close('tm_history_last', p[-1], S.getCTMD(local=bool(loc))[1], 'last stored vs current transition model distribution')
        for k, n in enumerate(c.tm_names):
            rec.close('tm_history_single', pick(rng, [S.getTMPs, S.getTransitionModelProbabilities])(n, **opt(loc)), p[:, k], 'probabilities of ' + n)
        if plots and chance(rng, 0.5):
            k = int(rng.integers(len(c.tm_names)))
            figure(S.plot, c.tm_names[k], local=loc)
            line_equals(rec, 'plot_tm', ts, p[:, k])
    for n, vals, alive in hp:
        if not alive:
            continue
        x, p = pick(rng, [S.getHPDs, S.getHyperParameterDistributions])(n)
        p = np.array(p)
        order = np.argsort(vals)
        rec.close('hpds_values', np.asarray(x, float), vals[order], 'values of ' + n, rtol=1e-12, atol=1e-300)
        rec.check('hpds_length', p.shape == (len(ts), len(vals)), lambda: 'shape of history of %s: %s' % (n, p.shape))
        for k, t in enumerate(ts):
            rec.dist('hpds_proper', p[k], msg='stored distribution of ' + n)
            v, q = pick(rng, [S.getHPD, S.getHyperParameterDistribution])(t, n)
            rec.close('hpds_single', np.atleast_1d(q)[order], p[k], 'stored distribution of %s at %s' % (n, t))
            rec.close('hpds_mean', S.getHyperParameterMeanValue(t, n), np.sum(p[k] * vals[order]), 'stored mean of ' + n,
                      rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(vals))))
        rec.close('hpds_last', p[-1], np.atleast_1d(S.getCHPD(n)[1])[order], 'last stored vs current distribution of ' + n)
        rec.close('hpds_means', S.getHyperParameterMeanValues(n), p @ vals[order], 'stored means of ' + n,
                  rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(vals))))
        rec.close('hpds_average', np.atleast_1d(S.getHPD('avg', n)[1])[order], p.mean(axis=0), 'time-averaged distribution of ' + n)
    if plots and hp and chance(rng, 0.5):
        n, vals, alive = pick(rng, hp)
        if alive:
            x, p = S.getHPDs(n)
            p = np.array(p)
            figure(S.plot, n, gamma=0.5)
            image_equals(rec, 'plot_hyper_history', p, 0.5, [ts[0], ts[-1], x[0], x[-1]] if len(ts) > 1 and len(x) > 1 else None)
            line_equals(rec, 'plot_hyper_mean', ts, S.getHyperParameterMeanValues(n))
            labelled(rec, 'plot', y=n)
            t = pick(rng, ts)
            q = S.getHPD(t, n)[1]
            figure(S.plot, n, t=t)
            bars_equal(rec, 'plot_hyper_single', vals, q)
            labelled(rec, 'plot', n, 'probability')
            t = pick(rng, ts + ['avg'])
            q = S.getHPD(t, n)[1]
            figure(pick(rng, [S.getHPD, S.getHyperParameterDistribution]), t, n, plot=True)
            bars_equal(rec, 'plot_hyper_single', vals, q)
            q = S.getCHPD(n)[1]
            figure(pick(rng, [S.getCHPD, S.getCurrentHyperParameterDistribution]), n, plot=True)
            bars_equal(rec, 'plot_chpd', vals, q)
            labelled(rec, 'plot', n, 'probability')


def check_readouts(rec, rng, S, c, plots=True, T=None):
    """All monitors that apply to a study with results. Returns False if there are none (impossible data)."""
    e = S.logEvidence
    rec.check('evidence', e == e and e < np.inf, lambda: 'log-evidence is %r' % e)
    rec.close('log10_evidence', S.log10Evidence if np.isfinite(e) else 0., e / np.log(10.) if np.isfinite(e) else 0., 'log10-evidence', rtol=1e-9, atol=1e-9)
    if not np.isfinite(e):
        return False
    if c.kind == 'online':
        check_online_readouts(rec, rng, S, c, plots, T)
    else:
        if c.mode != 'evidence':
            check_batch_parameters(rec, rng, S, c, plots)
        if c.kind in ('hyper', 'cp'):
            check_hyper_readouts(rec, rng, S, c, plots)
        if c.kind == 'cp':
            check_durations(rec, rng, S, c, plots)
    return True
