"""C06: elementary transition models transform distributions as documented."""
import numpy as np
from scipy import stats

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance

CHECK = Check('C06', 'distinct (transition model, hyper-parameter regime, input distribution, grid shape, direction, target) combinations '
              'whose transformed distributions were compared',
              ['the transformation is observed through fits without information (missing data) resp. with information in one time step only'])
KINDS = ['static', 'grw', 'alpha', 'cp', 'indep', 'regime', 'noteq', 'det', 'biv']
CHECK.required = ['no_hyper_parameter', 'huge_drift'] + ['forward_' + k for k in KINDS] + ['backward_' + k for k in KINDS] + \
    ['conserved', 'untouched_axes', 'gaussian_moments', 'stable_law', 'deterministic_shift', 'bivariate_correlation', 'reused_object']


def shapes(rng, shape):
    """Hostile input distributions."""
    n = int(np.prod(shape))
    k = pick(rng, ['delta', 'corner', 'two', 'flat', 'zeros', 'random', 'tiny', 'bell', 'edge'])
    a = np.zeros(shape)
    if k == 'delta':
        a.flat[rng.integers(n)] = 1.
    elif k == 'corner':
        a.flat[pick(rng, [0, n - 1])] = 1.
    elif k == 'two':
        a.flat[rng.integers(n)] += 0.3
        a.flat[rng.integers(n)] += 0.7
    elif k == 'flat':
        a[...] = 1.
    elif k == 'zeros':
        a = rng.random(shape)
        a[rng.random(shape) < 0.5] = 0.
        a.flat[rng.integers(n)] = 1.
    elif k == 'random':
        a = rng.random(shape) + 0.01
    elif k == 'tiny':
        a = 10. ** rng.uniform(-250, 0, shape)
    else:
        idx = np.meshgrid(*[np.arange(m) for m in shape], indexing='ij')
        q = 0.
        for j, m in zip(idx, shape):
            c = m * rng.random() if k == 'bell' else 0.
            q = q + ((j - c) / (0.1 * m + 0.3)) ** 2
        a = np.exp(-0.5 * q)
    return k, a


def elementary(rng, kind, dist=True, size='small', T=None, ndim=None, ts_kinds=None):
    nd = {'biv': 2}.get(kind, ndim or (pick(rng, [1, 1, 2]) if kind == 'alpha' else pick(rng, [1, 1, 2, 3])))
    om = gen.gen_om(rng, kinds=['table%d' % nd], size=size, prior_kinds=['none'], irregular=0.08 if kind != 'biv' else 0.)
    name = 'flat'
    if dist:
        name, a = shapes(rng, om.shape)
        a = a / a.sum() * 10. ** pick(rng, [0., 0., 3., -5.])
        om.prior = gen.PriorSpec('array', a, gen.normed(a, [ref.lattice_constant(g) for g in om.grids]))
    s = scenario(rng, om=om, T=int(rng.integers(2, 7)) if T is None else T, spec=lambda g: g.elementary({kind}), missing=0.,
                 multidim=False, ts_kinds=ts_kinds)
    lc = [ref.lattice_constant(g) for g in om.grids]
    # more extreme hyper-parameter values
    if kind == 'grw' and chance(rng, 0.3):
        s.spec['v'] = [pick(rng, [0., 1e-9, 0.05, 0.12, 0.13, 5., 30., 100.]) * lc[s.spec['ax']]]
    if kind == 'regime' and chance(rng, 0.3):
        s.spec['v'] = [pick(rng, [-400., -50, -7., 0., 3., 20.]) - np.log10(np.prod(lc))]
    if kind == 'noteq' and chance(rng, 0.3):
        s.spec['v'] = [pick(rng, [-300., -50, -7., 0., 3., 20.]) - np.log10(np.prod(lc))]
    if kind == 'det' and chance(rng, 0.3) and s.spec['fn'] == 'lin':
        s.spec['v'] = [pick(rng, [0., 0.5, 3., -3., 0.25 * om.shape[s.spec['ax']]]) * lc[s.spec['ax']]]
    if kind == 'alpha' and chance(rng, 0.3):
        s.spec['v'] = [pick(rng, [0., 0.01, 0.5, 10., 200.]) * lc[s.spec['ax']], pick(rng, [0.2, 0.5, 1., 1.9, 2.])]
    return s, name


def regime_of(s):
    if 'v' not in s.spec:
        return ''
    ax = s.spec.get('ax', 0)
    lc = ref.lattice_constant(s.om.grids[ax])
    v = s.spec['v'][0]
    return '%s:%.0e' % (s.spec.get('fn', ''), v / lc if s.spec['k'] in ('grw', 'alpha', 'det', 'biv') else v)


@CHECK.gen(900, 18000)
def forward(rng, rec, i):
    """No information at all: the sequence of distributions is the prior, transformed again and again."""
    kind = KINDS[i % len(KINDS)]
    s, name = elementary(rng, kind, size='large' if chance(rng, 0.03) else 'small')
    s.data = np.full(len(s.data), np.nan)
    s.liks = s.om.liks(s.data)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S, forwardOnly=True)
    flags = s.flags
    t = tols(s)

    def compare(active):
        ctx = s.om.ctx(active)
        loge, norms, filt = ref.filtering(s.spec, s.liks, s.tsf, ctx)
        if filt is None:      # shifted out of the grid completely
            rec.check('shifted_out', S.logEvidence == -np.inf, lambda: 'nothing left, log-evidence %r' % S.logEvidence)
            return
        rec.close('forward_' + kind, S.posteriorSequence, filt, '%s distributions from %s %s' % (kind, name, describe(s)), **t)
        rec.close('conserved', S.logEvidence, loge, 'log-evidence without any observation (probability lost or gained)', atol=1e-6, rtol=1e-6)
    match(rec, 'forward', compare, flags, stable_fit(s))
    for p in S.posteriorSequence:
        rec.dist('conserved', p, msg=kind)
    # parameters that are not targeted keep their marginal distribution
    if 'ax' in s.spec and len(s.om.shape) > 1 and kind in ('grw',):
        for ax in range(len(s.om.shape)):
            if ax != s.spec['ax']:
                m = [ref.marginal(p, ax) for p in S.posteriorSequence]
                rec.close('untouched_axes', m[-1], m[0], 'marginal distribution of another parameter', rtol=1e-6, atol=1e-9)
    rec.situation('forward', kind, name, s.om.shape, regime_of(s), s.spec.get('ax'))


@CHECK.gen(700, 14000)
def backward(rng, rec, i):
    """Information in one time step only, flat prior: earlier distributions are that likelihood, transformed backwards."""
    kind = KINDS[i % len(KINDS)]
    s, _ = elementary(rng, kind, dist=False, T=int(rng.integers(2, 8)))
    d = np.full(len(s.data), np.nan)
    k = len(d) - 1 if chance(rng, 0.6) else int(rng.integers(len(d)))
    d[k] = s.data[k]
    s.data = d
    s.liks = s.om.liks(d)
    if chance(rng, 0.4):
        # strongly informative time step
        name, a = shapes(rng, s.om.shape)
        s.liks[k] = a + 1e-6
        table = a + 1e-6
        fns = {1: lambda data, a: table, 2: lambda data, a, b: table, 3: lambda data, a, b, c: table}
        s.om.fn = fns[len(s.om.shape)]
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)
    t = tols(s)

    def compare(active):
        r = ref.smoothing(s.spec, s.liks, s.tsf, s.om.ctx(active))
        if r['post'] is None:
            rec.check('shifted_out', S.logEvidence == -np.inf, lambda: 'nothing left, log-evidence %r' % S.logEvidence)
            return
        rec.close('backward_' + kind, S.posteriorSequence, r['post'], '%s backwards %s' % (kind, describe(s)), **t)
    match(rec, 'backward', compare, s.flags, stable_fit(s))
    rec.situation('backward', kind, s.om.shape, regime_of(s), k == len(d) - 1, s.spec.get('ax'))


# ------------------------------------------------------------------------------------------------- laws, independent of the reference
def delta_study(rng, grids, names, idx, tm, steps=2, ts=None):
    B = gen.bl()
    shape = tuple(len(g) for g in grids)
    a = np.zeros(shape)
    a[idx] = 1.
    fns = {1: lambda data, a: a * 0. + 1., 2: lambda data, a, b: a * 0. + 1.}
    om = B.om.NumPy(fns[len(grids)], *[x for n, g in zip(names, grids) for x in (n, g)], prior=a)
    S = B.Study(silent=True)
    S.load(np.zeros(steps), timestamps=ts, silent=True)
    S.set(om, tm, silent=True)
    S.fit(forwardOnly=True, silent=True)
    return S


@CHECK.gen(60, 1000)
def gaussian_moments(rng, rec, i):
    """Mean is kept, variance grows by sigma^2 per time step (away from the boundaries)."""
    B = gen.bl()
    n = int(rng.integers(201, 300))
    lc = 10. ** rng.uniform(-4, 4)
    x0 = lc * rng.uniform(-50, 50)
    g = x0 + lc * np.arange(n)
    sg = lc * rng.uniform(1., 6.)
    k = int(rng.integers(2, 5))
    two = chance(rng, 0.4)
    idx = (n // 2,)
    grids, names = [g], ['x']
    if two:
        h = np.linspace(1., 2., 4)
        if chance(rng, 0.5):
            grids, names, idx = [g, h], ['x', 'y'], (n // 2, 2)
        else:
            grids, names, idx = [h, g], ['y', 'x'], (2, n // 2)
    tm = B.tm.GaussianRandomWalk('s', sg, target='x')
    S = delta_study(rng, grids, names, idx, tm, steps=k + 1)
    x, p = S.getPDs('x', density=False)
    for j in range(1, k + 1):
        m = np.sum(p[j] * x)
        v = np.sum(p[j] * (x - m) ** 2)
        rec.close('gaussian_moments', (m - g[n // 2]) / lc, 0., 'mean after %d steps' % j, atol=1e-6)
        rec.close('gaussian_moments', v / lc ** 2, j * (sg / lc) ** 2, 'variance after %d steps' % j, rtol=0.02)
    want = stats.norm.pdf(x, g[n // 2], sg) * lc
    rec.close('gaussian_moments', p[1], want, 'shape after one step', rtol=0., atol=2e-3 * np.max(want))
    if two:
        y, q = S.getPDs('y', density=False)
        rec.close('untouched_axes', q[-1], q[0], 'distribution of the other parameter')
    rec.situation('moments', n, round(np.log10(lc)), k, names)


@CHECK.gen(40, 600)
def stable_law(rng, rec, i):
    """Alpha-stable steps: Cauchy law for alpha=1, Gaussian law for alpha=2, and the generalised central limit scaling."""
    B = gen.bl()
    n = int(rng.integers(150, 240))
    lc = 10. ** rng.uniform(-4, 4)
    g = lc * (np.arange(n) - n // 2) + lc * rng.integers(-1000, 1000)
    c = lc * rng.uniform(1.5, 4.)
    alpha = pick(rng, [1., 2.])
    two = chance(rng, 0.4)
    grids, names, idx = [g], ['x'], (n // 2,)
    if two:
        h = np.linspace(1., 2., int(rng.integers(3, 6)))
        grids, names, idx = ([g, h], ['x', 'y'], (n // 2, 1)) if chance(rng, 0.5) else ([h, g], ['y', 'x'], (1, n // 2))
    S = delta_study(rng, grids, names, idx, B.tm.AlphaStableRandomWalk('c', c, 'a', alpha, target='x'), steps=3)
    x, p = S.getPDs('x', density=False)
    m = n // 2
    sl = slice(m - 15, m + 16)
    if alpha == 1.:
        want = stats.cauchy.pdf(x, g[m], c) * lc
        want2 = stats.cauchy.pdf(x, g[m], 2 * c) * lc
        tol = 0.12
    else:
        want = stats.norm.pdf(x, g[m], np.sqrt(2.) * c) * lc
        want2 = stats.norm.pdf(x, g[m], 2 * c) * lc
        tol = 0.01
    rec.close('stable_law', p[1][sl], want[sl], 'law of one step, alpha=%s' % alpha, rtol=0., atol=tol * np.max(want))
    rec.close('stable_law', p[2][sl], want2[sl], 'law of two steps, alpha=%s' % alpha, rtol=0., atol=tol * np.max(want2))
    rec.check('stable_law', int(np.argmax(p[1])) == m, 'peak moved')
    rec.close('stable_law', p[1][m - 10:m][::-1], p[1][m + 1:m + 11], 'symmetry of the step', rtol=1e-4, atol=1e-9)
    if two:
        y, q = S.getPDs('y', density=False)
        rec.close('untouched_axes', q[-1], q[0], 'distribution of the other parameter', rtol=1e-6, atol=1e-7)
    rec.situation('stable', n, round(np.log10(lc)), alpha, names)


@CHECK.gen(60, 1000)
def deterministic_shift(rng, rec, i):
    """The mean follows the given function, forward and backward in time."""
    B = gen.bl()
    n = int(rng.integers(101, 160))
    lc = 10. ** rng.uniform(-3, 3)
    g = lc * (np.arange(n) - n // 2)
    T = int(rng.integers(3, 7))
    off = int(rng.integers(-5, 1900)) if chance(rng, 0.6) else 0
    ts = np.arange(T) + off
    fn = pick(rng, ['lin', 'sin', 'saw'])
    r = lc * rng.uniform(0.5, 3.) * pick(rng, [1, -1])
    if fn == 'lin':
        f = lambda t, a=r: a * t
    elif fn == 'sin':
        f = lambda t, a=3. * r: a * np.sin(0.9 * t)
    else:
        f = lambda t, a=r: a * (t % 3)
    if i % 4 == 0:
        h = f                           # without hyper-parameters
        f = lambda t: h(t)
        rec.count('no_hyper_parameter')
    peak = np.exp(-0.5 * ((np.arange(n) - n // 2) / 4.) ** 2)
    table = peak / peak.sum() + 1e-12
    where = pick(rng, ['forward', 'backward'])
    S = B.Study(silent=True)
    d = np.full(T, np.nan)
    prior = None
    if where == 'forward':
        prior = peak
    else:
        d[-1] = 0.
    om = B.om.NumPy(lambda data, x: table, 'x', g, prior=prior)
    S.load(d, timestamps=ts, silent=True)
    S.set(om, B.tm.Deterministic(f, target='x'), silent=True)
    S.fit(forwardOnly=where == 'forward', silent=True)
    if i % 8 == 0:
        H = B.HyperStudy(silent=True)
        H.load(d, timestamps=ts, silent=True)
        H.set(om, B.tm.CombinedTransitionModel(B.tm.Deterministic(f, target='x'), B.tm.RegimeSwitch('p', [-300., -310.])), silent=True)
        H.fit(forwardOnly=where == 'forward', silent=True)
        rec.close('deterministic_shift', H.getParameterMeanValues('x') / lc, S.getParameterMeanValues('x') / lc, 'hyper-study of a deterministic model without hyper-parameters', rtol=1e-6, atol=1e-6)
        rec.check('deterministic_shift', H.flatHyperParameterNames == ['p'], 'hyper-parameters %r' % H.flatHyperParameterNames)
    m = S.getParameterMeanValues('x')
    ref_t = ts[0] if where == 'forward' else ts[-1]
    want = np.array([f(t) - f(ref_t) for t in ts])
    rec.close('deterministic_shift', m / lc, want / lc, 'mean follows the function, %s %s' % (fn, where), rtol=1e-3, atol=0.05)
    rec.situation('det', fn, where, T, off != 0)


@CHECK.gen(40, 600)
def huge_drift(rng, rec, i):
    """A drift beyond the range of integers moves everything out of the grid, just like one of a few thousand grid points."""
    B = gen.bl()
    n = int(rng.integers(3, 12))
    lc = 10. ** rng.uniform(-3, 3)
    g = lc * np.arange(n)
    h = np.arange(int(rng.integers(2, 5))) * 1.
    p = rng.random((n, len(h))) + 0.01
    far = pick(rng, [1e12, 1e19, 1e22, 1e25, 1e100, 1e250])
    sign = pick(rng, [-1., 1.])
    T = int(rng.integers(2, 5))
    where = pick(rng, ['forward', 'complete'])
    step = int(rng.integers(1, T))
    res = []
    junk = []
    for rep in range(3):
        for size in (1e4, far, far):
            junk.append(rng.random(int(rng.integers(1, 200))))

            def drift(t, a=sign * size * lc):
                return a * (t >= step)
            S = B.Study(silent=True)
            d = np.full(T, np.nan)
            S.load(d, silent=True)
            S.set(B.om.NumPy(lambda data, x, y: p, 'x', g, 'y', h, prior=p), B.tm.Deterministic(drift, target='x'), silent=True)
            S.fit(forwardOnly=where == 'forward', silent=True)
            res.append(S.posteriorSequence.copy())
    for r in res[1:]:
        rec.close('huge_drift', r, res[0], 'drift of %g grid points' % far, rtol=1e-6, atol=1e-6)
    rec.situation('huge', n, far, sign, T, where, step)


@CHECK.gen(40, 600)
def bivariate_correlation(rng, rec, i):
    """Steps have the given standard deviations and correlation (kernel is cut off at three standard deviations)."""
    B = gen.bl()
    n1, n2 = int(rng.integers(41, 60)), int(rng.integers(41, 60))
    l1, l2 = 10. ** rng.uniform(-3, 3, 2)
    g, h = l1 * np.arange(n1), l2 * (np.arange(n2) + 7)
    s1, s2 = l1 * rng.uniform(1.5, 5.), l2 * rng.uniform(1.5, 5.)
    rho = rng.uniform(-0.8, 0.8)
    S = delta_study(rng, [g, h], ['x', 'y'], (n1 // 2, n2 // 2), B.tm.BivariateRandomWalk('a', s1, 'b', s2, 'r', rho), steps=2)
    p = S.posteriorSequence[1]
    X, Y = np.meshgrid(g, h, indexing='ij')
    mx, my = np.sum(p * X), np.sum(p * Y)
    rec.close('bivariate_correlation', [(mx - g[n1 // 2]) / l1, (my - h[n2 // 2]) / l2], [0., 0.], 'mean of the step', atol=1e-6)
    vx, vy = np.sum(p * (X - mx) ** 2), np.sum(p * (Y - my) ** 2)
    c = np.sum(p * (X - mx) * (Y - my)) / np.sqrt(vx * vy)
    rec.close('bivariate_correlation', [np.sqrt(vx) / s1, np.sqrt(vy) / s2], [1., 1.], 'standard deviations of the step', rtol=0.04)
    rec.close('bivariate_correlation', c, rho, 'correlation of the step', rtol=0., atol=0.04)
    u, v = s1 / l1, s2 / l2
    X, Y = np.meshgrid(np.arange(n1) - n1 // 2, np.arange(n2) - n2 // 2, indexing='ij')
    want = stats.multivariate_normal.pdf(np.dstack([X, Y]), [0., 0.], [[u ** 2, rho * u * v], [rho * u * v, v ** 2]])
    rec.close('bivariate_correlation', p, want, 'law of the step', rtol=0., atol=0.02 * np.max(want))
    rec.situation('biv', n1, n2, round(rho, 1))


@CHECK.gen(120, 2500)
def reused_object(rng, rec, i):
    """One transition model object used with other values, grids, targets and studies in turn."""
    kind = KINDS[i % len(KINDS)]
    first, _ = elementary(rng, kind, ndim=1 if kind == 'alpha' else None)
    tm = gen.build_tm(first.spec, first.om.names)
    S = None
    cur = first
    for r in range(3):
        s = cur
        s.data = np.full(len(s.data), np.nan)
        s.liks = s.om.liks(s.data)
        if S is None or chance(rng, 0.5):
            S = gen.make_study(rng, s.om, tm, s.data, s.ts)
        else:
            S.load(s.data, timestamps=s.ts, silent=True)
            S.set(s.om.build(), silent=True)
        fit(rng, S, forwardOnly=True)
        t = tols(s)

        def compare(active):
            loge, norms, filt = ref.filtering(s.spec, s.liks, s.tsf, s.om.ctx(active))
            if filt is None:
                rec.check('shifted_out', S.logEvidence == -np.inf, lambda: 'nothing left, log-evidence %r' % S.logEvidence)
                return
            rec.close('reused_object', S.posteriorSequence, filt, '%s, use %d %s' % (kind, r, describe(s)), **t)
        match(rec, 'reused', compare, s.flags, stable_fit(s))
        # next: same transition model with another grid (same parameter names)
        nxt, _ = elementary(rng, kind, ndim=len(first.om.shape))
        nxt.om.names = list(first.om.names)
        if len(nxt.om.names) != len(nxt.om.shape):
            break
        nxt.spec = dict(first.spec)
        if kind in ('cp',):
            nxt.spec['v'] = first.spec['v']
        if kind == 'grw' and first.spec['v'][0] / ref.lattice_constant(nxt.om.grids[first.spec['ax']]) > 300:
            break
        if kind == 'biv' and max(first.spec['v'][j] / ref.lattice_constant(nxt.om.grids[j]) for j in range(2)) > 40:
            break
        if kind == 'biv' and min(first.spec['v'][j] / ref.lattice_constant(nxt.om.grids[j]) for j in range(2)) < 0.05:
            break
        nxt.flags = gen.known_flags(nxt.spec)
        cur = nxt
    rec.situation('reused', kind, first.om.shape)


@CHECK.gen(1, 1)
def known_change_point_scale(rng, rec, i):
    """Deterministic trigger of K1: probability is not conserved at a change-point."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['none'], irregular=0.)
    s = scenario(rng, om=om, T=6, ts_kinds=('none',), spec={'k': 'cp', 'n': ['tc'], 'v': [2], 'pr': [None]}, missing=0.)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S, forwardOnly=True)
    check_filter(rec, S, s, False)
