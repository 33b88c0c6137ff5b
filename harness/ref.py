"""Independent reference for the quantities the library is supposed to compute.

Written from the documentation (docs/, README, docstrings) as plain dense linear algebra: transition models are explicit
matrices/kernels, inference is a straightforward forward recursion in log-space, smoothing is the two-filter formula,
hyper-studies are explicit sums over all combinations. Nothing from bayesloop is imported.

Known findings (see known_findings.json) are switched on by flags, so that a monitor can decide whether an observed
deviation is exactly the listed one:
    K1  reset to the prior at a change-point is scaled by the lattice constants
    K5  serial change-point hands the (scaled) prior back in the backward pass
    K2  transition-model probabilities of an online study ignore the transition model prior
    K3  evidence of a transition model in an online study lacks the hyper-grid constants
"""
import copy
import itertools

import numpy as np
from scipy import ndimage
from scipy.special import logsumexp


# ------------------------------------------------------------------------------------------------- grids
def lattice_constant(v):
    v = np.asarray(v, dtype=float)
    d = np.diff(v)
    if len(d) == 0:
        return 1.
    if len(d) == 1 or np.max(np.abs(d - d[0])) <= 1e-6 * np.max(np.abs(d)):
        return abs(v[1] - v[0])
    return 1.


class Ctx(object):
    """Parameter grid plus prior of a study."""

    def __init__(self, grids, prior_density, flags=()):
        self.grids = [np.asarray(g, dtype=float) for g in grids]
        self.shape = tuple(len(g) for g in self.grids)
        self.lc = [lattice_constant(g) for g in self.grids]
        self.vol = float(np.prod(self.lc))
        self.mesh = np.meshgrid(*self.grids, indexing='ij')
        self.prior = np.asarray(prior_density, dtype=float)
        assert self.prior.shape == self.shape
        self.flags = frozenset(flags)
        self.noise = None      # generator: rounding errors are injected into every transition (conditioning test)

    def with_flags(self, flags):
        c = copy.copy(self)
        c.flags = frozenset(flags)
        return c

    def noisy(self, rng):
        c = copy.copy(self)
        c.noise = rng
        return c


# ------------------------------------------------------------------------------------------------- transition models
def _fold(i, n):
    """Index of the grid point seen at position i with mirrored boundaries (edge value is repeated)."""
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


_cache = {}


def grw_matrix(n, s):
    key = ('grw', n, round(s, 12))
    if key not in _cache:
        r = int(4. * s + 0.5)
        x = np.arange(-r, r + 1)
        w = np.exp(-0.5 * (x / s) ** 2)
        w /= w.sum()
        m = np.zeros((n, n))
        for i in range(n):
            for k, wk in zip(x, w):
                m[i, _fold(i + k, n)] += wk
        if len(_cache) > 400:
            _cache.clear()
        _cache[key] = m
    return _cache[key]


def alpha_matrix(n, c, alpha):
    key = ('alpha', n, round(c, 12), round(alpha, 12))
    if key not in _cache:
        h = int(3 * n / 2)
        q = np.arange(h + 1)
        f = np.exp(-np.abs(c * np.pi * q / h) ** alpha)
        w = np.full(h + 1, 2.)
        w[0] = w[-1] = 1.
        m = np.arange(n)
        k = (np.cos(np.pi * np.outer(m, q) / h) * (f * w)).sum(axis=1) / (2. * h)
        idx = np.abs(np.subtract.outer(m, m))
        if len(_cache) > 400:
            _cache.clear()
        _cache[key] = k[idx]
    return _cache[key]


def along(m, p, ax):
    return np.moveaxis(np.tensordot(m, p, axes=(1, ax)), 0, ax)


def conv2_zero(p, s1, s2, rho):
    r1, r2 = int(3 * np.ceil(s1)), int(3 * np.ceil(s2))
    a = np.arange(-r1, r1 + 1)[:, None]
    b = np.arange(-r2, r2 + 1)[None, :]
    q = (a / s1) ** 2 - 2. * rho * (a / s1) * (b / s2) + (b / s2) ** 2
    k = np.exp(-0.5 * q / (1. - rho ** 2))
    k /= k.sum()
    n1, n2 = p.shape
    out = np.zeros_like(p)
    for i, da in enumerate(range(-r1, r1 + 1)):
        if abs(da) >= n1:
            continue
        for j, db in enumerate(range(-r2, r2 + 1)):
            if abs(db) >= n2:
                continue
            src = p[max(0, -da):n1 - max(0, da), max(0, -db):n2 - max(0, db)]
            out[max(0, da):n1 + min(0, da), max(0, db):n2 + min(0, db)] += k[i, j] * src
    return out


def shift_dist(p, ax, d):
    coords = np.meshgrid(*[np.arange(k, dtype=float) for k in p.shape], indexing='ij')
    coords[ax] = coords[ax] - np.clip(d, -1e9, 1e9)      # beyond the range of integers: everything is out of the grid
    new = ndimage.map_coordinates(p, coords, order=3, mode='nearest')
    new = np.clip(new, 0., None)
    return new / new.sum()


DET = {
    'lin': (1, lambda t, a: a * t),
    'quad': (2, lambda t, a, b: a * t ** 2 + b * t),
    'sin': (2, lambda t, a, b: a * np.sin(b * t)),
    'exp': (2, lambda t, a, b: a * (1. - np.exp(-b * t))),
}
DET_SRC = {'lin': '{0}*t', 'quad': '{0}*t**2 + {1}*t', 'sin': '{0}*np.sin({1}*t)', 'exp': '{0}*(1. - np.exp(-{1}*t))'}


def floor_dist(p, limit):
    q = np.maximum(p, limit)
    return q / q.sum()


def _reset(ctx):
    p = ctx.prior / ctx.prior.sum()
    if 'K1' in ctx.flags:
        p = p * ctx.vol
    return p


def _jitter(spec, p, ctx):
    """Rounding errors of the size any correct implementation may show."""
    if ctx.noise is None or 'm' in spec:
        return p
    p = p * (1. + 4e-15 * (ctx.noise.random(p.shape) - 0.5))
    if spec['k'] in ('alpha', 'det'):      # FFT / splines: errors relative to the largest value
        p = np.clip(p + 1e-15 * np.max(p) * (ctx.noise.random(p.shape) - 0.5), 0., None)
    return p


def forward(spec, p, t, ctx, off=0):
    """Distribution at time stamp t -> prior of the following time step."""
    if ctx.noise is not None:
        p = _jitter(spec, p, ctx)
        q = _forward(spec, p, t, ctx, off)
        return _jitter(spec, q, ctx)
    return _forward(spec, p, t, ctx, off)


def _forward(spec, p, t, ctx, off=0):
    k = spec['k']
    if k == 'static':
        return p
    if k == 'grw':
        s = spec['v'][0] / ctx.lc[spec['ax']]
        return along(grw_matrix(p.shape[spec['ax']], float(s)), p, spec['ax']) if s > 0 else p
    if k == 'alpha':
        c = spec['v'][0] / ctx.lc[spec['ax']]
        q = along(alpha_matrix(p.shape[spec['ax']], float(c), float(spec['v'][1])), p, spec['ax'])
        q = np.clip(q, 0., None)
        return q / q.sum()
    if k == 'cp':
        return _reset(ctx) if t == spec['v'][0] else p
    if k == 'indep':
        return ctx.prior / ctx.prior.sum()
    if k == 'regime':
        return floor_dist(p, 10. ** spec['v'][0] * ctx.vol)
    if k == 'noteq':
        q = np.max(p) - p
        if q.sum() > 0:
            q = q / q.sum()
        return floor_dist(q, 10. ** spec['v'][0] * ctx.vol)
    if k == 'det':
        f = DET[spec['fn']][1]
        d = (f(t + 1 - off, *spec['v']) - f(t - off, *spec['v'])) / ctx.lc[spec['ax']]
        return shift_dist(p, spec['ax'], d)
    if k == 'biv':
        s1, s2, rho = spec['v']
        q = conv2_zero(p, s1 / ctx.lc[0], s2 / ctx.lc[1], rho)
        return q / q.sum()
    if k == 'comb':
        for m in spec['m']:
            p = forward(m, p, t, ctx, off)
        return p
    if k == 'serial':
        breaks = [b['v'][0] for b in spec['b']]
        idx = sum(1 for b in breaks if b <= t)
        q = forward(spec['m'][idx], p, t, ctx, breaks[idx - 1] if idx > 0 else 0)
        if any(b['k'] == 'change' and b['v'][0] == t for b in spec['b']):
            q = _reset(ctx)
        return q
    raise ValueError(k)


def backward(spec, b, t, ctx, off=0):
    """Message of the following time step -> message of the time step with time stamp t."""
    if ctx.noise is not None:
        b = _jitter(spec, b, ctx)
        q = _backward(spec, b, t, ctx, off)
        return _jitter(spec, q, ctx)
    return _backward(spec, b, t, ctx, off)


def _backward(spec, b, t, ctx, off=0):
    k = spec['k']
    if k in ('static', 'grw', 'alpha', 'regime', 'noteq', 'biv'):
        return forward(spec, b, t, ctx, off)
    if k == 'cp':
        return np.full(ctx.shape, 1. / np.prod(ctx.shape)) if t == spec['v'][0] else b
    if k == 'indep':
        return np.full(ctx.shape, 1. / np.prod(ctx.shape))
    if k == 'det':
        f = DET[spec['fn']][1]
        d = (f(t - off, *spec['v']) - f(t + 1 - off, *spec['v'])) / ctx.lc[spec['ax']]
        return shift_dist(b, spec['ax'], d)
    if k == 'comb':
        for m in spec['m']:
            b = backward(m, b, t, ctx, off)
        return b
    if k == 'serial':
        breaks = [x['v'][0] for x in spec['b']]
        idx = sum(1 for x in breaks if x <= t)
        q = backward(spec['m'][idx], b, t, ctx, breaks[idx - 1] if idx > 0 else 0)
        if any(x['k'] == 'change' and x['v'][0] == t for x in spec['b']):
            if 'K5' in ctx.flags:
                q = ctx.prior / ctx.prior.sum() * ctx.vol
            else:
                q = np.full(ctx.shape, 1. / np.prod(ctx.shape))
        return q
    raise ValueError(k)


# ------------------------------------------------------------------------------------------------- specs
def kinds(spec):
    out = [spec['k']]
    for m in spec.get('m', []):
        out += kinds(m)
    for b in spec.get('b', []):
        out.append(b['k'])
    return out


def flat(spec):
    """(name, value, prior) of all hyper-parameters in the order in which the library documents/returns them."""
    out = []
    for m in spec.get('m', []):
        out += flat(m)
    if spec['k'] == 'serial':
        for b in spec['b']:
            out.append((b['n'][0], b['v'][0], b['pr'][0]))
    elif 'n' in spec:
        out += list(zip(spec['n'], spec['v'], spec['pr']))
    return out


def with_values(spec, values):
    """Copy of spec with the given (flat) hyper-parameter values."""
    values = list(values)

    def rec(s):
        c = {k: v for k, v in s.items() if k not in ('m', 'b', 'v')}
        if 'm' in s:
            c['m'] = [rec(m) for m in s['m']]
        if 'v' in s and s['k'] != 'serial':
            c['v'] = [values.pop(0) for _ in s['v']]
        if 'b' in s:
            c['b'] = []
            for b in s['b']:
                nb = {k: v for k, v in b.items() if k != 'v'}
                nb['v'] = [values.pop(0)]
                c['b'].append(nb)
        return c
    r = rec(spec)
    assert not values
    return r


LINEAR = {'static', 'grw', 'cp', 'indep', 'comb', 'serial', 'break', 'change'}   # mass-conserving linear maps


def is_linear(spec):
    return set(kinds(spec)) <= LINEAR


# ------------------------------------------------------------------------------------------------- inference
class Impossible(Exception):
    pass


def filtering(spec, liks, ts, ctx):
    """Forward pass. Returns log-evidence, list of norms (first one includes the lattice volume) and filtered
    distributions; log-evidence is -inf and the rest None for impossible data."""
    p = ctx.prior
    loge = 0.
    norms, filt = [], []
    for i, (l, t) in enumerate(zip(liks, ts)):
        a = p * l
        n = a.sum()
        if not n > 0:
            return -np.inf, None, None
        a = a / n
        if i == 0:
            n = n * ctx.vol
        loge += np.log(n)
        norms.append(n)
        filt.append(a)
        p = forward(spec, a, t, ctx)
    return loge, np.array(norms), np.array(filt)


def smoothing(spec, liks, ts, ctx):
    loge, norms, filt = filtering(spec, liks, ts, ctx)
    if filt is None:
        return dict(loge=-np.inf, local=None, post=None, filt=None, norms=None)
    b = np.full(ctx.shape, 1. / np.prod(ctx.shape))
    post = [None] * len(filt)
    loc = np.zeros(len(filt))
    for i in range(len(filt) - 1, -1, -1):
        q = filt[i] * b
        if not q.sum() > 0:
            return dict(loge=-np.inf, local=None, post=None, filt=None, norms=None)
        q = q / q.sum()
        post[i] = q
        if np.all(liks[i] > 0):
            with np.errstate(all='ignore'):
                loc[i] = 1. / np.sum(q / liks[i])
        else:  # values that are only excluded by the current observation count for the other observations
            o = (forward(spec, filt[i - 1], ts[i - 1], ctx) if i > 0 else ctx.prior) * b
            loc[i] = np.sum(o * liks[i]) / np.sum(o)
        if i > 0:
            b = backward(spec, b * liks[i], ts[i - 1], ctx)
            b = b / b.sum()
    return dict(loge=loge, local=loc, post=np.array(post), filt=filt, norms=norms)


def means(post, ctx):
    return np.array([[np.sum(p * m) for p in post] for m in ctx.mesh])


def marginal(dist, ax):
    axes = tuple(k for k in range(dist.ndim) if k != ax)
    return dist.sum(axis=axes)


def matrix(spec, t, ctx):
    """Explicit matrix of a linear transition model (columns: old state, rows: new state)."""
    n = int(np.prod(ctx.shape))
    m = np.zeros((n, n))
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.
        m[:, j] = forward(spec, e.reshape(ctx.shape), t, ctx).ravel()
    return m


def enumerate_paths(spec, liks, ts, ctx):
    """Brute force: sum over all parameter paths (in log-space). Returns log-evidence and smoothed distributions."""
    n = int(np.prod(ctx.shape))
    T = len(liks)
    mats = [matrix(spec, t, ctx) for t in ts[:-1]]
    pr = (ctx.prior * ctx.vol).ravel()
    with np.errstate(divide='ignore'):
        pr, mats, ls = np.log(pr), [np.log(m) for m in mats], [np.log(l.ravel()) for l in liks]
    ws = []
    for path in itertools.product(range(n), repeat=T):
        w = pr[path[0]] + ls[0][path[0]]
        for i in range(1, T):
            if w == -np.inf:
                break
            w += mats[i - 1][path[i], path[i - 1]] + ls[i][path[i]]
        if w > -np.inf:
            ws.append((w, path))
    post = np.zeros((T, n))
    if not ws:
        return -np.inf, post.reshape((T,) + ctx.shape)
    top = max(w for w, _ in ws)
    for w, path in ws:
        for i, s in enumerate(path):
            post[i, s] += np.exp(w - top)
    tot = top + np.log(np.sum(post[0]))
    post = post / np.sum(post[0])
    return tot, post.reshape((T,) + ctx.shape)


# ------------------------------------------------------------------------------------------------- hyper-studies
def hyper_const(values):
    v = np.atleast_1d(np.asarray(values, dtype=float))
    if len(v) < 2:
        return 1.
    return lattice_constant(v)


def hyper_axis(value, prior, ts):
    """Grid values, prior density and grid constant of one hyper-parameter."""
    if isinstance(value, str):
        value = np.asarray(ts)[:-1]
    v = np.atleast_1d(np.asarray(value))
    c = hyper_const(v)
    if prior is None:
        m = np.ones(len(v)) / len(v) / c
    else:
        m = prior.density(v, c)
    return v, m, c


def hyper_grid(spec, ts):
    """All combinations (last hyper-parameter varies fastest), joint prior density, grid constants, axes."""
    axes = [hyper_axis(v, p, ts) for _, v, p in flat(spec)]
    combos = list(itertools.product(*[a[0] for a in axes]))
    prior = np.array([np.prod(x) for x in itertools.product(*[a[1] for a in axes])]) if axes else np.array([1.])
    consts = np.array([a[2] for a in axes])
    return combos, prior, consts, [a[0] for a in axes]


def hyper(spec, liks, ts, ctx, forward_only=False, mask=None, want_post=True):
    """Average model over all combinations of hyper-parameter values."""
    combos, prior, consts, axes = hyper_grid(spec, ts)
    keep = np.ones(len(combos), dtype=bool) if mask is None else np.array([mask(c) for c in combos])
    if mask is not None:
        prior = np.where(keep, prior, 0.) * prior.sum() / prior[keep].sum()
    vol = float(np.prod(consts)) if len(consts) else 1.
    if keep.sum() == 1:        # ordinary fit, there is nothing to weigh
        prior = np.where(keep, 1. / vol, 0.)
    logs = np.full(len(combos), -np.inf)
    posts, locs = [None] * len(combos), [None] * len(combos)
    for i, c in enumerate(combos):
        if not keep[i]:
            continue
        s = with_values(spec, c)
        if forward_only:
            le, norms, filt = filtering(s, liks, ts, ctx)
            logs[i], posts[i], locs[i] = le, filt, norms
        else:
            r = smoothing(s, liks, ts, ctx)
            logs[i], posts[i], locs[i] = r['loge'], r['post'], r['local']
    with np.errstate(divide='ignore'):
        lw = logs + np.log(prior * vol)
    loge = logsumexp(lw) if np.any(np.isfinite(lw)) else -np.inf
    if np.isneginf(loge):
        return dict(loge=-np.inf, combos=combos, axes=axes, consts=consts, prior=prior, logs=logs, mass=None, post=None,
                    keep=keep)
    mass = np.exp(lw - loge)
    post = 0.
    local = 0.
    for i in range(len(combos)):
        if posts[i] is not None:
            post = post + mass[i] * posts[i]
        if locs[i] is not None:
            local = local + prior[i] * vol * locs[i]
    return dict(loge=loge, combos=combos, axes=axes, consts=consts, prior=prior, logs=logs, mass=mass, post=post,
                local=local, keep=keep, posts=posts)


def joint_mass(mass, axes):
    return mass.reshape([len(a) for a in axes])


# ------------------------------------------------------------------------------------------------- online study
def online(specs, liks, ctx, flags, tm_prior=None, ts=None):
    """Results after every step. specs: list of transition model specs (with hyper-parameter arrays)."""
    K = len(specs)
    tmp = np.ones(K) / K if tm_prior is None else np.asarray(tm_prior, float) / np.sum(tm_prior)
    ts = list(range(len(liks))) if ts is None else ts
    hyp = []
    for s in specs:
        combos, prior, consts, axes = hyper_grid(s, ts)
        if not flat(s):
            combos = [()]
        vol = float(np.prod(consts)) if len(consts) else 1.
        hyp.append(dict(spec=[with_values(s, c) for c in combos], prior=prior, vol=vol, axes=axes, combos=combos,
                        post=[None] * len(combos), loge=np.zeros(len(combos)), old=0.))
    out = []
    for n, l in enumerate(liks):
        hl = np.zeros(K)
        loc = np.zeros(K)
        hpd, tmpost = [], []
        for i, h in enumerate(hyp):
            for j, s in enumerate(h['spec']):
                if np.isneginf(h['loge'][j]):
                    continue
                p = ctx.prior if n == 0 else forward(s, h['post'][j], ts[n - 1], ctx)
                a = p * l
                z = a.sum()
                if not z > 0:
                    h['loge'][j] = -np.inf
                    h['post'][j] = np.zeros(ctx.shape)
                    continue
                h['loge'][j] += np.log(z * (ctx.vol if n == 0 else 1.))
                h['post'][j] = a / z
            with np.errstate(divide='ignore'):
                lw = h['loge'] + np.log(h['prior'] * (1. if 'K3' in flags else h['vol']))
            hl[i] = logsumexp(lw) if np.any(np.isfinite(lw)) else -np.inf
            with np.errstate(invalid='ignore', divide='ignore'):
                loc[i] = hl[i] - h['old'] + np.log(tmp[i]) if np.isfinite(hl[i]) else -np.inf
            h['old'] = hl[i]
            if np.isfinite(hl[i]):
                m = np.exp(lw - hl[i])
                hpd.append(m)
                tmpost.append(sum(m[j] * h['post'][j] for j in range(len(m)) if m[j] > 0))
            else:
                hpd.append(np.zeros(len(lw)))
                tmpost.append(np.zeros(ctx.shape))
        with np.errstate(divide='ignore'):
            total = logsumexp(hl + np.log(tmp)) if np.any(np.isfinite(hl)) else -np.inf
            w = hl if 'K2' in flags else hl + np.log(tmp)
        if not np.any(np.isfinite(w)):
            out.append(None)
            continue
        tmd = np.exp(w - logsumexp(w))
        ltmd = np.exp(loc - logsumexp(loc))
        post = sum(tmd[i] * tmpost[i] for i in range(K))
        out.append(dict(loge=total, hl=hl.copy(), tmd=tmd, ltmd=ltmd, hpd=hpd, post=post, tmpost=tmpost,
                        loges=[h['loge'].copy() for h in hyp]))
    return out, hyp


def stable(fn, ctx, tol=1e-9, n=3):
    """Conditioning test: fn(ctx) -> list of arrays (None for impossible data). True if rounding errors injected into
    the reference change none of them noticeably."""
    def clean(r):
        return [None if x is None else np.asarray(x, dtype=float) for x in r]
    base = clean(fn(ctx))
    for k in range(n):
        other = clean(fn(ctx.noisy(np.random.default_rng(k + 1))))
        for a, b in zip(base, other):
            if (a is None) != (b is None):
                return False
            if a is not None and not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
                return False
    return True
