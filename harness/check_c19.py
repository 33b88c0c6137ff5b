"""C19: probability queries over parameters and hyper-parameters are computed exactly."""
import ast
import itertools
import operator

import numpy as np
import scipy.special as sp

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C19', 'distinct (studies, query, time specification) combinations; results compared with direct enumeration of the joint grid of all independent groups of variables',
              ['distributions of the studies are those observed through their public results (checked by C01-C13)', 'joint grids of up to 200000 points'])
CHECK.required = ['compound_of_compounds', 'probability', 'tie_probability', 'distribution_total', 'distribution_values', 'distribution_probabilities', 'same_via_study', 'refused', 'several_studies', 'several_times', 'hyper_parameters',
                  'online', 'online_current', 'change_points', 'functions', 'global_time', 'at_time', 'joint_parameters', 'complement', 'precedence', 'known_compound', 'duplicates', 'malformed', 'tail', 'small_probability']
FUNCS = {'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'abs': np.abs, 'sin': np.sin, 'square': np.square, 'tanh': np.tanh, 'expit': sp.expit, 'erf': sp.erf, 'floor': np.floor, 'sign': np.sign}
OPS = {'>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le, '==': operator.eq}


TINY = 1e-15      # absolute error of a probability computed in double precision


class Var(object):
    """A variable of a query: text, group of jointly distributed variables, values on the support of the group."""

    def __init__(self, text, group, values):
        self.text, self.group, self.values = text, group, np.ravel(np.asarray(values, float))


class World(object):
    """Studies, groups (id -> probabilities) and available variables."""

    def __init__(self):
        self.studies, self.groups, self.vars = [], {}, []
        self.t = None

    def parser(self):
        return bl().Parser(*self.studies)


PNAMES = [['aa', 'bb', 'cc'], ['mu', 'mu2', 'm'], ['rate', 'rate_x', 'xrate'], ['gamma', 'beta', 'delta'], ['x', 'y', 'z'], ['u1', 'u2', 'u3'],
          ['beta0', 'beta1', 'gamma0'], ['sinaa', 'sina', 'absolute_x'], ['i0', 'sinc', 'e1'], ['log_rate', 'logrates', 'ex'], ['sqrt2', 'expo', 'pi2']]
KINDS = {1: ['bernoulli', 'poisson', 'gmean', 'white', 'np1', 'table1'], 2: ['gaussian', 'laplace', 'np2', 'table2'], 3: ['np3']}


def add_study(rng, W, names, prefix, kind, tmode, rec, dyadic=False):
    """tmode: 'at' (times given by @) or a global time stamp index."""
    kw = dict(om_kinds=KINDS)
    om = None
    if dyadic:
        om = dyadic_om(rng, names)
    else:
        om = gen.gen_om(rng, ndim=pick(rng, [1, 1, 2]), kinds=KINDS, names=names, size=pick(rng, ['tiny', 'small']))
    if int(np.prod(om.shape)) > 120:
        raise Skip('grid too large')
    T = W.T
    k = W.k
    B = bl()
    if kind == 'online':
        c = online_case(rng, om=om, T=T + om.seg - 1, hi=6, depth=0, prior=False, nmodels=pick(rng, [1, 2]), history=W.history, multidim=False, hyper_prior_kinds=['none', 'array'])
        rename(c.specs, prefix)
        c.single = False
        S = c.build(rng)
        for x in c.s.data:
            S.step(c.point(x))
    else:
        for _ in range(50):
            s = scenario(rng, om=om, T=T, depth=0 if kind == 'study' else 1, hyper=kind != 'study', max_values=3, ts_kinds=(W.tsk,), multidim=False, spec=(lambda g: cp_spec(rng, g, npoints=pick(rng, [1, 2]), max_values=4)) if kind == 'cp' else None)
            n = n_combos(s.spec, s.tsf)
            if n > 14 or (kind == 'hyper' and points_collide(s.spec, s.tsf)):
                continue
            if kind == 'cp' and (not serial_first_values_ok(s.spec, s.tsf) or not any(cp_mask(s.spec)(q) for q in ref.hyper_grid(s.spec, s.tsf)[0])):
                continue
            break
        else:
            raise Skip('no scenario')
        rename([s.spec], prefix)
        c = Case(kind, s)
        S = c.build(rng)
        fit_mode(rng, S, pick(rng, ['complete', 'forward']))
    if not np.isfinite(S.logEvidence):
        raise Skip('impossible data')
    W.studies.append(S)
    sid = len(W.studies) - 1
    tsf = list(S.formattedTimestamps)
    mesh = np.meshgrid(*[np.asarray(g, float) for g in om.grids], indexing='ij')
    if kind == 'online' and not W.history:
        W.groups[sid, 'p', 'now'] = np.ravel(S.marginalizedPosterior)
        for n, m in zip(om.names, mesh):
            W.vars.append(Var(n, (sid, 'p', 'now'), m))
        rec.count('online_current')
    else:
        ks = range(len(tsf)) if W.t is None else [tsf.index(W.t)]
        for j in ks:
            g = (sid, 'p', j)
            W.groups[g] = np.ravel(S.posteriorSequence[j])
            for n, m in zip(om.names, mesh):
                W.vars.append(Var('%s@%s' % (n, num(tsf[j])) if W.t is None else n, g, m))
    if kind in ('hyper', 'cp'):
        combos = np.asarray(ref.hyper_grid(c.s.spec, c.s.tsf)[0], float)
        if len(ref.flat(c.s.spec)) and (len(combos) > 1 or kind == 'cp'):
            p = np.ravel(S.hyperParameterDistribution)
            W.groups[sid, 'h'] = p / p.sum()
            for a, (n, _, _) in enumerate(ref.flat(c.s.spec)):
                W.vars.append(Var(n, (sid, 'h'), combos[:, a]))
            rec.count('hyper_parameters')
            if kind == 'cp':
                rec.count('change_points')
    if kind == 'online':
        rec.count('online')
        for j, sp_ in enumerate(c.specs):
            if not ref.flat(sp_):
                continue
            combos = np.asarray(ref.hyper_grid(sp_, c.s.tsf)[0], float)
            if W.history:
                ks = range(len(tsf)) if W.t is None else [tsf.index(W.t)]
                for q in ks:
                    d = np.asarray(S.hyperParameterSequence[q][j], float)
                    if not d.sum() > 0:
                        continue
                    g = (sid, 'h%d' % j, q)
                    W.groups[g] = d / d.sum()
                    for a, (n, _, _) in enumerate(ref.flat(sp_)):
                        W.vars.append(Var('%s@%s' % (n, num(tsf[q])) if W.t is None else n, g, combos[:, a]))
            else:
                d = np.asarray(S.hyperParameterDistribution[j], float)
                if d.sum() > 0:
                    g = (sid, 'h%d' % j, 'now')
                    W.groups[g] = d / d.sum()
                    for a, (n, _, _) in enumerate(ref.flat(sp_)):
                        W.vars.append(Var(n, g, combos[:, a]))
            rec.count('hyper_parameters')
    return c


def num(t):
    return str(int(t)) if float(t) == int(t) else repr(float(t))


def rename(specs, prefix):
    def r(s):
        for m in s.get('m', []):
            r(m)
        if 'n' in s:
            s['n'] = [prefix + n for n in s['n']]
        for b in s.get('b', []):
            r(b)
    for s in specs:
        r(s)


def dyadic_om(rng, names):
    """Observation model on a grid of multiples of 1/4 (all sums and products of few values are exact)."""
    B = bl()
    nd = pick(rng, [1, 2])
    grids = [np.arange(int(rng.integers(3, 9))) * pick(rng, [0.25, 0.5, 1.]) + pick(rng, [-1., 0., 0.5]) for _ in range(nd)]
    names = list(names[:nd])
    fn = (lambda data, a: np.exp(-0.3 * (np.ravel(data)[0] - a) ** 2)) if nd == 1 else (lambda data, a, b: np.exp(-0.3 * (np.ravel(data)[0] - a) ** 2 - 0.1 * (b - a) ** 2))
    lik1 = (lambda s, a: np.exp(-0.3 * (s[0] - a) ** 2)) if nd == 1 else (lambda s, a, b: np.exp(-0.3 * (s[0] - a) ** 2 - 0.1 * (b - a) ** 2))
    prior = gen.gen_prior(rng, grids, kinds=['none'])
    return gen.OM('np%d' % nd, names, grids, grids, prior, lambda o: B.om.NumPy(fn, *[x for p in zip(names, grids) for x in p], prior=None), lik1,
                  lambda rng, m: rng.integers(-2, 4, m) * 0.5)


def world(rng, rec, dyadic=False, nstudies=None):
    W = World()
    W.T = int(rng.integers(2, 5))
    W.k = None
    W.tsk = pick(rng, ['none', 'none', 'seven', 'dyadic'] if not dyadic else ['none'])
    n = nstudies or pick(rng, [1, 1, 1, 2, 2, 3])
    kinds = [pick(rng, ['study', 'study', 'hyper', 'cp', 'online']) for _ in range(n)]
    W.history = True
    if 'online' in kinds:
        W.tsk = 'none'
        W.history = chance(rng, 0.6)
    at = chance(rng, 0.6)
    if not at and (W.history or 'online' not in kinds):
        i = int(rng.integers(0, W.T))
        W.t = {'none': i, 'seven': i + 7, 'dyadic': 10.5 + 0.25 * i}[W.tsk]
    names = [PNAMES[k] for k in rng.permutation(len(PNAMES))[:n]]
    for j, k in enumerate(kinds):
        add_study(rng, W, names[j], 'hq'[j % 2] * (j + 1) + '_', k, None, rec, dyadic)
    if n > 1:
        rec.count('several_studies')
    return W


# ------------------------------------------------------------------------------------------------- expressions
class Expr(object):
    """Text for the library and the same expression for Python (variables V0, V1, ...)."""

    def __init__(self, text, py, prec):
        self.text, self.py, self.prec = text, py, prec


def expression(rng, W, vars_, depth, dyadic=False):
    r = rng.random()
    sp_ = lambda: pick(rng, ['', '', ' '])
    if depth <= 0 or r < 0.25:
        if r < 0.18 or depth <= 0 and chance(rng, 0.75):
            i = pick(rng, vars_)
            return Expr(W.vars[i].text, 'V%d' % i, 9)
        v = pick(rng, ['0.5', '2', '1', '0.25', '3', '1.5', '4'] if dyadic else ['0.5', '2', '1.7', '3', '1e-1', '2.5E0', '10', '0.01'])
        return Expr(v, 'N("%s")' % v, 9)
    if r < 0.33:
        x = wrap(expression(rng, W, vars_, depth - 1, dyadic), 6, rng)
        s = pick(rng, ['-', '-', '+'])
        # a sign directly before a number belongs to the number
        return Expr('(%s%s)' % (s, x.text), '(%s%s)' % ('N("-1")*' if s == '-' else 'N("1")*', wrap(x, 7, rng).py), 9)
    if r < 0.47 and not dyadic:
        f = pick(rng, sorted(FUNCS))
        x = expression(rng, W, vars_, depth - 1)
        return Expr('%s(%s)' % (f, x.text), 'F["%s"](%s)' % (f, x.py), 9)
    if r < 0.55 and not dyadic:
        x = wrap(expression(rng, W, vars_, depth - 1), 9, rng)
        e = pick(rng, ['2', '3', '0.5', '-1', '2'])
        return Expr('%s%s^%s%s' % (x.text, sp_(), sp_(), e), '%s**N("%s")' % (x.py, e), 8)
    o = pick(rng, ['+', '-', '*', '*'] if dyadic else ['+', '-', '*', '/', '+', '*'])
    p = 4 if o in '+-' else 5
    a = wrap(expression(rng, W, vars_, depth - 1, dyadic), p, rng)
    b = wrap(expression(rng, W, vars_, depth - 1, dyadic), p + 1, rng)
    s = sp_()
    return Expr('%s%s%s%s%s' % (a.text, s, o, s, b.text), '%s%s%s' % (a.py, o, b.py), p)


def wrap(e, prec, rng):
    if e.prec < prec or chance(rng, 0.1):
        return Expr('(%s)' % e.text, '(%s)' % e.py, 9)
    return e


def groups_of(node, W):
    """(set of groups, pure single group?, compound known finding?) following the structure of the expression."""
    if isinstance(node, ast.Name):
        if node.id[0] == 'V' and node.id[1:].isdigit():
            g = W.vars[int(node.id[1:])].group
            return {g}, True, False
        return set(), True, False
    if isinstance(node, ast.BinOp):
        a, pa, ka = groups_of(node.left, W)
        b, pb, kb = groups_of(node.right, W)
        k = ka or kb
        if a and b:
            if pa and pb and a == b:
                return a, True, k
            return a | b, False, k or bool(a & b)
        return a | b, pa and pb, k
    if isinstance(node, ast.UnaryOp):
        return groups_of(node.operand, W)
    if isinstance(node, ast.Call):
        out = [groups_of(x, W) for x in node.args]
        return set().union(*[x[0] for x in out]), all(x[1] for x in out), any(x[2] for x in out)
    return set(), True, False


def enumerate_query(W, py, limit=200000):
    """Values of the expression and weights on the joint grid of all groups it contains."""
    tree = ast.parse(py, mode='eval').body
    gs, _, known = groups_of(tree, W)
    gs = sorted(gs, key=repr)
    if not gs:
        return None
    sizes = [len(W.groups[g]) for g in gs]
    if np.prod(sizes, dtype=float) > limit:
        return None
    used = [n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id[0] == 'V' and n.id[1:].isdigit()]
    env = {'N': lambda s: float(s), 'F': FUNCS}
    w = np.ones(sizes)
    for a, g in enumerate(gs):
        sh = [1] * len(gs)
        sh[a] = sizes[a]
        w = w * W.groups[g].reshape(sh)
        for u in set(used):
            if W.vars[int(u[1:])].group == g:
                env[u] = np.broadcast_to(W.vars[int(u[1:])].values.reshape(sh), sizes)
    with np.errstate(all='ignore'):
        v = eval(py, {'__builtins__': {}}, env)
    return np.broadcast_to(np.asarray(v, float), sizes).ravel(), w.ravel(), known, gs


def select(rng, W):
    """Variables used in one query."""
    k = min(len(W.vars), pick(rng, [1, 2, 2, 3]))
    if chance(rng, 0.5):
        g = pick(rng, sorted(W.groups, key=repr))
        same = [i for i, v in enumerate(W.vars) if v.group == g]
        if same:
            return same
    return [int(x) for x in rng.choice(len(W.vars), k, replace=False)]


def note(rec, W, gs, text):
    if len(gs) > 1:
        if len(set(g[0] for g in gs)) > 1:
            rec.count('several_studies')
        if len(set(g[2] for g in gs if len(g) > 2)) > 1:
            rec.count('several_times')
    rec.count('global_time' if W.t is not None else ('at_time' if '@' in text else 'no_time'))
    if any(f + '(' in text for f in FUNCS):
        rec.count('functions')


def ask(rng, W, q):
    P = bl().Parser(*W.studies)
    if chance(rng, 0.5):
        W.P = P = getattr(W, 'P', P)              # one parser answers several queries
    silent = chance(rng, 0.6)
    with np.errstate(all='ignore'):
        if W.t is not None:
            return P(q, t=W.t, silent=silent)
        return P(q, silent=silent)


def probability_case(rng, rec, W, dyadic):
    for _ in range(20):
        vs = select(rng, W)
        l = expression(rng, W, vs, pick(rng, [0, 1, 1, 2, 3]), dyadic)
        r = expression(rng, W, vs, pick(rng, [0, 0, 1]), dyadic)
        if chance(rng, 0.5):
            v = pick(rng, W.vars).values
            x = float(pick(rng, v))
            if dyadic or chance(rng, 0.5):
                r = Expr(repr(x), 'N("%r")' % x, 9)
        op = pick(rng, sorted(OPS))
        if op == '==' and not dyadic:
            op = '>'
        py = 'N("-1")*(%s)+%s' % (r.py, l.py)
        try:
            e = enumerate_query(W, py)
        except RecursionError:
            continue
        if e is None or e[2] or len(py) > 300:
            continue
        v, w, _, gs = e
        sp_ = pick(rng, [' ', ''])
        q = l.text + sp_ + op + sp_ + r.text
        return q, op, v, w, gs
    raise Skip('no query')


@CHECK.gen(420, 8400)
def relations(rng, rec, i):
    W = world(rng, rec)
    for _ in range(4):
        q, op, v, w, gs = probability_case(rng, rec, W, False)
        scale = 1e-9 * (1. + np.abs(v))
        fin = ~np.isnan(v)
        # values too close to the threshold are decided by rounding
        near = fin & (np.abs(v) < 1e-9 * max(1., np.nanmax(np.abs(np.where(np.isfinite(v), v, 0.)), initial=0.)))
        m = OPS[op](np.where(fin, v, 1.), 0.) & fin
        lo, hi = np.sum(w[m & ~near]), np.sum(w[m | near])
        got = ask(rng, W, q)
        rec.check('probability', np.ndim(got) == 0 and lo * (1. - 1e-8) - TINY <= float(got) <= hi * (1. + 1e-8) + TINY, lambda: 'P(%s), t=%s is %r, expected %r..%r' % (q, W.t, got, lo, hi))
        if len(W.studies) == 1:
            S = W.studies[0]
            with np.errstate(all='ignore'):
                rec.check('same_via_study', S.eval(q, t=W.t, silent=True) == got, 'query via study differs from parser')
        if any(len([x for x in W.vars if x.group == g and x.text in q]) > 1 for g in gs):
            rec.count('joint_parameters')
        note(rec, W, gs, q)
        rec.situation('relation', q, W.t, [type(S).__name__ for S in W.studies])


@CHECK.gen(200, 4000)
def ties(rng, rec, i):
    """Exactly representable values: equality and strict/non-strict relations are decided exactly."""
    W = world(rng, rec, dyadic=True, nstudies=pick(rng, [1, 1, 2]))
    # hyper-parameter values are not dyadic
    keep = [k for k, v in enumerate(W.vars) if np.all(v.values * 64 == np.round(v.values * 64)) and np.max(np.abs(v.values)) < 1e3]
    W2 = W.vars
    if not keep:
        return
    W.vars = [W2[k] for k in keep]
    for _ in range(5):
        q, op, v, w, gs = probability_case(rng, rec, W, True)
        want = np.sum(w[OPS[op](v, 0.)])
        got = ask(rng, W, q)
        rec.close('tie_probability', got, want, 'P(%s), t=%s' % (q, W.t), rtol=1e-8, atol=TINY)
        for o2, comp in (('>', '<='), ('<', '>='), ('>=', '<'), ('<=', '>')):
            if o2 == op and np.all(np.isfinite(v)):
                rec.close('complement', ask(rng, W, q.replace(op, comp)) + got, 1., 'P(%s) + P(complement)' % q, rtol=1e-8)
        note(rec, W, gs, q)
        rec.situation('tie', q, W.t)


@CHECK.gen(120, 2400)
def tails(rng, rec, i):
    """Small probabilities: variables of independent studies (or of one study) whose distributions hardly overlap."""
    B = bl()
    n = int(rng.integers(10, 90))
    g = np.linspace(0., 10., n)
    W = World()
    W.T, W.k, W.tsk, W.history = 1, None, 'none', True
    sets = [('aa', 2.), ('bb', pick(rng, [4., 6., 8.])), ('cc', 5.)][:pick(rng, [1, 2, 2, 3])]
    if len(sets) == 3:
        g = g[::4]
    if len(g) < 4:
        raise Skip('grid too small')
    width = pick(rng, [0.3, 0.6, 1., 1.5])
    for nm, x in sets:
        S = B.Study(silent=True)
        S.load(np.array([x, x]), silent=True)
        S.set(B.om.NumPy(lambda data, m: np.exp(-0.5 * ((data - m) / width) ** 2), nm, g, prior=None), B.tm.Static(), silent=True)
        S.fit(silent=True)
        W.groups[len(W.studies), 'p', 1] = np.ravel(S.posteriorSequence[1])
        W.vars.append(Var('%s@1' % nm, (len(W.studies), 'p', 1), g))
        W.studies.append(S)
    for _ in range(4):
        v = [int(k) for k in rng.permutation(len(sets))]
        c = round(float(rng.uniform(-3., 13.)), 3)
        t = [W.vars[k].text for k in v]
        form, py = pick(rng, [('{0} > %r' % c, 'V%d-%r' % (v[0], c)), ('{0} < %r' % c, '%r-V%d' % (c, v[0]))] if len(v) == 1 else
                        [('{0} > {1}', 'V%d-V%d' % (v[0], v[1])), ('{0} - {1} > %r' % c, 'V%d-V%d-%r' % (v[0], v[1], c)), ('{0} + {1} < %r' % c, '%r-V%d-V%d' % (c, v[0], v[1])),
                         ('2*{0} < {1} - %r' % abs(c), 'V%d-%r-2*V%d' % (v[1], abs(c), v[0]))] if len(v) == 2 else
                        [('{0} + {1} < {2}', 'V%d-V%d-V%d' % (v[2], v[0], v[1])), ('{0} > {1} + {2}', 'V%d-V%d-V%d' % (v[0], v[1], v[2]))])
        q = form.format(*t)
        val, w, known, gs = enumerate_query(W, py)
        near = np.abs(val) < 1e-9
        lo, hi = np.sum(w[(val > 0) & ~near]), np.sum(w[(val > 0) | near])
        got = ask(rng, W, q)
        rec.check('tail', np.ndim(got) == 0 and lo * (1. - 1e-8) - TINY <= float(got) <= hi * (1. + 1e-8) + TINY, lambda: 'P(%s) is %r, expected %r..%r' % (q, got, lo, hi))
        if 1e-14 < lo < 1e-6:
            rec.count('small_probability')
        rec.situation('tail', q, n, width)


@CHECK.gen(300, 6000)
def distributions(rng, rec, i):
    W = world(rng, rec, nstudies=pick(rng, [1, 1, 2]))
    for _ in range(2):
        for _ in range(20):
            vs = select(rng, W)
            x = expression(rng, W, vs, pick(rng, [0, 1, 1, 2]))
            py = 'N("1")*(%s)' % x.py
            e = enumerate_query(W, py, 20000)
            if e is not None and not e[2]:
                break
        else:
            raise Skip('no query')
        v, w, _, gs = e
        ok = np.isfinite(v)
        if not ok.any():
            continue
        lo, hi = v[ok].min(), v[ok].max()
        u = np.unique(v[ok])
        if len(u) > 1 and (hi - lo) / np.max(np.diff(u)) > 3000 or np.isinf(hi - lo) or (len(u) > 1 and hi - lo < 1e-9 * max(abs(hi), abs(lo))):
            continue
        bins, p = ask(rng, W, x.text)
        bins, p = np.asarray(bins, float), np.asarray(p, float)
        tot = np.sum(w[ok])
        rec.check('distribution_total', bins.shape == p.shape and bins.ndim == 1 and len(p) >= 1 and np.all(p >= 0) and abs(p.sum() - tot) < 1e-8,
                  lambda: 'distribution of %s (t=%s): total %r, expected %r' % (x.text, W.t, p.sum(), tot))
        n = len(bins)
        width = (hi - lo) / n
        s = 1e-9 * max(abs(lo), abs(hi), 1e-300)
        want = lo + width * (np.arange(n) + 0.5)
        rec.close('distribution_values', bins, want, 'binned values of %s (t=%s)' % (x.text, W.t), rtol=1e-7, atol=1e-7 * (hi - lo) + s)
        cum = np.cumsum(p)
        for k in range(n - 1):
            edge = lo + width * (k + 1)
            d = 1e-7 * width + s
            a, b = np.sum(w[ok][v[ok] < edge - d]), np.sum(w[ok][v[ok] <= edge + d])
            rec.check('distribution_probabilities', a - 1e-8 <= cum[k] <= b + 1e-8, lambda: 'P(%s < %r), t=%s: %r, expected %r..%r' % (x.text, edge, W.t, cum[k], a, b))
        note(rec, W, gs, x.text)
        rec.situation('distribution', x.text, W.t, n)


@CHECK.gen(40, 800)
def precedence(rng, rec, i):
    """Fixed forms, compared with the fully parenthesised query and with enumeration."""
    W = world(rng, rec, nstudies=1)
    vs = [k for k, v in enumerate(W.vars)]
    a = pick(rng, vs)
    g = W.vars[a].group
    b = pick(rng, [k for k in vs if W.vars[k].group == g])
    A, B_ = W.vars[a].text, W.vars[b].text
    x, y = W.vars[a].values, W.vars[b].values
    w = W.groups[g]
    th = float(np.median(x)) + 0.013
    with np.errstate(all='ignore'):
        forms = [('%s + %s * 2' % (A, B_), x + y * 2), ('%s - %s - 1' % (A, B_), x - y - 1), ('8 / 2 / 2 * %s' % A, 8 / 2 / 2 * x), ('-%s ^ 2' % A, -(x ** 2)), ('2 * %s ^ 2' % A, 2 * x ** 2), ('%s^2^0.5' % A, x ** (2. ** 0.5)),
                 ('2 - -%s' % A, 2 + x), ('(%s + %s) * 2' % (A, B_), (x + y) * 2), ('exp(%s) * 2' % A, np.exp(x) * 2), ('-(%s - %s)' % (A, B_), y - x), ('%s*%s - %s*2' % (A, B_, A), x * y - x * 2), ('+%s' % A, x),
                 ('-2^2*%s' % A, -4. * x), ('1 - %s*2 + 3' % A, 4. - x * 2), ('sqrt(square(%s))/2' % A, np.abs(x) / 2), ('10 - 4 - 3 + %s' % A, 3 + x), ('2^3^0*%s' % A, 2 * x), ('%s*-1' % A, -x), ('((%s))' % A, x), ('exp(-%s)' % A, np.exp(-x)),
                 ('2*(1 + (2 - %s))' % A, 2 * (3 - x)), ('%s-1' % A, x - 1), ('%s -1' % A, x - 1), ('%s +1e1' % A, x + 10), ('exp(%s)^2' % A, np.exp(x) ** 2), ('-exp(%s)^2' % A, -(np.exp(x) ** 2)), ('sin(%s) + exp(%s)' % (A, B_), np.sin(x) + np.exp(y))]
    for f, v in forms:
        op = pick(rng, ['>', '<', '>=', '<='])
        left = chance(rng, 0.6)
        q = '%s %s %r' % (f, op, th) if left else '%r %s %s' % (th, op, f)
        d = (v - th) if left else (th - v)
        near = np.abs(d) < 1e-9 * (1 + np.abs(v))
        m = OPS[op](d, 0.)
        got = ask(rng, W, q)
        rec.check('precedence', np.sum(w[m & ~near]) - 1e-8 <= got <= np.sum(w[m | near]) + 1e-8, lambda: 'P(%s), t=%s is %r, expected %r' % (q, W.t, got, np.sum(w[m])))
    rec.situation('precedence', A, B_, W.t, th)


@CHECK.gen(60, 1200)
def balanced(rng, rec, i):
    """Compounds of compounds: every variable occurs once, all are independent (time steps of one study, or several studies)."""
    B = bl()
    n = int(rng.integers(2, 5))
    T = int(rng.integers(2, 5))
    studies, terms = [], []
    for k in range(pick(rng, [1, 2])):
        g = np.sort(rng.choice(np.arange(1, 12), n, replace=False)) * 0.5
        g = np.linspace(g[0], g[0] + n * 0.5, n)
        S = B.Study(silent=True)
        S.load(rng.integers(0, 6, T), silent=True)
        S.set(B.om.Poisson('xy'[k], g), pick(rng, [B.tm.RegimeSwitch('p%d' % k, -1), B.tm.GaussianRandomWalk('s%d' % k, 0.4, target='xy'[k])]), silent=True)
        S.fit(silent=True)
        studies.append(S)
        terms += [('%s@%d' % ('xy'[k], t), g, S.getPD(t, 'xy'[k], density=False)[1]) for t in range(T)]
    m = pick(rng, [3, 4, 4, 4, 5])
    if len(terms) < m or n ** m > 1100:
        m = min(len(terms), 4)
    terms = [terms[int(j)] for j in rng.permutation(len(terms))[:m]]
    grids = np.meshgrid(*[t[1] for t in terms], indexing='ij')
    w = np.ones(())
    for t in terms:
        w = np.multiply.outer(w, t[2])
    ops = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide}

    def tree(lo, hi):
        if hi - lo == 1:
            return terms[lo][0], grids[lo]
        mid = (lo + hi) // 2 if chance(rng, 0.7) else int(rng.integers(lo + 1, hi))
        (qa, a), (qb, b) = tree(lo, mid), tree(mid, hi)
        o = pick(rng, list(ops))
        r = ops[o](a, b)
        q = '(%s %s %s)' % (qa, o, qb)
        if chance(rng, 0.2):
            q, r = '(2*%s)' % q, 2 * r
        return q, r
    q, v = tree(0, m)
    ok = np.isfinite(v)
    if not ok.all():
        raise Skip('undefined values')
    th = float(np.round(pick(rng, list(v.ravel())), 3)) + 0.000513
    P = B.Parser(*studies)
    rel = pick(rng, ['<', '>', '<=', '>='])
    near = np.abs(v - th) < 1e-9 * max(1., np.max(np.abs(v)))
    mk = OPS[rel](v, th)
    got = P('%s %s %r' % (q, rel, th), silent=True)
    rec.check('compound_of_compounds', np.ndim(got) == 0 and np.sum(w[mk & ~near]) * (1 - 1e-8) - TINY <= got <= np.sum(w[mk | near]) * (1 + 1e-8) + TINY,
              lambda: 'P(%s %s %r) is %r, expected %r (%d values per variable)' % (q, rel, th, got, np.sum(w[mk]), n))
    rec.situation('balanced', q, rel, n, len(studies))


@CHECK.gen(24, 480)
def online_without_time(rng, rec, i):
    """Hyper-parameters of an online study with stored history have a distribution per time step: queries without time step are refused."""
    from bayesloop.exceptions import ConfigurationError
    B = bl()
    n = int(rng.integers(2, 6))
    T = pick(rng, [n, n, n + 1, max(1, n - 1), 1])
    S = B.OnlineStudy(storeHistory=True, silent=True)
    S.set(B.om.Poisson('rate', np.linspace(0.5, 6., 8)), silent=True)
    v = np.linspace(0.1, 0.9, n)
    if chance(rng, 0.5):
        S.add('drift', B.tm.GaussianRandomWalk('hs', v, target='rate'))
    else:
        S.add('both', B.tm.CombinedTransitionModel(B.tm.GaussianRandomWalk('hs', v, target='rate'), B.tm.RegimeSwitch('hr', [-4, -2])))
    if chance(rng, 0.5):
        S.add('none', B.tm.Static())
    for x in rng.poisson(3., T):
        S.step(int(x))
    P = B.Parser(S)
    for q in ('hs > 0.2', '2*hs > 0.3', '0.2 < hs', 'hs*hs < 0.5', '1 - hs < 0.5', 'hs', '3*hs', 'hs*2', 'sqrt(hs)*1 > 0.2', 'rate@0 + hs > 1', 'hs + rate@0 > 1', 'hs@0 < hs', 'hs < hs@0'):
        rec.raises('refused', (ConfigurationError if 'sqrt' not in q else Exception), lambda: P(q, silent=True), 'query %r without time step (%d values, %d steps)' % (q, n, T))
    k = int(rng.integers(T))
    x, p = S.getHPD(k, 'hs')
    want = np.sum(np.asarray(p)[np.asarray(x) > 0.2])
    for got in (P('hs@%d > 0.2' % k, silent=True), P('hs > 0.2', t=k, silent=True)):
        rec.close('refused_usable', got, want, 'P(hs > 0.2) at %d' % k, rtol=1e-9, atol=1e-12)
    rec.situation('online_time', n, T)


@CHECK.gen(60, 1200)
def refusals(rng, rec, i):
    from bayesloop.exceptions import ConfigurationError
    B = bl()
    W = world(rng, rec)
    P = W.parser()
    S = W.studies[0]
    n = S.observationModel.parameterNames[0]
    online_now = isinstance(S, B.OnlineStudy) and not W.history
    ts = list(S.formattedTimestamps)
    if not online_now:
        for q in ('%s > 0' % n, '2*%s < 1' % n, '%s + 1' % n, '%s*%s > 1' % (n, n)):
            rec.raises('refused', ConfigurationError, lambda: P(q, silent=True), 'query %r without time step' % q)
        bad = num(ts[-1] + 5)
        rec.raises('refused', Exception, lambda: P('%s@%s > 0' % (n, bad), silent=True), 'unknown time step in query')
        rec.raises('refused', Exception, lambda: P('%s > 0' % n, t=ts[-1] + 5, silent=True), 'unknown time step')
    else:
        rec.raises('refused', Exception, lambda: P('%s > 0' % n, t=ts[-1] if W.history else ts[0], silent=True), 'history not stored')
    t = None if online_now else ts[0]
    for q in ('nosuchname > 1', '%s > 1 > 0' % n, '%s > ' % n, '> 1', '', '%s + > 1' % n, '(%s > 1' % n, '%s %s > 1' % (n, n), '%s foo > 1' % n, '%s => 1' % n, 'nosuch(%s) > 1' % n, '%s = 1' % n, '%s 2 > 1' % n):
        rec.raises('malformed', Exception, lambda: P(q, t=t, silent=True), 'malformed query %r' % q)
    rec.raises('refused', ConfigurationError, lambda: B.Parser(), 'no study')
    rec.raises('duplicates', ConfigurationError, lambda: B.Parser(S, S), 'duplicate names')
    rec.situation('refusal', n, W.t, len(W.studies))


@CHECK.gen(4, 20)
def known_compound(rng, rec, i):
    """K6: a variable used again after a compound of several groups is treated as an independent copy."""
    W = World()
    W.T, W.tsk, W.history, W.k = 3, 'none', True, None
    rng2 = rng
    om_names = ['aa', 'bb', 'cc']
    c = add_study(rng2, W, om_names, 'h_', 'study', None, rec, dyadic=True)
    S = W.studies[0]
    n = c.s.om.names[0]
    v = [x for x in W.vars if x.text.startswith(n + '@')]
    g1, g2 = v[0].group, v[1].group
    x1, x2 = v[0].values, v[1].values
    p1, p2 = W.groups[g1], W.groups[g2]
    q = '%s*%s > %s' % (v[0].text, v[1].text, v[0].text)
    got = S.eval(q, silent=True)
    right = sum(p1[a] * p2[b] for a in range(len(x1)) for b in range(len(x2)) if x1[a] * x2[b] > x1[a])
    # evaluation of -1*(a1) + a1*a2: the compound is independent of the first term
    wrong = sum(p1[a] * p2[b] * p1[d] for a in range(len(x1)) for b in range(len(x2)) for d in range(len(x1)) if x1[a] * x2[b] > x1[d])
    rec.either('compound', lambda: rec.close('known_compound', got, right, 'P(%s)' % q, rtol=1e-8), lambda: rec.close('known_compound', got, wrong, 'P(%s)' % q, rtol=1e-8), 'K6')
