"""C07: combined and serial transition models act as documented compositions."""
import copy

import numpy as np

import gen
import ref
from common import *
from engine import Check
from gen import pick, chance

CHECK = Check('C07', 'distinct (structure of nested transition models, break times relative to the data, time stamps, fit mode) combinations compared',
              ['reference compositions are right', 'combined models apply their parts in listed order in both directions (pinned by the test suite)'])
CHECK.required = ['serial_filter_distributions', 'serial_smooth_distributions', 'nested_filter_distributions', 'nested_smooth_distributions',
                  'combined_filter_distributions', 'combined_smooth_distributions', 'neutral_parts', 'hyper_parameter_values', 'offset',
                  'order_matters', 'break_time', 'change_resets']


def run(rng, rec, s, mon):
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    mode = pick(rng, ['forward', 'complete'])
    fit(rng, S, forwardOnly=mode == 'forward')
    if mode == 'forward':
        check_filter(rec, S, s, False, mon=mon + '_filter')
    else:
        check_smooth(rec, S, s, mon=mon + '_smooth')
    for n, v, _ in ref.flat(s.spec):
        rec.check('hyper_parameter_values', S.getHyperParameterValue(n) == v, lambda: 'hyper-parameter %s is %r, expected %r' % (n, S.getHyperParameterValue(n), v))
    rec.situation(mon, gen.describe(s.spec), s.om.shape, mode, 'ts' if s.ts is None else str(s.ts[:2]))
    return S


def move_breaks(rng, s):
    """Also put break times between, before and behind the time stamps of the data."""
    def rec(sp):
        for m in sp.get('m', []):
            rec(m)
        if sp['k'] == 'serial' and chance(rng, 0.5):
            lo, hi = int(np.floor(s.tsf[0])) - 3, int(np.ceil(s.tsf[-1])) + 4
            t = sorted(rng.choice(np.arange(lo, hi + 1), size=len(sp['b']), replace=False).tolist())
            for b, v in zip(sp['b'], t):
                b['v'] = [pick(rng, [v, float(v)])]
    rec(s.spec)


@CHECK.gen(450, 9000)
def serial(rng, rec, i):
    s = scenario(rng, serial=True, depth=1, T=int(rng.integers(2, 14)))
    move_breaks(rng, s)
    run(rng, rec, s, 'serial')


@CHECK.gen(300, 6000)
def nested(rng, rec, i):
    s = scenario(rng, depth=pick(rng, [2, 2, 3]), composite=1., T=int(rng.integers(3, 12)), om_kinds=gen.CHEAP)
    move_breaks(rng, s)
    run(rng, rec, s, 'nested')


@CHECK.gen(300, 6000)
def combined(rng, rec, i):
    s = scenario(rng, spec=lambda g: {'k': 'comb', 'm': [g.elementary() for _ in range(int(rng.integers(1, 5)))]})
    run(rng, rec, s, 'combined')


def both(rng, rec, s, other, mon, msg):
    """Two transition models that must give the same results."""
    out = []
    mode = pick(rng, ['forward', 'complete'])
    for sp in (s.spec, other):
        S = gen.make_study(rng, s.om, gen.build_tm(sp, s.om.names), s.data, s.ts)
        fit(rng, S, forwardOnly=mode == 'forward')
        out.append((S.logEvidence, S.posteriorSequence, S.posteriorMeanValues))
    a, b = out
    if not np.isfinite(a[0]):
        rec.check(mon, a[0] == b[0], 'impossible data')
        return
    try:
        rec.close(mon, b[0], a[0], 'evidence: ' + msg, rtol=1e-9, atol=1e-8)
        rec.close(mon, b[1], a[1], 'distributions: ' + msg, rtol=1e-6, atol=1e-9)
        rec.close(mon, b[2], a[2], 'means: ' + msg, rtol=1e-6, atol=1e-8 * (1 + max(np.max(np.abs(g)) for g in s.om.grids)))
    except Exception:
        if stable_fit(s)():
            raise
        rec.count('ill_conditioned_input_not_judged')


@CHECK.gen(300, 6000)
def neutral_parts(rng, rec, i):
    """Single parts, parts without effect, and breaks between identical dynamics change nothing compared to the bare model."""
    s = scenario(rng, depth=pick(rng, [0, 0, 1]), T=int(rng.integers(2, 10)), om_kinds=None if chance(rng, 0.3) else gen.CHEAP)
    g = s.g
    lo, hi = int(np.floor(s.tsf[0])) - 2, int(np.ceil(s.tsf[-1])) + 3
    x = s.spec

    def renamed(sp):
        sp = copy.deepcopy({k: v for k, v in sp.items()})
        def r(q):
            for m in q.get('m', []):
                r(m)
            if 'n' in q:
                q['n'] = [g.name() for _ in q['n']]
            for b in q.get('b', []):
                b['n'] = [g.name()]
        r(sp)
        return sp

    def neutral():
        k = pick(rng, ['static', 'grw0', 'cpout', 'det0'])
        if k == 'static':
            return {'k': 'static'}
        if k == 'grw0':
            return {'k': 'grw', 'n': [g.name()], 'v': [pick(rng, [0., 0])], 'pr': [None], 'ax': int(rng.integers(len(s.om.grids)))}
        if k == 'cpout':
            return {'k': 'cp', 'n': [g.name()], 'v': [pick(rng, [lo, hi])], 'pr': [None]}
        return {'k': 'comb', 'm': [{'k': 'static'}]}
    bare = lambda m: {'k': 'comb', 'm': [m]} if m['k'] == 'cp' else m
    opts = ['single', 'with', 'nest']
    if 'det' not in ref.kinds(x):
        opts += ['break', 'break2']
    o = pick(rng, opts)
    if o == 'single':
        other = {'k': 'comb', 'm': [x]}
    elif o == 'nest':
        other = {'k': 'comb', 'm': [{'k': 'comb', 'm': [x]}, {'k': 'comb', 'm': [neutral()]}]}
    elif o == 'with':
        other = {'k': 'comb', 'm': [neutral(), x] if chance(rng, 0.5) else [x, neutral()]}
    elif o == 'break':
        other = {'k': 'serial', 'm': [bare(x), bare(renamed(x))], 'b': [{'k': 'break', 'n': [g.name()], 'v': [pick(rng, s.tsf)], 'pr': [None]}]}
    else:
        other = {'k': 'serial', 'm': [bare(renamed(x)), bare(x), bare(renamed(x))],
                 'b': [{'k': pick(rng, ['break', 'change']), 'n': [g.name()], 'v': [lo], 'pr': [None]},
                       {'k': pick(rng, ['break', 'change']), 'n': [g.name()], 'v': [hi], 'pr': [None]}]}
    both(rng, rec, s, other, 'neutral_parts', '%s vs %s %s' % (gen.describe(s.spec), gen.describe(other), describe(s)))
    rec.situation('neutral', o, gen.describe(s.spec), s.om.shape)


@CHECK.gen(80, 1500)
def offset(rng, rec, i):
    """Deterministic parts count their time from the last break, and from zero before the first one; also inside combined models."""
    B = gen.bl()
    n = int(rng.integers(121, 160))
    lc = 10. ** rng.uniform(-2, 2)
    g = lc * (np.arange(n) - n // 2)
    T = int(rng.integers(6, 11))
    off = int(rng.integers(-3, 50)) if chance(rng, 0.5) else 0
    ts = np.arange(T) + off
    tb = sorted(rng.choice(ts[1:-1], size=2, replace=False).tolist())
    f = [lambda t: 0.08 * lc * t ** 2, lambda t: 2.5 * lc * np.sin(t), lambda t: -1.5 * lc * (t % 4)]
    order = rng.permutation(3)
    f = [f[k] for k in order]
    if off:
        f = [(lambda h: (lambda t: h(t)))(h) for h in f]
    fs = [lambda t, a=1.: a * f[0](t), lambda t, b=1.: b * f[1](t), lambda t, c=1.: c * f[2](t)]
    tms = [B.tm.Deterministic(h, target='x') for h in fs]
    if chance(rng, 0.5):
        tms = [B.tm.CombinedTransitionModel(m, B.tm.Static()) if chance(rng, 0.5) else B.tm.CombinedTransitionModel(B.tm.Static(), m) for m in tms]
    tm = B.tm.SerialTransitionModel(tms[0], B.tm.BreakPoint('t1', tb[0]), tms[1], B.tm.BreakPoint('t2', tb[1]), tms[2])
    if chance(rng, 0.3):
        tm = B.tm.CombinedTransitionModel(tm)
    peak = np.exp(-0.5 * ((np.arange(n) - n // 2) / 4.) ** 2)
    d = np.full(T, np.nan)
    back = chance(rng, 0.5)
    if back:
        d[-1] = 0.
    om = B.om.NumPy(lambda data, x: peak + 1e-12, 'x', g, prior=None if back else peak)
    S = B.Study(silent=True)
    S.load(d, timestamps=ts, silent=True)
    S.set(om, tm, silent=True)
    S.fit(forwardOnly=not back, silent=True)
    pos = np.zeros(T)
    for k in range(1, T):
        t = ts[k - 1]
        j = 0 if t < tb[0] else (1 if t < tb[1] else 2)
        o = [0, tb[0], tb[1]][j]
        pos[k] = pos[k - 1] + f[j](t + 1 - o) - f[j](t - o)
    if back:
        pos = pos - pos[-1]
    if np.max(np.abs(pos)) / lc > n / 2 - 20:
        return
    rec.close('offset', S.getParameterMeanValues('x') / lc, pos / lc, 'mean follows the functions of the segments', rtol=1e-3, atol=0.05)
    rec.situation('offset', T, off, tb, order.tolist(), back)


@CHECK.gen(60, 1000)
def order_matters(rng, rec, i):
    """Combined parts act in the order in which they were given (forward)."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    lc = ref.lattice_constant(om.grids[0])
    parts = [lambda g: {'k': 'grw', 'n': [g.name()], 'v': [lc * rng.uniform(0.7, 2.)], 'pr': [None], 'ax': 0},
             lambda g: {'k': 'regime', 'n': [g.name()], 'v': [np.log10(1. / lc / om.shape[0]) - 0.1], 'pr': [None]},
             lambda g: {'k': 'noteq', 'n': [g.name()], 'v': [np.log10(1. / lc / om.shape[0]) - 1.], 'pr': [None]}]
    idx = rng.permutation(3)[:int(rng.integers(2, 4))]
    s = scenario(rng, om=om, spec=lambda g: {'k': 'comb', 'm': [parts[k](g) for k in idx]}, missing=0.3)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S, forwardOnly=True)
    check_filter(rec, S, s, False, mon='order')
    rec.count('order_matters')
    rec.situation('order', gen.describe(s.spec), s.om.shape)


@CHECK.gen(120, 2500)
def break_time(rng, rec, i):
    """A break at time stamp t: transitions up to and including the one arriving at t belong to the part before it, later ones to the
    part behind; a change-point in addition forgets everything up to and including t."""
    B = gen.bl()
    n = int(rng.integers(5, 12))
    T = int(rng.integers(4, 10))
    ts = gen.gen_timestamps(rng, T, ('none', 'offset', 'gaps', 'neg'))
    tsf = np.arange(T) if ts is None else np.asarray(ts)
    k = int(rng.integers(0, T - 1))
    change = chance(rng, 0.5)
    prior = rng.random(n) + 0.1
    table = rng.random((T, n)) + 0.1
    om = B.om.NumPy(lambda data, x: table[int(data)], 'x', np.arange(n) * 1., prior=prior)
    cls = B.tm.ChangePoint if change else B.tm.BreakPoint
    tm = B.tm.SerialTransitionModel(B.tm.Static(), cls('tb', tsf[k]), B.tm.Independent())
    S = B.Study(silent=True)
    S.load(np.arange(T) * 1., timestamps=ts, silent=True)
    S.set(om, tm, silent=True)
    S.fit(forwardOnly=True, silent=True)
    pr = prior / prior.sum()
    p = pr.copy()
    for j in range(T):
        a = p * table[j]
        a /= a.sum()
        rec.close('break_time', S.posteriorSequence[j], a, 'time step %d, break behind time step %d' % (j, k))
        p = a if tsf[j] < tsf[k] else pr
    # the other way round: memory only after the break
    tm = B.tm.SerialTransitionModel(B.tm.Independent(), cls('tb', tsf[k]), B.tm.Static())
    S.setTM(tm, silent=True)
    S.fit(forwardOnly=True, silent=True)
    p = pr.copy()
    for j in range(T):
        a = p * table[j]
        a /= a.sum()
        rec.close('break_time', S.posteriorSequence[j], a, 'time step %d, break behind time step %d' % (j, k))
        p = pr if tsf[j] < tsf[k] or (change and tsf[j] == tsf[k]) else a
    # change-point between static parts: independent analyses of both segments
    tm = B.tm.SerialTransitionModel(B.tm.Static(), B.tm.ChangePoint('tb', tsf[k]), B.tm.Static())
    S.setTM(tm, silent=True)
    S.fit(forwardOnly=True, silent=True)
    p = pr.copy()
    for j in range(T):
        a = p * table[j]
        a /= a.sum()
        rec.close('change_resets', S.posteriorSequence[j], a, 'time step %d, change-point behind time step %d' % (j, k))
        p = pr if tsf[j] == tsf[k] else a
    rec.situation('break', T, k, change, 'none' if ts is None else (tsf[1] - tsf[0]))


@CHECK.gen(1, 1)
def known(rng, rec, i):
    """Deterministic triggers of K1 and K5."""
    om = gen.gen_om(rng, kinds=['table1'], prior_kinds=['array'], irregular=0.)
    spec = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}], 'b': [{'k': 'change', 'n': ['tc'], 'v': [2], 'pr': [None]}]}
    s = scenario(rng, om=om, T=6, ts_kinds=('none',), spec=spec, missing=0.)
    S = gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts)
    fit(rng, S)
    check_smooth(rec, S, s)
