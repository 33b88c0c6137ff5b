"""C24: every data segment keeps its own time stamp and is used exactly once."""
import math

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *
from windows import recording_class, window_model

CHECK = Check('C24', 'distinct (study type, window length, data layout, kind of time stamps, fit mode) combinations with recorded likelihood evaluations',
              ['likelihood evaluations are recorded at the pdf method of a user-defined observation model; how often a window is evaluated is not judged, only what is used'])
CHECK.required = ['log_known_window', 'log_complete', 'influence', 'no_influence', 'evidence_product', 'stamps', 'by_time', 'mismatch', 'all_points', 'point_location', 'point_future', 'reload', 'list_data', 'online_stamps', 'online_windows',
                  'too_short', 'example_data', 'window_1', 'window_2', 'window_3', 'window_4', 'columns', 'missing_window', 'type_study', 'type_hyper', 'type_cp', 'type_online', 'model_switch', 'parser_time', 'plot_times', 'duplicates',
                  'deterministic_time', 'mean_by_time', 'long_series']


def distinct_data(rng, T, dims=1):
    """All values different, so that every recorded value identifies its data point."""
    v = np.round(rng.permutation(T * dims) * 0.37 + rng.normal() * 0.1 - 1., 6)
    return v if dims == 1 else v.reshape(T, dims)


def windows(data, n, multiply):
    out = []
    for i in range(len(data) - n + 1):
        seg = data[i:i + n]
        if data.ndim == 2 and multiply:
            out.append([tuple(np.ravel(seg[:, c])) for c in range(data.shape[1])])
        else:
            out.append([tuple(np.ravel(seg))])
    return out


def judge_log(rec, log, data, n, multiply, mon='log'):
    """Every evaluated segment is a window of the data; every complete window has been evaluated."""
    w = windows(data, n, multiply)
    known = {x for y in w for x in y}
    seen = set()
    for seg in log:
        k = tuple(np.ravel(seg))
        rec.check(mon + '_known_window', k in known, lambda: 'likelihood evaluated for %s, which is no window of %d subsequent data points' % (k, n))
        seen.add(k)
    for y in w:
        for x in y:
            if np.any(np.isnan(x)):
                continue
            rec.check(mon + '_complete', x in seen, lambda: 'window %s has never been evaluated' % (x,))


SAFE = {'static', 'grw', 'regime', 'indep', 'noteq'}


def spec_for(rng, om, tsf, hyper, kind='study'):
    g = gen.TMGen(rng, om, tsf, hyper=hyper, max_values=2, prior_kinds=('none', 'array', 'intarray', 'const'))
    if kind == 'cp':
        return cp_spec(rng, g, npoints=1, small={'static', 'grw', 'regime', 'noteq'})      # nothing that moves everything out of the grid: such a fit is abandoned
    return g.elementary(SAFE)


TSK = ('none', 'offset', 'neg', 'gaps', 'dyadic', 'seven', 'large', 'float', 'wide', 'epoch', 'descending', 'shuffled')


def stamps(rng, T, ordered=True):
    k = pick(rng, TSK[:-2] if ordered else TSK)
    if k == 'epoch':                        # milliseconds
        return 1600000000000 + 1000 * np.cumsum(rng.integers(1, 9, T))
    if k == 'descending':
        return 50 - np.cumsum(rng.integers(1, 5, T))
    if k == 'shuffled':
        return rng.permutation(np.cumsum(rng.integers(1, 5, T)))
    if k == 'large':
        return 10 ** 9 + np.cumsum(rng.integers(1, 9, T))
    if k == 'float':
        return np.cumsum(rng.integers(1, 5, T)) * 1.
    if k == 'wide':
        return np.cumsum(rng.integers(1, 100000, T))
    return gen.gen_timestamps(rng, T, (k,))


def as_stamps(rng, ts):
    if ts is None:
        return None
    return pick(rng, [lambda: np.array(ts), lambda: list(ts), lambda: tuple(ts), lambda: [x.item() for x in ts]])()


def build(rng, kind, om, spec, data, ts):
    B = bl()
    cls = {'study': B.Study, 'hyper': B.HyperStudy, 'cp': B.ChangepointStudy}[kind]
    S = cls(silent=True)
    args = [lambda: S.load(data, **({} if ts is None else {'timestamps': as_stamps(rng, ts)}), silent=True), lambda: S.set(om.build(), silent=True), lambda: S.set(gen.build_tm(spec, om.names), silent=True)]
    for k in rng.permutation(3):
        args[k]()
    return S


def judge_results(rng, rec, S, kind, om, data, tsf, mode, plots=False):
    """Number of results and access by time stamp."""
    n = len(tsf)
    rec.close('stamps', np.asarray(S.formattedTimestamps, float), np.asarray(tsf, float), 'time stamps of the results', rtol=0, atol=0)
    if mode == 'evidence':
        return
    post = np.asarray(S.posteriorSequence)
    rec.check('stamps', len(post) == n and len(S.localEvidence) == n and np.shape(S.posteriorMeanValues) == (len(om.names), n),
              lambda: '%d distributions, %d local evidences, means of shape %s for %d windows' % (len(post), len(S.localEvidence), np.shape(S.posteriorMeanValues), n))
    for i in sorted(set([0, n - 1, int(rng.integers(n))])):
        t = tsf[i]
        forms = [t, np.float64(t), float(t)] + ([int(t), np.int64(t)] if float(t) == int(t) else [])
        for ax, name in enumerate(om.names):
            want = ref.marginal(post[i], ax)
            x, p = S.getPD(pick(rng, forms), name, density=False)
            rec.close('by_time', p, want, 'distribution of %s at %s (time step %d)' % (name, t, i), rtol=1e-12, atol=1e-15)
            m = np.sum(post[i] * om.mesh[ax])
            rec.close('mean_by_time', S.getParameterMeanValues(name)[i], m, 'mean of %s at time step %d' % (name, i), rtol=1e-9, atol=1e-9)
            if float(t) == int(t) and 0 <= t < 1e6 and name.isalpha() and chance(rng, 0.3):
                thr = float(np.mean(om.grids[ax]))
                thr = float(np.round(thr * 0.98 + 0.0123, 4))
                try:
                    got = S.eval('%s > %r' % (name, abs(thr)), t=pick(rng, forms), silent=True)
                except ValueError:
                    raise
                rec.close('parser_time', got, np.sum(want[np.asarray(om.grids[ax]) > abs(thr)]), 'P(%s > %r) at %s' % (name, abs(thr), t), rtol=1e-9, atol=1e-12)


# ------------------------------------------------------------------------------------------------- generators
@CHECK.gen(160, 4000)
def recorded(rng, rec, i):
    """Any window length, layout and study type: log of likelihood evaluations and results against the reference."""
    kind = ['study', 'hyper', 'study', 'cp'][i % 4]
    n = 1 + (i // 4) % 4
    multiply = chance(rng, 0.7)
    dims = pick(rng, [1, 1, 2, 3])
    om = window_model(rng, n, multiply=multiply)
    T = n - 1 + int(rng.integers(3 if kind == 'cp' else 1, 8))
    data = distinct_data(rng, T, dims)
    if chance(rng, 0.3):
        data = data.astype(float)
        k = int(rng.integers(T))
        if data.ndim == 1:
            data[k] = np.nan
        else:
            data[k, int(rng.integers(dims))] = np.nan
        rec.count('missing_window')
    ts = stamps(rng, T, kind == 'cp')
    tsf = gen.formatted(ts, T, n)
    spec = spec_for(rng, om, tsf, kind == 'hyper', kind)
    S = build(rng, kind, om, spec, data, ts)
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    del om.log[:]
    fit_mode(rng, S, mode)
    judge_log(rec, om.log, np.asarray(data, float), n, multiply)
    if kind == 'cp':
        judge_results(rng, rec, S, kind, om, data, tsf, mode)
    else:
        s = Scenario()
        s.om, s.T, s.data, s.ts, s.tsf, s.spec = om, T, data, ts, tsf, spec
        s.liks, s.flags, s.alpha = om.liks(data), [], False
        if kind == 'study':
            check_smooth(rec, S, s) if mode == 'complete' else check_filter(rec, S, s, mode == 'evidence')
        else:
            check_hyper(rec, S, s, mode)
        judge_results(rng, rec, S, kind, om, data, tsf, mode)
    rec.count('type_' + kind)
    rec.count('window_%d' % n)
    if dims > 1:
        rec.count('columns')
    rec.situation(kind, n, dims, multiply, mode, None if ts is None else str(np.asarray(ts).dtype) + str(np.unique(np.diff(np.asarray(ts, float)))[:3]), spec['k'])


@CHECK.gen(120, 3000)
def influence(rng, rec, i):
    """With independent observations, a data point affects exactly the windows it is part of."""
    n = 1 + i % 4
    multiply = chance(rng, 0.7)
    dims = pick(rng, [1, 1, 2])
    om = window_model(rng, n, multiply=multiply)
    T = n - 1 + int(rng.integers(1, 10))
    data = distinct_data(rng, T, dims)
    ts = stamps(rng, T, False)
    kind = pick(rng, ['study', 'study', 'hyper'])
    tsf = gen.formatted(ts, T, n)
    mode = pick(rng, ['complete', 'forward'])

    def run(d):
        S = build(rng, kind, om, {'k': 'indep'}, d, ts)
        fit_mode(rng, S, mode)
        return np.array(S.posteriorSequence), np.array(S.localEvidence)
    p0, l0 = run(data)
    k = int(rng.integers(T))
    d = np.array(data)
    if d.ndim == 1:
        d[k] += 0.731
    else:
        d[k, int(rng.integers(dims))] += 0.731
    p1, l1 = run(d)
    for j in range(len(p0)):
        same_ = np.allclose(p0[j], p1[j], rtol=1e-9, atol=1e-13) and np.allclose(l0[j], l1[j], rtol=1e-9)
        if j <= k < j + n:
            rec.check('influence', not same_, lambda: 'data point %d is part of window %d (%d points), but has no effect on its result' % (k, j, n))
        else:
            rec.check('no_influence', same_, lambda: 'data point %d is not part of window %d (%d points), but changes its result' % (k, j, n))
    rec.situation('influence', kind, n, dims, T, k, mode)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


@CHECK.gen(80, 2000)
def evidence_product(rng, rec, i):
    """Likelihoods that do not depend on the parameters: the evidence is the product over all windows, each exactly once."""
    n = 1 + i % 3
    om = window_model(rng, n, constant=True)
    T = n - 1 + int(rng.integers(1, 9))
    data = np.array(PRIMES[:T], float)[rng.permutation(T)]
    ts = stamps(rng, T)
    kind = ['study', 'hyper', 'cp', 'online'][i % 4]
    tsf = gen.formatted(ts, T, n)
    want = sum(np.log(np.prod(data[j:j + n])) for j in range(T - n + 1))
    B = bl()
    if kind == 'online':
        S = B.OnlineStudy(storeHistory=chance(rng, 0.5), silent=True)
        S.set(om.build(), silent=True)
        S.add('a', gen.build_tm({'k': 'static'}, om.names))
        if chance(rng, 0.5):
            S.add('b', gen.build_tm({'k': 'indep'}, om.names))
        for x in data:
            S.step(x)
    else:
        if kind == 'cp':
            if len(tsf) < 3:
                raise Skip('too short')
            g = gen.TMGen(rng, om, tsf, hyper=True, max_values=2)
            spec = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'indep'}], 'b': [{'k': 'break', 'n': ['tb'], 'v': ['all'], 'pr': [None]}]}
        else:
            spec = spec_for(rng, om, tsf, kind == 'hyper')
        S = build(rng, kind, om, spec, data, ts)
        fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence']))
        loc = np.array([np.prod(data[j:j + n]) for j in range(T - n + 1)])
        rec.close('evidence_product', S.localEvidence, loc, 'local evidences of %s with windows of %d' % (data, n), rtol=1e-8)
    rec.close('evidence_product', S.logEvidence, want, 'log-evidence of %d windows of %d points in %s' % (T - n + 1, n, data), rtol=1e-9, atol=1e-8)
    rec.situation('product', kind, n, T)


@CHECK.gen(100, 2500)
def loading(rng, rec, i):
    """Default, user-defined and mismatching time stamps; reloading; lists."""
    B = bl()
    n = 1 + i % 3
    kind = pick(rng, ['study', 'hyper'])
    om = window_model(rng, n)
    T = n - 1 + int(rng.integers(2, 8))
    spec = spec_for(rng, om, list(range(n - 1, T)), kind == 'hyper')
    cls = {'study': B.Study, 'hyper': B.HyperStudy}[kind]
    S = cls(silent=True)
    S.set(om.build(), gen.build_tm(spec, om.names), silent=True)
    for rnd in range(int(rng.integers(1, 4))):
        T = n - 1 + int(rng.integers(2, 8))
        dims = pick(rng, [1, 1, 2])
        data = distinct_data(rng, T, dims)
        ts = stamps(rng, T, False)
        if ts is not None and chance(rng, 0.3):
            bad = pick(rng, [ts[:-1], np.append(ts, ts[-1] + 1), ts[:0], np.concatenate([ts, ts + T])])
            arg, ts = as_stamps(rng, bad), None
            rec.count('mismatch')
        else:
            arg = as_stamps(rng, ts)
        d = data
        if chance(rng, 0.5):
            if chance(rng, 0.5):
                for k in range(T):          # integral values (still all different) among the others
                    if k == 0 or chance(rng, 0.3):
                        data[k] = np.reshape(100 + k * dims + np.arange(dims), np.shape(data[k]))
            d = pick(rng, [data.tolist(), gen.mixed(data), gen.mixed(data), [np.array(x) if np.ndim(x) else x for x in data]])
            rec.count('list_data')
        load = pick(rng, [S.load, S.loadData])
        if arg is None and chance(rng, 0.5):
            load(d, silent=chance(rng, 0.7))
        elif chance(rng, 0.5):
            load(d, arg, silent=chance(rng, 0.7))
        else:
            load(d, timestamps=arg, silent=chance(rng, 0.7))
        if rnd:
            rec.count('reload')
        tsf = gen.formatted(ts, T, n)
        mode = pick(rng, ['complete', 'forward', 'evidence'])
        del om.log[:]
        fit_mode(rng, S, mode)
        judge_log(rec, om.log, data, n, True)
        s = Scenario()
        s.om, s.T, s.data, s.ts, s.tsf, s.spec = om, T, data, ts, tsf, spec
        s.liks, s.flags, s.alpha = om.liks(data), [], False
        if kind == 'study':
            check_smooth(rec, S, s) if mode == 'complete' else check_filter(rec, S, s, mode == 'evidence')
        else:
            check_hyper(rec, S, s, mode)
        judge_results(rng, rec, S, kind, om, data, tsf, mode)
        if mode != 'evidence' and len(tsf) > 1:
            gone = [t for t in range(-2, T + 3) if t not in [float(x) for x in tsf]]
            if gone:
                rec.raises('by_time', B.exceptions.PostProcessingError, lambda: S.getPD(pick(rng, gone), om.names[0]), 'read-out at a time stamp without result')
    # another model with another window length on the same data
    m = pick(rng, [k for k in (1, 2, 3) if k != n])
    if T >= m + 1:
        om2 = window_model(rng, m)
        spec = spec_for(rng, om2, gen.formatted(ts, T, m), kind == 'hyper')
        S.set(om2.build(), gen.build_tm(spec, om2.names), silent=True)
        fit_mode(rng, S, 'complete')
        judge_log(rec, om2.log, data, m, True)
        judge_results(rng, rec, S, kind, om2, data, gen.formatted(ts, T, m), 'complete')
        rec.count('model_switch')
    rec.situation('loading', kind, n, T)


@CHECK.gen(100, 2500)
def located(rng, rec, i):
    """Change- and break-points refer to time stamps: data before a change-point do not affect results after it and vice versa."""
    B = bl()
    n = 1 + i % 3
    om = window_model(rng, n)
    T = n - 1 + int(rng.integers(3, 9))
    data = distinct_data(rng, T)
    ts = stamps(rng, T)
    tsf = gen.formatted(ts, T, n)
    m = len(tsf)
    c = int(rng.integers(0, m - 1))
    tc = tsf[c]
    tc = pick(rng, [tc, float(tc)] + ([int(tc)] if float(tc) == int(tc) else []))
    style = pick(rng, ['cp', 'serial', 'comb', 'break'])
    spec = {'cp': {'k': 'cp', 'n': ['tc'], 'v': [tc], 'pr': [None]}}
    spec['comb'] = {'k': 'comb', 'm': [{'k': 'static'}, spec['cp']]}
    spec['serial'] = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'static'}], 'b': [{'k': 'change', 'n': ['tc'], 'v': [tc], 'pr': [None]}]}
    spec['break'] = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'indep'}], 'b': [{'k': 'break', 'n': ['tc'], 'v': [tc], 'pr': [None]}]}
    sp = spec[style]
    kind = pick(rng, ['study', 'hyper', 'cp'])
    mode = pick(rng, ['complete', 'forward'])

    def run(d):
        S = build(rng, kind, om, sp, d, ts)
        fit_mode(rng, S, mode)
        return np.array(S.posteriorSequence)
    p0 = run(data)
    for _ in range(2):
        k = int(rng.integers(T))
        d = np.array(data)
        d[k] += 0.731
        p1 = run(d)
        win = [j for j in range(m) if j <= k < j + n]            # windows that contain the data point
        for j in range(m):
            # windows up to c form the first section, all later ones the second section (independent of each other with 'break')
            if style == 'break':
                sec = lambda q: 0 if q <= c else q
                if j == 0 and False:
                    continue
            else:
                sec = lambda q: 0 if q <= c else 1
            touched = [q for q in win if sec(q) == sec(j) and (mode == 'complete' or q <= j)]
            if style == 'break' and j > c:
                touched = [q for q in win if q == j]
            differs = not np.allclose(p0[j], p1[j], rtol=1e-9, atol=1e-13)
            if touched:
                rec.check('influence', differs, lambda: '%s at %s: data point %d has no effect on step %d (%s) in the same section' % (style, tc, k, j, tsf[j]))
            else:
                rec.check('point_location', not differs, lambda: '%s at %s (step %d): data point %d changes step %d (%s) of the other section' % (style, tc, c, k, j, tsf[j]))
                if k > c:
                    rec.count('point_future')
    rec.situation('located', kind, style, n, m, c, mode)


@CHECK.gen(60, 1500)
def all_points(rng, rec, i):
    """'all' stands for all time stamps of results except the last one."""
    n = 1 + i % 3
    om = window_model(rng, n, nd=1)
    T = n - 1 + int(rng.integers(3, 9))
    data = distinct_data(rng, T)
    ts = stamps(rng, T)
    tsf = gen.formatted(ts, T, n)
    kind = pick(rng, ['hyper', 'cp'])
    two = kind == 'cp' and len(tsf) > 3 and chance(rng, 0.4)
    if chance(rng, 0.5):
        ms = [{'k': 'cp', 'n': ['t1'], 'v': ['all'], 'pr': [None]}] + ([{'k': 'cp', 'n': ['t2'], 'v': ['all'], 'pr': [None]}] if two else [])
        sp = ms[0] if len(ms) == 1 else {'k': 'comb', 'm': ms}
        sub = lambda a: {'k': 'cp', 'n': ['t1'], 'v': [a], 'pr': [None]}
    else:
        bk = pick(rng, ['break', 'change'])
        sp = {'k': 'serial', 'm': [{'k': 'static'}, {'k': 'indep'}] + ([{'k': 'static'}] if two else []), 'b': [{'k': bk, 'n': ['t1'], 'v': ['all'], 'pr': [None]}] + ([{'k': bk, 'n': ['t2'], 'v': ['all'], 'pr': [None]}] if two else [])}
        sub = lambda a: {'k': 'serial', 'm': sp['m'], 'b': [{'k': bk, 'n': ['t1'], 'v': [a], 'pr': [None]}]}
    S = build(rng, kind, om, sp, data, ts)
    fit_mode(rng, S, pick(rng, ['complete', 'forward']))
    for name in ('t1', 't2')[:2 if two else 1]:
        x, p = S.getHPD(name)
        rec.close('all_points', np.asarray(x, float), np.asarray(tsf[:-1], float), 'values of %s' % name, rtol=0, atol=0)
        rec.close('all_points', np.sum(p), 1., 'sum of probabilities of %s' % name, rtol=1e-9)
    if not two:
        # evidence of each point, taken from individual fits
        ev = []
        for t in tsf[:-1]:
            W = build(rng, 'study', om, sub(t), data, ts)
            fit_mode(rng, W, 'evidence')
            ev.append(W.logEvidence)
        ev = np.exp(np.array(ev) - np.max(ev))
        rec.close('all_points', p, ev / np.sum(ev), 'probabilities of the time stamps %s' % (tsf[:-1],), rtol=1e-7, atol=1e-10)
    # read-out of the time stamps by the duration distribution
    if two:
        d, q = S.getDD(['t1', 't2'])
        u = sorted({float(b) - float(a) for a in tsf[:-1] for b in tsf[:-1] if b > a})
        rec.close('all_points', np.asarray(d, float), u, 'durations', rtol=1e-12)
    rec.count('type_' + kind)
    rec.situation('all', kind, n, T, sp['k'])


@CHECK.gen(80, 2000)
def online(rng, rec, i):
    B = bl()
    n = 1 + i % 4
    dims = pick(rng, [1, 1, 2, 3])
    multiply = chance(rng, 0.7)
    om = window_model(rng, n, multiply=multiply)
    T = n - 1 + int(rng.integers(1, 8))
    data = distinct_data(rng, T, dims)
    if chance(rng, 0.2):
        data = data.astype(float)
        data[int(rng.integers(T))] = np.nan
        rec.count('missing_window')
    S = B.OnlineStudy(storeHistory=True, silent=True)
    S.set(om.build(), silent=True)
    sp = spec_for(rng, om, list(range(n - 1, T)), False)
    S.set(gen.build_tm(sp, om.names), silent=True)
    for k, x in enumerate(data):
        del om.log[:]
        S.step(np.array(x) if dims > 1 else pick(rng, [float, np.float64])(x))
        want = windows(np.asarray(data[max(0, k - n + 1):k + 1], float), n, multiply)
        known = {y for w in want for y in w}
        for seg in om.log:
            rec.check('online_windows', tuple(np.ravel(seg)) in known, lambda: 'step %d evaluates %s' % (k, seg))
        for y in known:
            if not np.any(np.isnan(y)):
                rec.check('online_windows', any(tuple(np.ravel(seg)) == y for seg in om.log), lambda: 'step %d does not evaluate %s' % (k, y))
        if k < n - 1:
            rec.check('online_windows', len(om.log) == 0, 'incomplete window evaluated')
    tsf = list(range(n - 1, T))
    rec.close('online_stamps', np.asarray(S.formattedTimestamps, float), tsf, 'time stamps of an online study', rtol=0, atol=0)
    rec.check('online_stamps', len(S.posteriorSequence) == len(tsf), lambda: '%d distributions for %d windows' % (len(S.posteriorSequence), len(tsf)))
    W = build(rng, 'study', om, sp, data, None)
    fit_mode(rng, W, 'forward')
    for t in tsf:
        for name in om.names:
            rec.close('online_stamps', S.getPD(t, name, density=False)[1], W.getPD(t, name, density=False)[1], 'distribution at %d, online vs. forward fit' % t, rtol=1e-8, atol=1e-11)
    rec.close('online_stamps', S.logEvidence, W.logEvidence, 'log-evidence, online vs. forward fit', rtol=1e-9, atol=1e-8)
    rec.count('type_online')
    rec.situation('online', n, dims, multiply, T, sp['k'])


@CHECK.gen(40, 800)
def deterministic_time(rng, rec, i):
    """Deterministic transition models see the time stamps (restarting at each break-point)."""
    B = bl()
    T = int(rng.integers(2, 8))
    om = window_model(rng, 1, nd=1)
    data = distinct_data(rng, T)
    ts = stamps(rng, T)
    tsf = gen.formatted(ts, T, 1)
    seen = []

    def drift(t, s=0.):
        seen.append(float(t))
        return s * t
    S = B.Study(silent=True)
    S.load(data, **({} if ts is None else {'timestamps': as_stamps(rng, ts)}), silent=True)
    S.set(om.build(), B.tm.Deterministic(drift, target=om.names[0]), silent=True)
    del seen[:]
    fit_mode(rng, S, 'forward')
    allowed = {float(t) for t in tsf} | {float(t) + 1 for t in tsf}
    for t in seen:
        rec.check('deterministic_time', t in allowed, lambda: 'function of time evaluated at %r, time stamps %s' % (t, tsf))
    for t in tsf[:-1]:
        rec.check('deterministic_time', float(t) in seen, lambda: 'function of time never evaluated at time stamp %r' % t)


@CHECK.gen(40, 800)
def plotted_time(rng, rec, i):
    """Plots show the results at their time stamps."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    om = window_model(rng, 1 + i % 2, nd=1)
    n = om.seg
    T = n - 1 + int(rng.integers(2, 8))
    data = distinct_data(rng, T)
    ts = pick(rng, [None, np.arange(T) + 100, np.arange(T) - 50, np.arange(T) * 3])
    tsf = gen.formatted(ts, T, n)
    kind = pick(rng, ['study', 'hyper'])
    S = build(rng, kind, om, {'k': 'static'}, data, ts)
    fit_mode(rng, S, 'complete')
    fig = plt.figure()
    try:
        S.plot(om.names[0])
        ax = fig.axes[0]
        line = [l for l in ax.get_lines() if len(l.get_xdata()) == len(tsf)]
        rec.check('plot_times', len(line) > 0, lambda: 'no line of mean values with %d points' % len(tsf))
        rec.close('plot_times', np.asarray(line[0].get_xdata(), float), np.asarray(tsf, float), 'times of plotted mean values', rtol=0, atol=0)
        rec.close('plot_times', np.asarray(line[0].get_ydata(), float), S.posteriorMeanValues[0], 'plotted mean values', rtol=1e-9)
    finally:
        plt.close('all')


@CHECK.gen(30, 300)
def too_short(rng, rec, i):
    """Less data than one window are refused, not analysed."""
    B = bl()
    n = 2 + i % 3
    om = window_model(rng, n)
    T = int(rng.integers(1, n))
    data = distinct_data(rng, T)
    for kind in ('study', 'hyper'):
        S = build(rng, kind, om, {'k': 'static'}, data, None)
        rec.raises('too_short', B.exceptions.ConfigurationError, lambda: fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence'])), 'fit of %d data points with windows of %d' % (T, n))
        rec.check('too_short', len(om.log) == 0, 'incomplete window evaluated')
        more = distinct_data(rng, n + 1)
        S.load(more, silent=True)
        fit_mode(rng, S, 'complete')
        judge_results(rng, rec, S, kind, om, more, [n - 1, n], 'complete')
        del om.log[:]


@CHECK.gen(12, 60)
def long_series(rng, rec, i):
    """Thousands of data points: every window is used, every time step has its result."""
    B = bl()
    n = 1 + i % 3
    T = int(rng.integers(4200, 9000)) if i % 4 else int(rng.integers(9000, 40000))
    g = np.linspace(-1., 1., 3)
    w = rng.normal(size=n)
    fn = lambda seg, m: np.exp(m * np.sum(w * np.sin(np.asarray(seg, float))) * 0.3)

    class Window(B.observationModels.ObservationModel):
        def __init__(self):
            self.name, self.segmentLength, self.parameterNames, self.parameterValues = 'Window', n, ['m'], [g]
            self.multiplyLikelihoods, self.prior = True, None

        def pdf(self, grid, seg):
            return fn(seg, grid[0])
    data = np.round(10. * rng.random(T), 3)
    z = np.zeros(T - n + 1)
    for j in range(n):
        z += w[j] * np.sin(data[j:T - n + 1 + j])
    cum = 0.3 * np.outer(np.cumsum(z), g)                      # log-likelihood of all data up to each time step
    ts = pick(rng, [None, np.arange(T) + 1900, np.arange(T) * 3 - 7])
    kind = pick(rng, ['study', 'study', 'hyper', 'online'])
    from scipy.special import logsumexp
    tsf = gen.formatted(ts, T, n)
    if kind == 'online':
        T = min(T, 6000)
        data, z, cum = data[:T], z[:T - n + 1], cum[:T - n + 1]
        S = B.OnlineStudy(storeHistory=True, silent=True)
        S.set(Window(), B.tm.Static(), silent=True)
        for x in data:
            S.step(x)
        mode, tsf = 'forward', list(range(n - 1, T))
    else:
        S = (B.HyperStudy if kind == 'hyper' else B.Study)(silent=True)
        S.load(data, silent=True) if ts is None else S.load(data, timestamps=ts, silent=True)
        S.set(Window(), B.tm.Static(), silent=True)
        mode = pick(rng, ['complete', 'forward', 'evidence'])
        fit_mode(rng, S, mode, silent=True)
    want = logsumexp(cum, axis=1) - np.log(3.)
    rec.close('long_series', S.logEvidence, want[-1], 'log-evidence of %d data points' % T, rtol=1e-8, atol=1e-6)
    rec.check('long_series', list(S.formattedTimestamps) == list(tsf), 'time stamps of %d data points' % T)
    if kind != 'online':
        loc = np.diff(np.concatenate([[0.], want]))
        if mode != 'complete':
            rec.close('long_series', np.log(np.asarray(S.localEvidence, float)), loc, 'local evidences of %d data points' % T, rtol=1e-5, atol=1e-7)
        else:
            rec.check('long_series', len(S.localEvidence) == len(tsf), 'number of local evidences')
    if mode != 'evidence':
        p = np.exp(cum - logsumexp(cum, axis=1)[:, None])
        if mode == 'complete':
            p = np.repeat(p[-1:], len(p), axis=0)
        rec.close('long_series', S.getPDs('m', density=False)[1], p, 'distributions of %d data points' % T, rtol=1e-5, atol=1e-8)
        rec.close('long_series', S.getParameterMeanValues('m'), p @ g, 'means of %d data points' % T, rtol=1e-5, atol=1e-8)
        for k in (0, len(tsf) // 2, len(tsf) - 1, 4096 - n):
            rec.close('long_series', S.getPD(tsf[k], 'm', density=False)[1], p[k], 'distribution at %s' % tsf[k], rtol=1e-5, atol=1e-8)
    rec.situation('long', kind, n, T, mode)


@CHECK.gen(40, 800)
def duplicates(rng, rec, i):
    """Equal data values at different times are different data points."""
    om = window_model(rng, 1, nd=1)
    T = int(rng.integers(2, 9))
    data = rng.integers(0, 2, T) * 0.7 + 0.1
    spec = spec_for(rng, om, list(range(T)), False)
    S = build(rng, 'study', om, spec, data, None)
    mode = pick(rng, ['complete', 'forward'])
    fit_mode(rng, S, mode)
    s = Scenario()
    s.om, s.T, s.data, s.ts, s.tsf, s.spec = om, T, data, None, list(range(T)), spec
    s.liks, s.flags, s.alpha = om.liks(data), [], False
    check_smooth(rec, S, s) if mode == 'complete' else check_filter(rec, S, s, False)
    rec.count('duplicates')


DISASTERS = [5, 4, 1, 0, 4, 3, 4, 0, 6, 3, 3, 4, 0, 2, 6, 3, 3, 5, 4, 5, 3, 1, 4, 4, 1, 5, 5, 3, 4, 2, 5, 2, 2, 3, 4, 2, 1, 3, 2, 2, 1, 1, 1, 1, 3, 0, 0, 1, 0, 1, 1, 0, 0, 3, 1,
             0, 3, 2, 2, 0, 1, 1, 1, 0, 1, 0, 1, 0, 0, 0, 2, 1, 0, 0, 0, 1, 1, 0, 2, 3, 3, 1, 1, 2, 1, 1, 1, 1, 2, 3, 3, 0, 0, 0, 1, 4, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0]


@CHECK.gen(2, 4)
def example_data(rng, rec, i):
    """Coal mining disasters: 110 years from 1852."""
    B = bl()
    S = B.Study(silent=True)
    S.loadExampleData(silent=True)
    S.set(B.om.Poisson('rate', B.oint(0, 6, 60)), B.tm.Static(), silent=True)
    S.fit(silent=True)
    rec.close('example_data', np.asarray(S.formattedTimestamps, float), np.arange(1852, 1962), 'years', rtol=0, atol=0)
    rec.check('example_data', len(S.posteriorSequence) == 110, 'number of years')
    liks = [np.exp(-r) * r ** k / math.factorial(k) for r in [S.marginalGrid[0]] for k in DISASTERS]
    p = np.prod([x / np.max(x) for x in liks], axis=0) / np.sqrt(S.marginalGrid[0])
    rec.close('example_data', S.getPD(1900, 'rate', density=False)[1], p / np.sum(p), 'distribution given the published counts', rtol=1e-6)
    rec.close('example_data', S.getPD(1900, 'rate')[1], S.getPDs('rate')[1][48], 'distribution of 1900', rtol=1e-12)
    rec.raises('example_data', B.exceptions.PostProcessingError, lambda: S.getPD(1851, 'rate'))
