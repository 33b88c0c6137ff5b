"""C14: parallel fits give the same result as serial fits."""
import os
import shutil
import tempfile
import time

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation
from gen import pick, chance
from studies import *

CHECK = Check('C14', 'distinct (study type, transition model, fit mode, combinations per process, completion order of the processes) combinations compared with the serial fit',
              ['failures of a process are exceptions (a killed process is outside of what the pool can report)', 'process scheduling is varied by injected delays'], parallel=False)
CHECK.required = ['parallel_log_evidence', 'parallel_individual_evidences', 'parallel_distribution', 'parallel_posterior', 'parallel_means', 'parallel_local_evidence', 'parallel_readouts',
                  'values_in_place', 'exactly_once', 'several_processes', 'failure_reported', 'usable_after_failure', 'interleaved_studies', 'impossible_in_parallel', 'reference_evidence', 'extreme_evidence']


def result(S, mode):
    r = dict(e=float(S.logEvidence), l=np.array(S.logEvidenceList, float), d=np.array(S.hyperParameterDistribution, float), loc=np.array(S.localEvidence, float))
    if mode != 'evidence' and np.isfinite(r['e']):
        r['p'], r['m'] = np.array(S.posteriorSequence), np.array(S.posteriorMeanValues)
    return r


def compare(rec, a, b, what, posterior=True):
    def eq(mon, x, y, rtol, atol):
        x, y = np.asarray(x, float), np.asarray(y, float)
        rec.check(mon, x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True), lambda: '%s: parallel %.300r, serial %.300r' % (what, x, y))
    eq('parallel_individual_evidences', a['l'], b['l'], 1e-12, 1e-12)
    eq('parallel_log_evidence', a['e'], b['e'], 1e-11, 1e-11)
    if np.isneginf(b['e']):
        rec.count('impossible_in_parallel')
        return
    eq('parallel_distribution', a['d'], b['d'], 1e-9, 1e-14)
    eq('parallel_local_evidence', a['loc'], b['loc'], 1e-9, 1e-300)
    if 'p' in b:
        rec.check('parallel_posterior', 'p' in a, 'no posterior after parallel fit')
        eq('parallel_posterior', a['p'], b['p'], 1e-9, 1e-13)
        eq('parallel_means', a['m'], b['m'], 1e-9, 1e-11)


def jobs(rng, n):
    return pick(rng, [2, 2, 3, 3, 4, 5, 7, max(2, n), max(2, n - 1), n + 1, n + 2])


@CHECK.gen(150, 3000)
def same_results(rng, rec, i):
    kind = ['hyper', 'cp'][i % 2]
    c = None
    while c is None or n_combos(c.s.spec, c.s.tsf) < 2 or (kind == 'cp' and sum(map(c.mask, ref.hyper_grid(c.s.spec, c.s.tsf)[0])) < 2):
        c = any_case(rng, kinds=(kind,))
    n = n_combos(c.s.spec, c.s.tsf)
    S, P = c.build(rng), c.build(rng)
    fit_mode(rng, S, c.mode)
    want = result(S, c.mode)
    before = [attempt(lambda: P.getHyperParameterValue(x)) for x in c.names()]
    for k in range(pick(rng, [1, 1, 2])):
        nj = min(jobs(rng, n), 12)
        fit_mode(rng, P, c.mode, nJobs=nj, silent=chance(rng, 0.7))
        compare(rec, result(P, c.mode), want, 'nJobs=%d, %d combinations, %s' % (nj, n, c.describe()))
    o1, o2 = observe(P, c), observe(S, c)
    same(rec, 'parallel_readouts', o1, o2, 'read-outs after parallel fit', rtol=1e-9, atol=1e-12)
    after = [attempt(lambda: P.getHyperParameterValue(x)) for x in c.names()]
    rec.check('values_in_place', not differences({0: freeze(before)}, {0: freeze(after)}), 'hyper-parameter values changed by parallel fit')
    fit_mode(rng, P, c.mode)
    compare(rec, result(P, c.mode), want, 'serial fit after parallel fit')
    if chance(rng, 0.3):
        check_hyper(rec, P, c.s, c.mode, c.mask if kind == 'cp' else None, mon='ref', flags=()) if not c.s.flags else None
    if not c.s.flags and np.isfinite(want['e']):
        r = ref.hyper(c.s.spec, c.s.liks, c.s.tsf, c.s.om.ctx(()), c.mode != 'complete', c.mask if kind == 'cp' else None)
        ok = abs(r['loge'] - want['e']) < 1e-5 * (1 + abs(want['e']))
        rec.check('reference_evidence', ok or not stable_hyper(c.s, c.mode != 'complete', c.mask if kind == 'cp' else None)(), 'evidence differs from the reference')
    rec.situation(kind, c.mode, c.describe(), nj, n)


@CHECK.gen(14, 280)
def extreme(rng, rec, i):
    """Evidences far outside of the floating point range."""
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    s = hyper_scenario(rng, 2, 8, depth=0, tm_kinds={'det', 'grw', 'regime', 'cp'}, T=int(rng.integers(150, 400)), om_kinds=pick(rng, [['gaussian'], ['white'], gen.CHEAP]), max_values=4)
    n = n_combos(s.spec, s.tsf)
    S, P = [gen.make_study(rng, s.om, gen.build_tm(s.spec, s.om.names), s.data, s.ts, cls=gen.bl().HyperStudy) for _ in range(2)]
    fit_mode(rng, S, mode)
    nj = pick(rng, [2, 3, n])
    fit_mode(rng, P, mode, nJobs=nj)
    compare(rec, result(P, mode), result(S, mode), 'long data set, nJobs=%d, %s' % (nj, describe(s)))
    if np.isfinite(S.logEvidence) and S.logEvidence < -720.:
        rec.count('extreme_evidence')
    rec.situation('extreme', mode, describe(s), nj)


class Traced(object):
    """Transition model whose evaluation is logged, delayed and made to fail according to a plan (in the worker processes)."""

    def __init__(self, rng, rates, delays=None, fail=None):
        self.dir = tempfile.mkdtemp(prefix='verif_c14_')
        d, de, fl = self.dir, delays or {}, fail
        self.rates = rates

        def drift(t, r=rates):
            import os as o
            import time as tm
            key = '%.12g' % float(r)
            fd = o.open(o.path.join(d, 'log'), o.O_WRONLY | o.O_CREAT | o.O_APPEND)
            o.write(fd, ('%d %s %r\n' % (o.getpid(), key, tm.monotonic())).encode())
            o.close(fd)
            if key in de and not o.path.exists(o.path.join(d, 'slept_' + key)):
                open(o.path.join(d, 'slept_' + key), 'w').close()
                tm.sleep(de[key])
            if fl is not None and key in fl and o.path.exists(o.path.join(d, 'faulty')):
                raise ZeroDivisionError('injected fault')
            return r * t
        self.fn = drift

    def arm(self, on):
        p = os.path.join(self.dir, 'faulty')
        if on:
            open(p, 'w').close()
        elif os.path.exists(p):
            os.remove(p)

    def events(self):
        p = os.path.join(self.dir, 'log')
        if not os.path.exists(p):
            return []
        with open(p) as f:
            ev = [l.split() for l in f]
        os.remove(p)
        return [(int(a), b, float(t)) for a, b, t in ev]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def traced_case(rng, delays=False, fail=False):
    B = gen.bl()
    om = gen.gen_om(rng, kinds=['table1', 'gmean', 'poisson', 'np1'], irregular=0.)
    s = scenario(rng, om=om, T=int(rng.integers(2, 6)), spec={'k': 'static'}, missing=0., ts_kinds=('none', 'offset'))
    n = int(rng.integers(2, 10))
    lc = ref.lattice_constant(om.grids[0])
    rates = np.unique(np.round(rng.uniform(-1, 1, n), 4)) * lc
    keys = ['%.12g' % r for r in rates]
    de = {k: float(rng.choice([0., 0.02, 0.05])) for k in keys} if delays else None
    fl = set(rng.choice(keys, int(rng.integers(1, 3)))) if fail else None
    return B, s, rates, keys, Traced(rng, rates, de, fl)


@CHECK.gen(60, 1200)
def schedules(rng, rec, i):
    """Injected delays vary the order in which the processes finish; each combination is analysed by exactly one process."""
    B, s, rates, keys, tr = traced_case(rng, delays=True)
    try:
        if len(rates) < 2:
            return
        mode = pick(rng, ['complete', 'forward', 'evidence'])
        extra = chance(rng, 0.3)

        def study():
            tm = B.tm.Deterministic(tr.fn, target=s.om.names[0])
            if extra:
                tm = B.tm.CombinedTransitionModel(tm, B.tm.RegimeSwitch('p', [-4., -2.]))
            return gen.make_study(rng, s.om, tm, s.data, s.ts, cls=B.HyperStudy)
        S = study()
        fit_mode(rng, S, mode)
        serial = tr.events()
        per = {k: sum(1 for e in serial if e[1] == k) for k in keys}
        want = result(S, mode)
        for f in os.listdir(tr.dir):
            if f.startswith('slept_'):
                os.remove(os.path.join(tr.dir, f))
        P = study()
        nj = min(pick(rng, [2, 3, 4, 6]), 8)
        fit_mode(rng, P, mode, nJobs=nj)
        ev = tr.events()
        compare(rec, result(P, mode), want, 'with injected delays, nJobs=%d' % nj)
        if np.isneginf(want['e']):
            return
        for k in keys:
            rec.check('exactly_once', sum(1 for e in ev if e[1] == k) == per[k],
                      lambda: 'combination %s: %d evaluations in the parallel fit, %d in the serial fit' % (k, sum(1 for e in ev if e[1] == k), per[k]))
        pids = sorted(set(e[0] for e in ev))
        if os.getpid() not in pids and len(pids) > 1:
            rec.count('several_processes')
        last = {p: max(e[2] for e in ev if e[0] == p) for p in pids}
        order = tuple(sorted(keys, key=lambda k: max([e[2] for e in ev if e[1] == k] + [0.])))
        rec.situation('schedule', mode, nj, len(keys), [keys.index(k) for k in order], extra)
    finally:
        tr.close()


@CHECK.gen(50, 1000)
def failures(rng, rec, i):
    """An error in one process is reported, and the study is usable afterwards."""
    B, s, rates, keys, tr = traced_case(rng, fail=True)
    try:
        if len(rates) < 2:
            return
        mode = pick(rng, ['complete', 'forward', 'evidence'])
        S = gen.make_study(rng, s.om, B.tm.Deterministic(tr.fn, target=s.om.names[0]), s.data, s.ts, cls=B.HyperStudy)
        fit_mode(rng, S, mode)
        want = result(S, mode)
        if np.isneginf(want['e']):
            return
        P = gen.make_study(rng, s.om, B.tm.Deterministic(tr.fn, target=s.om.names[0]), s.data, s.ts, cls=B.HyperStudy)
        nj = pick(rng, [2, 3, 4])
        tr.arm(True)
        try:
            fit_mode(rng, P, mode, nJobs=nj)
            ok = False
        except ZeroDivisionError:
            ok = True
        rec.check('failure_reported', ok, 'an error in one of the processes was not reported')
        rec.check('values_in_place', np.array_equal(np.asarray(P.getHyperParameterValue('r'), float), rates), 'hyper-parameter values changed by failed parallel fit')
        tr.arm(False)
        fit_mode(rng, P, mode, nJobs=nj)
        compare(rec, result(P, mode), want, 'parallel fit after a failed one')
        fit_mode(rng, P, mode)
        compare(rec, result(P, mode), want, 'serial fit after a failed parallel one')
        rec.count('usable_after_failure')
        rec.situation('failure', mode, nj, len(keys))
    finally:
        tr.close()


@CHECK.gen(30, 600)
def interleaved(rng, rec, i):
    """Several studies and changed settings on the same (cached) process pool."""
    cs = []
    while len(cs) < 2:
        c = any_case(rng, kinds=('hyper',))
        if n_combos(c.s.spec, c.s.tsf) > 1:
            cs.append(c)
    nj = pick(rng, [2, 3])
    Ss = [c.build(rng) for c in cs]
    want = []
    for c in cs:
        S = c.build(rng)
        fit_mode(rng, S, c.mode)
        want.append(result(S, c.mode))
    for _ in range(int(rng.integers(2, 5))):
        k = int(rng.integers(2))
        fit_mode(rng, Ss[k], cs[k].mode, nJobs=nj)
        compare(rec, result(Ss[k], cs[k].mode), want[k], 'interleaved parallel fits of two studies')
        rec.count('interleaved_studies')
    # other data in the same study
    c = cs[0]
    d = np.array(c.s.data)[::-1].copy()
    if np.issubdtype(d.dtype, np.number):
        A, Bs = c.build(rng, data=d), Ss[0]
        fit_mode(rng, A, c.mode)
        Bs.load(d, silent=True) if c.s.ts is None else Bs.load(d, timestamps=c.s.ts, silent=True)
        fit_mode(rng, Bs, c.mode, nJobs=nj)
        compare(rec, result(Bs, c.mode), result(A, c.mode), 'parallel fit after changing the data')
    rec.situation('interleaved', cs[0].describe(), cs[1].describe(), nj)


@CHECK.gen(40, 800)
def impossible(rng, rec, i):
    """Impossible combinations in some or all of the processes."""
    B = gen.bl()
    n = int(rng.integers(8, 16))
    x = np.arange(n) * 1.
    data = np.clip(int(rng.integers(2, n - 2)) + pick(rng, [0, 1, -1]) * np.arange(int(rng.integers(3, 7))), 0, n - 1).astype(float)

    def lik(data, a):
        import numpy as np
        return np.where(np.abs(a - np.ravel(data)[0]) < 0.5, 1., 0.)
    rates = np.arange(-3., 4.)[int(rng.integers(0, 3)):]
    if chance(rng, 0.2):
        data[-1] = n + 50.       # nothing is possible
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    S, P = [gen.bl().HyperStudy(silent=True) for _ in range(2)]
    for X in (S, P):
        X.load(data, silent=True)
        X.set(B.om.NumPy(lik, 'a', x, prior=None), B.tm.Deterministic(lambda t, r=rates: r * t, target='a'), silent=True)
    fit_mode(rng, S, mode)
    nj = pick(rng, [2, 3, 5, len(rates), len(rates) + 2])
    fit_mode(rng, P, mode, nJobs=nj)
    compare(rec, result(P, mode), result(S, mode), 'impossible combinations, nJobs=%d' % nj)
    rec.count('impossible_in_parallel')
    rec.situation('impossible', mode, nj, len(rates), np.isneginf(S.logEvidenceList).tolist())
