"""C18: a saved and loaded study is equivalent to the original."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Infra, case_rng
from gen import pick, chance, bl
from studies import *
from studies import _same

CHECK = Check('C18', 'distinct (study type, models, state when saved, continuation) combinations; original, untouched twin and loaded study are observed and continued side by side, partly in a fresh interpreter',
              ['files are written to a scratch directory', 'the loading interpreter has the same packages'])
CHECK.required = ['loaded_equals_original', 'settings_equal', 'saving_changes_nothing', 'continuation_equal', 'independent_objects', 'overwritten_file', 'fresh_interpreter', 'fresh_continuation', 'unfitted', 'empty_study',
                  'stream_waiting', 'twice', 'type_study', 'type_hyper', 'type_cp', 'type_online', 'after_impossible', 'kind_sympy', 'kind_scipy', 'kind_function', 'saved_again']


def settings(S, c):
    o = {'type': type(S).__name__}
    o['om'] = None if S.observationModel is None else str(S.observationModel)
    o['tm'] = None if S.transitionModel is None else str(S.transitionModel)
    o['names'] = None if S.observationModel is None else list(S.observationModel.parameterNames)
    o['grid'] = freeze(list(S.grid))
    o['marginal'] = freeze(list(S.marginalGrid))
    o['lattice'] = freeze(list(S.latticeConstant))
    o['bounds'] = freeze(list(S.boundaries))
    o['raw'] = freeze(S.rawData)
    o['rawts'] = freeze(S.rawTimestamps)
    o['ts'] = freeze(S.formattedTimestamps) if len(S.rawData) else None
    if c.kind != 'online':
        for n in c.names():
            o['hp', n] = freeze(attempt(lambda: S.getHyperParameterValue(n)))
    else:
        o['tmn'] = list(S.transitionModelNames)
        o['history'] = S.storeHistory
        o['prior'] = freeze(S.transitionModelPrior)
    return o


def continuation(rng, c, start=None):
    """Plan of what is done with the study after loading: list of (operation, arguments)."""
    plan = []
    if c.kind == 'online':
        for x in c.s.data[start:]:
            plan.append(('step', c.point(x)))
        if not plan or chance(rng, 0.3):
            plan.append(('step', c.point(c.s.data[-1])))
        return plan
    for _ in range(int(rng.integers(1, 3))):
        r = rng.random()
        if r < 0.3:
            plan.append(('load', np.array(c.s.data)[::-1].copy(), c.s.ts))
        elif r < 0.4 and c.kind == 'study' and not set(ref.kinds(c.s.spec)) & {'alpha', 'biv'} and c.names():
            plan.append(('optimize',))
        plan.append(('fit', pick(rng, ['complete', 'forward', 'evidence'])))
    return plan


def perform(S, plan):
    for p in plan:
        if p[0] == 'step':
            attempt(lambda: S.step(p[1]))
        elif p[0] == 'load':
            S.load(p[1], timestamps=p[2], silent=True)
        elif p[0] == 'optimize':
            attempt(lambda: S.optimize())
        else:
            attempt(lambda: S.fit(forwardOnly=p[1] == 'forward', evidenceOnly=p[1] == 'evidence', silent=True))


class View(object):
    """The parts of a case needed to observe a study (plain data only, so that it can be passed to another process)."""

    def __init__(self, c, times=None):
        self.kind = c.kind
        self.tm_names = getattr(c, 'tm_names', None)
        self._names = c.names()
        self._pn = c.point_names() if c.kind == 'cp' else []
        self.s = Scenario()
        self.s.om = Scenario()
        for k in ('names', 'seg', 'multiply'):
            setattr(self.s.om, k, getattr(c.s.om, k))
        self.s.data, self.s.tsf = c.s.data, list(c.s.tsf)

    def names(self):
        return self._names

    def point_names(self):
        return self._pn


def child_job(path, view, plan, again):
    S = bl().load(path)
    o = [settings(S, view), observe(S, view)]
    perform(S, plan)
    o += [settings(S, view), observe(S, view)]
    if again:
        bl().save(again, S)
    return o


def prepared(rng, c, S, state):
    """Bring the study into the given state. Returns number of processed data points (online)."""
    if c.kind == 'online':
        k = {'unfitted': 0, 'first': 1}.get(state, int(rng.integers(1, len(c.s.data) + 1)))
        for x in c.s.data[:k]:
            S.step(c.point(x))
        return k
    if state == 'fitted':
        fit_mode(rng, S, c.mode)
    return None


def pick_case(rng, i):
    return any_case(rng, kinds=(['study', 'hyper', 'cp', 'online'][i % 4],), om_kinds=pick(rng, [None, gen.KINDS, gen.KINDS, {1: ['sympy1', 'scipy1'], 2: ['sympy2', 'scipy2'], 3: ['np3']}]))


def note(rec, c, state):
    rec.count('type_' + c.kind)
    for k in ('sympy', 'scipy'):
        if c.s.om.kind.startswith(k):
            rec.count('kind_' + k)
    if c.s.om.kind[:2] in ('np', 'ta'):
        rec.count('kind_function')
    if state == 'unfitted':
        rec.count('unfitted')


@CHECK.gen(240, 4800)
def in_process(rng, rec, i):
    side_by_side(rng, rec, pick_case(rng, i), pick(rng, ['fitted', 'fitted', 'fitted', 'unfitted']))


@CHECK.gen(8, 160)
def waiting_stream(rng, rec, i):
    """Stream of a model that needs two observations, saved after the first one."""
    side_by_side(rng, rec, online_case(rng, om_kinds={1: ['ar1'], 2: ['ar1', 'sar1'], 3: ['ar1']}, T=int(rng.integers(2, 7))), 'first')


def side_by_side(rng, rec, c, state):
    B = bl()
    note(rec, c, state)
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        S, W = c.build(rng), c.build(rng)
        st = rng.bit_generator.state
        k = prepared(rng, c, S, state)
        rng.bit_generator.state = st
        prepared(rng, c, W, state)
        if c.kind == 'online' and 0 < k < c.s.om.seg:
            rec.count('stream_waiting')
        plan = continuation(rng, c, k)
        path = os.path.join(tmp, pick(rng, ['study.bl', 'a b.bl', 'noext', 'x.y.z']))
        B.save(path, S)
        a, sa = observe(S, c), settings(S, c)
        same(rec, 'saving_changes_nothing', a, observe(W, c), 'results after saving vs never saved (%s)' % c.describe())
        L = B.load(path)
        same(rec, 'settings_equal', settings(L, c), sa, 'settings of loaded study (%s)' % c.describe())
        same(rec, 'loaded_equals_original', observe(L, c), a, 'results of loaded study (%s, %s)' % (c.describe(), state))
        if chance(rng, 0.3):
            p2 = os.path.join(tmp, 'second')
            B.save(p2, L)
            L = B.load(p2)
            same(rec, 'twice', observe(L, c), a, 'results after saving and loading twice')
        # continue: loaded one first, then the original
        perform(L, plan)
        same(rec, 'independent_objects', observe(S, c), a, 'original study changed by continuing the loaded one (%s)' % c.describe())
        bl_ = observe(L, c)
        perform(S, plan)
        perform(W, plan)
        w = observe(W, c)
        same(rec, 'continuation_equal', bl_, w, 'continuation %s of loaded study (%s)' % ([p[:1] for p in plan], c.describe()))
        same(rec, 'continuation_equal', settings(L, c), settings(W, c), 'settings after continuation')
        same(rec, 'saving_changes_nothing', observe(S, c), w, 'continuation of a saved study (%s)' % c.describe())
        same(rec, 'independent_objects', observe(L, c), bl_, 'loaded study changed by continuing the original')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.situation('in_process', c.describe(), state, *[p[0] for p in plan])


@CHECK.gen(40, 800)
def overwritten(rng, rec, i):
    """Several studies saved to the same file, one after the other, and unconfigured ones."""
    B = bl()
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        path = os.path.join(tmp, 'study.bl')
        other = os.path.join(tmp, 'other.bl')
        for j in range(int(rng.integers(2, 4))):
            if chance(rng, 0.25):
                cls = pick(rng, [B.Study, B.HyperStudy, B.ChangepointStudy, B.OnlineStudy])
                E = cls(silent=True)
                B.save(path, E)
                L = B.load(path)
                rec.check('empty_study', type(L) is cls and L.observationModel is None and L.transitionModel is None and len(L.rawData) == 0, 'unconfigured study')
                if chance(rng, 0.5) and cls is not B.OnlineStudy:
                    c = any_case(rng, kinds=({B.Study: 'study', B.HyperStudy: 'hyper', B.ChangepointStudy: 'cp'}[cls],))
                    for X in (L, E):
                        X.load(c.s.data, timestamps=c.s.ts, silent=True)
                        X.set(c.s.om.build(), gen.build_tm(c.s.spec, c.s.om.names), silent=True)
                        fit_mode(rng, X, c.mode)
                    same(rec, 'empty_study', observe(L, c), observe(E, c), 'fit of a loaded unconfigured study')
                continue
            c = pick_case(rng, int(rng.integers(4)))
            S = c.build(rng)
            prepared(rng, c, S, 'fitted')
            B.save(path, S)
            if j == 0:
                B.save(other, S)
                first = (c, observe(S, c))
            same(rec, 'overwritten_file', observe(B.load(path), c), observe(S, c), 'study saved over an existing file (%s)' % c.describe())
            if 'first' in locals():
                same(rec, 'overwritten_file', observe(B.load(other), first[0]), first[1], 'another file was changed')
            # saved again after going on
            plan = continuation(rng, c, len(S.rawData) if c.kind == 'online' else None)
            perform(S, plan)
            B.save(path, S)
            same(rec, 'saved_again', observe(B.load(path), c), observe(S, c), 'study saved again after continuing (%s)' % c.describe())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.situation('overwritten', c.describe() if 'c' in locals() else 'empty', j)


@CHECK.gen(20, 400)
def impossible(rng, rec, i):
    """A study whose data turned out to be impossible."""
    B = bl()
    c = any_case(rng, kinds=('study', 'hyper'), om_kinds={1: ['np1'], 2: ['np2'], 3: ['np3']})
    S = c.build(rng)
    fit_mode(rng, S, 'complete')
    args = [x for p in zip(c.s.om.names, c.s.om.user_grids) for x in p]
    S.set(B.om.NumPy(gen.arity(lambda data, *p: 0. * p[0], len(c.s.om.names)), *args, prior=None), silent=True)
    fit_mode(rng, S, c.mode)
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        path = os.path.join(tmp, 's')
        B.save(path, S)
        L = B.load(path)
        same(rec, 'after_impossible', observe(L, c), observe(S, c), 'impossible data')
        for X in (L, S):
            X.set(c.s.om.build(), silent=True)
            fit_mode(rng, X, c.mode)
        same(rec, 'after_impossible', observe(L, c), observe(S, c), 'possible data after impossible data')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.situation('impossible', c.describe())


@CHECK.gen(6, 60)
def fresh_interpreter(rng, rec, i):
    B = bl()
    import cloudpickle
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        jobs, cs = [], []
        for j in range(12):
            c = pick_case(rng, j)
            S = c.build(rng)
            state = pick(rng, ['fitted', 'fitted', 'unfitted'])
            k = prepared(rng, c, S, state)
            note(rec, c, state)
            path = os.path.join(tmp, 'f%d' % j)
            B.save(path, S)
            plan = continuation(rng, c, k)
            again = os.path.join(tmp, 'g%d' % j)
            jobs.append((path, View(c), plan, again))
            cs.append((c, S, plan, again))
        jp, op = os.path.join(tmp, 'jobs'), os.path.join(tmp, 'out')
        with open(jp, 'wb') as f:
            cloudpickle.dump(jobs, f)
        env = dict(os.environ, MPLBACKEND='Agg')
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c18_child.py'), jp, op], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)
        if p.returncode != 0:
            raise Violation('fresh_interpreter: loading in a new process failed: %s' % p.stdout.decode()[-600:])
        with open(op, 'rb') as f:
            out = pickle.load(f)
        for (c, S, plan, again), (s1, o1, s2, o2) in zip(cs, out):
            v = View(c)
            same(rec, 'fresh_interpreter', o1, observe(S, v), 'results in a new process (%s)' % c.describe(), rtol=1e-12, atol=1e-300)
            same(rec, 'fresh_interpreter', s1, settings(S, v), 'settings in a new process', rtol=1e-12, atol=1e-300)
            perform(S, plan)
            same(rec, 'fresh_continuation', o2, observe(S, v), 'continuation in a new process (%s)' % c.describe(), rtol=1e-10, atol=1e-300)
            same(rec, 'fresh_continuation', observe(B.load(again), v), o2, 'study saved by another process', rtol=1e-12, atol=1e-300)
            rec.situation('fresh', c.describe(), *[q[0] for q in plan])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
