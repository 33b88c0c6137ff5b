"""C17: studies are isolated from each other and user inputs are never modified."""
import copy

import numpy as np

import gen
import ref
import threads
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C17', 'distinct (set of 2-3 studies, shared objects, interleaving of their operations) combinations, and distinct (study, inputs) combinations with fingerprinted or write-protected inputs',
              ['a transition model shared with a study that optimises it is excluded (its values are then changed on request)'])
CHECK.required = ['inputs_unchanged', 'write_protected', 'interleaved_equals_isolated', 'later_studies', 'shared_observation_model', 'shared_transition_model', 'shared_data', 'with_online', 'with_hyper', 'with_cp',
                  'with_study', 'returned_axes', 'prior_object_shared', 'hyper_prior_shared', 'shared_sub_models', 'other_values', 'turns', 'thread_switches', 'in_threads']
TOL = dict(rtol=1e-9, atol=1e-12)
gen.RAW[0] = True          # the data object itself is observed


def revalued(rng, spec):
    """Same structure and names, other hyper-parameter values."""
    q = dict(spec)
    if 'm' in q:
        q['m'] = [revalued(rng, m) for m in q['m']]
    if q['k'] in ('grw', 'biv', 'alpha', 'regime', 'noteq', 'det'):
        vs = []
        for j, v in enumerate(q['v']):
            f = -1. if (q['k'], j) == ('biv', 2) else (1. if (q['k'], j) == ('alpha', 1) else pick(rng, [0.5, 0.8, 1.25, 1.5]))
            if q['k'] in ('regime', 'noteq'):
                f = 1. + 0.1 * rng.random()
            vs.append(type(v)(f * x for x in v) if isinstance(v, (list, tuple)) else f * v)
        q['v'] = vs
    return q


def inputs(c):
    """All mutable objects the user passes to the library."""
    s = c.s
    out = [('data', s.data), ('timestamps', s.ts)]
    out += [('grid %d' % i, g) for i, g in enumerate(s.om.user_grids)]
    out.append(('prior', s.om.prior.obj))
    for sp in (c.specs if c.kind == 'online' else [s.spec]):
        for n, v, p in ref.flat(sp):
            out.append(('values of ' + n, v))
            out.append(('hyper-prior of ' + n, None if p is None else p.obj))
    if c.kind == 'online':
        out.append(('model prior', c.tm_prior))
    out.append(('fixed parameters', getattr(s.om, 'fixed', None)))
    return [(n, v) for n, v in out if isinstance(v, (list, np.ndarray, dict))]


def fingerprint(v):
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.strides, v.tobytes() if v.dtype != object else repr(v.tolist()), v.flags.writeable)
    if isinstance(v, dict):
        return ('dict', [(repr(k), fingerprint(x) if isinstance(x, (list, np.ndarray)) else repr(x)) for k, x in v.items()])
    return (type(v).__name__, [fingerprint(x) if isinstance(x, (list, np.ndarray)) else repr(x) for x in v])


def check_inputs(rec, before, when):
    for n, v, f in before:
        rec.check('inputs_unchanged', fingerprint(v) == f, lambda: '%s was modified (%s)' % (n, when))


def protect(v, on):
    if isinstance(v, np.ndarray):
        v.flags.writeable = not on


def use(rng, rec, S, c):
    """Random read-outs."""
    names, hn = c.s.om.names, c.names()
    import matplotlib.pyplot as plt
    for _ in range(int(rng.integers(0, 4))):
        n = pick(rng, names)
        h = pick(rng, hn) if hn else 'nosuch'
        attempt(pick(rng, [lambda: S.getPDs(n), lambda: S.getPD(c.s.tsf[-1], n), lambda: S.plot(n), lambda: S.eval('%s > 0' % n, t=c.s.tsf[0], silent=True), lambda: S.getHPD(h), lambda: S.getCHPD(h),
                           lambda: S.simulate(np.array([0., 1.])), lambda: S.getHyperParameterValue(h), lambda: S.plot(h)]))
    plt.close('all')


@CHECK.gen(240, 4800)
def unmodified(rng, rec, i):
    kind = ['study', 'hyper', 'cp', 'online'][i % 4]
    c = any_case(rng, kinds=(kind,))
    c.python_scalars = False
    ins = inputs(c)
    prot = chance(rng, 0.5)
    was = [(v, v.flags.writeable) for _, v in ins if isinstance(v, np.ndarray)]
    if prot:
        for _, v in ins:
            protect(v, True)
        rec.count('write_protected')
    before = [(n, v, fingerprint(v)) for n, v in ins]
    try:
        S = c.build(rng)
        check_inputs(rec, before, 'configuration of ' + c.describe())
        if c.kind == 'online':
            for x in c.s.data:
                S.step(x)
        else:
            fit_mode(rng, S, c.mode)
        check_inputs(rec, before, 'analysis with ' + c.describe())
        use(rng, rec, S, c)
        observe(S, c)
        check_inputs(rec, before, 'read-outs of ' + c.describe())
        if c.kind == 'study' and chance(rng, 0.2) and not set(ref.kinds(c.s.spec)) & {'alpha', 'biv'}:
            attempt(lambda: S.optimize())
            check_inputs(rec, before, 'optimisation of ' + c.describe())
        elif c.kind != 'online':
            fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence']))
            check_inputs(rec, before, 'second fit of ' + c.describe())
    finally:
        for v, w in was:
            v.flags.writeable = w
    rec.situation('inputs', c.describe(), prot)


def related(rng, a, prefix=None):
    """Another case that may share model objects and data with case a."""
    s = a.s
    share = set()
    kinds = {'study': ['study', 'hyper', 'online'], 'hyper': ['hyper', 'online'], 'cp': ['cp'], 'online': ['online', 'hyper']}[a.kind]
    specs = a.specs if a.kind == 'online' else [s.spec]
    if any(isinstance(v, str) for sp in specs for _, v, _ in ref.flat(sp)):
        kinds = [k for k in kinds if k != 'online']
    kind = pick(rng, kinds)
    if kind != 'online' and a.kind == 'online' and points_collide(a.specs[0], s.tsf):
        kind = 'online'
    q = Scenario()
    q.__dict__.update(s.__dict__)
    share.add('tm')
    if chance(rng, 0.6):
        share.add('om')
    else:
        om = gen.gen_om(rng, kinds=[s.om.kind], names=s.om.names)
        if list(om.names) != list(s.om.names) or len(om.grids) != len(s.om.grids):
            share.add('om')
        else:
            q.om = om
    if chance(rng, 0.5):
        share.add('data')
    elif a.kind != 'cp':
        n = int(rng.integers(2, 8)) + s.om.seg - 1
        q.data, q.ts = q.om.data(rng, n, dims=1 if s.data.ndim == 1 else s.data.shape[1]), None
        q.T = n
        q.tsf = gen.formatted(q.ts, q.T, q.om.seg)
        if kind == 'hyper' and points_collide(specs[0], q.tsf):
            q.data, q.ts, q.T, q.tsf = s.data, s.ts, s.T, s.tsf
            share.add('data')
    else:
        share.add('data')
    if kind == 'online':
        q.ts = None
        q.tsf = gen.formatted(None, q.T, q.om.seg)
    b = Case(kind, q)
    b.mode = pick(rng, ['complete', 'forward', 'evidence'])
    if kind == 'online':
        b.specs = list(specs)
        b.tm_prior = None
        b.tm_names = ['m%d' % k for k in range(len(specs))]
        b.history, b.single, b.python_scalars = chance(rng, 0.7), False, False
    elif a.kind == 'online':
        q.spec = a.specs[0]
    r = rng.random()
    if r < 0.25:
        share.discard('tm')
    elif r < 0.5:
        # own transition models of the same kind with other values
        share.discard('tm')
        share.add('other values')
        if b.kind == 'online':
            b.specs = [revalued(rng, sp) for sp in b.specs]
            b.s.spec = b.specs[0]
        else:
            q.spec = revalued(rng, q.spec)
    return b, share


class Run(object):
    """One study with its list of pending operations."""

    def __init__(self, c, om, tms, ops):
        self.c, self.om, self.tms, self.ops = c, om, tms, ops
        self.S = None
        self.k = 0
        self.result = None

    def execute(self, rng, rec, op):
        c = self.c
        if op == 'build':
            self.S = c.build(rng, om=self.om, tms=self.tms)
        elif op == 'use':
            use(rng, rec, self.S, c)
        elif op == 'step':
            self.S.step(c.point(c.s.data[self.k]))
            self.k += 1
        else:
            attempt(lambda: fit_mode(rng, self.S, op))


def operations(rng, c):
    if c.kind == 'online':
        ops = ['build']
        for _ in range(len(c.s.data)):
            ops.append('step')
            if chance(rng, 0.2):
                ops.append('use')
        return ops
    ops = ['build']
    for _ in range(int(rng.integers(0, 2))):
        ops.append(pick(rng, ['complete', 'forward', 'evidence']))
    ops.append(c.mode)
    if chance(rng, 0.4):
        ops.append('use')
    return ops


@CHECK.gen(260, 5200)
def interleaved(rng, rec, i):
    a = any_case(rng, kinds=(['study', 'hyper', 'cp', 'online'][i % 4],))
    a.python_scalars = False
    cases = [(a, set())]
    for _ in range(pick(rng, [1, 1, 2])):
        cases.append(related(rng, a))
    if a.kind == 'cp':
        cases = [(c, sh) for c, sh in cases if c.kind == 'cp']
    om0 = a.s.om.build()
    tms0 = [gen.build_tm(sp, a.s.om.names) for sp in (a.specs if a.kind == 'online' else [a.s.spec])]
    runs = []
    for k, (c, sh) in enumerate(cases):
        om = om0 if (k == 0 or 'om' in sh) else c.s.om.build()
        tms = tms0 if (k == 0 or 'tm' in sh) else [gen.build_tm(sp, c.s.om.names) for sp in (c.specs if c.kind == 'online' else [c.s.spec])]
        runs.append(Run(c, om, tms, operations(rng, c)))
        rec.count('with_' + c.kind)
        if k:
            for x, m in (('om', 'shared_observation_model'), ('tm', 'shared_transition_model'), ('data', 'shared_data'), ('other values', 'other_values')):
                if x in sh:
                    rec.count(m)
    trace = []
    pending = [list(r.ops) for r in runs]
    while any(pending):
        k = pick(rng, [j for j in range(len(runs)) if pending[j]])
        op = pending[k].pop(0)
        trace.append((k, op))
        runs[k].execute(rng, rec, op)
        if not pending[k]:
            runs[k].result = observe(runs[k].S, runs[k].c)
    for k, r in enumerate(runs):
        same(rec, 'later_studies', observe(r.S, r.c), r.result, 'results of study %d (%s) changed by other studies, trace %s' % (k, r.c.describe(), trace))
    # each of them alone, with objects of its own
    for k, r in enumerate(runs):
        c = r.c
        F = c.build(rng)
        if c.kind == 'online':
            for x in c.s.data:
                F.step(c.point(x))
        else:
            attempt(lambda: fit_mode(rng, F, c.mode))
        same(rec, 'interleaved_equals_isolated', r.result, observe(F, c), 'study %d (%s) vs isolated study, trace %s, shared %s'
             % (k, c.describe(), trace, cases[k][1]), **TOL)
    rec.situation('interleaved', *([r.c.describe() for r in runs] + trace))


@CHECK.gen(80, 1600)
def turns(rng, rec, i):
    """Two studies with own models of the same kind (other values, other grids), fitted or stepped in turns."""
    k = ['grw', 'biv', 'alpha', 'regime', 'noteq', 'det', 'cp', 'serial'][i % 8]
    kind = pick(rng, ['study', 'study', 'hyper', 'online'])
    cs = []
    for j in range(2):
        for _ in range(50):
            kw = dict(T=int(rng.integers(2, 7)), ndim=2 if k == 'biv' else pick(rng, [1, 2]), om_kinds=gen.MILD if k == 'alpha' else gen.CHEAP, tm_kinds=None if k == 'serial' else {k})
            if k == 'serial':
                kw['depth'] = 1
            if kind == 'online':
                c = online_case(rng, nmodels=1, depth=kw.pop('depth', 0), hyper=0.5, **{a: b for a, b in kw.items() if a != 'ndim'}, om=None if k != 'biv' else gen.gen_om(rng, ndim=2, kinds=gen.CHEAP))
                c.python_scalars = False
                sp = c.specs[0]
            else:
                s = (hyper_scenario if kind == 'hyper' else scenario)(rng, composite=1. if k == 'serial' else 0., **kw) if kind == 'study' else hyper_scenario(rng, 1, 9, composite=1. if k == 'serial' else 0., **kw)
                c = Case(kind, s)
                c.mode = pick(rng, ['complete', 'forward', 'evidence'])
                sp = s.spec
            if k in ref.kinds(sp) or k == 'serial':
                break
        cs.append(c)
    Ss = [c.build(rng) for c in cs]
    trace = []
    if kind == 'online':
        for t in range(max(len(c.s.data) for c in cs)):
            for j in (0, 1):
                if t < len(cs[j].s.data):
                    Ss[j].step(cs[j].point(cs[j].s.data[t]))
    else:
        for _ in range(3):
            for j in (0, 1):
                fit_mode(rng, Ss[j], cs[j].mode)
    res = [observe(S, c) for S, c in zip(Ss, cs)]
    for j, c in enumerate(cs):
        F = c.build(rng)
        c.run(rng, F)
        same(rec, 'turns', res[j], observe(F, c), 'study %d (%s) used in turns with %s' % (j, c.describe(), cs[1 - j].describe()), **TOL)
    rec.situation('turns', k, kind, [c.describe() for c in cs])


@CHECK.gen(90, 2000)
def in_threads(rng, rec, i):
    """Two or three studies, each configured and fitted (or stepped) in a thread of its own; control changes between the threads at random
    lines of the library. Data, priors and (stateless) observation models may be shared, transition models are not."""
    a = any_case(rng, kinds=(['study', 'online', 'hyper', 'study', 'cp', 'study'][i % 6],))
    a.python_scalars = False
    cases = [(a, set())]
    for _ in range(pick(rng, [1, 1, 2])):
        r = rng.random()
        if r < 0.4:
            b, sh = related(rng, a)
        elif r < 0.8:    # same models, other order of the data
            b, sh = copy.copy(a), {'om'} if chance(rng, 0.5) else set()
            b.s = copy.copy(a.s)
            b.s.data = np.array(a.s.data)[::-1].copy()
        else:
            b, sh = any_case(rng, kinds=('study', 'study', 'online', 'hyper')), set()
            b.python_scalars = False
        cases.append((b, sh))
    om0 = a.s.om.build()
    seeds = [int(x) for x in rng.integers(2**31, size=len(cases))]

    def job(k):
        c, sh = cases[k]
        om = om0 if (k == 0 or 'om' in sh) else c.s.om.build()
        tms = [gen.build_tm(sp, c.s.om.names) for sp in (c.specs if c.kind == 'online' else [c.s.spec])]

        def work():
            r = np.random.default_rng(seeds[k])
            S = c.build(r, om=om, tms=tms)
            if c.kind == 'online':
                for x in c.s.data:
                    S.step(c.point(x))
            else:
                attempt(lambda: fit_mode(r, S, c.mode))
            return S
        return work
    sched = threads.Scheduler(np.random.default_rng(seeds[0] + 1), len(cases), pick(rng, [0.02, 0.1, 0.5, 1.]))
    out = sched.run([job(k) for k in range(len(cases))])
    rec.count('thread_switches', sched.switches)
    for k, (c, sh) in enumerate(cases):
        if out[k][0] == 'error':
            raise out[k][1]
        F = job(k)()
        same(rec, 'in_threads', observe(out[k][1], c), observe(F, c), 'study %d (%s) in a thread next to %s vs alone, control changed at %s' % (
            k, c.describe(), [x[0].describe() for j, x in enumerate(cases) if j != k], sched.trace), **TOL)
    rec.situation('threads', sched.trace, *[c.describe() for c, _ in cases])


@CHECK.gen(60, 1200)
def shared_parts(rng, rec, i):
    """Elementary model objects, priors and arrays that are parts of several composed models."""
    B = bl()
    s = scenario(rng, ndim=1, om_kinds=gen.CHEAP, T=int(rng.integers(4, 8)), ts_kinds=('none', 'offset', 'gaps'), spec={'k': 'static'})
    om = s.om
    lc = ref.lattice_constant(om.grids[0])
    w = np.array([0.3, 0.9, 1.5]) * lc
    hp = np.array([1., 2., 3.])
    grw = {'k': 'grw', 'n': ['w'], 'v': [w], 'pr': [gen.HyperPrior('array', hp, lambda v, c: hp / hp.sum() / c)], 'ax': 0}
    vol = np.log10(lc) + np.log10(len(om.grids[0]))
    reg = {'k': 'regime', 'n': ['p'], 'v': [np.array([-2., -1.]) - vol], 'pr': [None]}
    t = s.tsf[len(s.tsf) // 2]
    specs = [{'k': 'comb', 'm': [grw, reg]}, {'k': 'serial', 'm': [grw, reg], 'b': [{'k': 'break', 'n': ['tb'], 'v': [t], 'pr': [None]}]}, grw, {'k': 'comb', 'm': [reg, grw]}]
    g, r = gen.build_tm(grw, om.names), gen.build_tm(reg, om.names)
    objs = [lambda: B.tm.CombinedTransitionModel(g, r), lambda: B.tm.SerialTransitionModel(g, B.tm.BreakPoint('tb', t), r), lambda: g, lambda: B.tm.CombinedTransitionModel(r, g)]
    rec.count('shared_sub_models')
    prior = None
    fps = [('w', w, fingerprint(w)), ('hp', hp, fingerprint(hp))]
    if isinstance(s.om.prior.obj, np.ndarray):
        rec.count('prior_object_shared')
    rec.count('hyper_prior_shared')
    studies = []
    for k in [int(x) for x in rng.permutation(len(specs))[:3]]:
        c = Case('hyper', Scenario())
        c.s.__dict__.update(s.__dict__)
        c.s.spec = specs[k]
        c.mode = pick(rng, ['complete', 'forward', 'evidence'])
        S = gen.make_study(rng, om, objs[k](), s.data, s.ts, cls=B.HyperStudy)
        studies.append((c, S))
    order = [int(x) for x in rng.integers(0, len(studies), 4)] + list(range(len(studies)))
    for k in order:
        c, S = studies[k]
        # a part shared by several models belongs to the study that is fitted
        S.set(S.transitionModel, silent=True) if chance(rng, 0.3) else None
        fit_mode(rng, S, c.mode)
    for c, S in studies:
        F = c.build(rng)
        fit_mode(rng, F, c.mode)
        same(rec, 'interleaved_equals_isolated', observe(S, c), observe(F, c), 'models with shared parts %s, order %s' % (c.describe(), order), **TOL)
    check_inputs(rec, fps, 'models with shared parts')
    rec.situation('parts', om.describe(), order, [gen.describe(c.s.spec) for c, _ in studies])


@CHECK.gen(60, 1200)
def returned_axes(rng, rec, i):
    """Values of parameters and hyper-parameters returned by read-outs are those given by the user, also after another study used the same objects."""
    a = any_case(rng, kinds=('hyper', 'study'))
    om, tm = a.s.om.build(), gen.build_tm(a.s.spec, a.s.om.names)
    S = a.build(rng, om=om, tms=[tm])
    fit_mode(rng, S, 'complete')
    if np.isneginf(S.logEvidence):
        return
    T = a.build(rng, om=om, tms=[tm])
    fit_mode(rng, T, pick(rng, ['complete', 'forward', 'evidence']))
    for X in (S,):
        for n, g in zip(a.s.om.names, a.s.om.grids):
            rec.close('returned_axes', X.getPDs(n)[0], g, 'parameter values', rtol=1e-12, atol=1e-300)
        for n, v, _ in ref.flat(a.s.spec):
            x = X.getHyperParameterValue(n)
            rec.check('returned_axes', (isinstance(v, str) and x == v) or np.array_equal(np.asarray(x, float), np.asarray(v, float)), lambda: 'value of %s is %r, given %r' % (n, x, v))
    rec.situation('axes', a.describe())
