"""C15: the result of an analysis does not depend on what happened before on the same study."""
import copy

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C15', 'distinct operation sequences (configuration changes, fits, failures, optimisations) on one study object; every successful fit is compared with that of a fresh study',
              ['up to about 12 operations per history', 'observation through the public results and read-outs'])
CHECK.required = ['equals_fresh_study', 'user_values_in_place', 'reused_model_object', 'after_failed_fit', 'after_impossible_fit', 'after_optimize', 'changed_data', 'changed_time_stamps',
                  'changed_observation_model', 'changed_transition_model', 'changed_mode', 'same_settings_again', 'stale_results', 'study_type_study', 'study_type_hyper', 'study_type_cp']

TOL = dict(rtol=1e-9, atol=1e-12)


def similar(rng, spec, tag):
    """Transition model that differs from the given one in the names and in one value of one hyper-parameter only."""
    flat = [(n, v) for n, v, _ in ref.flat(spec)]
    pts = [n for k in points(spec) for n, _ in k]
    new = [v for _, v in flat]
    free = [k for k, (n, v) in enumerate(flat) if n not in pts and not isinstance(v, str)]
    if any(np.size(v) > 1 for _, v in flat) and chance(rng, 0.3):
        return rename(other_priors(rng, spec), tag)
    if free:
        k = pick(rng, free)
        v = np.array(new[k], dtype=float)
        f = 1. + pick(rng, [1e-3, 0.1])
        if v.ndim:
            j = int(rng.integers(len(v)))
            v[j] *= f
            new[k] = v
        else:
            new[k] = float(v * f)
    return rename(ref.with_values(spec, new), tag)


def other_priors(rng, spec):
    """The same transition model with other hyper-priors."""
    s = dict(spec)
    if 'v' in s and s['k'] != 'serial':
        s['pr'] = [gen.gen_hyper_prior(rng, np.asarray(v), ('array', 'func')) if np.size(v) > 1 and not isinstance(v, str) else p for v, p in zip(s['v'], s['pr'])]
    for k in ('m', 'b'):
        if k in s:
            s[k] = [other_priors(rng, x) for x in s[k]]
    return s


def rename(spec, tag):
    s = dict(spec)
    if 'n' in s:
        s['n'] = [tag + n for n in s['n']]
    for k in ('m', 'b'):
        if k in s:
            s[k] = [rename(x, tag) for x in s[k]]
    return s


class Family(object):
    """Observation models with the same parameters, data sets and transition models that can be combined freely."""

    def __init__(self, rng, kind, tag):
        self.kind = kind
        om = gen.gen_om(rng, ndim=pick(rng, [1, 1, 2]), kinds=gen.CHEAP if kind != 'study' else None, irregular=0.1)
        self.oms = [om]
        for _ in range(int(rng.integers(1, 3))):
            self.oms.append(gen.variant(rng, om) if chance(rng, 0.5) else gen.gen_om(rng, kinds=[om.kind], names=om.names, irregular=0.1))
        if any(len(o.grids) != len(om.grids) or o.seg != om.seg or o.names != om.names for o in self.oms):
            raise Skip('different parameters')
        self.datas = []
        lengths = [int(rng.integers(3, 9)) + om.seg - 1]
        lengths.append(lengths[0] if chance(rng, 0.5) else int(rng.integers(3, 9)) + om.seg - 1)
        dims = pick(rng, [1, 1, 2]) if om.multiply else None
        for n in lengths:
            if self.datas and len(self.datas[0][0]) == n and chance(rng, 0.5):
                d = np.array(self.datas[0][0])          # differs from the first data set in one value only
                k = int(rng.integers(n))
                d[k] = om.data(rng, n, dims=dims)[k]
            else:
                d = om.data(rng, n, dims=dims, missing=pick(rng, [0., 0., 0.2]))
            for ts in [gen.gen_timestamps(rng, n), gen.gen_timestamps(rng, n)][:int(rng.integers(1, 3))]:
                self.datas.append((d, ts))
        # the default prior array has the shape of its own grid
        self.tms = []
        for j in range(int(rng.integers(2, 4))):
            o = pick(rng, self.oms)
            d, ts = pick(rng, self.datas)
            tsf = gen.formatted(ts, len(d), o.seg)
            for _ in range(40):
                if kind == 'cp':
                    g = gen.TMGen(rng, o, tsf, hyper=True, max_values=2, prefix='%s%dh' % (tag, j))
                    sp = cp_spec(rng, g)
                else:
                    g = gen.TMGen(rng, o, tsf, hyper=kind == 'hyper', max_values=3, prefix='%s%dh' % (tag, j))
                    sp = g.spec(1, None, 0.4)
                    if self.tms and chance(rng, 0.5):
                        # names are often kept if only the values are adjusted
                        sp = similar(rng, self.tms[-1], pick(rng, ['%s%d' % (tag, j), '']))
                if all(self.usable(sp, dt) for dt in self.datas):
                    break
            else:
                raise Skip('no transition model')
            self.tms.append(sp)

    def usable(self, sp, dt):
        d, ts = dt
        tsf = gen.formatted(ts, len(d), self.oms[0].seg)
        n = n_combos(sp, tsf)
        if n > 30:
            return False
        if self.kind == 'hyper':
            return not points_collide(sp, tsf)
        if self.kind == 'cp':
            m = cp_mask(sp)
            return serial_first_values_ok(sp, tsf) and any(m(c) for c in ref.hyper_grid(sp, tsf)[0])
        return True


def make_case(fam, o, d, k, mode):
    s = Scenario()
    s.om = fam.oms[o]
    s.data, s.ts = fam.datas[d]
    s.spec = fam.tms[k]
    s.T = len(s.data)
    s.tsf = gen.formatted(s.ts, s.T, s.om.seg)
    s.flags, s.alpha = [], False
    c = Case(fam.kind, s)
    c.mode = mode
    return c


class Driver(object):
    """One study object and what is currently configured."""

    def __init__(self, rng, rec, kind, fams):
        B = bl()
        self.rng, self.rec, self.kind, self.fams = rng, rec, kind, fams
        self.S = {'study': B.Study, 'hyper': B.HyperStudy, 'cp': B.ChangepointStudy}[kind](silent=True)
        self.objects = {}
        self.set = dict(om=None, data=None, tm=None)     # (family, index) currently configured
        self.values = {}                                 # hyper-parameter values of optimised transition models
        self.log = []
        self.last = None

    def obj(self, what, key):
        """Model objects are built once and used again."""
        if (what, key) in self.objects:
            self.rec.count('reused_model_object')
        else:
            f, k = key
            fam = self.fams[f]
            self.objects[what, key] = fam.oms[k].build() if what == 'om' else gen.build_tm(fam.tms[k], fam.oms[0].names)
        return self.objects[what, key]

    def configure(self, want, force=()):
        rng, S = self.rng, self.S
        todo = [w for w in ('om', 'data', 'tm') if self.set[w] != want[w] or w in force or chance(rng, 0.1)]
        for w in [todo[i] for i in rng.permutation(len(todo))]:
            f, k = want[w]
            if w == 'data':
                d, ts = self.fams[f].datas[k]
                pick(rng, [S.load, S.loadData])(d, timestamps=ts, silent=True)
            elif w == 'om':
                pick(rng, [S.setOM, S.setObservationModel, S.set])(self.obj('om', (f, k)), silent=True)
            else:
                pick(rng, [S.setTM, S.setTransitionModel, S.set])(self.obj('tm', (f, k)), silent=True)
            self.set[w] = want[w]

    def choose(self):
        """Next settings: change one or all of them."""
        rng = self.rng
        cur = self.set
        if cur['om'] is None or chance(rng, 0.2):
            f = int(rng.integers(len(self.fams)))
            fam = self.fams[f]
            return dict(om=(f, int(rng.integers(len(fam.oms)))), data=(f, int(rng.integers(len(fam.datas)))), tm=(f, int(rng.integers(len(fam.tms)))))
        f = cur['om'][0]
        fam = self.fams[f]
        want = dict(cur)
        r = pick(rng, ['om', 'data', 'tm', 'tm', 'none'])
        if r == 'om':
            want['om'] = (f, int(rng.integers(len(fam.oms))))
        elif r == 'data':
            want['data'] = (f, int(rng.integers(len(fam.datas))))
        elif r == 'tm':
            want['tm'] = (f, int(rng.integers(len(fam.tms))))
        return want

    def spec_values(self, fam, tm):
        """Hyper-parameter values as set by the user (or by an optimisation)."""
        flat = ref.flat(fam.tms[tm[1]])
        return [self.values.get((tm, n), v) for n, v, _ in flat]

    def check_values(self):
        tm = self.set['tm']
        fam = self.fams[tm[0]]
        for (n, _, _), v in zip(ref.flat(fam.tms[tm[1]]), self.spec_values(fam, tm)):
            got = self.S.getHyperParameterValue(n)
            self.rec.check('user_values_in_place', _same(got, v, 0, 0), lambda: 'value of %s is %r after the fit, was %r (history %s)' % (n, got, v, self.log))

    def fit(self, mode=None):
        rng, rec = self.rng, self.rec
        want = self.choose()
        for w, m in (('om', 'changed_observation_model'), ('tm', 'changed_transition_model')):
            if self.set[w] is not None and want[w] != self.set[w]:
                rec.count(m)
        if self.set['data'] is not None and want['data'] != self.set['data']:
            a, b = [self.fams[x[0]].datas[x[1]] for x in (want['data'], self.set['data'])]
            rec.count('changed_data' if a[0] is not b[0] else 'changed_time_stamps')
        if want == self.set:
            rec.count('same_settings_again')
        self.configure(want)
        mode = mode or pick(rng, ['complete', 'complete', 'forward', 'evidence'])
        if self.last is not None and mode != self.last:
            rec.count('changed_mode')
        fit_mode(rng, self.S, mode)
        self.log.append(('fit', mode, want['om'], want['data'], want['tm']))
        self.compare(mode)
        self.last = mode

    def compare(self, mode):
        rng, rec = self.rng, self.rec
        f, o = self.set['om']
        c = make_case(self.fams[f], o, self.set['data'][1], self.set['tm'][1], mode)
        c.s.spec = ref.with_values(c.s.spec, self.spec_values(self.fams[f], self.set['tm'])) if ref.flat(c.s.spec) and self.kind == 'study' else c.s.spec
        F = c.build(rng)
        fit_mode(rng, F, mode)
        a, b = observe(self.S, c), observe(F, c)
        same(rec, 'equals_fresh_study', a, b, 'history %s vs fresh study' % self.log, **TOL)
        if mode == 'evidence':
            rec.check('stale_results', len(self.S.posteriorSequence) == 0 and len(self.S.posteriorMeanValues) == 0,
                      lambda: 'distributions left over after an evidence-only fit, history %s' % self.log)
        self.check_values()

    def impossible(self):
        """Fit with a likelihood that is zero (from some data point on)."""
        rng, rec, S = self.rng, self.rec, self.S
        want = self.choose()
        self.configure(want)
        f, o = want['om']
        om = self.fams[f].oms[o]
        B = bl()
        n = len(self.fams[f].datas[want['data'][1]][0])
        stop = int(rng.integers(0, n))
        cnt = [0]

        def zero(data, *p):
            cnt[0] += 1
            return np.ones_like(p[0]) * (1. if cnt[0] <= stop else 0.)
        args = [x for p in zip(om.names, om.user_grids) for x in p]
        S.set(B.om.NumPy(gen.arity(zero, len(om.names)), *args, prior=None), silent=True)
        self.set['om'] = None
        mode = pick(rng, ['complete', 'forward', 'evidence'])
        d = self.fams[f].datas[want['data'][1]][0]
        if np.isnan(np.asarray(d, float)).any():
            stop = 0
        try:
            fit_mode(rng, S, mode)
        except Exception as e:
            raise Violation('impossible data: %r, history %s' % (e, self.log))
        if stop == 0 and np.isnan(np.asarray(d, float)).any():
            pass
        elif om.seg == 1 or stop == 0:
            if self.kind == 'study':
                rec.check('impossible_evidence', S.logEvidence == -np.inf and len(S.posteriorSequence) == 0 and len(S.posteriorMeanValues) == 0, lambda: 'impossible data: log-evidence %r' % S.logEvidence)
        self.log.append(('impossible', mode))
        rec.count('after_impossible_fit')
        self.configure(dict(want), force=('om',))
        self.check_values()

    def failing(self):
        """Something that raises an error in the middle of a fit or while configuring."""
        from bayesloop.exceptions import ConfigurationError
        rng, rec, S = self.rng, self.rec, self.S
        B = bl()
        want = self.choose()
        self.configure(want)
        f, o = want['om']
        om = self.fams[f].oms[o]
        how = pick(rng, ['likelihood', 'likelihood', 'duplicate', 'breakpoint', 'badload', 'prior', 'two', 'unknown', 'estimate', 'optimize'])
        args = [x for p in zip(om.names, om.user_grids) for x in p]
        force = []
        if how == 'likelihood':
            cnt = [0]
            stop = int(rng.integers(0, 12))

            def bad(data, *p):
                cnt[0] += 1
                if cnt[0] > stop:
                    raise ZeroDivisionError('injected')
                return 1. / (1. + p[0] ** 2)
            S.set(B.om.NumPy(gen.arity(bad, len(om.names)), *args, prior=None), silent=True)
            attempt(lambda: fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence'])))
            self.check_values()
            force = ['om']
        elif how == 'duplicate':
            S.set(B.tm.CombinedTransitionModel(B.tm.GaussianRandomWalk('dup', 1., target=om.names[0]), B.tm.RegimeSwitch('dup', -3)), silent=True)
            rec.raises('refused', ConfigurationError, lambda: fit_mode(rng, S, 'complete'), 'duplicate hyper-parameter names')
            force = ['tm']
        elif how == 'breakpoint':
            rec.raises('refused', ConfigurationError, lambda: S.setTM(B.tm.BreakPoint('tb', 2), silent=True), 'bare break-point')
            if chance(rng, 0.5):
                self.log.append(('fail', how))
                return self.fit()            # the former transition model is still in place
        elif how == 'badload':
            rec.raises('refused', ConfigurationError, lambda: S.load((1, 2, 3), silent=True), 'data as tuple')
        elif how == 'prior':
            S.set(B.om.NumPy(gen.arity(lambda data, *p: 1. / (1. + p[0] ** 2), len(om.names)), *args, prior=np.ones(tuple(n + 1 for n in om.shape))), silent=True)
            rec.raises('refused', ConfigurationError, lambda: fit_mode(rng, S, 'complete'), 'prior of wrong shape')
            force = ['om']
        elif how == 'two':
            rec.raises('refused', ConfigurationError, lambda: S.set(om.build(), om.build(), silent=True), 'two observation models')
            force = ['om']
        elif how == 'unknown':
            rec.raises('refused', ConfigurationError, lambda: S.set('nothing', silent=True), 'not a model')
        elif how == 'estimate':
            attempt(lambda: S.setOM(B.om.NumPy(gen.arity(lambda data, *p: 1., len(om.names)), *[x for n in om.names for x in (n, None)]), silent=True))
            force = ['om']
        elif how == 'optimize':
            attempt(lambda: S.optimize(['no such name']))
        self.log.append(('fail', how))
        rec.count('after_failed_fit')
        self.configure(dict(want), force=force)

    def optimize(self):
        rng, rec, S = self.rng, self.rec, self.S
        want = self.choose()
        self.configure(want)
        tm = want['tm']
        fam = self.fams[tm[0]]
        sp = fam.tms[tm[1]]
        names = [n for n, v, _ in ref.flat(sp) if n not in [m for k in points(sp) for m, _ in k]]
        if not names or set(ref.kinds(sp)) & {'alpha', 'biv'}:
            return
        sel = [n for n in names if chance(rng, 0.6)] or [names[0]]
        fo = chance(rng, 0.5)
        try:
            S.optimize(sel if chance(rng, 0.7) else sel[0], forwardOnly=fo, maxiter=2)
        except Exception:
            try:
                S.optimize(sel, forwardOnly=fo)
            except Exception as e:
                self.log.append(('optimize failed', type(e).__name__))
                self.objects.pop(('tm', tm), None)
                self.set['tm'] = None
                for n in names:
                    self.values.pop((tm, n), None)
                return
        for n in names:
            self.values[tm, n] = S.getHyperParameterValue(n)
        self.log.append(('optimize', sel))
        rec.count('after_optimize')
        self.compare('forward' if fo else 'complete')

    def queries(self):
        """Read-outs between the fits."""
        rng, S = self.rng, self.S
        if self.set['om'] is None or None in self.set.values():
            return
        f, o = self.set['om']
        om = self.fams[f].oms[o]
        n = pick(rng, om.names)
        for _ in range(int(rng.integers(1, 4))):
            attempt(pick(rng, [lambda: S.getPDs(n), lambda: S.getPD('avg', n), lambda: S.eval('%s > 0' % n, t=0, silent=True), lambda: S.plot(n), lambda: S.getPD(10 ** 6, n),
                               lambda: S.simulate([0, 1]), lambda: S.plot('nosuch'), lambda: S.getHPD('nosuch'), lambda: S.fit(unknown=3)]))
        self.log.append('queries')


from studies import _same  # noqa: E402


@CHECK.gen(450, 9000)
def histories(rng, rec, i):
    kind = ['study', 'hyper', 'cp'][i % 3]
    fams = [Family(rng, kind, 'a')] + ([Family(rng, kind, 'b')] if chance(rng, 0.6) else [])
    D = Driver(rng, rec, kind, fams)
    rec.count('study_type_' + kind)
    for _ in range(int(rng.integers(2, 9 if kind == 'study' else 6))):
        r = rng.random()
        if r < 0.55 or D.set['om'] is None:
            D.fit()
        elif r < 0.67:
            D.impossible()
        elif r < 0.82:
            D.failing()
        elif r < 0.9 and kind == 'study':
            D.optimize()
        else:
            D.queries()
    D.fit()
    rec.situation(kind, *[repr(x) for x in D.log])


@CHECK.gen(180, 3600)
def repeated(rng, rec, i):
    """The same fit again, also in other modes in between, changes nothing."""
    c = any_case(rng, kinds=('study', 'hyper', 'cp'))
    S = c.build(rng)
    fit_mode(rng, S, c.mode)
    a = observe(S, c)
    for _ in range(int(rng.integers(1, 3))):
        for m in [pick(rng, ['complete', 'forward', 'evidence']) for _ in range(int(rng.integers(0, 3)))]:
            fit_mode(rng, S, m)
        fit_mode(rng, S, c.mode)
        same(rec, 'same_settings_again', observe(S, c), a, 'repeated fit ' + c.describe(), **TOL)
    rec.situation('repeat', c.describe())


@CHECK.gen(180, 3600)
def moved(rng, rec, i):
    """Transition and observation model objects used in another study (of another type, with another grid) before."""
    c = any_case(rng, kinds=('study', 'hyper'))
    om, tm = c.s.om.build(), gen.build_tm(c.s.spec, c.s.om.names)
    B = bl()
    # first life of the objects
    for _ in range(int(rng.integers(1, 3))):
        r = rng.random()
        other = gen.gen_om(rng, kinds=[c.s.om.kind], names=c.s.om.names) if chance(rng, 0.7) else c.s.om
        if list(other.names) != list(c.s.om.names):
            continue
        if r < 0.6:
            cls = pick(rng, [B.Study, B.HyperStudy]) if c.kind == 'hyper' else pick(rng, [B.Study, B.HyperStudy])
            if c.kind == 'hyper' and cls is B.Study:
                cls = B.HyperStudy
            X = cls(silent=True)
            d = other.data(rng, int(rng.integers(2, 7)) + other.seg - 1)
            X.load(d, silent=True)
            X.set(om if other is c.s.om else other.build(), tm, silent=True)
            attempt(lambda: fit_mode(rng, X, pick(rng, ['complete', 'forward', 'evidence'])))
        elif not any(isinstance(v, str) for _, v, _ in ref.flat(c.s.spec)):
            X = B.OnlineStudy(storeHistory=True, silent=True)
            X.set(om if other is c.s.om else other.build(), silent=True)
            X.add('model', tm)
            for x in other.data(rng, int(rng.integers(1, 6))):
                X.step(x)
    S = c.build(rng, om=om, tms=[tm])
    fit_mode(rng, S, c.mode)
    F = c.build(rng)
    fit_mode(rng, F, c.mode)
    same(rec, 'reused_model_object', observe(S, c), observe(F, c), 'models used in another study before ' + c.describe(), **TOL)
    rec.situation('moved', c.describe())
