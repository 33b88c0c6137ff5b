"""C16: reading out or plotting results changes nothing."""
import os
import shutil
import tempfile

import numpy as np

import gen
import ref
from common import *
from engine import Check, Violation, Skip
from gen import pick, chance, bl
from studies import *
from studies import _same

CHECK = Check('C16', 'distinct (study type, sequence of read-out calls incl. failing ones, continuation) combinations; all results are observed before and after each sequence',
              ['state is observed through all public results and through the continuation of the analysis next to an untouched twin'])
CHECK.required = ['results_unchanged', 'same_value_again', 'returned_values_unchanged', 'continued_analysis', 'settings_unchanged', 'modified_results_online', 'failing_calls', 'plots',
                  'arguments_unchanged', 'type_study', 'type_hyper', 'type_cp', 'type_online', 'saved', 'evaluated', 'simulated', 'empty_study']


def catalogue(rng, S, c, tmp, rec):
    """Random read-out call of a study: (description, function)."""
    B = bl()
    s = c.s
    names, hn = s.om.names, c.names()
    n = pick(rng, list(names) * 3 + ['nosuchname', 3])
    h = pick(rng, list(hn) * 3 + ['nosuchname'] + list(names)) if hn else 'nosuchname'
    t = pick(rng, list(s.tsf) * 2 + ['avg', s.tsf[-1] + 1, s.tsf[0] - 1, None, 0.123])
    d = chance(rng, 0.5)
    kw = pick(rng, [{}, {}, dict(color='r'), dict(c='g'), dict(gamma=1.), dict(t=t), dict(t=t, density=d), dict(nokw=3), dict(label='x', lw=2), dict(local=True)])
    pl = chance(rng, 0.3)
    two = [pick(rng, list(hn) + ['nosuchname']) for _ in range(pick(rng, [2, 2, 2, 1, 3]))] if hn else ['a', 'b']
    x = pick(rng, [[0, 1, 2], np.array([0., 1.]), [1.], [], 'ab', list(np.ravel(s.data)[:2])])
    q = pick(rng, ['%s > 0.3' % n, '%s*2 + 1' % n, '%s@%s < %s@%s' % (names[0], s.tsf[0], names[-1], s.tsf[-1]), 'exp(%s) < 2' % names[0], '%s +' % n, 'foo > 3', '%s > 1' % h,
                   '(%s + %s)*2 > 0' % (names[0], names[-1]), '%s - %s' % (h, names[0]), '1 > 0'])
    tt = pick(rng, [None, t, s.tsf[0]])
    L = [('getPD', lambda: pick(rng, [S.getPD, S.getParameterDistribution])(t, n, plot=pl, density=d)),
         ('getPDs', lambda: pick(rng, [S.getPDs, S.getParameterDistributions])(n, plot=pl, density=d)),
         ('means', lambda: S.getParameterMeanValues(n)),
         ('plot', lambda: S.plot(pick(rng, [n, h]), **dict(kw))),
         ('evolution', lambda: S.plotParameterEvolution(n)),
         ('value', lambda: S.getHyperParameterValue(h)),
         ('simulate', lambda: S.simulate(x, t=pick(rng, [None, t]), density=d)),
         ('eval', lambda: S.eval(q, t=tt, silent=chance(rng, 0.5))),
         ('parser', lambda: B.Parser(S)(q, t=tt, silent=True)),
         ('save', lambda: B.save(os.path.join(tmp, 'f%d.bl' % rng.integers(3)), S)),
         ('log10', lambda: S.log10Evidence),
         ('repr', lambda: repr(S) + str(S.observationModel) + str(S.transitionModel))]
    if c.kind in ('hyper', 'cp'):
        keep = list(two)
        L += [('getHPD', lambda: pick(rng, [S.getHPD, S.getHyperParameterDistribution])(h, plot=pl)),
              ('getJHPD', lambda: [pick(rng, [S.getJHPD, S.getJointHyperParameterDistribution])(two, plot=pl),
                                   rec.check('arguments_unchanged', two == keep, 'list of names was modified')][0]),
              ('optimize', lambda: S.optimize())]
    if c.kind == 'cp':
        pn = c.point_names()
        p2 = [pick(rng, pn) for _ in range(2)]
        keep2 = list(p2)
        L += [('getDD', lambda: [pick(rng, [S.getDD, S.getDurationDistribution])(p2, plot=pl), rec.check('arguments_unchanged', p2 == keep2, 'list of names was modified')][0])] * 2
    if c.kind == 'online':
        m = pick(rng, list(c.tm_names) + ['nosuchmodel'])
        loc = chance(rng, 0.5)
        L += [('getCPD', lambda: S.getCPD(n, plot=pl, density=d)), ('CPM', lambda: S.getCurrentParameterMeanValue(n)), ('PM', lambda: S.getParameterMeanValue(t, n)),
              ('CTMD', lambda: S.getCTMD(local=loc)[1]), ('CTMP', lambda: S.getCTMP(m, local=loc)), ('TMDs', lambda: S.getTransitionModelDistributions(local=loc)[1]),
              ('TMPs', lambda: S.getTMPs(m, local=loc)), ('HPM', lambda: S.getHyperParameterMeanValue(t, h)), ('HPMs', lambda: S.getHyperParameterMeanValues(h)),
              ('HPD', lambda: S.getHPD(t, h, plot=pl)), ('CHPD', lambda: S.getCHPD(h, plot=pl)), ('HPDs', lambda: S.getHPDs(h)), ('plotH', lambda: S.plotHyperParameterEvolution(h)),
              ('plotM', lambda: S.plot(m, **dict(kw))), ('fit', lambda: S.fit()), ('JHPD', lambda: S.getJHPD(two))]
    k = int(rng.integers(len(L)))
    desc, fn = L[k]
    return desc, fn


def settings(S, c):
    o = {}
    o['tm'], o['om'] = id(S.transitionModel), id(S.observationModel)
    o['names'] = list(S.observationModel.parameterNames)
    o['marginalGrid'] = freeze(list(S.marginalGrid))
    o['lattice'] = list(S.latticeConstant)
    o['raw'] = np.array(S.rawData)
    o['ts'] = None if S.formattedTimestamps is None else [float(x) for x in S.formattedTimestamps]
    for n in c.names():
        o['hp', n] = freeze(attempt(lambda: S.getHyperParameterValue(n))) if c.kind != 'online' else None
    return o


def call(fn):
    import matplotlib.pyplot as plt
    r = attempt(fn)
    plt.close('all')
    return r


def session(rng, rec, S, c, n, observe_every=0.3):
    """Random sequence of calls. Returns (log, returned values)."""
    tmp = tempfile.mkdtemp(prefix='c16_')
    log, kept = [], []
    try:
        before, conf = observe(S, c), settings(S, c)
        for _ in range(n):
            desc, fn = catalogue(rng, S, c, tmp, rec)
            st = rng.bit_generator.state
            r = call(fn)
            log.append(desc if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and r[0] == 'EXC') else '%s!%s' % (desc, r[1]))
            f = freeze(r)
            kept.append((desc, r, f))
            if log[-1] != desc:
                rec.count('failing_calls')
            rec.count({'plot': 'plots', 'evolution': 'plots', 'plotH': 'plots', 'plotM': 'plots', 'save': 'saved', 'eval': 'evaluated', 'parser': 'evaluated', 'simulate': 'simulated'}.get(desc, 'other_calls'))
            if chance(rng, 0.4):
                keep = rng.bit_generator.state
                rng.bit_generator.state = st
                r2 = call(fn)
                rng.bit_generator.state = keep
                rec.check('same_value_again', _same(f, freeze(r2), 0, 0) or desc == 'save', lambda: '%s returned something else when called again: %.200r vs %.200r, %s' % (desc, f, r2, log))
            if chance(rng, observe_every):
                same(rec, 'results_unchanged', observe(S, c), before, 'after %s (%s)' % (log, c.describe()))
        same(rec, 'results_unchanged', observe(S, c), before, 'after %s (%s)' % (log, c.describe()))
        same(rec, 'settings_unchanged', settings(S, c), conf, 'after %s (%s)' % (log, c.describe()))
        check_kept(rec, kept, 'queries')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return log, kept


def check_kept(rec, kept, by):
    for desc, r, f in kept:
        rec.check('returned_values_unchanged', _same(f, freeze(r), 0, 0), lambda: 'values returned by %s were changed later by %s' % (desc, by))


@CHECK.gen(240, 4800)
def batch(rng, rec, i):
    c = any_case(rng, kinds=(['study', 'hyper', 'cp'][i % 3],))
    rec.count('type_' + c.kind)
    S, W = c.build(rng), c.build(rng)
    fit_mode(rng, S, c.mode)
    fit_mode(rng, W, c.mode)
    log, kept = session(rng, rec, S, c, int(rng.integers(1, 9)))
    # continuing the analysis
    m = pick(rng, ['complete', 'forward', 'evidence'])
    if chance(rng, 0.3):
        d = np.array(c.s.data)[::-1].copy()
        for X in (S, W):
            X.load(d, timestamps=c.s.ts, silent=True)
    if chance(rng, 0.2):
        om = gen.gen_om(rng, kinds=[c.s.om.kind], names=c.s.om.names)
        if om.names == c.s.om.names and len(om.grids) == len(c.s.om.grids):
            for X in (S, W):
                X.set(om.build(), silent=True)
    for X in (S, W):
        attempt(lambda: fit_mode(rng, X, m))
    same(rec, 'continued_analysis', observe(S, c), observe(W, c), 'after %s (%s)' % (log, c.describe()))
    # means are views of the current results, arrays of new fits are new
    check_kept(rec, kept, 'the next fit')
    rec.situation(c.kind, c.describe(), *log)


@CHECK.gen(160, 3200)
def stream(rng, rec, i):
    c = online_case(rng, T=int(rng.integers(2, 8)), depth=pick(rng, [0, 1]))
    rec.count('type_online')
    S, W = c.build(rng), c.build(rng)
    d = c.s.data
    logs, kept = [], []
    for k in range(len(d)):
        S.step(c.point(d[k]))
        W.step(c.point(d[k]))
        if chance(rng, 0.5):
            if k + 1 >= c.s.om.seg:
                log, kp = session(rng, rec, S, c, int(rng.integers(1, 5)), 0.2)
                kept += kp
            else:
                log = []
                for _ in range(3):
                    desc, fn = catalogue(rng, S, c, '/nonexistent/dir', rec)
                    call(fn)
                    log.append(desc)
                    rec.count('empty_study')
            logs.append(tuple(log))
    same(rec, 'continued_analysis', observe(S, c), observe(W, c), 'stream with read-outs %s (%s)' % (logs, c.describe()))
    check_kept(rec, kept, 'later steps')
    rec.situation('online', c.describe(), *logs)


@CHECK.gen(120, 2400)
def modified(rng, rec, i):
    """The user modifies what an online study returned; the stream goes on as if nothing had happened."""
    c = online_case(rng, T=int(rng.integers(3, 8)), history=chance(rng, 0.6))
    S, W = c.build(rng), c.build(rng)
    d = c.s.data
    names, hn = c.s.om.names, c.names()
    used = set()
    for k in range(len(d)):
        S.step(c.point(d[k]))
        W.step(c.point(d[k]))
        if k + 1 < c.s.om.seg:
            continue
        for _ in range(int(rng.integers(0, 5))):
            n = pick(rng, names)
            h = pick(rng, hn) if hn else None
            t = pick(rng, list(range(c.s.om.seg - 1, k + 1)) + ['avg'])
            dens = chance(rng, 0.5)
            loc = chance(rng, 0.5)
            L = [('CPD', lambda: S.getCPD(n, density=dens)[1]), ('PD', lambda: S.getPD(t, n, density=dens)[1]), ('PDs', lambda: S.getPDs(n, density=dens)[1]), ('means', lambda: S.getParameterMeanValues(n)),
                 ('CTMD', lambda: S.getCTMD(local=loc)[1]), ('TMDs', lambda: S.getTransitionModelDistributions(local=loc)[1]), ('TMPs', lambda: S.getTMPs(c.tm_names[0], local=loc)),
                 ('names', lambda: S.getCTMD()[0])]
            if h:
                L += [('CHPD', lambda: S.getCHPD(h)[1]), ('HPD', lambda: S.getHPD(t, h)[1]), ('HPDs', lambda: S.getHPDs(h)[1]), ('HPMs', lambda: S.getHyperParameterMeanValues(h))]
            nm, fn = pick(rng, L)
            r = attempt(fn)
            if isinstance(r, np.ndarray) and r.dtype != object:
                if r.flags.writeable and r.ndim:
                    r[...] = 'zz' if nm == 'names' else pick(rng, [0., 7., np.nan])
                    used.add(nm)
                    rec.count('modified_results_online')
    same(rec, 'continued_analysis', observe(S, c), observe(W, c), 'stream after modifying returned arrays %s (%s)' % (sorted(used), c.describe()))
    rec.situation('modified', c.describe(), *sorted(used))


@CHECK.gen(40, 800)
def unfitted(rng, rec, i):
    """Read-outs of a study that has not been fitted or is not configured fail and do not disturb the later fit."""
    c = any_case(rng, kinds=('study', 'hyper', 'cp'))
    S, W = c.build(rng), c.build(rng)
    log = []
    for _ in range(int(rng.integers(1, 6))):
        desc, fn = catalogue(rng, S, c, '/nonexistent/dir', rec)
        r = call(fn)
        log.append(desc)
        rec.count('empty_study')
    for X in (S, W):
        fit_mode(rng, X, c.mode)
    same(rec, 'continued_analysis', observe(S, c), observe(W, c), 'fit after read-outs of an unfitted study %s' % log)
    rec.situation('unfitted', c.describe(), *log)
