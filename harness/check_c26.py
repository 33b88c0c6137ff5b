"""C26: what is reported on the console agrees with the analysis."""
import re

import numpy as np

import gen
import ref
from common import *
from engine import Check, quiet, Skip
from gen import pick, chance, bl
from studies import *

CHECK = Check('C26', 'distinct (study type, fit mode or read-out, kind of message) combinations whose console output was recorded and compared with the results',
              ['texts are recognised by their key words and numbers, not by exact wording', 'whether a message about re-normalised priors appears is judged only if the sum differs clearly from one'])
CHECK.required = ['evidence_line', 'average_line', 'impossible_warned', 'number_of_analyses', 'single_combination', 'no_hyper_parameters', 'points_announced', 'silent_fit', 'silent_reports', 'same_results',
                  'list_announced', 'times_omitted', 'times_kept', 'categorical_announced', 'regular_quiet', 'interval_announced', 'names_announced', 'tm_names_announced', 'prior_uniform', 'prior_renormalised',
                  'query_value', 'optimised_evidence', 'final_evidence', 'unequal_steps', 'equal_steps', 'model_announced', 'model_without_hyper_parameters', 'tm_prior_renormalised', 'tm_prior_sums_to_one',
                  'waiting_announced', 'order_switched', 'order_kept']

NUM = r'([-+]?(?:inf|nan|\d+\.?\d*(?:[eE][-+]?\d+)?))'


def said(fn):
    with quiet() as out:
        r = fn()
    return r, out.getvalue()


def evidences(text):
    return [float(x) for x in re.findall(r'[Ee]vidence[^:\n]*:\s*' + NUM, text)]


def near(a, b, digits=5):
    return a == b or abs(a - b) <= 0.6 * 10. ** -digits + 1e-12 * abs(b)


def impossible(text):
    return 'WARNING' in text and 'zero' in text


@CHECK.gen(900, 16000)
def fits(rng, rec, i):
    c = any_case(rng, kinds=(['study', 'study', 'hyper', 'hyper', 'cp'][i % 5],), missing=None)
    S = c.build(rng)
    if chance(rng, 0.3):
        fit_mode(rng, S, pick(rng, ['complete', 'forward', 'evidence']))
        S = c.build(rng)
    _, text = said(lambda: fit_mode(rng, S, c.mode, silent=False))
    ctx = lambda: '%s\n%s' % (c.describe(), text)
    lines = evidences(text)
    loge = S.log10Evidence
    combos = 1
    if c.kind != 'study':
        g, _, _, _ = ref.hyper_grid(c.s.spec, c.s.tsf)
        combos = sum(1 for x in g if c.kind == 'hyper' or c.mask(x)) if ref.flat(c.s.spec) else 0
    if combos > 1:
        rec.check('average_line', len(lines) == 1 and near(lines[0], loge), lambda: 'reported evidence %s, log10-evidence of the average model is %r: %s' % (lines, loge, ctx()))
        n = re.findall(r'(\d+) analyses', text)
        rec.check('number_of_analyses', n == [str(combos)], lambda: '%s analyses announced, %d combinations: %s' % (n, combos, ctx()))
        rec.situation('%s %s average' % (c.describe(), c.mode))
    elif np.isneginf(loge):
        rec.check('impossible_warned', impossible(text), lambda: 'impossible data, but no warning: %s' % ctx())
        rec.situation('%s %s impossible' % (c.describe(), c.mode))
    else:
        rec.check('evidence_line', len(lines) == 1 and near(lines[0], loge), lambda: 'reported evidence %s, log10-evidence is %r: %s' % (lines, loge, ctx()))
        rec.check('no_false_warning', not impossible(text), lambda: 'warning about impossible data, but evidence %r: %s' % (loge, ctx()))
        rec.situation('%s %s evidence' % (c.describe(), c.mode))
    if c.kind != 'study' and combos == 1:
        rec.check('single_combination', 'nly one combination' in text and 'analyses' not in text, ctx)
    if c.kind == 'hyper' and combos == 0:
        rec.check('no_hyper_parameters', 'no hyper-parameters' in text and 'analyses' not in text, ctx)
    if c.kind == 'cp':
        cps, bps = points(c.s.spec)
        m = re.findall(r'etected (\d+) (change|break)-point\(s\)[^\[]*\[([^\]]*)\]', text)
        want = [(str(len(cps or bps)), 'change' if cps else 'break', ', '.join(repr(n) for n, _ in (cps or bps)))]
        rec.check('points_announced', m == want, lambda: 'announced points %s, should be %s: %s' % (m, want, ctx()))
    # the same analysis without reports
    W = c.build(rng)
    _, quietly = said(lambda: fit_mode(rng, W, c.mode, silent=True))
    rec.check('silent_reports', not evidences(quietly) and 'analyses' not in quietly, lambda: 'silent fit reports: %s' % quietly)
    if c.kind == 'study' and not np.isneginf(loge):
        rec.check('silent_fit', quietly == '', lambda: 'silent fit prints: %s' % quietly)
    rec.check('same_results', W.logEvidence == S.logEvidence and np.array_equal(np.asarray(W.posteriorMeanValues), np.asarray(S.posteriorMeanValues), equal_nan=True),
              lambda: 'results of silent and reporting fit differ: %r %r %s' % (W.logEvidence, S.logEvidence, ctx()))
    # prior
    if c.kind == 'study':
        p = S.observationModel.prior
        if p is None:
            rec.check('prior_uniform', 'uniform prior' in text, ctx)
        elif isinstance(p, np.ndarray) and abs(p.sum() - 1) > 1e-6:
            rec.check('prior_renormalised', 're-normalized' in text, ctx)
        elif isinstance(p, np.ndarray):
            rec.check('prior_array', 'uniform' not in text and 'numpy array' in text, ctx)
        # queries
        n = pick(rng, list(c.s.om.names))
        if c.mode != 'evidence' and not np.isneginf(loge):
            k = list(c.s.om.names).index(n)
            q = '%s@%s %s %r' % (n, pick(rng, c.s.tsf), pick(rng, ['<', '>', '<=', '>=']), round(float(pick(rng, c.s.om.grids[k])), 4))
            if chance(rng, 0.5):
                r, text = said(lambda: S.eval(q))
            else:
                P = bl().Parser(S)
                r, text = said(lambda: P(q))
            m = re.findall(r'P\((.*)\)\s*=\s*' + NUM, text)
            rec.check('query_value', len(m) == 1 and (float(m[0][1]) == r or abs(float(m[0][1]) - r) < 1e-5 * abs(r)) and m[0][0].replace(' ', '') == q.replace(' ', ''), lambda: 'query %s returned %r: %s' % (q, r, text))


@CHECK.gen(400, 8000)
def setting(rng, rec, i):
    """Reports while a study is set up."""
    B = bl()
    n = int(rng.integers(2, 9))
    data = rng.normal(size=n)
    aslist = chance(rng, 0.5)
    m = pick(rng, [n, n, n - 1, n + 1, 0, None])
    ts = None if m is None else list(range(10, 10 + m))
    S = pick(rng, [B.Study, B.HyperStudy, B.ChangepointStudy])(silent=True)
    _, text = said(lambda: pick(rng, [S.load, S.loadData])(data.tolist() if aslist else data, timestamps=ts))
    rec.check('list_announced', ('list' in text) == aslist, lambda: 'data supplied as list: %s, output: %s' % (aslist, text))
    omitted = m is not None and m != n
    rec.check('times_omitted' if omitted else 'times_kept', ('mitting' in text and 'WARNING' in text) == omitted, lambda: '%s time stamps for %d data points: %s' % (m, n, text))
    # parameter grids
    names = list(pick(rng, [['mean', 'std'], ['location', 'a'], ['x1', 'x11'], ['z', 'b']]))
    grids, regular = [], []
    for k in range(2):
        size = int(rng.integers(2, 7))
        v = np.sort(rng.choice(np.arange(1, 30), size, replace=False)) / pick(rng, [1., 2., 4.])
        if chance(rng, 0.5):
            v = np.linspace(v[0], v[0] + 3, size)
        d = np.diff(v)
        grids.append(v)
        regular.append(bool(np.ptp(d) < 1e-9))
    auto = [chance(rng, 0.25) for _ in range(2)]
    om = B.om.Gaussian(names[0], None if auto[0] else grids[0], names[1], None if auto[1] else grids[1])
    _, text = said(lambda: pick(rng, [S.set, S.setOM, S.setObservationModel])(om))
    for k, nm in enumerate(names):
        if auto[k]:
            g = np.asarray(S.marginalGrid[k])
            mm = re.findall(r'interval for "%s": \[%s, %s\] \((\d+) values' % (nm, NUM, NUM), text.replace('np.float64(', '').replace(')', '') if 'np.float64' in text else text)
            rec.check('interval_announced', len(mm) == 1 and abs(float(mm[0][0]) - g[0]) <= 1e-5 * (abs(g[0]) + 1e-9) and abs(float(mm[0][1]) - g[-1]) <= 1e-5 * (abs(g[-1]) + 1e-9) and int(mm[0][2]) == len(g),
                      lambda: 'interval of %s is [%r, %r] (%d values): %s' % (nm, g[0], g[-1], len(g), text))
        else:
            cat = bool(re.search(r'"%s" are not equally spaced' % nm, text))
            rec.check('regular_quiet' if regular[k] else 'categorical_announced', cat != regular[k], lambda: 'values of %s: %s, output: %s' % (nm, grids[k], text))
    mm = re.search(r'Parameter\(s\): (.*)', text)
    rec.check('names_announced', mm is not None and re.findall(r"'([^']*)'", mm.group(1)) == names, lambda: 'parameters %s: %s' % (names, text))
    _, text = said(lambda: S.set(B.om.Gaussian(names[0], grids[0], names[1], grids[1]), silent=True))
    rec.check('silent_names', 'Parameter(s)' not in text, lambda: 'silent: %s' % text)
    # hyper-parameters
    g = gen.TMGen(rng, gen.gen_om(rng, kinds=['gaussian']), list(range(n)), hyper=chance(rng, 0.5))
    sp = g.spec(1, None, 0.3)
    tm = gen.build_tm(sp, ['mean', 'std'])
    _, text = said(lambda: pick(rng, [S.set, S.setTM, S.setTransitionModel])(tm))
    mm = re.search(r'Hyper-Parameter\(s\): (.*)', text)
    flat = [x for x, _, _ in ref.flat(sp)]
    rec.check('tm_names_announced', mm is not None and re.findall(r"'([^']*)'", mm.group(1)) == flat, lambda: 'hyper-parameters %s: %s' % (flat, text))
    rec.situation('setting %s %s %s %s' % (aslist, omitted, regular, auto))


@CHECK.gen(60, 1200)
def optimised(rng, rec, i):
    """Every evidence reported during an optimisation belongs to the reported values."""
    B = bl()
    n = int(rng.integers(4, 9))
    data = np.cumsum(rng.normal(size=n) * 0.5)
    grid = np.linspace(-6, 6, int(rng.integers(30, 60)))
    names = ['slope', 'offset'][:int(rng.integers(1, 3))]
    start = [float(rng.uniform(-.3, .3)), float(rng.uniform(-.3, .3))][:len(names)]

    def model(v):
        f = (lambda t, slope=v[0]: slope * t) if len(v) == 1 else (lambda t, slope=v[0], offset=v[1]: slope * t + offset * t ** 2 / 20)
        return B.tm.Deterministic(f, target='m')

    def study(v):
        S = B.Study(silent=True)
        S.load(data, silent=True)
        S.set(B.om.Gaussian('m', grid, 's', [0.8, 1.3, 1.8]), model(v), silent=True)
        return S
    S = study(start)
    fwd = chance(rng, 0.5)
    _, text = said(lambda: S.optimize(forwardOnly=fwd, options={'maxiter': int(rng.integers(5, 25))}))
    steps = re.findall(r'[Ee]vidence: %s\s*- Parameter values: \[([^\]]*)\]' % NUM, text)
    rec.check('optimised_evidence', len(steps) > 1, lambda: 'no progress reported: %s' % text)
    for e, v in ([steps[0], steps[-1]] + [pick(rng, steps) for _ in range(3)]):
        x = [float(y) for y in v.split()]
        lo, hi = [], []
        for d in (-6e-9, 0, 6e-9):
            W = study([y + d for y in x])
            W.fit(evidenceOnly=True, silent=True)
            lo.append(W.log10Evidence)
        w = max(lo) - min(lo)
        rec.check('optimised_evidence', min(lo) - w - 1e-4 <= float(e) <= max(lo) + w + 1e-4, lambda: 'reported %s at %s, but the evidence is %s: %s' % (e, x, lo, text[:2000]))
    last = evidences(text)[-1]
    rec.check('final_evidence', near(last, S.log10Evidence), lambda: 'last reported evidence %r, result %r: %s' % (last, S.log10Evidence, text[-1000:]))
    rec.situation('optimised %d %s %d' % (len(names), fwd, len(steps)))


@CHECK.gen(200, 4000)
def readouts(rng, rec, i):
    """Warnings of the read-out functions."""
    B = bl()
    n = int(rng.integers(2, 7))
    equal = chance(rng, 0.5)
    ts = np.arange(n) * int(rng.integers(1, 4)) + int(rng.integers(-3, 9)) if equal else np.cumsum(rng.integers(1, 5, n))
    equal = len(set(np.diff(ts))) <= 1
    S = B.Study(silent=True)
    S.load(rng.integers(0, 5, n), timestamps=ts, silent=True)
    S.set(B.om.Poisson('rate', np.linspace(0.5, 6, 12)), B.tm.Static(), silent=True)
    S.fit(silent=True, forwardOnly=chance(rng, 0.5))
    _, text = said(lambda: pick(rng, [S.getPDs, S.getParameterDistributions, S.plot, S.plotParameterEvolution])('rate'))
    rec.check('equal_steps' if equal else 'unequal_steps', ('not equally spaced' in text) != equal, lambda: 'time stamps %s: %s' % (ts, text))
    if i % 4 == 0:
        C = B.ChangepointStudy(silent=True)
        n = int(rng.integers(4, 8))
        C.load(rng.integers(0, 5, n), silent=True)
        C.set(B.om.Poisson('rate', np.linspace(0.5, 6, 12)), B.tm.CombinedTransitionModel(B.tm.ChangePoint('first', 'all'), B.tm.ChangePoint('second', 'all')), silent=True)
        C.fit(silent=True)
        rev = chance(rng, 0.5)
        _, text = said(lambda: pick(rng, [C.getDD, C.getDurationDistribution])(['second', 'first'] if rev else ['first', 'second']))
        rec.check('order_switched' if rev else 'order_kept', ('witching' in text) == rev, lambda: 'reversed order %s: %s' % (rev, text))
    rec.situation('readouts %s %d' % (equal, n))


@CHECK.gen(300, 6000)
def online(rng, rec, i):
    B = bl()
    k = int(rng.integers(1, 4))
    S = B.OnlineStudy(storeHistory=chance(rng, 0.5), silent=True)
    ar = chance(rng, 0.3)
    om = B.om.AR1('x', np.linspace(-.9, .9, 7), 's', np.linspace(.5, 2, 6)) if ar else B.om.Gaussian('x', np.linspace(-2, 2, 7), 's', np.linspace(.5, 2, 6))
    S.set(om, silent=True)
    names = pick(rng, [['A', 'B', 'C'], ['normal', 'abnormal', 'norm'], ['one two', 'one', 'two']])
    for j in range(k):
        nv = [int(rng.integers(1, 5)) for _ in range(int(rng.integers(0, 3)))]
        tms = [B.tm.GaussianRandomWalk('s%d_%d' % (j, l), pick(rng, [list, np.array])(np.linspace(.1, .5, v)) if v > 1 else 0.2, target=['x', 's'][l]) for l, v in enumerate(nv)]
        tm = B.tm.Static() if not tms else tms[0] if len(tms) == 1 else B.tm.CombinedTransitionModel(*tms)
        _, text = said(lambda: pick(rng, [S.add, S.addTM, S.addTransitionModel])(names[j], tm))
        if not tms:
            rec.check('model_without_hyper_parameters', names[j] in text and 'no hyper-parameters' in text, lambda: 'model %s without hyper-parameters: %s' % (names[j], text))
        else:
            m = re.findall(r': (.*) \((\d+) combination', text)
            hn = re.findall(r"'([^']*)'", text[text.find('combination'):])
            rec.check('model_announced', m == [(names[j], str(int(np.prod(nv))))] and hn == ['s%d_%d' % (j, l) for l in range(len(nv))], lambda: 'model %s with %s values: %s' % (names[j], nv, text))
    if chance(rng, 0.6):
        p = rng.integers(1, 5, k).astype(float)
        one = chance(rng, 0.5)
        p = np.array([[1.], [.5, .5], [.5, .25, .25]][k - 1]) if one else p * 2 + 1
        _, text = said(lambda: S.setTransitionModelPrior(list(p) if chance(rng, 0.5) else p))
        rec.check('tm_prior_sums_to_one' if one else 'tm_prior_renormalised', ('not sum' in text) != one, lambda: 'prior %s: %s' % (p, text))
    seen = ''
    for j in range(3):
        _, text = said(lambda: S.step(float(rng.normal())))
        waiting = ar and j == 0
        rec.check('waiting_announced' if waiting else 'not_waiting', ('ot enough data' in text) == waiting, lambda: 'step %d, segment length %d: %s' % (j, om.segmentLength, text))
    rec.situation('online %d %s %s' % (k, ar, nv))


@CHECK.gen(200, 4000)
def hopeless(rng, rec, i):
    """Data without any possible explanation."""
    B = bl()
    kind = pick(rng, ['study', 'hyper', 'cp'])
    n = int(rng.integers(1 if kind != 'cp' else 4, 8))
    data = rng.normal(size=n)
    possible = chance(rng, 0.3)
    if not possible:
        data[int(rng.integers(n))] = pick(rng, [1e6, -1e5])
    S = dict(study=B.Study, hyper=B.HyperStudy, cp=B.ChangepointStudy)[kind](silent=True)
    S.load(data, silent=True)
    tm = pick(rng, [B.tm.Static(), B.tm.GaussianRandomWalk('s', 0.3, target='m'), B.tm.Independent()]) if kind == 'study' else \
        B.tm.GaussianRandomWalk('s', [0.1, 0.2], target='m') if kind == 'hyper' else B.tm.ChangePoint('t', [1, 2])
    S.set(B.om.Gaussian('m', np.linspace(-3, 3, 8), 's0', np.linspace(.5, 2, 4)), tm, silent=True)
    mode = pick(rng, ['complete', 'forward', 'evidence'])
    for k in range(int(rng.integers(1, 4))):
        silent = chance(rng, 0.5)
        _, text = said(lambda: fit_mode(rng, S, mode, silent=silent))
        if possible:
            rec.check('no_false_warning', not impossible(text), lambda: 'warning, but log-evidence %r: %s' % (S.logEvidence, text))
        else:
            rec.check('impossible_warned', silent or impossible(text), lambda: '%s, fit %d, data %s: no warning: %s' % (kind, k, data, text))
            rec.check('impossible_evidence', not [x for x in evidences(text) if np.isfinite(x)] and S.log10Evidence == -np.inf, lambda: 'evidence reported for impossible data: %s' % text)
    rec.situation('hopeless %s %s %s' % (kind, mode, possible))
