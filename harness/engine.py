"""Runner: executes the cases of one check in forked workers, collects what the monitors observed, writes the evidence
file and decides the exit code."""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import queue as queue_mod
import resource
import signal
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(ROOT, 'known_findings.json')
MEMORY_GB = 12
GRACE = 20          # seconds the other workers get after the first violation
# The counts given with the generators are weights; the quick tier runs this multiple of them (about 10 to 30 s each).
QUICK_SCALE = dict(C01=6, C02=4, C03=4, C04=6, C05=10, C06=10, C07=7, C08=8, C09=3, C10=5, C11=4, C12=4, C13=5, C14=1,
                   C15=4, C16=6, C17=5, C18=3, C19=4, C20=4, C21=5, C22=5, C23=8, C24=5, C25=2, C26=4, C27=2)


class Violation(Exception):
    pass


class Skip(Exception):
    """The generator found no suitable input for this case."""


class Infra(Exception):
    """The check could not do its work."""


class CaseTimeout(BaseException):
    pass


class Rec(object):
    """Collects what the monitors of one check observed."""

    def __init__(self):
        self.events = {}          # monitor name -> number of evaluations
        self.distinct = set()     # hashes of distinct non-trivial situations
        self.samples = []
        self.known = {}           # finding key -> number of observations
        self.maxdev = {}

    def count(self, monitor, n=1):
        self.events[monitor] = self.events.get(monitor, 0) + n

    def situation(self, *key):
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 6:
                self.samples.append(' '.join(str(k) for k in key)[:300])

    def known_finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1

    def dev(self, monitor, d):
        if np.isfinite(d):
            self.maxdev[monitor] = max(self.maxdev.get(monitor, 0.), float(d))

    # --- monitors -----------------------------------------------------------------------------------------------
    def check(self, monitor, cond, msg):
        self.count(monitor)
        if not cond:
            raise Violation('%s: %s' % (monitor, msg() if callable(msg) else msg))

    def close(self, monitor, got, want, msg='', rtol=1e-7, atol=1e-9):
        self.count(monitor)
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            raise Violation('%s: %s: expected numeric result, got %.200r' % (monitor, msg, got))
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation('%s: %s: shape %s, expected %s' % (monitor, msg, g.shape, w.shape))
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=False):
            bad = ~np.isclose(g, w, rtol=rtol, atol=atol)
            i = np.argwhere(bad)[:3].tolist()
            gi = [float(g[tuple(k)]) for k in i]
            wi = [float(w[tuple(k)]) for k in i]
            raise Violation('%s: %s: observed %s, expected %s at index %s (%d of %d values differ)'
                            % (monitor, msg, gi, wi, i, int(bad.sum()), bad.size))
        if g.size:
            fin = np.isfinite(g) & np.isfinite(w)
            if fin.any():
                self.dev(monitor, np.max(np.abs(g - w)[fin]))

    def dist(self, monitor, p, total=1., msg='', tol=1e-7):
        """Probability vector/array: finite, non-negative, right total."""
        self.count(monitor)
        p = np.asarray(p, dtype=float)
        if p.size == 0:
            raise Violation('%s: %s: empty distribution' % (monitor, msg))
        if not np.all(np.isfinite(p)):
            raise Violation('%s: %s: non-finite values in distribution' % (monitor, msg))
        if np.min(p) < 0.:
            raise Violation('%s: %s: negative value %r in distribution' % (monitor, msg, float(np.min(p))))
        if not abs(np.sum(p) - total) <= tol * max(1., abs(total)):
            raise Violation('%s: %s: total is %r, expected %r' % (monitor, msg, float(np.sum(p)), float(total)))

    def raises(self, monitor, exc, fn, msg=''):
        self.count(monitor)
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: %s: expected %s, got %r' % (monitor, msg, exc, e))
        raise Violation('%s: %s: expected %s, but call returned %.100r' % (monitor, msg, exc, r))

    def either(self, monitor, correct, known, key):
        """Run monitor closure `correct`; if it fails, `known` (the exactly described known deviation) must hold."""
        try:
            correct()
            return True
        except Violation as v:
            try:
                known()
            except Violation:
                raise v
            self.known_finding(key)
            return False

    def merge(self, d):
        for k, v in d['events'].items():
            self.count(k, v)
        self.distinct |= set(d['distinct'])
        for s in d['samples']:
            if len(self.samples) < 10:
                self.samples.append(s)
        for k, v in d['known'].items():
            self.known[k] = self.known.get(k, 0) + v
        for k, v in d['maxdev'].items():
            self.dev(k, v)

    def dump(self):
        return dict(events=self.events, distinct=sorted(self.distinct), samples=self.samples, known=self.known,
                    maxdev=self.maxdev)


def case_rng(seed, prop, gen, index):
    h = hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, gen, index)).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


def load_known():
    with open(KNOWN_FILE) as f:
        return json.load(f)


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out


def run_case(check, seed, gen, index, rec, limit=200):
    """Returns None or (message, traceback)."""
    fn = check.generators[gen][0]
    rng = case_rng(seed, check.prop, gen, index)

    def onalarm(sig, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        with quiet():
            fn(rng, rec, index)
        return None
    except Violation as v:
        return str(v), traceback.format_exc()
    except Skip:
        rec.count('no_input_generated')
        return None
    except Infra:
        raise
    except MemoryError:
        return 'memory exhausted (limit %d GB for an input that needs a few MB)' % MEMORY_GB, traceback.format_exc()
    except CaseTimeout:
        return 'case did not terminate within %d s' % limit, traceback.format_exc()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass


def worker(prop, tasks, out, seed, deadline, limited=True):
    try:
        if limited:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY_GB << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        check = get_check(prop)
        rec = Rec()
        done = 0
        skipped = 0
        for gen, index in tasks:
            if time.time() > deadline:
                skipped += 1
                continue
            r = run_case(check, seed, gen, index, rec)
            done += 1
            if r is not None:
                out.put(('violation', gen, index, r[0], r[1]))
                break
        from boot import poison_events
        rec.count('poisoned_allocations', poison_events[0])
        out.put(('done', done, skipped, rec.dump()))
    except BaseException:
        out.put(('infra', traceback.format_exc()))


_checks = {}


def get_check(prop):
    if prop not in _checks:
        mod = importlib.import_module('check_%s' % prop.lower())
        _checks[prop] = mod.CHECK
    return _checks[prop]


class Check(object):
    def __init__(self, prop, rule, assumptions=(), parallel=True, level='exploration'):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.parallel = parallel
        self.level = level
        self.generators = {}       # name -> (fn, quick count, thorough count)
        self.unscaled = []         # generators run exactly as often as stated
        self.required = []         # monitors that must have been evaluated

    def gen(self, quick, thorough):
        def deco(fn):
            self.generators[fn.__name__] = (fn, quick, thorough)
            return fn
        return deco


def write_replay(prop, seed, tier, gen, index, msg, tb):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s_%s_%s.json' % (prop, gen, index, seed))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, generator=gen, index=index, message=msg, traceback=tb,
                       rerun='python3 /verif/run_check.py %s --replay %s' % (prop, path)), f, indent=1)
    return path


def selftest():
    """Set-up command: the harness itself is usable (says nothing about the code under test)."""
    import boot
    assert boot.POISON < 0
    import scipy, sympy, matplotlib, cloudpickle  # noqa: F401
    load_known()
    for d in ('evidence', 'replay'):
        os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    print('harness ready: python %s, numpy %s, scipy %s' % (sys.version.split()[0], np.__version__, scipy.__version__))
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    if argv[:1] == ['--selftest']:
        return selftest()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.)
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'

    try:
        import boot
    except Exception:
        traceback.print_exc()
        return 2
    try:
        with quiet():
            boot.load()
    except Exception as e:
        # the library cannot even be imported from the working tree: nothing the property promises is available
        tb = traceback.format_exc()
        path = write_replay(prop, a.seed, tier, 'import', 0, 'import of bayesloop failed: %r' % e, tb)
        print(tb)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1

    try:
        check = get_check(prop)
    except Exception:
        traceback.print_exc()
        return 2

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        rec = Rec()
        res = run_case(check, r['seed'], r['generator'], r['index'], rec)
        if res is None:
            print('replay: no violation')
            return 0
        print(res[1])
        print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1

    tasks = []
    for g, (fn, q, th) in check.generators.items():
        if a.only and g != a.only:
            continue
        if q is not None and q > 1:
            q *= QUICK_SCALE[prop] if fn.__name__ not in check.unscaled else 1
            th = max(q, th * QUICK_SCALE[prop] // 2)
        n = max(1, int(round((q if tier == 'quick' else th) * a.scale)))
        tasks += [(g, i) for i in range(n)]
    # interleave, so that a deadline cuts all generators alike
    order = case_rng(a.seed, prop, 'order', 0).permutation(len(tasks))
    tasks = [tasks[i] for i in order]
    cap = 420 if tier == 'quick' else 820
    deadline = t0 + cap

    rec = Rec()
    violations = []
    infra = []
    ncases = 0
    skipped = 0
    jobs = a.jobs if check.parallel else 1
    jobs = max(1, min(jobs, len(tasks)))
    if not check.parallel:
        q = queue_mod.Queue()
        worker(prop, tasks, q, a.seed, deadline, limited=False)
        msgs = []
        while not q.empty():
            msgs.append(q.get())
    else:
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        procs = []
        for k in range(jobs):
            p = ctx.Process(target=worker, args=(prop, tasks[k::jobs], q, a.seed, deadline))
            p.daemon = True
            p.start()
            procs.append(p)
        msgs = []
        finished = 0
        stop = None
        while finished < jobs and not (stop is not None and time.time() > stop):
            try:
                m = q.get(timeout=2)
                msgs.append(m)
                if m[0] == 'violation' and stop is None:
                    stop = time.time() + GRACE
                if m[0] in ('done', 'infra'):
                    finished += 1
            except queue_mod.Empty:
                if not any(p.is_alive() for p in procs):
                    try:
                        while True:
                            m = q.get(timeout=1)
                            msgs.append(m)
                            if m[0] in ('done', 'infra'):
                                finished += 1
                    except queue_mod.Empty:
                        pass
                    if finished < jobs:
                        infra.append('worker died: exit codes %s' % [p.exitcode for p in procs])
                    break
        for p in procs:
            if stop is not None and p.is_alive():
                p.terminate()
            p.join(timeout=10)
            if p.is_alive():
                p.kill()
    for m in msgs:
        if m[0] == 'violation':
            violations.append(m[1:])
        elif m[0] == 'done':
            ncases += m[1]
            skipped += m[2]
            rec.merge(m[3])
        else:
            infra.append(m[1])

    # known findings
    known = [k for k in load_known()['findings'] if prop in k['properties']]
    listed = {k['key']: k for k in known}
    for key in sorted(rec.known):
        if key not in listed:
            violations.append(('known', 0, 'deviation %s is not listed as known finding of %s' % (key, prop), ''))
    for key in sorted(rec.known):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s [%s, observed %d times]'
                  % (prop, listed[key]['what'], key, rec.known[key]))

    vpaths = []
    seen = set()
    for gen, index, msg, tb in violations:
        path = write_replay(prop, a.seed, tier, gen, index, msg, tb)
        vpaths.append(path)
        if len(vpaths) <= 3:
            print('case %s/%s: %s' % (gen, index, msg))
            print(tb[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))

    missing = [m for m in check.required if not rec.events.get(m)]
    mon = {k: v for k, v in sorted(rec.events.items())}
    ev = sum(v for k, v in mon.items() if k not in ('poisoned_allocations', 'no_input_generated', 'ill_conditioned_input_not_judged'))
    wall = time.time() - t0
    coverage = dict(evaluations=int(ev), distinct_nontrivial=len(rec.distinct), rule=check.rule,
                    samples=rec.samples[:10] or ['(none)'],
                    cases=ncases, cases_skipped_by_time_cap=skipped, monitor_events=mon,
                    largest_deviation_observed={k: float('%.3g' % v) for k, v in sorted(rec.maxdev.items())},
                    known_findings_observed=rec.known)
    evidence = dict(property=prop, tier=tier, seed=int(a.seed) if str(a.seed).isdigit() else 0,
                    level=check.level, coverage=coverage, assumptions=check.assumptions,
                    wall_s=round(wall, 2), violations=len(violations))
    if not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(evidence, f, indent=1)
    print('%s %s seed=%s: %d cases, %d monitor evaluations, %d distinct situations, %d violations, %.1f s'
          % (prop, tier, a.seed, ncases, ev, len(rec.distinct), len(violations), wall))
    if violations:
        return 1
    if infra:
        print('INFRASTRUCTURE: %s' % infra[0][-1500:])
        return 2
    if not a.only and (ncases == 0 or missing):
        print('INCONCLUSIVE: monitors without observations: %s' % missing)
        return 2
    return 0
