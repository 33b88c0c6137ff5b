"""Recording of an online stream step by step, and comparison of the record with the reference."""
import numpy as np

import gen
import ref
from common import *
from engine import Violation
from gen import pick, chance, match
from studies import *


def snapshot(S, c):
    """Current state of the stream through the public interface."""
    s = c.s
    o = dict(loge=float(S.logEvidence), log10=float(S.log10Evidence))
    if np.isneginf(o['loge']):
        return o
    o['cpd'] = [np.array(S.getCPD(n, density=False)[1]) for n in s.om.names]
    o['mean'] = [float(S.getCurrentParameterMeanValue(n)) for n in s.om.names]
    o['tmd'] = np.array(S.getCTMD()[1])
    o['ltmd'] = np.array(S.getCTMD(local=True)[1])
    o['hpd'] = [[np.atleast_1d(S.getCHPD(n)[1]).copy() for n, _, _ in ref.flat(sp)] for sp in c.specs]
    o['joint'] = np.array(S.posteriorSequence[-1]) if c.history else None
    return o


def record(rng, S, c, query=None, n=None, start=0):
    """Feed the stream; snapshot after each processed time step."""
    out = []
    d = c.s.data
    for k in range(start, len(d) if n is None else n):
        S.step(c.point(d[k]))
        if k + 1 >= c.s.om.seg:
            out.append(snapshot(S, c))
            if query is not None:
                query(S, k)
    return out


def online_flags(c):
    f = list(c.s.flags)
    if c.tm_prior is not None and len(set(np.asarray(c.tm_prior, float).tolist())) > 1:
        f.append('K2')
    if any(np.prod(ref.hyper_grid(sp, c.s.tsf)[2]) != 1. for sp in c.specs if ref.flat(sp)):
        f.append('K3')
    return f


def online_stable(c):
    def fn(ctx):
        out, _ = ref.online(c.specs, c.s.liks, ctx, ctx.flags, c.tm_prior, c.s.tsf)
        r = []
        for o in out:
            r += [None] * 6 if o is None else [o['loge'], o['tmd'], o['ltmd'], o['post'], ref.means([o['post']], ctx)] + [np.concatenate(o['hpd'])]
        return r
    return lambda: ref.stable(fn, c.s.om.ctx(online_flags(c)))


def check_stream(rec, rc, c, mon='online', what=('loge', 'par', 'tm', 'hyper')):
    """rc: recorded snapshots (one per time step)."""
    s = c.s
    t = tols(s)
    t = dict(rtol=max(t['rtol'], 1e-7), atol=max(t['atol'], 1e-9))

    def compare(active):
        ctx = s.om.ctx(active)
        out, hyp = ref.online(c.specs, s.liks, ctx, active, c.tm_prior, s.tsf)
        rec.check(mon + '_steps', len(out) >= len(rc), 'more results than data')
        for k, (o, r) in enumerate(zip(rc, out)):
            if r is None:
                rec.check(mon + '_impossible', o['loge'] == -np.inf, lambda: 'step %d: impossible data, log-evidence %r' % (k, o['loge']))
                break
            if 'loge' in what:
                rec.close(mon + '_log_evidence', o['loge'], r['loge'], 'log-evidence after step %d %s' % (k, c.describe()), rtol=1e-8 if not s.alpha else 1e-5, atol=1e-7)
                rec.close(mon + '_log_evidence', o['log10'], r['loge'] / np.log(10.), 'log10-evidence', rtol=1e-8 if not s.alpha else 1e-5, atol=1e-7)
            if 'cpd' not in o:
                raise Violation('%s: no distributions although log-evidence is finite' % mon)
            if 'par' in what:
                for ax in range(len(s.om.names)):
                    rec.close(mon + '_parameters', o['cpd'][ax], ref.marginal(r['post'], ax), 'parameter distribution after step %d %s' % (k, c.describe()), **t)
                    rec.close(mon + '_mean', o['mean'][ax], np.sum(r['post'] * ctx.mesh[ax]), 'mean after step %d' % k,
                              rtol=t['rtol'], atol=t['atol'] * (1 + np.max(np.abs(s.om.grids[ax]))))
                if o['joint'] is not None:
                    rec.close(mon + '_joint', o['joint'], r['post'], 'joint parameter distribution after step %d' % k, **t)
            if 'tm' in what:
                rec.close(mon + '_models', o['tmd'], r['tmd'], 'transition model probabilities after step %d %s' % (k, c.describe()), **t)
                rec.close(mon + '_models_local', o['ltmd'], r['ltmd'], 'local transition model probabilities after step %d' % k, **t)
            if 'hyper' in what:
                for j in range(len(c.specs)):
                    if not np.any(r['hpd'][j] > 0) or r['tmd'][j] <= 0:
                        continue
                    J = r['hpd'][j].reshape([len(a) for a in hyp[j]['axes']]) if hyp[j]['axes'] else None
                    for a, p in enumerate(o['hpd'][j]):
                        rec.close(mon + '_hyper', p, ref.marginal(J, a), 'hyper-parameter distribution after step %d' % k, **t)
    return match(rec, mon, compare, online_flags(c), online_stable(c))


def check_any(rec, rng, S, c, rc=None, mon='any'):
    """Results of a study of any type against the reference."""
    if c.kind == 'online':
        return check_stream(rec, rc, c, mon=mon + '_online')
    if c.kind == 'study':
        if c.mode == 'complete':
            return check_smooth(rec, S, c.s, mon=mon + '_smooth')
        return check_filter(rec, S, c.s, c.mode == 'evidence', mon=mon + '_filter')
    return check_hyper(rec, S, c.s, c.mode, c.mask if c.kind == 'cp' else None, mon=mon + '_' + c.kind)
