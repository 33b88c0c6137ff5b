"""Observation models that need several data points and record the windows they get."""
import numpy as np

import gen
import ref
from gen import pick, bl


# ------------------------------------------------------------------------------------------------- recording model
def recording_class():
    B = bl()

    class Recorder(B.observationModels.ObservationModel):
        def __init__(self, n, names, grids, fn, log, multiply=True, prior=None):
            self.name = 'Recorder'
            self.segmentLength = n
            self.parameterNames = list(names)
            self.parameterValues = list(grids)
            self.multiplyLikelihoods = multiply
            self.prior = prior
            self.fn, self.log = fn, log

        def pdf(self, grid, dataSegment):
            self.log.append(np.array(dataSegment, dtype=float))
            return self.fn(np.asarray(dataSegment, float), *grid)

        def estimateParameterValues(self, name, rawData):
            raise AssertionError('not needed')
    return Recorder


def window_model(rng, n, nd=None, multiply=True, constant=False):
    """(gen.OM, log): window of n points; every element of the window has its own effect."""
    nd = nd or pick(rng, [1, 1, 2])
    names = pick(rng, gen.NAMES)[:nd]
    grids = [np.linspace(-1., 1., int(rng.integers(4, 9))) if k == 0 else np.linspace(0.5, 2., int(rng.integers(3, 6))) for k in range(nd)]
    w = rng.normal(size=(n, nd))
    log = []

    def lik(seg, *m):
        if constant:
            return np.full(np.shape(m[0]), float(np.prod(seg)))
        z = 0.
        for j in range(n):
            for k in range(nd):
                z = z + w[j, k] * m[k] * np.sin((j + 1.3) * np.sum(seg[j])) + 0.3 * np.cos(np.sum(seg[j]) + m[k] * (j + 1))
        return np.exp(z)
    cls = []

    def make(om):
        if not cls:
            cls.append(recording_class())
        return cls[0](n, names, grids, lik, log, multiply)
    pr = gen.PriorSpec('none', None, gen.normed(np.ones([len(g) for g in grids]), [ref.lattice_constant(g) for g in grids]))
    om = gen.OM('window%d' % n, list(names), grids, grids, pr, make, lik, lambda r, k: r.normal(size=k), seg=n, multiply=multiply)
    om.log = log
    return om
