From 208b4af187a8489c9edb52f5cf99f5efd96ecefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:49 +0000
Subject: [PATCH 01/69] fix: do not alter prior array of the user, always
 convert prior to density

The array passed as prior was normalized and then updated in place by the
forward pass, so that a second fit started from a different prior. In addition,
priors that sum up to exactly one were not converted to a density.
---
 bayesloop/core.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..954dee9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -206,17 +206,17 @@ class Study(object):
 
         # check whether correctly shaped numpy array is provided
         if isinstance(prior, np.ndarray):
-            if np.all(prior.shape == self.grid[0].shape):
-                norm = np.sum(prior)
-                if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
-                    if not silent:
+            if prior.shape == self.grid[0].shape:
+                values = np.array(prior, dtype=float)  # copy, the array supplied by the user must not be altered
+                norm = np.sum(values)
+                values /= norm
+                values /= np.prod(self.latticeConstant)  # convert to prob. density
+                if not silent:
+                    if norm != 1.:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
-                else:
-                    if not silent:
+                    else:
                         print('    + Set prior (numpy array).')
-                return prior
+                return values
             else:
                 raise ConfigurationError('Prior array does not match parameter grid size.')
 
@@ -224,13 +224,12 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
-            if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
-                if not silent:
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
+            if not silent:
+                if norm != 1.:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
-            else:
-                if not silent:
+                else:
                     print('    + Set prior (function): {}'.format(prior.__name__))
             return values
 
-- 
2.43.0


From 7fc88dfb11d54d783da8e9531c5641a86aea74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 02/69] fix: BivariateRandomWalk overwrites sigma2 if rho is
 given as a list

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..71d7571 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -855,7 +855,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 263a513b5b8480f1f077f1dfe3dc3a452b501492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:14 +0000
Subject: [PATCH 03/69] fix: Deterministic transition model ignores list of
 hyper-priors

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 71d7571..4584623 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -538,6 +538,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 4c33d7e5ed47f1e3fd6681575275254a51dd9389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 04/69] fix: pass time stamp of previous step to transition
 model in OnlineStudy

len(formattedData)-1 is always -1, so change-points, break-points and
deterministic models never saw the actual time.
---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 954dee9..079e0c3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2163,7 +2163,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From f6892184639a084ca223f6fe63a49abe4e119f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:20 +0000
Subject: [PATCH 05/69] fix: OnlineStudy.getParameterMeanValue picks single
 grid row instead of distribution

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 079e0c3..eb4057d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2538,7 +2538,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 0e10a0e0ce45764748a69c00919ea332786fde26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 06/69] fix: OnlineStudy.getPD ignores density argument

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index eb4057d..2611eb3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2262,7 +2262,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
-- 
2.43.0


From 2dd1898e9a20441c31a03dc22c5781fdab45e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 07/69] fix: Bernoulli likelihood alters parameter grid and
 accepts p outside of [0, 1]

---
 bayesloop/observationModels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..3b0b702 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,16 +427,16 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
-        temp[temp > 1.] = 0.  # p < 1
-        temp[temp < 0.] = 0.  # p > 0
+        p = grid[0]
 
         if dataSegment[0]:
-            pass  # pdf = p
+            pdf = p.copy()  # must not alter parameter grid
         else:
-            temp = 1. - temp  # pdf = 1 - p
+            pdf = 1. - p
 
-        return temp
+        pdf[(p < 0.) | (p > 1.)] = 0.  # only values within [0, 1] are valid probabilities
+
+        return pdf
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 468f4390999064c04738b7327d0cc5ed67477aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:47 +0000
Subject: [PATCH 08/69] fix: default Bernoulli grid includes singularities of
 default prior

---
 bayesloop/observationModels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 3b0b702..16778eb 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -452,8 +452,9 @@ class Bernoulli(ObservationModel):
         """
 
         if name == self.parameterNames[0]:
-            # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval
-            return cint(0, 1, 1000)
+            # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval (boundaries are
+            # excluded, as Jeffreys prior diverges at these points)
+            return oint(0, 1, 1000)
         else:
             raise ConfigurationError('Bernoulli model does not contain a parameter "{}".'.format(name))
 
-- 
2.43.0


From 193f9b85e7fbe2690002c81168ecdfabf370d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:51 +0000
Subject: [PATCH 09/69] fix: Poisson likelihood fails for counts of dtype float
 and for large counts

---
 bayesloop/observationModels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 16778eb..db325d3 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -12,7 +12,7 @@ import sympy.abc as abc
 from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial
+from scipy.special import iv, factorial, gammaln, xlogy
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -500,7 +500,9 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        # evaluated in log-space, as both power and factorial overflow for large counts
+        k = dataSegment[0]
+        return np.exp(xlogy(k, grid[0]) - grid[0] - gammaln(k + 1.))
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 08d69dc221ea83adb7382d1d15ed895dacdb2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:16 +0000
Subject: [PATCH 10/69] fix: reset to SymPy or constant prior in ChangePoint,
 Independent and SerialTransitionModel

SymPy priors were replaced by a flat prior and functions that return a scalar
were not expanded to the parameter grid.
---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4584623..94bad1a 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -298,13 +298,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # restore prior distribution as specified in observation model (array, function, SymPy RVs, or flat)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -347,13 +342,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # restore prior distribution as specified in observation model (array, function, SymPy RVs, or flat)
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -800,13 +790,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # restore prior distribution as specified in observation model (array, function, SymPy RVs, or flat)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From 6c3fc3a80c80573392e2eaa57d3cd2df162770dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:14 +0000
Subject: [PATCH 11/69] fix: prior enters smoothed distributions twice for
 ChangePoint and Independent

In the backward pass, a reset of the parameters means that data after the reset
carries no information about earlier parameter values. Using the prior instead of
a flat distribution multiplies the prior into the posterior a second time.
---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 94bad1a..fc9a680 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -309,7 +309,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # parameter values before the change-point are independent of the data after the change-point
+        if t - 1 == self.hyperParameterValues[0]:
+            return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -350,7 +354,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # parameter values of a time step are independent of the data of all subsequent time steps
+        return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From ff8c67ffc25857d225fbd2823a64ff9404171233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 12/69] fix: stale convolution kernel after change of parameter
 grid

AlphaStableRandomWalk and BivariateRandomWalk re-used a kernel if only the
grid (lattice constants, size) of the observation model had changed.
---
 bayesloop/transitionModels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index fc9a680..e6949f1 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,10 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant), list(self.study.gridSize),
+                            list(self.study.observationModel.parameterNames)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +186,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -872,13 +874,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values or parameter grid have changed, a new convolution kernel needs to be created
+        kernelParameters = [list(self.hyperParameterValues), list(self.latticeConstant)]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From f42a56e4b0a931fef12153fdf5a7c8d4b049bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:38 +0000
Subject: [PATCH 13/69] fix: AlphaStableRandomWalk fails for 2D parameter grid
 with odd number of values

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index e6949f1..c3e54cc 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -229,7 +229,7 @@ class AlphaStableRandomWalk(TransitionModel):
         kernel = np.roll(kernel, int(3*l1/2-1))
 
         if len(gs) == 2:
-            kernel = np.array([kernel]*(3*l2))
+            kernel = np.array([kernel]*(2*int(3*l2/2)))  # kernel length along other axis is always even
 
         if axis == 1:
             return kernel.T
-- 
2.43.0


From 3d60e2e67f115f6cfa7d08da18f960ebe13aa89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:41 +0000
Subject: [PATCH 14/69] fix: negative probability values in
 AlphaStableRandomWalk

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index c3e54cc..03bc2f4 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -189,6 +189,7 @@ class AlphaStableRandomWalk(TransitionModel):
             self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
+        newPrior[newPrior < 0.] = 0.  # finite resolution of kernel may result in small negative values
         newPrior /= np.sum(newPrior)
         return newPrior
 
-- 
2.43.0


From 8877b9b14337f581f35be3e5126e7d25824e19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:05 +0000
Subject: [PATCH 15/69] fix: negative probability values in Deterministic
 transition model

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 03bc2f4..ab546e3 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -573,6 +573,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # interpolation may result in small negative values
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -598,6 +599,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # interpolation may result in small negative values
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 4958d06d3172ef01d4840090095d750f07018b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 16/69] fix: NotEqual transition model fails for integer
 hyper-parameter values in hyper-studies

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index ab546e3..c986751 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -457,7 +457,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From b93136751ee0a09d40c80a4a008bd38bf8eae779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 17/69] fix: NotEqual transition model returns NaN for uniform
 distributions

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index c986751..6e52231 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -460,7 +460,9 @@ class NotEqual(TransitionModel):
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        norm = np.sum(newPrior)
+        if norm > 0.:  # all values are zero for a uniform distribution
+            newPrior /= norm
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From 6070742d1897e57e931bea8186fb5a36c14cb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:48 +0000
Subject: [PATCH 18/69] fix: backward pass misses change-/break-points if time
 stamps are not spaced by one

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2611eb3..c3f6454 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -462,8 +462,10 @@ class Study(object):
                     self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
                                                 np.prod(self.latticeConstant))  # integration, not only sum
 
-                # compute beta for next iteration
-                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
+                # compute beta for next iteration; transition models refer to the previous time step as (t-1), also if
+                # time stamps are not spaced by one
+                t = self.formattedTimestamps[i-1] + 1 if i > 0 else self.formattedTimestamps[i]
+                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, t)
 
                 # normalize beta (for numerical stability)
                 beta /= np.sum(beta)
-- 
2.43.0


From 929650dc7559ad7c5da897ce54820df62b29e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 19/69] fix: fits of impossible data leave uninitialized and
 outdated distributions

If inference stops because the data is impossible given the model, posterior
sequence and local evidence contained uninitialized memory and mean values
belonged to a previous fit. The same holds for fits with evidenceOnly=True.
---
 bayesloop/core.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c3f6454..720570d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -350,8 +350,11 @@ class Study(object):
         if not silent:
             print('    + Formatted data.')
 
-        # initialize array for posterior distributions
-        if not evidenceOnly:
+        # initialize array for posterior distributions (results of previous fits are discarded)
+        self.posteriorMeanValues = []
+        if evidenceOnly:
+            self.posteriorSequence = []
+        else:
             self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
@@ -395,7 +398,7 @@ class Study(object):
                     print('    ! WARNING: Will omit further warnings about parameter boundaries.')
 
                 self.fitWarningCounter += 1
-                self.logEvidence = -np.inf
+                self._discardFit()
                 return
 
             # update log-evidence and compute local evidence
@@ -447,7 +450,7 @@ class Study(object):
                         print('    ! WARNING: Will omit further warnings about parameter boundaries.')
 
                     self.fitWarningCounter += 1
-                    self.logEvidence = -np.inf
+                    self._discardFit()
                     return
 
                 # re-compute likelihood
@@ -486,6 +489,16 @@ class Study(object):
             if not silent:
                 print('    + Computed mean parameter values.')
 
+    def _discardFit(self):
+        """
+        Called if data is impossible given the current model. Evidence is set to zero and all distributions computed so
+        far are discarded, as they are not defined in this case.
+        """
+        self.logEvidence = -np.inf
+        self.localEvidence = np.zeros(len(self.formattedData))
+        self.posteriorSequence = []
+        self.posteriorMeanValues = []
+
     def optimize(self, parameterList=[], forwardOnly=False, **kwargs):
         """
         Uses the COBYLA minimization algorithm from SciPy to perform a maximization of the log-evidence with respect
@@ -1289,6 +1302,7 @@ class HyperStudy(Study):
 
         self._checkConsistency()
 
+        self.averagePosteriorSequence = None
         if not evidenceOnly:
             # The average posterior distribution is stored in log-space for numerical stability. This way, it can be
             # updated iteratively without storing all individual posterior distributions (after the iteration over all
@@ -1413,8 +1427,12 @@ class HyperStudy(Study):
             if not silent:
                 print('    + Computed local evidence of average model')
 
+            # data is impossible for all hyper-parameter values
+            if np.isneginf(self.logEvidence):
+                self._discardFit()
+
             # compute posterior mean values
-            if not evidenceOnly:
+            elif not evidenceOnly:
                 self.posteriorMeanValues = np.empty([len(self.grid), len(self.posteriorSequence)])
                 for i in range(len(self.grid)):
                     self.posteriorMeanValues[i] = np.array([np.sum(p*self.grid[i]) for p in self.posteriorSequence])
-- 
2.43.0


From 50350d8a23fb9d4e8821a30a76b7109f26912172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 20/69] fix: local evidence depends on lattice constants of
 (hyper-)parameter grids

Distributions after the first time step are probabilities, not densities. Local
evidence values of a forward-only fit now multiply to the evidence of the model,
and missing data points yield a local evidence of one.
---
 bayesloop/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 720570d..7b81644 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -403,7 +403,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # prior is given as density, so integration yields evidence, not only sum
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
@@ -462,8 +464,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration; transition models refer to the previous time step as (t-1), also if
                 # time stamps are not spaced by one
@@ -1422,7 +1423,8 @@ class HyperStudy(Study):
                 print('    + Log10-evidence of average model: {:.5f}'.format(self.logEvidence / np.log(10)))
 
             # compute local evidence of average model
-            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0) * \
+                np.prod(self.hyperGridConstant)  # hyper-prior values are densities
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From 381408912973d3a9cfb81834d4b229bfa99fad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:40 +0000
Subject: [PATCH 21/69] fix: do not alter hyper-prior array of the user,
 support integer hyper-prior values

Arrays were normalized in place, so that an array shared by several
hyper-parameters was used with wrong values.
---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7b81644..d8ba026 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1207,7 +1207,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1222,7 +1222,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # copy, the array supplied by the user must not be altered
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From 7d4503757c44964a4a9cebc845e7976fa48007ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:44 +0000
Subject: [PATCH 22/69] fix: outdated or missing time stamps if custom time
 stamps do not match data

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d8ba026..488f3c2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -109,14 +109,14 @@ class Study(object):
         else:
             raise ConfigurationError('Data type not supported. Please provide data as Numpy array.')
 
+        self.rawTimestamps = np.arange(len(self.rawData))  # set default timestamps (integer range)
+
         if timestamps is not None:  # load custom timestamps
             if len(timestamps) == len(array):
                 self.rawTimestamps = np.array(timestamps)
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
-        else:  # set default timestamps (integer range)
-            self.rawTimestamps = np.arange(len(self.rawData))
 
         if not silent:
             print('+ Successfully imported array.')
-- 
2.43.0


From 04d261ef4e4a5f088d17b15a5d644b4992ea8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 23/69] fix: hyper-parameter values of the user are lost after
 a hyper-study fit

Values set to 'all' were replaced by the time stamps of the current data set, and
an interrupted fit left the transition model with a single value per
hyper-parameter.
---
 bayesloop/core.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 488f3c2..4a698bf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1277,6 +1277,19 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        # individual hyper-parameter values are set during fitting; values chosen by the user are restored afterwards,
+        # even if the fit is interrupted
+        userValues = self._unpackAllHyperParameters()
+        try:
+            self._fitHyperGrid(forwardOnly, evidenceOnly, silent, nJobs, customHyperGrid)
+        finally:
+            self._setAllHyperParameters(userValues)
+
+    def _fitHyperGrid(self, forwardOnly, evidenceOnly, silent, nJobs, customHyperGrid):
+        """
+        Runs the analyses for all combinations of hyper-parameter values and computes the average model. See
+        :meth:`.HyperStudy.fit` for a description of the arguments.
+        """
         self.fitWarningCounter = 0
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
@@ -1445,9 +1458,6 @@ class HyperStudy(Study):
             # clear localEvidenceList (to keep file size small for stored studies)
             self.localEvidenceList = []
 
-            # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
-
             if not silent:
                 print('+ Finished fit.')
 
-- 
2.43.0


From bf9ef3d6f53840a56c3ccd2c511da864facdc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:49 +0000
Subject: [PATCH 24/69] fix: incomplete hyper-studies raise AttributeError
 instead of ConfigurationError

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 4a698bf..5830254 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1290,6 +1290,8 @@ class HyperStudy(Study):
         Runs the analyses for all combinations of hyper-parameter values and computes the average model. See
         :meth:`.HyperStudy.fit` for a description of the arguments.
         """
+        self._checkConsistency()
+
         self.fitWarningCounter = 0
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
@@ -1314,8 +1316,6 @@ class HyperStudy(Study):
                                                  'overlapping value intervals. Use "ChangepointStudy" instead of '
                                                  '"HyperStudy" for such cases.')
 
-        self._checkConsistency()
-
         self.averagePosteriorSequence = None
         if not evidenceOnly:
             # The average posterior distribution is stored in log-space for numerical stability. This way, it can be
@@ -1810,6 +1810,8 @@ class ChangepointStudy(HyperStudy):
             silent(bool): If set to True, reduced output is generated by the fitting method.
             nJobs(int): Number of processes to employ. Multiprocessing is based on the 'pathos' module.
         """
+        self._checkConsistency()
+
         # format data/timestamps once, so number of data segments is known
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
-- 
2.43.0


From 16a1c3077aa99b4bfbdc973b01d5c12e3bf4273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 25/69] fix: hyper-studies with a single (valid) combination of
 hyper-parameter values

The fit used arrays of values instead of the single combination, and
ChangepointStudy as well as the parser failed as no hyper-parameter distribution
was set.
---
 bayesloop/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5830254..c472ff3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1469,6 +1469,12 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            # there is no hyper-parameter distribution to infer
+            self.hyperParameterDistribution = None
+            if len(self.hyperGridValues) == 1:
+                self._setSelectedHyperParameters(self.hyperGridValues[0])
+                self.hyperParameterDistribution = np.array([1.])/np.prod(self.hyperGridConstant)
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
@@ -1860,6 +1866,9 @@ class ChangepointStudy(HyperStudy):
         self.mask = np.array(
             [all(x[i] < x[i + 1] for i in range(len(points) - 1)) for x in maskedHyperGridValues],
             dtype=bool)
+        if not np.any(self.mask):
+            raise ConfigurationError('No combination of change-/break-point values is in ascending order. Check '
+                                     'transition model.')
         self.hyperGridValues = self.allHyperGridValues[self.mask]
         self.flatHyperPriorValues = self.allHyperPriorValues[self.mask]
 
-- 
2.43.0


From fe4b7006d6732623c8071b2c8048a62467a03f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:16 +0000
Subject: [PATCH 26/69] fix: reading hyper-parameter distributions alters
 stored distribution

---
 bayesloop/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c472ff3..663a09b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1603,7 +1603,8 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        # convert to probability (from density); must not alter stored distribution
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)
 
         x = self.flatHyperParameters[paramIndex]
         if plot:
@@ -1679,7 +1680,8 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        # convert to probability (from density); must not alter stored distribution
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -2798,7 +2800,8 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
+        # convert to probability (from density); must not alter stored distribution
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 719e692d0fddcc72d9233ddb59339574c5cc0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 27/69] fix: plotting the parameter evolution alters posterior
 distributions

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 663a09b..b59d37b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1057,7 +1057,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 16ecbd9611207109255c331396c1ec40e6e0f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:46 +0000
Subject: [PATCH 28/69] fix: returned transition model distributions are
 overwritten by the next step of OnlineStudy

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b59d37b..48d1e67 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2439,9 +2439,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), np.array(self.localTransitionModelDistribution)
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), np.array(self.transitionModelDistribution)
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From 1b13088a9a5d73b4cb491964951773b748cb868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:12 +0000
Subject: [PATCH 29/69] fix: OnlineStudy.getHyperParameterDistribution returns
 densities and fails for t='avg'

The documented return value are probabilities, as returned by
getCurrentHyperParameterDistribution.
---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 48d1e67..f0c2c2e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2726,16 +2726,15 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.mean([x[tmIndex] for x in self.hyperParameterSequence], axis=0)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
@@ -2743,6 +2742,8 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        # convert to probability (from density); must not alter stored distribution
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From fbe130dac0cecc85555613de52533becd5c2c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:14 +0000
Subject: [PATCH 30/69] fix: hyper-parameter distributions of OnlineStudy fail
 if one hyper-parameter is a single value

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f0c2c2e..e64370e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2739,7 +2739,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [np.size(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
         # convert to probability (from density); must not alter stored distribution
@@ -2799,7 +2799,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [np.size(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
         # convert to probability (from density); must not alter stored distribution
-- 
2.43.0


From 8090c4dc684cf255861f17b8878c4a2c7069ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:17 +0000
Subject: [PATCH 31/69] fix: failed queries (e.g. wrong parameter name) break
 data stream of OnlineStudy

---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index e64370e..0e788b4 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2297,11 +2297,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2388,11 +2389,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2421,12 +2423,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 4ae02f1b4bb085f9ba1d05913bdbf9d6640c2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:19 +0000
Subject: [PATCH 32/69] fix: parameter distributions of a single time step
 cannot be accessed

---
 bayesloop/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 0e788b4..50047df 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -967,7 +967,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -991,8 +991,7 @@ class Study(object):
 
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize)).copy()
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1036,7 +1035,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1057,8 +1056,7 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 7ad9d6e3bc1eedb9d0cb2e2771b474e0137fda50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:54 +0000
Subject: [PATCH 33/69] fix: impossible data for one hypothesis of OnlineStudy
 yields NaN for all hypotheses

---
 bayesloop/core.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 50047df..7bd5479 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2210,13 +2210,15 @@ class OnlineStudy(HyperStudy):
                                                                       self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
-                # update log-evidence list
-                self.logEvidenceList[i][j] += np.log(ni)
+                # update log-evidence list and store parameter posterior
+                if ni > 0. and not np.isneginf(self.logEvidenceList[i][j]):
+                    self.logEvidenceList[i][j] += np.log(ni)
+                    self.parameterPosterior[i][j] = alphai/ni
+                else:  # data is impossible given these hyper-parameter values, they must not affect other hypotheses
+                    self.logEvidenceList[i][j] = -np.inf
+                    self.parameterPosterior[i][j] = 0.
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
-
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
@@ -2224,6 +2226,13 @@ class OnlineStudy(HyperStudy):
             self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
                                                        np.log(self.transitionModelPrior[i])
 
+            # data is impossible given the current transition model
+            if np.isneginf(self.hyperLogEvidenceList[i]):
+                self.localTransitionModelDistribution[i] = -np.inf
+                self.hyperParameterDistribution[i] = np.zeros(self.tmCounts[i])
+                self.transitionModelPosterior[i] = 0.
+                continue
+
             # normalize hyper-parameter distribution of current transition model
             self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
             self.hyperParameterDistribution[i] = np.exp(self.hyperParameterDistribution[i])
-- 
2.43.0


From cd3976bb07845a5c5237da2c76132a3c4dca2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:57 +0000
Subject: [PATCH 34/69] fix: OnlineStudy.step replaces hyper-parameter values
 of added transition models

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7bd5479..c6e6ba0 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2219,6 +2219,9 @@ class OnlineStudy(HyperStudy):
                     self.parameterPosterior[i][j] = 0.
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
+            # restore hyper-parameter values of the user (individual values have been set above)
+            self._setAllHyperParameters(self.allFlatHyperParameterValues[i])
+
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
-- 
2.43.0


From 4454af3322b4179f8cb3b7348d9256c34b81dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 35/69] fix: transition model instance shared by several
 studies uses wrong parameter grid

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c6e6ba0..8dda8ac 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -342,6 +342,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # transition model instance may have been assigned to another study in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 40ee7b0e782da177f38305d3ea1c527b2ca6892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:50 +0000
Subject: [PATCH 36/69] fix: detection of regular grids depends on the unit of
 the parameter

The absolute tolerance of 1e-10 classified regular grids with large values as
categorical and irregular grids with small values as regular.
---
 bayesloop/core.py   | 24 +++++++++++-------------
 bayesloop/helper.py | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 8dda8ac..ca02df2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -23,7 +23,7 @@ from copy import copy, deepcopy
 from collections import OrderedDict
 from collections.abc import Iterable
 from tqdm.auto import tqdm
-from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols
+from .helper import assignNestedItem, recursiveIndex, flatten, createColormap, oint, cint, freeSymbols, equallySpaced
 from .preprocessing import movingWindow
 from .observationModels import ObservationModel
 from .transitionModels import TransitionModel, CombinedTransitionModel, SerialTransitionModel
@@ -158,7 +158,7 @@ class Study(object):
             self.boundaries.append([v[0], v[-1]])
 
             # check if parameter values are equally spaced
-            if np.any(np.abs(np.diff(np.diff(v))) > 10 ** -10):
+            if not equallySpaced(v):
                 print('! WARNING: Supplied parameter values for "{}" are not equally spaced. Assuming categorical '
                       'parameter.'.format(n))
                 self.latticeConstant.append(1.)
@@ -1187,10 +1187,8 @@ class HyperStudy(Study):
         for values in self.flatHyperParameters:
             if isinstance(values, Iterable) and len(values) > 1:
                 a = np.array(values)
-                d = a[1:] - a[:-1]
-                dd = d[1:] - d[:-1]
-                if np.all(np.abs(dd) < 10 ** -10):  # for equally spaced values, set difference as grid-constant
-                    self.hyperGridConstant.append(np.abs(d[0]))
+                if equallySpaced(a):  # for equally spaced values, set difference as grid-constant
+                    self.hyperGridConstant.append(np.abs(a[1] - a[0]))
                 else:  # for irregularly spaced values (e.g. categorical), set grid-constant to 1
                     self.hyperGridConstant.append(1)
             else:  # for single value, set grid-constant to 1
@@ -1612,7 +1610,7 @@ class HyperStudy(Study):
         x = self.flatHyperParameters[paramIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -1687,12 +1685,12 @@ class HyperStudy(Study):
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
-        if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+        if not equallySpaced(x):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
             x2 = np.tile(x, (len(y), 1)).T
 
-        if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+        if not equallySpaced(y):
             y2 = np.tile(np.arange(len(y)), (len(x), 1))
         else:
             y2 = np.tile(y, (len(x), 1))
@@ -1718,9 +1716,9 @@ class HyperStudy(Study):
                      )
 
             # check for categorical hyper-parameter values
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.xticks(np.arange(len(x)), x)
-            if np.any(np.abs(np.diff(np.diff(y))) > 10 ** -10):
+            if not equallySpaced(y):
                 plt.yticks(np.arange(len(y)), y)
 
             ax.set_xlabel(self.flatHyperParameterNames[paramIndices[0]])
@@ -2765,7 +2763,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
@@ -2825,7 +2823,7 @@ class OnlineStudy(HyperStudy):
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
             # check if categorical
-            if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
+            if not equallySpaced(x):
                 plt.bar(np.arange(len(x)), marginalDistribution, align='center', width=1., **kwargs)
                 plt.xticks(np.arange(len(x)), x)
                 plt.ylabel('probability')
diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index f9fa49a..0abdaa2 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -119,6 +119,26 @@ def cint(start, stop, num):
     """
     return np.linspace(start, stop, num)
 
+
+def equallySpaced(values):
+    """
+    Checks whether values form a regular grid, up to rounding errors. The tolerance scales with the values, as the result
+    must not depend on the unit in which the values are given.
+
+    Args:
+        values(list, ndarray): Sequence of numeric values
+
+    Returns:
+        bool: True, if values are equally spaced
+    """
+    values = np.atleast_1d(np.array(values, dtype=float))
+    d = np.diff(values)
+    if len(d) < 2:
+        return True
+    tolerance = 10.**-7*np.amax(np.abs(d)) + 8*np.finfo(float).eps*np.amax(np.abs(values))
+    return bool(np.all(np.abs(np.diff(d)) <= tolerance))
+
+
 def freeSymbols(rv):
     """
     Extracts the free symbols/parameters of a probability distribution from a SymPy random variable, independent of the
-- 
2.43.0


From 05f8040e702a550bbdc6e7b51f4443e94ea500a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:53 +0000
Subject: [PATCH 37/69] fix: remove debug output of parser

---
 bayesloop/parser.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..8ee8798 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -394,9 +394,6 @@ class Parser:
             dmax = np.nanmax(derivedParameter)
 
             # bin size is chosen as maximal difference between two derived values
-            print(f"dmax {dmax}")
-            print(f"dmin {dmin}")
-            print(np.diff(np.sort(derivedParameter)))
             nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])
-- 
2.43.0


From 873c729eb4393bdefa5b719813f43d4cb5bdf887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 38/69] fix: parser selects wrong time step for studies with
 different time stamps

---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 8ee8798..08f737c 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -284,10 +284,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -332,7 +332,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From cdfc58d8f9abec9c715e7d11345bd0d9ca529d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:47 +0000
Subject: [PATCH 39/69] fix: parser ignores time step/transition model of
 second (hyper-)parameter

Arithmetic operations on two different parameters of one study at different time
steps, on hyper-parameters at different time steps, or on hyper-parameters of
different transition models used only the probabilities of the first one.
---
 bayesloop/parser.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 08f737c..b0742e4 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -20,12 +20,13 @@ class Parameter(np.ndarray):
     Behaves like a Numpy array, but features additional attributes. This allows us to apply arithmetic operations to
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
-    def __new__(cls, values, prob, name=None, time=None, study=None):
+    def __new__(cls, values, prob, name=None, time=None, study=None, model=None):
         obj = np.asarray(values).view(cls)
         obj.prob = prob
         obj.name = name
         obj.time = time
         obj.study = study
+        obj.model = model  # transition model (for hyper-parameters of OnlineStudy only)
         return obj
 
     def __array_finalize__(self, obj):
@@ -36,6 +37,7 @@ class Parameter(np.ndarray):
         self.name = getattr(obj, 'name', None)
         self.time = getattr(obj, 'time', None)
         self.study = getattr(obj, 'study', None)
+        self.model = getattr(obj, 'model', None)
 
 
 class HyperParameter(Parameter):
@@ -234,13 +236,10 @@ class Parser:
                 raise ConfigurationError('No timestamp defined for hyper-parameter "{}"'.format(b.name))
 
             # compute compound distribution of two (hyper-)parameters
-            if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
-                                                                       (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
-                    (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
-                    ((type(a) == HyperParameter) and (type(b) == Parameter) or
-                             (type(b) == HyperParameter) and (type(a) == Parameter)):
+            # (values are independent if they belong to different studies, transition models or time steps)
+            if isinstance(a, Parameter) and isinstance(b, Parameter) and \
+                    (type(a) != type(b) or not (a.study is b.study) or (a.study is None and b.study is None) or
+                     not (a.model is b.model) or not (a.time == b.time)):
 
                 valueTuples = np.array(np.meshgrid(a, b)).T.reshape(-1, 2)
                 values = self.arith[symbol](valueTuples[:, 0], valueTuples[:, 1])
@@ -321,14 +320,16 @@ class Parser:
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       hps,
                                                                       name=name,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                             else:
                                 dist = study.hyperParameterDistribution[j]/np.sum(study.hyperParameterDistribution[j])
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       dist,
                                                                       name=name,
                                                                       time=study.formattedTimestamps[-1],
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
@@ -341,7 +342,8 @@ class Parser:
                                                                       dist,
                                                                       name=name,
                                                                       time=t,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                             else:
                                 raise ConfigurationError('OnlineStudy instance is not configured to store history, '
                                                          'cannot access t={}.'.format(t))
-- 
2.43.0


From ca8fedbc2770b29badba92148d5fb6d8d269ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:11 +0000
Subject: [PATCH 40/69] fix: derived distributions of parser lack largest value
 and are shifted

Bins are now represented by their centers and the last bin includes the largest
derived value, so that probability is conserved. Distributions with one or two
distinct values are supported.
---
 bayesloop/parser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index b0742e4..5260497 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -392,13 +392,16 @@ class Parser:
         # if no relational operator in query, compute derived distribution
         if len(splitQuery) == 1:
             derivedParameter[np.isinf(derivedParameter)] = np.nan
-            dmin = np.nanmin(derivedParameter)
-            dmax = np.nanmax(derivedParameter)
+            dmin = float(np.nanmin(derivedParameter))
+            dmax = float(np.nanmax(derivedParameter))
 
             # bin size is chosen as maximal difference between two derived values
-            nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
-            bins = np.linspace(dmin, dmax, nBins)
-            binnedValues = bins[:-1] + (bins[1]-bins[0])
+            if dmax > dmin:
+                nBins = max(int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter))))), 2)
+                bins = np.linspace(dmin, dmax, nBins)
+            else:  # all derived values are identical
+                bins = np.array([dmin, dmax])
+            binnedValues = (bins[:-1] + bins[1:])/2.
             binnedProbs = []
 
             if not silent:
@@ -408,7 +411,9 @@ class Parser:
                 it = zip(bins[:-1], bins[1:])
 
             for lower, upper in it:
-                binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * (derivedParameter < upper)]))
+                # largest value belongs to last bin
+                below = (derivedParameter < upper) if upper < bins[-1] else (derivedParameter <= upper)
+                binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * below]))
             binnedProbs = np.array(binnedProbs)
 
             return binnedValues, binnedProbs
-- 
2.43.0


From 86040d887547b84c2a6c2cd8a8545438b9c3d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:15 +0000
Subject: [PATCH 41/69] fix: parser fails for derived distribution of single
 parameter or function

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 5260497..09a4f91 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -376,7 +376,7 @@ class Parser:
         # reduce equation
         splitQuery = re.split('>=|<=|==|>|<', query)
         if len(splitQuery) == 1:
-            reducedQuery = query
+            reducedQuery = '1*('+query+')'  # ensures that there is at least one arithmetic operation
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-- 
2.43.0


From 6fed81cf942bce1f46abbee9ec838a371561dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:38 +0000
Subject: [PATCH 42/69] fix: SymPy observation model defined by dictionary
 cannot be used with most transition models

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index db325d3..28d6d43 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -322,8 +322,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0


From 5496c24b47d318c1802e715cd3af846ed2cd1bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:42 +0000
Subject: [PATCH 43/69] fix: transition model prior of OnlineStudy fails for
 integer weights

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ca02df2..3b9b2d7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2095,7 +2095,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From 36263077548772bab523783716b0c38d71472edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:57 +0000
Subject: [PATCH 44/69] fix: duration distribution fails if some duration
 occurs only in unordered change-point combinations

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3b9b2d7..f667686 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1950,7 +1950,8 @@ class ChangepointStudy(HyperStudy):
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
+            # hyper-grid points that violate the order of change/break-points have not been fitted (probability zero)
+            if values[1] > values[0] and self.hyperParameterDistribution[i] > 0.:
                 # get matching index in duration (rounding needed because of finite precision)
                 idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
-- 
2.43.0


From cfe4ed492f4d990a88e023867ed23138f07f9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 45/69] fix: joint distribution fails for hyper-parameters with
 a single value

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f667686..6d27f26 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1680,11 +1680,13 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.apply_over_axes(np.sum, distribution, axesToMarginalize)
         # convert to probability (from density); must not alter stored distribution
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)
 
-        x, y = [self.flatHyperParameters[i] for i in paramIndices]
+        # hyper-parameters may also have a single value
+        x, y = [np.atleast_1d(self.flatHyperParameters[i]) for i in paramIndices]
+        marginalDistribution = marginalDistribution.reshape((len(x), len(y)))
         if not equallySpaced(x):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
-- 
2.43.0


From 38da3519db97fd8f54b9db2cc179bf15eb0b1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:02 +0000
Subject: [PATCH 46/69] fix: distribution of hyper-parameter with one value has
 the shape of its values

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 6d27f26..7784a0a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1608,6 +1608,7 @@ class HyperStudy(Study):
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)
 
         x = self.flatHyperParameters[paramIndex]
+        marginalDistribution = marginalDistribution.reshape(np.shape(x))  # keep axis of single values
         if plot:
             # check if categorical
             if not equallySpaced(x):
@@ -2764,6 +2765,7 @@ class OnlineStudy(HyperStudy):
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        marginalDistribution = marginalDistribution.reshape(np.shape(x))  # keep axis of single values
         if plot:
             # check if categorical
             if not equallySpaced(x):
@@ -2824,6 +2826,7 @@ class OnlineStudy(HyperStudy):
         marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        marginalDistribution = marginalDistribution.reshape(np.shape(x))  # keep axis of single values
         if plot:
             # check if categorical
             if not equallySpaced(x):
-- 
2.43.0


From 3229e48d727797b2bbf04788fa7549d8d282e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 47/69] fix: parameter interval that cannot be estimated (no
 data, identical data points) silently results in NaN

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7784a0a..b0b748d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -146,6 +146,7 @@ class Study(object):
             if v is None:  # if user has not specified parameter values, we try to estimate them
                 try:
                     v = self.observationModel.estimateParameterValues(n, self.rawData)
+                    assert np.all(np.diff(v) > 0.)  # no proper interval (e.g. no data loaded, all data points equal)
                     print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
                           .format(n, v[0], v[-1], len(v)))
                 except:
-- 
2.43.0


From 7a434109086757dea12516218eb414b3a3e43551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:25 +0000
Subject: [PATCH 48/69] fix: parser silently ignores the rest of a query that
 cannot be parsed completely

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 09a4f91..3417fc4 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -386,7 +386,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From 6a49a62adf4a2ef6870e7e6ad361cf4578ab557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:42 +0000
Subject: [PATCH 49/69] fix: optimize varies change/break-points if there are
 no other hyper-parameters

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b0b748d..a5ddc12 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -543,8 +543,9 @@ class Study(object):
                      list(flatten(self._unpackBreakpointNames(self.transitionModel)))
             self.selectedHyperParameters = [x for x in allHyperParameters if x not in points]
 
-        # create parameter list to set start values for optimization
-        x0 = self._unpackSelectedHyperParameters()
+        # create parameter list to set start values for optimization (an empty selection would select all parameters,
+        # including change/break-points)
+        x0 = self._unpackSelectedHyperParameters() if self.selectedHyperParameters else []
 
         # check if valid parameter names were entered
         if len(x0) == 0:
-- 
2.43.0


From 18f1a6f36d071d25b45964515df0924255524bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:25 +0000
Subject: [PATCH 50/69] fix: simulate returns NaN if no parameter distributions
 are available

---
 bayesloop/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a5ddc12..684e66d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -604,6 +604,11 @@ class Study(object):
             raise NotImplementedError('Method "simulate" is only available for observation models with '
                                       'segment length 1.')
 
+        # check if parameter distributions have been computed
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('Cannot simulate observations as parameter distributions have not yet been '
+                                      'computed or stored. Run complete analysis.')
+
         # if no time is provided, use time-averaged posterior distribution
         if t is None:
             post = np.sum(self.posteriorSequence, axis=0) / len(self.posteriorSequence)
-- 
2.43.0


From 7d14df3be455fad9fbfafaec172f8ddd5fcb1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:55 +0000
Subject: [PATCH 51/69] fix: failed estimation of parameter values leaves study
 with new observation model on old grid

---
 bayesloop/core.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 684e66d..6027a81 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -135,25 +135,28 @@ class Study(object):
             L: Observation model class (see observationModels.py)
             silent(bool): If set to True, no output is generated by this method.
         """
-        self.observationModel = L
-
-        # prepare parameter grid
-        self.marginalGrid = []
-        self.gridSize = []
-        self.boundaries = []
-        self.latticeConstant = []
-        for v, n in zip(self.observationModel.parameterValues, self.observationModel.parameterNames):
+        # determine parameter values first, as the study must not be altered if this fails
+        parameterValues = []
+        for v, n in zip(L.parameterValues, L.parameterNames):
             if v is None:  # if user has not specified parameter values, we try to estimate them
                 try:
-                    v = self.observationModel.estimateParameterValues(n, self.rawData)
+                    v = L.estimateParameterValues(n, self.rawData)
                     assert np.all(np.diff(v) > 0.)  # no proper interval (e.g. no data loaded, all data points equal)
                     print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
                           .format(n, v[0], v[-1], len(v)))
                 except:
                     raise ConfigurationError('Could not estimate parameter values for "{}".'.format(n))
 
-            v = np.array(v, dtype=float)  # inference algorithm needs floats
+            parameterValues.append(np.array(v, dtype=float))  # inference algorithm needs floats
 
+        self.observationModel = L
+
+        # prepare parameter grid
+        self.marginalGrid = []
+        self.gridSize = []
+        self.boundaries = []
+        self.latticeConstant = []
+        for v, n in zip(parameterValues, self.observationModel.parameterNames):
             self.marginalGrid.append(v)
             self.gridSize.append(len(v))
             self.boundaries.append([v[0], v[-1]])
-- 
2.43.0


From 1c2e8e2f269b2eb4f5132e1c457eb4a343e5de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:58 +0000
Subject: [PATCH 52/69] fix: refused first data point breaks online study

---
 bayesloop/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 6027a81..db0cff9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2146,7 +2146,11 @@ class OnlineStudy(HyperStudy):
 
             # check the model consistency the first time that 'step' is called
             self.rawData = np.array(dataPoint)
-            Study._checkConsistency(self)
+            try:
+                Study._checkConsistency(self)
+            except ConfigurationError:
+                self.rawData = np.array([])  # data point is not processed
+                raise
 
             self.rawTimestamps = np.array([0])
             self.formattedTimestamps = []
-- 
2.43.0


From d16eebb4dddd760e2eb083ba4f6154296ab98f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:14 +0000
Subject: [PATCH 53/69] fix: read-outs before the first data point break online
 study

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index db0cff9..7c88702 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2031,6 +2031,7 @@ class OnlineStudy(HyperStudy):
         self.localTransitionModelDistribution = None
 
         self.storeHistory = storeHistory
+        self.formattedTimestamps = []
         self.posteriorMeanValues = []
         self.posteriorSequence = []
         self.hyperParameterSequence = []
-- 
2.43.0


From eaf3c75a12b8007371a099ad75ae27e2fce0c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:38 +0000
Subject: [PATCH 54/69] fix: online study without data returns empty parameter
 distributions instead of error

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7c88702..5c5fc56 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -906,7 +906,7 @@ class Study(object):
             ndarray, ndarray: The first array contains the parameter values, the second one the corresponding
                 probability (density) values
         """
-        if self.posteriorSequence == []:
+        if len(self.posteriorSequence) == 0:
             raise PostProcessingError('Cannot plot posterior sequence as it has not yet been computed. '
                                       'Run complete fit.')
 
@@ -976,7 +976,7 @@ class Study(object):
             ndarray, ndarray: The first array contains the parameter values, the second one the sequence of
             corresponding posterior distributions.
         """
-        if self.posteriorSequence == []:
+        if len(self.posteriorSequence) == 0:
             raise PostProcessingError('Cannot plot posterior sequence as it has not yet been computed. '
                                       'Run complete fit.')
 
-- 
2.43.0


From 422fbff49201c57278c9ed9a25c690a4ea22cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 55/69] fix: simulate fails for observations that consist of
 several values (Gaussian mean with given error)

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5c5fc56..5c96836 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -623,7 +623,7 @@ class Study(object):
             post = self.posteriorSequence[timeIndex]
 
         # compute distribution of observations/data at the given points x
-        prob = np.array([np.sum(self.observationModel.pdf(self.grid, [xi]) * post) for xi in x])
+        prob = np.array([np.sum(self.observationModel.pdf(self.grid, np.array([xi])) * post) for xi in x])
 
         if not density:
             prob /= np.sum(prob)
-- 
2.43.0


From e015842742077ece49918301af03f8fc07fe8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:23 +0000
Subject: [PATCH 56/69] fix: data with less points than a data segment yields a
 meaningless evidence

---
 bayesloop/preprocessing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/preprocessing.py b/bayesloop/preprocessing.py
index 1159e78..85ce63a 100644
--- a/bayesloop/preprocessing.py
+++ b/bayesloop/preprocessing.py
@@ -9,6 +9,7 @@ Example: The auto-regressive process of first order needs two subsequent data po
 
 from __future__ import division, print_function
 import numpy as np
+from .exceptions import *
 
 
 def movingWindow(rawData, n):
@@ -22,5 +23,8 @@ def movingWindow(rawData, n):
     Returns:
         ndarray: Array of data segments, each containing n overlapping data points
     """
+    if rawData.shape[0] < n:
+        raise ConfigurationError('Not enough data points: observation model needs at least {} data points.'.format(n))
+
     data = np.array([rawData[i:i+n] for i in range(rawData.shape[0] - (n-1))])
     return data
-- 
2.43.0


From 96df3c162fa9ef49542e253c83d6a09aa15b311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:02 +0000
Subject: [PATCH 57/69] fix: Jeffreys prior of autoregressive process counts
 one data point too many

---
 bayesloop/jeffreys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/jeffreys.py b/bayesloop/jeffreys.py
index 457ba23..468687c 100644
--- a/bayesloop/jeffreys.py
+++ b/bayesloop/jeffreys.py
@@ -103,6 +103,6 @@ def computeJeffreysPriorAR1(study, t=1):
     d0 = study.rawData[t-1]  # first observation is accounted for in the prior
     n = len(study.rawData)  # number of data points
 
-    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*(n+1))**.5
+    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*n)**.5
     prior /= np.sum(prior)
     return prior
-- 
2.43.0


From a748741ac1811321bb44177a80ac7b35190b8a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:06 +0000
Subject: [PATCH 58/69] fix: Jeffreys prior of scaled autoregressive process
 lacks the change of variables

---
 bayesloop/jeffreys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/jeffreys.py b/bayesloop/jeffreys.py
index 468687c..d89a411 100644
--- a/bayesloop/jeffreys.py
+++ b/bayesloop/jeffreys.py
@@ -84,9 +84,11 @@ def computeJeffreysPriorAR1(study, t=1):
     """
     if str(study.observationModel) == 'Autoregressive process of first order (AR1)':
         r, s = study.grid
+        jacobian = 1.
     elif str(study.observationModel) == 'Scaled autoregressive process of first order (AR1)':
         r, s = study.grid
-        s = s*np.sqrt(1 - r**2.)
+        jacobian = np.sqrt(1 - r**2.)  # prior is derived as a density of the noise amplitude
+        s = s*jacobian
     else:
         raise ConfigurationError('Jeffreys prior for autoregressive process can only be used with AR1 and ScaledAR1 '
                                  'models.')
@@ -103,6 +105,6 @@ def computeJeffreysPriorAR1(study, t=1):
     d0 = study.rawData[t-1]  # first observation is accounted for in the prior
     n = len(study.rawData)  # number of data points
 
-    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*n)**.5
+    prior = (1/s**2.)*np.exp(-d0**2.*(1-r**2.)/(2*s**2.))*(4*(r**2.)/(1-r**2.)+2*n)**.5*jacobian
     prior /= np.sum(prior)
     return prior
-- 
2.43.0


From 894a60ad101cb681ba6e3f87e2d116e39664bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:02 +0000
Subject: [PATCH 59/69] fix: local evidence of complete fits if likelihood
 contains zeros

---
 bayesloop/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5c96836..a2bf9f7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -471,8 +471,15 @@ class Study(object):
                     likelihood = likelihood.astype(float)
 
                 # compute local evidence
-                with np.errstate(invalid='ignore'):
+                if np.all(likelihood > 0.):
                     self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
+                else:  # posterior lacks parameter values that are only excluded by the current data point
+                    if i > 0:
+                        others = self.transitionModel.computeForwardPrior(self.posteriorSequence[i-1],
+                                                                          self.formattedTimestamps[i-1])*beta
+                    else:
+                        others = self._computePrior(silent=True)*beta
+                    self.localEvidence[i] = np.sum(others*likelihood)/np.sum(others)
 
                 # compute beta for next iteration; transition models refer to the previous time step as (t-1), also if
                 # time stamps are not spaced by one
-- 
2.43.0


From 12080889382765aed29c8178a002386bdbaa34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 60/69] fix: Deterministic transition model fails for functions
 without keyword-arguments

---
 bayesloop/transitionModels.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 6e52231..1123053 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -512,9 +512,10 @@ class Deterministic(TransitionModel):
 
         # create ordered dictionary of hyper-parameters from keyword-arguments of function
         argspec = getargspec(self.function)
+        defaults = argspec.defaults if argspec.defaults is not None else ()
 
         # only keyword arguments are allowed
-        if not len(argspec.args) == len(argspec.defaults)+1:
+        if not len(argspec.args) == len(defaults)+1:
             raise ConfigurationError('Function to define deterministic transition model can only contain one '
                                      'non-keyword argument (time; first argument) and keyword-arguments '
                                      '(hyper-parameters) with default values.')
@@ -522,7 +523,7 @@ class Deterministic(TransitionModel):
         # define hyper-parameters of transition model
         self.hyperParameterNames = []
         self.hyperParameterValues = []
-        for arg, default in zip(argspec.args[1:], argspec.defaults):
+        for arg, default in zip(argspec.args[1:], defaults):
             if isinstance(default, (list, tuple)):
                 default = np.array(default)
             self.hyperParameterNames.append(arg)
@@ -530,14 +531,14 @@ class Deterministic(TransitionModel):
 
         if prior is None:
             # provide as many "None"-priors as there are hyper-parameters
-            self.prior = [None]*len(argspec.defaults)
+            self.prior = [None]*len(defaults)
         else:
             # if list of priors is supplied, check length
             if isinstance(prior, Iterable):
-                if not len(prior) == len(argspec.defaults):
+                if not len(prior) == len(defaults):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
-                                             .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                                             .format(len(prior), self.function.__name__, len(defaults)))
                 self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
-- 
2.43.0


From 70fb5ec429d640b0652a729ae169d2a9d0a29afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:40 +0000
Subject: [PATCH 61/69] fix: wrong number of hyper-priors is not detected

---
 bayesloop/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a2bf9f7..1f3aabf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1187,6 +1187,11 @@ class HyperStudy(Study):
         self.flatHyperParameterNames = self._unpackAllHyperParameters(values=False)
         self.flatHyperPriors = self._unpackAllHyperPriors()
 
+        # transition models with several hyper-parameters need one hyper-prior for each of them
+        if len(self.flatHyperPriors) != len(self.flatHyperParameterNames):
+            raise ConfigurationError('Transition model contains {} hyper-parameters, but {} hyper-priors were provided.'
+                                     .format(len(self.flatHyperParameterNames), len(self.flatHyperPriors)))
+
         # look if change/break-points have value 'all' and assign array of all time-stamps
         for i, v in enumerate(self.flatHyperParameters):
             if isinstance(v, str) and v == 'all':
-- 
2.43.0


From e8536b5bc14743944a0c13aaff5950bdc2e31a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 62/69] fix: offsets of deterministic models beyond the integer
 range yield undefined distributions

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 1123053..4c9cdc6 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -569,6 +569,7 @@ class Deterministic(TransitionModel):
 
         # normalize offset with respect to lattice constant of parameter grid
         d /= self.latticeConstant[axisToTransform]
+        d = np.clip(d, -10.**9, 10.**9)  # all values are shifted out of the grid; larger offsets overflow in SciPy
 
         # build list for all axes of parameter grid (setting only the selected axis to a non-zero value)
         dAll = [0] * len(self.latticeConstant)
@@ -595,6 +596,7 @@ class Deterministic(TransitionModel):
 
         # normalize offset with respect to lattice constant of parameter grid
         d /= self.latticeConstant[axisToTransform]
+        d = np.clip(d, -10.**9, 10.**9)  # all values are shifted out of the grid; larger offsets overflow in SciPy
 
         # build list for all axes of parameter grid (setting only the selected axis to a non-zero value)
         dAll = [0] * len(self.latticeConstant)
-- 
2.43.0


From afebd74d4413d212bd20f635c06a67619db8325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 63/69] fix: names of parameters that begin with (or equal) a
 function name can be used in queries

---
 bayesloop/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 3417fc4..0a36747 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -103,15 +103,15 @@ class Parser:
         # initialize list of all numpy functions, remove functions that collide with (hyper-)parameter names
         self.functions = dir(np) + dir(sp)
         for name in self.names:
-            try:
-                self.functions.remove(name)
+            if name in self.functions:
+                # some functions are found in both Numpy and SciPy
+                self.functions = [f for f in self.functions if f != name]
                 print('! WARNING: Function "{}" will not be available in parser, as it collides with '
                       '(hyper-)parameter names.'.format(name))
-            except ValueError:
-                pass
 
         # initialize operators for parsing
-        funcop = pp.oneOf(self.functions)
+        # (function names may be the beginning of a (hyper-)parameter name, the longest match is chosen)
+        funcop = pp.oneOf(self.names + self.functions).addCondition(lambda tokens: tokens[0] not in self.names)
         atop = pp.Literal('@')
         expop = pp.Literal('^')
         signop = pp.oneOf('+ -')
-- 
2.43.0


From 2f0f2656fdcd174132234b70de947985c9c0e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 64/69] fix: online study counts data points that could not be
 processed

---
 bayesloop/core.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1f3aabf..b92c80b 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2149,6 +2149,8 @@ class OnlineStudy(HyperStudy):
         if not isinstance(dataPoint, list):
             dataPoint = [dataPoint]
 
+        oldData, oldTimestamps = self.rawData, self.rawTimestamps  # restored if the data point cannot be processed
+
         if len(self.rawData) == 0:
             print('+ Start model fit')
 
@@ -2178,10 +2180,23 @@ class OnlineStudy(HyperStudy):
 
         self.formattedTimestamps.append(self.rawTimestamps[-1])
 
-        if self.firstStep:
+        # select data segment
+        dataSegment = self.rawData[-self.observationModel.segmentLength:]
+
+        try:
             # initialize parameter prior distribution
-            prior = self._computePrior(silent=False)
+            if self.firstStep:
+                prior = self._computePrior(silent=False)
 
+            # compute current likelihood only once
+            likelihood = self.observationModel.processedPdf(self.grid, dataSegment)
+        except Exception:
+            # data point is not processed
+            self.rawData, self.rawTimestamps = oldData, oldTimestamps
+            self.formattedTimestamps.pop()
+            raise
+
+        if self.firstStep:
             # initialize hyper-prior as flat
             if self.hyperPrior is None:
                 self.hyperPrior = 'flat hyper-prior'
@@ -2215,12 +2230,6 @@ class OnlineStudy(HyperStudy):
             # initialize marginalized posterior
             self.marginalizedPosterior = np.zeros(self.gridSize)
 
-        # select data segment
-        dataSegment = self.rawData[-self.observationModel.segmentLength:]
-
-        # compute current likelihood only once
-        likelihood = self.observationModel.processedPdf(self.grid, dataSegment)
-
         # loop over all hypotheses/transition models
         for i, (tm, hpv) in enumerate(zip(self.transitionModels, self.hyperParameterValues)):
             self.setTransitionModel(tm, silent=True)  # set current transition model
-- 
2.43.0


From bcca9878b7a892cbc6a71da6c1f20b85865a47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 65/69] fix: interrupted fits leave incomplete distributions

---
 bayesloop/core.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b92c80b..9bf7c88 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -346,6 +346,16 @@ class Study(object):
         """
         self._checkConsistency()
 
+        try:
+            self._runFit(forwardOnly, evidenceOnly, silent)
+        except BaseException:
+            self._discardFit()  # distributions are incomplete if the fit is interrupted
+            raise
+
+    def _runFit(self, forwardOnly, evidenceOnly, silent):
+        """
+        Carries out the analysis for the current settings. See :meth:`.Study.fit` for a description of the arguments.
+        """
         # transition model instance may have been assigned to another study in the meantime
         self.transitionModel.study = self
         self.transitionModel.latticeConstant = self.latticeConstant
@@ -507,8 +517,8 @@ class Study(object):
 
     def _discardFit(self):
         """
-        Called if data is impossible given the current model. Evidence is set to zero and all distributions computed so
-        far are discarded, as they are not defined in this case.
+        Called if data is impossible given the current model, or if a fit is interrupted. Evidence is set to zero and all
+        distributions computed so far are discarded, as they are not defined in this case.
         """
         self.logEvidence = -np.inf
         self.localEvidence = np.zeros(len(self.formattedData))
@@ -1305,6 +1315,10 @@ class HyperStudy(Study):
         userValues = self._unpackAllHyperParameters()
         try:
             self._fitHyperGrid(forwardOnly, evidenceOnly, silent, nJobs, customHyperGrid)
+        except BaseException:
+            if self.hyperParameterDistribution is None:
+                self._discardFit()  # analysis has been started, but is not complete
+            raise
         finally:
             self._setAllHyperParameters(userValues)
 
@@ -1348,6 +1362,7 @@ class HyperStudy(Study):
 
         self.logEvidenceList = []
         self.localEvidenceList = []
+        self.hyperParameterDistribution = None
 
         # hyper-study fit is only necessary for more than one combination of hyper-parameter values
         if len(self.hyperGridValues) > 1:
-- 
2.43.0


From f12aecadb545435bd5397a90ca8863f70f627144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 66/69] fix: bars of plotted duration distribution overlap if
 the smallest duration exceeds the distance between durations

---
 bayesloop/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9bf7c88..58d10d8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2000,7 +2000,10 @@ class ChangepointStudy(HyperStudy):
         durationDistribution /= np.sum(durationDistribution)
 
         if plot:
-            plt.bar(duration, durationDistribution, align='center', width=duration[0], **kwargs)
+            # bars of neighboring durations (rounding needed because of finite precision) must not overlap
+            distances = np.diff(np.unique(duration.round(10)))
+            width = np.amin(distances) if len(distances) > 0 else duration[0]
+            plt.bar(duration, durationDistribution, align='center', width=width, **kwargs)
 
             plt.xlabel('duration between {} and {} (in time steps)'
                        .format(self.flatHyperParameterNames[paramIndices[0]],
-- 
2.43.0


From 67e4ea316130c9d5d89f29121721a82a4467ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 67/69] fix: tick labels of joint distribution are drawn into
 the current figure instead of the given one

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 58d10d8..47f0ac3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1757,9 +1757,11 @@ class HyperStudy(Study):
 
             # check for categorical hyper-parameter values
             if not equallySpaced(x):
-                plt.xticks(np.arange(len(x)), x)
+                ax.set_xticks(np.arange(len(x)))
+                ax.set_xticklabels(x)
             if not equallySpaced(y):
-                plt.yticks(np.arange(len(y)), y)
+                ax.set_yticks(np.arange(len(y)))
+                ax.set_yticklabels(y)
 
             ax.set_xlabel(self.flatHyperParameterNames[paramIndices[0]])
             ax.set_ylabel(self.flatHyperParameterNames[paramIndices[1]])
-- 
2.43.0


From a26ab033d913d2356b2fcf7fb5b4ee6afbb31e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 68/69] fix: backward pass misses change-/break-points at
 fractional time stamps because of finite precision

---
 bayesloop/transitionModels.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4c9cdc6..3bbeeb2 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -24,6 +24,25 @@ try:
 except ImportError:
     from inspect import getfullargspec as getargspec
 
+def previousTime(t, points):
+    """
+    Returns the time preceding time t in the backward pass. Because of finite precision, (t-1) may slightly deviate from
+    the time of a change- or break-point, in which case the exact time of this point is returned.
+
+    Args:
+        t(int, float): time step/stamp
+        points(list): times of change- and break-points
+
+    Returns:
+        int, float: previous time step/stamp
+    """
+    if not isinstance(t, (int, np.integer)):  # integers are exact
+        for point in points:
+            if abs(t - 1 - point) <= np.finfo(float).eps*max(1., abs(t)):
+                return point
+    return t - 1
+
+
 class TransitionModel:
     """
     Parent class for transition models. All transition models inherit from this class. It is currently only used to
@@ -313,7 +332,7 @@ class ChangePoint(TransitionModel):
 
     def computeBackwardPrior(self, posterior, t):
         # parameter values before the change-point are independent of the data after the change-point
-        if t - 1 == self.hyperParameterValues[0]:
+        if previousTime(t, self.hyperParameterValues) == self.hyperParameterValues[0]:
             return np.ones(self.study.gridSize)/np.prod(self.study.gridSize)
         else:
             return posterior
@@ -782,7 +801,7 @@ class SerialTransitionModel(TransitionModel):
 
     def computeBackwardPrior(self, posterior, t):
         # the index of the model to choose at time t is given by the number of break times <= t
-        modelIndex = np.sum(np.array(self.hyperParameterValues) <= t-1)
+        modelIndex = np.sum(np.array(self.hyperParameterValues) <= previousTime(t, self.hyperParameterValues))
 
         self.models[modelIndex].latticeConstant = self.latticeConstant  # latticeConstant needs to be propagated
         self.models[modelIndex].study = self.study  # study needs to be propagated
@@ -816,7 +835,7 @@ class SerialTransitionModel(TransitionModel):
             return posterior
 
     def _backwardChangePointCheck(self, posterior, t):
-        return self._forwardChangePointCheck(posterior, t - 1)
+        return self._forwardChangePointCheck(posterior, previousTime(t, self.hyperParameterValues))
 
 
 class BreakPoint(TransitionModel):
-- 
2.43.0


From 91b557426f42e071955ab91e6c633ae93f316eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 69/69] fix: duration distribution lists durations repeatedly
 (or merges them) for fractional or tiny time stamps

---
 bayesloop/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 47f0ac3..30e0207 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1988,23 +1988,25 @@ class ChangepointStudy(HyperStudy):
 
         values = self.hyperGridValues[:, paramIndices].T
         duration = np.unique(values[1] - values[0])  # get all possible differences between time points
+        # list each duration only once (tolerance needed because of finite precision of the time stamps)
+        tolerance = 8*np.finfo(float).eps*np.amax(np.abs(values))
+        duration = duration[np.insert(np.diff(duration) > tolerance, 0, True)]
         durationDistribution = np.zeros(len(duration))  # initialize array for distribution
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
             # hyper-grid points that violate the order of change/break-points have not been fitted (probability zero)
             if values[1] > values[0] and self.hyperParameterDistribution[i] > 0.:
-                # get matching index in duration (rounding needed because of finite precision)
-                idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
+                # get matching index in duration (closest value, because of finite precision)
+                idx = np.argmin(np.abs(duration - (values[1]-values[0])))
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
 
         # properly normalize duration distribution
         durationDistribution /= np.sum(durationDistribution)
 
         if plot:
-            # bars of neighboring durations (rounding needed because of finite precision) must not overlap
-            distances = np.diff(np.unique(duration.round(10)))
-            width = np.amin(distances) if len(distances) > 0 else duration[0]
+            # bars of neighboring durations must not overlap
+            width = np.amin(np.diff(duration)) if len(duration) > 1 else duration[0]
             plt.bar(duration, durationDistribution, align='center', width=width, **kwargs)
 
             plt.xlabel('duration between {} and {} (in time steps)'
-- 
2.43.0

