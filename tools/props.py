#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both files are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level='exploration', state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level, state=list(state)))


CORE, TM, OMF, PARSER = 'bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py', 'bayesloop/parser.py'
PINNED = 'The test suite fits a handful of fixed small data sets and pins single numbers; '
ORACLE = ('runtime monitor: online comparison of observed %s with an independent reference while randomised workloads run; '
          'uninitialised-memory poisoning of numpy allocations')

prop('C01', 'Filtering distributions and model evidence are exact on the parameter grid',
     'For every data set, observation model, prior and transition model, a forward-only fit yields at each time step the parameter '
     'distribution obtained by applying Bayes\' rule on the grid to the prior transformed by the transition model, and the log-evidence '
     '(natural and base 10) equals the log of the data probability integrated over all parameters, including the grid spacing. '
     'The evidence is the same for complete, forward-only and evidence-only fits, the local evidences of a forward-only fit are the '
     'one-step predictive probabilities whose logs add up to it, and posterior means belong to these distributions.',
     ['inputs', 'configurations'],
     'all data sets (length, dimension, missing values), grids (1-3 parameters, regular or categorical), priors, observation models, '
     'transition models incl. nested ones, time stamps and fit modes',
     PINNED + 'they cannot cover the product of models, priors, grids and fit modes, and most only look at the last mean or the evidence.',
     [CORE, TM, OMF], [dict(name='Study.fit (forward pass)', where=CORE), dict(name='Study._computePrior', where=CORE)],
     ['logEvidence', 'log10Evidence', 'localEvidence', 'posteriorSequence', 'posteriorMeanValues'],
     ORACLE % 'filtering results', 'Sampled executions only; trusts the reference recursion (cross-checked by brute-force path enumeration).')

prop('C02', 'Smoothed distributions use all data, past and future, exactly',
     'A complete fit yields at each time step the normalised product of the filtering distribution and the backward message of all later '
     'data; for constant parameters, random walks, change-points, break-points, independent observations and their commuting combinations '
     'this is exactly the conditional parameter distribution given all data on the grid. Posterior means belong to these distributions, '
     'the last time step equals the filtering distribution, and the local evidence of a complete fit is the probability of a data point '
     'given all other data points.',
     ['inputs', 'configurations'],
     'all data sets, grids, priors, observation models, transition models and (irregular) time stamps, for every time step',
     PINNED + 'no test compares a smoothed sequence with an independently computed posterior.',
     [CORE, TM], [dict(name='Study.fit (backward pass)', where=CORE), dict(name='computeBackwardPrior', where=TM)],
     ['posteriorSequence', 'posteriorMeanValues', 'localEvidence'],
     ORACLE % 'smoothing results', 'Sampled executions; combined models are applied in the listed order in both directions (pinned by the test suite).')

prop('C03', 'Every reported distribution is a proper probability distribution',
     'Whatever the data, models and study type, every parameter, hyper-parameter and model distribution that a successful analysis reports '
     'is finite, non-negative and sums to one (densities integrate to one over the grid), has the shape of its grid, and all means lie '
     'within the range of the grid. The different ways to read out a result (single time step, whole sequence, time average, mean values, '
     'joint and marginal, probability and density, plots) agree with each other.',
     ['inputs', 'configurations', 'histories'],
     'all study types, models, data (incl. outliers, missing values, extreme evidence), grid sizes down to a single time step and two grid points, '
     'and all read-out functions',
     PINNED + 'they check normalisation nowhere and most read-out functions with a single call.',
     [CORE, TM, 'bayesloop/helper.py'], [dict(name='normalisation in fit/step and read-out methods', where=CORE)],
     ['getParameterDistribution(s)', 'getHyperParameterDistribution', 'getJointHyperParameterDistribution', 'getDurationDistribution',
      'getCurrent*', 'getTransitionModel*'],
     ORACLE % 'distributions (conservation of probability)', 'Sampled executions.')

prop('C04', 'Missing data points carry no information and shift nothing',
     'A data point marked as missing (NaN) leaves the parameter distribution transformed by the transition model unchanged and contributes '
     'nothing to the evidence, at any position, for any observation model and study type; for multi-dimensional data only the missing '
     'component is ignored where components are independent observations, and the whole observation otherwise. Observations depending on '
     'several consecutive points are ignored if any of these points is missing, time stamps of all other points stay the same, and default '
     'parameter ranges ignore missing values.',
     ['inputs', 'configurations'],
     'all positions and patterns of missing values (first, last, all, runs, single components), observation models, transition models, study types',
     PINNED + 'missing values occur in two tests with one model.',
     [OMF, CORE], [dict(name='ObservationModel.processedPdf', where=OMF), dict(name='estimateParameterValues', where=OMF)],
     ['posteriorSequence', 'logEvidence', 'localEvidence'],
     ORACLE % 'fits with and without the missing points', 'Sampled executions.')

prop('C05', 'Observation models compute their documented likelihood',
     'For every parameter value on the grid and every observation, the likelihood used by an analysis equals the documented probability (density): '
     'Bernoulli, Poisson, Gaussian, Laplace, Gaussian mean with given error, zero-mean white noise, first-order autoregression and its scaled '
     'variant, and user-defined models based on Python functions, SciPy distributions (with fixed parameters) and SymPy random variables. '
     'Several independent observations per time step are multiplied, parameters keep the order and names given by the user, integer, boolean and '
     'floating point data give the same result, and the likelihood neither over- nor underflows where its logarithm is moderate.',
     ['inputs', 'configurations'],
     'all parameter grids, data values (large counts, zeros, negatives, extreme values), data types, dimensions and orders of parameters',
     PINNED + 'each model is fitted once to five data points.',
     [OMF, 'bayesloop/preprocessing.py'], [dict(name='pdf methods', where=OMF), dict(name='processedPdf', where=OMF)],
     ['observation model likelihood on the grid', 'posteriorSequence of one-step fits'],
     ORACLE % 'likelihood arrays', 'Sampled executions; scipy.stats is trusted.')

prop('C06', 'Elementary transition models transform distributions as documented',
     'Static parameters keep the distribution; a Gaussian random walk convolves it with a Gaussian of the given standard deviation in units of '
     'the parameter; an alpha-stable random walk with the stable law of given width and shape; a bivariate walk with a correlated Gaussian; '
     'a change-point or independent observations restore the prior (only right after the given time stamp for the former). Regime switching '
     'raises every value to the minimal probability density, the not-equal model inverts the distribution above that minimum, and a '
     'deterministic model shifts the distribution by the increment of the given function, forward and backward in time; only the targeted '
     'parameter is affected, probability is conserved and no value turns negative.',
     ['inputs', 'configurations'],
     'all distributions (peaked, flat, at the boundary, with zeros), grids (even/odd, 1-3 dimensional, spacing), targets, hyper-parameter values incl. '
     'zero and very large ones, time stamps, and successive use with changed values or grids',
     PINNED + 'one fit per model with one hyper-parameter value.',
     [TM], [dict(name='computeForwardPrior/computeBackwardPrior', where=TM), dict(name='kernel caches', where=TM)],
     ['transformed distributions', 'posteriorSequence'],
     ORACLE % 'transformed distributions', 'Sampled executions; random walk boundaries as implemented (mirrored resp. zero).')

prop('C07', 'Combined and serial transition models act as documented compositions',
     'A combined model applies its parts one after the other in the given order at every time step. A serial model applies at each time step '
     'exactly the part between the neighbouring break- or change-points, with the time of deterministic parts counted from the last break; '
     'a break-point changes only the dynamics while a change-point also restores the prior. Both may be nested arbitrarily, in the forward and '
     'backward direction, for any (also irregular) integer time stamps, and single parts (or parts without effect) change nothing compared '
     'to the bare model.',
     ['inputs', 'configurations'],
     'all nestings, orders, break times (before, at and after the data range), time stamps and hyper-parameter values',
     PINNED + 'two or three fixed compositions are fitted.',
     [TM, CORE], [dict(name='CombinedTransitionModel', where=TM), dict(name='SerialTransitionModel', where=TM),
                  dict(name='_unpackHyperParameters/_setAllHyperParameters', where=CORE)],
     ['posteriorSequence', 'logEvidence', 'getHyperParameterValue'],
     ORACLE % 'composed transformations', 'Sampled executions; the backward pass applies combined parts in the listed order.')

prop('C08', 'Parameter priors are used as given, in every form',
     'The prior may be given as default, None, array, function or SymPy random variable(s); in every form the analysis starts from, and every '
     'reset returns to, exactly this prior on the grid, normalised to one (SymPy: the density itself), whatever its scale, data type or memory '
     'layout. Equivalent forms give identical results, a prior of wrong shape or number, or with free symbols, is refused, and the user\'s prior '
     'is left untouched.',
     ['inputs', 'configurations', 'histories'],
     'all forms, shapes, scales, zero patterns, dtypes, grids (regular/categorical), repeated fits and study types',
     PINNED + 'each form is used once with one grid.',
     [CORE, TM], [dict(name='Study._computePrior', where=CORE), dict(name='ChangePoint/Independent/Serial reset', where=TM)],
     ['first filtering distribution', 'logEvidence', 'distribution after a reset'],
     ORACLE % 'prior-dependent results', 'Sampled executions.')

prop('C09', 'A hyper-study averages all hyper-parameter combinations by their evidence',
     'For every transition model with any number of hyper-parameter values, the hyper-study reports as evidence the hyper-prior average of the '
     'evidences of all combinations, as hyper-parameter distribution the normalised products of evidence and hyper-prior, and as parameter '
     'distributions (and means) the average of the individual fits weighted by that distribution, in complete, forward-only and evidence-only '
     'mode. The local evidence is the hyper-prior average of the individual local evidences. A single combination gives the result of an ordinary '
     'fit, and impossible combinations get probability zero without affecting the others.',
     ['inputs', 'configurations'],
     'all transition models, numbers and spacings of hyper-parameter values, hyper-priors, evidences differing by many orders of magnitude, fit modes',
     PINNED + 'a few hyper-studies with one or two hyper-parameters, mostly flat priors.',
     [CORE], [dict(name='HyperStudy.fit/_fitHyperGrid', where=CORE), dict(name='_createHyperGrid', where=CORE)],
     ['logEvidence', 'logEvidenceList', 'posteriorSequence', 'posteriorMeanValues', 'hyperParameterDistribution', 'localEvidence'],
     ORACLE % 'hyper-study results', 'Sampled executions; grids of up to a few dozen combinations.')

prop('C10', 'Hyper-priors and hyper-parameter distributions refer to the right axes',
     'Hyper-priors given as arrays, functions or SymPy random variables (or none) are assigned to the hyper-parameter they were given with, '
     'normalised over its values and left untouched. Marginal and joint hyper-parameter distributions, requested by name in any order, return '
     'the values given by the user together with the probabilities of exactly these values, obtained by summing the joint distribution over all '
     'other hyper-parameters, also for irregular, unsorted, integer or single values and nested models; wrong names or prior lengths are refused.',
     ['inputs', 'configurations'],
     'all nestings, numbers and types of hyper-parameter values, hyper-prior forms, name orders',
     PINNED + 'marginals are checked for sums only.',
     [CORE], [dict(name='_createHyperGrid', where=CORE), dict(name='getHyperParameterDistribution', where=CORE),
              dict(name='getJointHyperParameterDistribution', where=CORE), dict(name='_getHyperParameterIndex', where=CORE)],
     ['getHPD', 'getJHPD', 'flatHyperPriorValues'],
     ORACLE % 'marginal and joint distributions', 'Sampled executions.')

prop('C11', 'A change-point study weighs exactly all ordered change-point combinations',
     'For any number of change- or break-points (given as "all", arrays or single time stamps), the study fits exactly the combinations with '
     'strictly increasing times, re-normalises the hyper-prior over them, gives every other combination probability zero, and averages evidence and '
     'parameter distributions over them like a hyper-study, together with other hyper-parameters. The distribution of the duration between two '
     'points, requested in any order, assigns each possible difference the total probability of the combinations with that difference; '
     'unsupported mixtures and models without change- or break-points are refused.',
     ['inputs', 'configurations'],
     'all data lengths, time stamps, numbers and kinds of points, value sets, extra hyper-parameters, hyper-priors',
     PINNED + 'one or two change-points on five data points.',
     [CORE, TM], [dict(name='ChangepointStudy.fit', where=CORE), dict(name='getDurationDistribution', where=CORE)],
     ['hyperParameterDistribution', 'logEvidence', 'posteriorSequence', 'getDD', 'getHPD', 'getJHPD'],
     ORACLE % 'change-point study results', 'Sampled executions; up to 5 points, 1500 combinations.')

prop('C12', 'Online analysis equals the batch analysis of the data seen so far',
     'After every step of an online study, the parameter distribution, its mean and the evidence of each transition model and hyper-parameter '
     'combination equal those of a forward-only batch analysis of the data fed so far, for any observation model (including those needing several '
     'points), transition model with time-dependent behaviour, missing values and multi-dimensional data. Stored history of earlier steps is the '
     'same as if the stream had ended there, storing or reading the history does not change the results, and each step is counted by one time stamp.',
     ['histories', 'inputs', 'configurations'],
     'all streams, prefixes, models, data types of the points and interleavings of steps with queries',
     PINNED + 'an online study is stepped through five points with one model.',
     [CORE, TM], [dict(name='OnlineStudy.step', where=CORE)],
     ['getCurrentParameterDistribution', 'getCurrentParameterMeanValue', 'logEvidence', 'getParameterDistribution(s)', 'getParameterMeanValue(s)'],
     ORACLE % 'states after each step with batch fits of the same library and the reference', 'Sampled executions.')

prop('C13', 'Online model selection follows Bayes\' rule over models and hyper-parameters',
     'After every step, the probabilities of the added transition models are proportional to prior times evidence (the local ones to prior times '
     'the probability of the last data point only), the hyper-parameter distribution of each model to hyper-prior times evidence of its values, '
     'and the reported parameter distribution is the average over models and hyper-parameters with these weights. A hypothesis that has become '
     'impossible has probability zero from then on and does not disturb the others; results do not depend on the order in which models are added, '
     'and current values, stored history and means read out by name agree.',
     ['histories', 'inputs', 'configurations'],
     'all sets of transition models, hyper-parameter grids, hyper-priors, model priors, data streams and read-out functions',
     PINNED + 'two models on five points, flat priors.',
     [CORE], [dict(name='OnlineStudy.step', where=CORE), dict(name='addTransitionModel/setTransitionModelPrior', where=CORE)],
     ['getCurrentTransitionModelDistribution', 'getTransitionModelDistributions', 'getCurrentHyperParameterDistribution',
      'getHyperParameterDistribution(s)', 'getHyperParameterMeanValue(s)', 'logEvidence'],
     ORACLE % 'model probabilities', 'Sampled executions; two pinned deviations are known findings (K2, K3).')

prop('C14', 'Parallel fits give the same result as serial fits',
     'For hyper-studies and change-point studies, the number of processes changes neither evidence nor distributions, means, local evidences or '
     'the order and assignment of hyper-parameter values, whether or not it divides the number of combinations or exceeds it, in whatever order '
     'and with whatever delays the processes finish, and in all fit modes. A failure in one process surfaces as an error rather than as a '
     'partial result, and the study stays usable afterwards.',
     ['schedules', 'configurations', 'fault_sequences'],
     'all numbers of processes, combinations per process, fit modes, completion orders and failing workers',
     'One test fits with two processes if pathos is installed; order, uneven splits and failures are not exercised.',
     [CORE], [dict(name='HyperStudy._parallelFit and merge', where=CORE)],
     ['logEvidence', 'logEvidenceList', 'posteriorSequence', 'hyperParameterDistribution', 'localEvidence'],
     'runtime monitor: serial-vs-parallel comparison with injected delays and faults in worker processes, recorded completion orders',
     'Sampled schedules on process level.')

prop('C15', 'The result of an analysis does not depend on what happened before',
     'Re-fitting, or changing data, time stamps, observation model, transition model, hyper-parameter values or fit mode on a used study (after '
     'successful, failed or optimising fits, in any order) leads to the same results as a fresh study configured with the final settings. '
     'Nothing of an earlier analysis (distributions, evidences, kernels, grids, time stamps, hyper-parameter values) is left over, and values set '
     'by the user are still in place after every fit.',
     ['histories', 'inputs'],
     'all sequences of configuration changes, fits and failures on one study object, with reused model objects',
     'Tests use a fresh study per assertion.',
     [CORE, TM], [dict(name='Study.fit initialisation', where=CORE), dict(name='kernel caches', where=TM),
                  dict(name='HyperStudy.fit restore', where=CORE)],
     ['all results of the last fit', 'getHyperParameterValue'],
     'runtime monitor: history-vs-fresh-study comparison over random operation sequences; uninitialised-memory poisoning',
     'Sampled histories of up to about ten operations.')

prop('C16', 'Reading out or plotting results changes nothing',
     'No read-out, plot, query, simulation or save function changes any result, setting or later analysis, however often and in whatever order '
     'it is called and even if it fails with an error; calling it again returns the same values. Values returned earlier are not changed by later '
     'queries or by continuing the analysis, and modifying a returned result array does not alter later analyses of an online stream.',
     ['histories', 'configurations'],
     'all read-out functions, study types, arguments (valid and invalid) and interleavings with fits and steps',
     'Tests call a read-out function once and never look at the state afterwards.',
     [CORE, PARSER, 'bayesloop/fileIO.py'], [dict(name='read-out and plot methods', where=CORE)],
     ['deep snapshot of the study before and after each call', 'returned arrays over time'],
     'runtime monitor: snapshot comparison (deep fingerprints of study state) around every call in random query sequences',
     'Sampled sequences.')

prop('C17', 'Studies are isolated and user inputs are never modified',
     'Arrays, lists, functions and priors passed by the user (data, time stamps, grids, priors, hyper-parameter values, hyper-priors) are never '
     'modified. Several studies living at the same time, also when they share data arrays, observation models, transition models or prior objects, '
     'with interleaved configuration, fits and steps, or used at the same time in different threads (with transition models of their own), give the '
     'same results as each of them alone.',
     ['histories', 'inputs'],
     'all interleavings of two or three studies of any type, with any shared objects',
     'Tests never have two studies share objects and never compare inputs before and after.',
     [CORE, TM, OMF], [dict(name='copies of inputs; binding of models to studies', where=CORE)],
     ['inputs before/after', 'results of interleaved vs isolated studies'],
     'runtime monitor: read-only/fingerprinted inputs, interleaved-vs-isolated comparison, seeded thread scheduler switching at library lines', 'Sampled interleavings.')

prop('C18', 'A saved and loaded study is equivalent to the original',
     'Loading a saved study of any type, fitted or not, reproduces all results and settings exactly, all read-outs of it return the same values, and '
     'continuing with it (re-fit, further online steps, queries) gives the same as continuing with the original, also in a new process and for '
     'models built on user-defined functions. Saving does not change the study, and saving over an existing file replaces it completely.',
     ['histories', 'inputs', 'configurations'],
     'all study types, models (incl. lambdas, SciPy and SymPy objects), states and continuations',
     'One test saves and loads a default study and checks that no error occurs.',
     ['bayesloop/fileIO.py', CORE], [dict(name='save/load', where='bayesloop/fileIO.py')],
     ['all results and read-outs of both objects', 'continued analyses'],
     'runtime monitor: original-vs-loaded comparison, in-process and in a fresh interpreter', 'Sampled states.')

prop('C19', 'Probability queries over (hyper-)parameters are computed exactly',
     'For arithmetic expressions of parameters and hyper-parameters with numbers, + - * / ^, parentheses, signs and NumPy/SciPy functions, a query with '
     'a relation returns the total probability of the grid points fulfilling it, and one without returns a distribution that contains all probability, '
     'covers the range of derived values and matches their binned probabilities. Parameters of one study at one time step are combined with their joint '
     'distribution, those of different studies, time steps or transition models, and parameters versus hyper-parameters, as independent ones; usual operator '
     'precedence holds; ambiguous names, missing time steps and queries that cannot be parsed completely are refused.',
     ['inputs', 'programs', 'configurations'],
     'all expressions, relations, study types and combinations, time steps given by "@" or globally',
     PINNED + 'a dozen fixed queries on two studies.',
     [PARSER], [dict(name='Parser.__call__/_evaluate/_operation', where=PARSER)],
     ['value of the query', 'derived distributions'],
     'runtime monitor: query results compared with direct enumeration over the joint grid for randomly generated expressions',
     'Sampled expressions; a variable used again after a compound of several time steps is a known finding (K6).')

prop('C20', 'Optimisation reports the hyper-parameters it selected and their exact fit',
     'Optimising the hyper-parameters varies all selected ones and no others (by default all except change- and break-points), does not end with a lower evidence '
     'than that of the starting values (up to the tolerance of the optimiser), and leaves the study with the optimal values set and with evidence, distributions and means of exactly these values, in '
     'complete and forward-only mode, for nested models too. Unknown names or nothing to optimise are refused, and later fits and read-outs behave as if '
     'the values had been set by hand.',
     ['inputs', 'configurations', 'histories'],
     'all transition models, selections of hyper-parameters, starting values, data, optimiser options',
     PINNED + 'one optimisation of two hyper-parameters.',
     [CORE], [dict(name='Study.optimize/_optimizationStep', where=CORE), dict(name='_setSelectedHyperParameters', where=CORE)],
     ['getHyperParameterValue', 'logEvidence', 'posteriorSequence', 'trace of evaluated values'],
     'runtime monitor: trace of evaluated hyper-parameter values and evidences plus comparison with a fresh fit and the reference',
     'Sampled executions; global optimality is not claimed.')

prop('C21', 'Incomplete or contradictory configurations and impossible data are reported',
     'Missing data or models, duplicate hyper-parameter names, wrong parameter names, unordered or superfluous break-points, unknown options, unknown time '
     'stamps and requests for results that were not computed raise the documented error instead of returning something, and leave the study usable. Data '
     'that is impossible under the model gives evidence zero (log-evidence minus infinity) in every fit mode, and never distributions of an '
     'earlier or unfinished fit. An analysis that is interrupted by an error leaves no incomplete distributions behind, and an online study that '
     'refuses a data point continues as if it had never been given.',
     ['inputs', 'configurations', 'histories'],
     'all kinds of misuse at every stage of the life of each study type, and all positions of impossible data points',
     'Tests contain almost no negative cases.',
     [CORE, TM, OMF, PARSER, 'bayesloop/exceptions.py'], [dict(name='_checkConsistency and argument checks', where=CORE), dict(name='_discardFit', where=CORE)],
     ['exceptions', 'logEvidence', 'later fits'],
     'runtime monitor: fault injection (misuse, impossible data) with monitors on raised errors and on the state afterwards',
     'Sampled misuse catalogue.', )

prop('C22', 'Results are independent of units, labels and representation',
     'Changing the unit or origin of the data and parameters (with grids, hyper-parameters and priors changed accordingly) changes no probability and the '
     'log-evidence only by the known constant of the change of units; renaming parameters or hyper-parameters, swapping the order of parameters, shifting '
     'integer time stamps (together with change-points), changing the data type or the container of inputs, or adding a transition model part without '
     'effect changes nothing.',
     ['inputs', 'configurations'],
     'all models, data, scale factors over many orders of magnitude, offsets, permutations and names',
     'Tests use fixed units and names.',
     [CORE, TM, OMF, 'bayesloop/helper.py'], [dict(name='lattice constants / grids', where=CORE), dict(name='name based look-up', where=CORE)],
     ['posteriorSequence', 'logEvidence', 'hyperParameterDistribution', 'read-outs by name'],
     'runtime monitor: metamorphic comparison of pairs of executions of the library', 'Sampled pairs.')

prop('C23', 'Predicted observation probabilities mix the likelihood over the posterior',
     'The simulated distribution of observations at a time step (or averaged over all time steps) is, for each requested observation value, the likelihood of '
     'that value averaged over the inferred parameter distribution of that time step (or the time-averaged one), as density or normalised over the '
     'requested values, for every study type with suitable observation models. Unknown time stamps and observation models depending on several data points are '
     'refused.',
     ['inputs', 'configurations'],
     'all models, study types, observation values, time stamps and both normalisations',
     'Two tests check two numbers.',
     [CORE], [dict(name='Study.simulate', where=CORE)],
     ['simulate'],
     ORACLE % 'predicted probabilities', 'Sampled executions.')

prop('C24', 'Every data segment keeps its own time stamp and is used exactly once',
     'Each time step of an analysis belongs to the time stamp of its (last) data point: default time stamps count from zero, user time stamps are kept, time '
     'stamps of the wrong number are ignored, and models needing n consecutive points yield one result per window, starting at the n-th time stamp; data shorter than one window are refused. '
     'Results are found by time stamp in every read-out, change-points, break-points and "all" refer to time stamps, data given as list or array are the '
     'same, and each data point enters exactly the windows containing it.',
     ['inputs', 'configurations', 'histories'],
     'all data lengths, time stamps (negative, large, irregular, fractional), window lengths, reloads and study types',
     'Tests use default time stamps except for one.',
     [CORE, 'bayesloop/preprocessing.py'], [dict(name='loadData / movingWindow', where=CORE), dict(name='formattedTimestamps', where=CORE)],
     ['formattedTimestamps', 'read-outs by time', 'flatHyperParameters', 'recorded likelihood calls'],
     'runtime monitor: event log of likelihood evaluations (exactly-once, ordering) and read-outs by time stamp against the reference',
     'Sampled executions.')

prop('C25', 'Grids, default parameter ranges and Jeffreys priors are what is documented',
     'Open and closed interval helpers return the documented equally spaced values; a grid given by the user is used as it is, with spacing one if it is not '
     'regular (judged independently of its unit). Parameters without values get the documented range derived from the loaded data, '
     'with likelihood and default prior finite on it, the default priors are the documented Jeffreys (or flat) priors, and the symbolic Jeffreys prior and '
     'the one for autoregressive processes match their defining formulas.',
     ['inputs', 'configurations'],
     'all intervals, numbers of values, data sets, scales, models and random variables',
     PINNED + 'default ranges are used in a few tests without being looked at.',
     ['bayesloop/helper.py', OMF, CORE, 'bayesloop/jeffreys.py'], [dict(name='cint/oint/equallySpaced', where='bayesloop/helper.py'),
      dict(name='estimateParameterValues/jeffreys', where=OMF), dict(name='getJeffreysPrior', where='bayesloop/jeffreys.py')],
     ['marginalGrid', 'latticeConstant', 'first prior', 'getJeffreysPrior'],
     ORACLE % 'grids and priors', 'Sampled executions; automatic Jeffreys priors of SymPy models are a known finding (K4).')

prop('C26', 'What is printed on the console agrees with the analysis',
     'The log-evidence printed by a fit is the one of the finished analysis (for hyper- and change-point studies that of the average model, printed once), the number of '
     'analyses and the detected change-points printed are those carried out, every evidence printed during an optimisation belongs to the printed values, a printed '
     'probability is the one returned, and printed parameter names, hyper-parameter names, estimated intervals and numbers of combinations are those of the '
     'model. Warnings (data that is impossible, time stamps omitted or unequal, irregular parameter values, re-normalised transition model priors, too few data points, '
     'reversed duration) are printed exactly if the situation is present. Fits asked to be silent print no results, and the results do not depend on being silent.',
     ['inputs', 'configurations', 'operation sequences'],
     'all study types, fit modes, models, priors, data sets and read-outs that print',
     'The test suite never looks at the output, although the tutorials read the evidence from it.',
     [CORE, PARSER], [dict(name='Study.fit, HyperStudy.fit, optimize', where=CORE), dict(name='setObservationModel, addTransitionModel, step', where=CORE), dict(name='Parser.__call__', where=PARSER)],
     ['standard output'],
     'runtime monitor: the recorded console output is parsed and compared with the public results of the same execution while randomised workloads run',
     'Sampled executions only; recognises key words and numbers, not the exact wording.')


prop('C27', 'Plots show the returned values, where and how asked for, and nothing else',
     'Every plotting function and every read-out function asked to plot draws exactly the values that the same read-out returns (areas, bars, density maps with gamma '
     'correction, mean values, model probabilities, joint distributions), at the positions of the parameter values and time stamps (density maps: if these are equally spaced), with bars that do not hide '
     'each other, axes named after what they show and tick labels with the values of categorical hyper-parameters. Colours, labels, line widths and other options given by the '
     'user are applied. It draws into the current axes (joint distributions: into the given figure and subplot), alters neither what is already drawn there nor any '
     'other axes, and creates no figure of its own otherwise. Plotting changes no result and no returned value; unknown or ambiguous names raise the documented '
     'exception and leave no trace in the figure.',
     ['inputs', 'configurations', 'operation sequences'],
     'all study types, fit modes, parameters, hyper-parameters, transition models, time steps, options and states of the figure',
     'Tests call the plotting functions without looking at what they draw.',
     [CORE, 'bayesloop/helper.py'], [dict(name='plot, plotParameterEvolution, plotHyperParameterEvolution, read-out functions with plot=True', where=CORE), dict(name='createColormap', where='bayesloop/helper.py')],
     ['artists of the matplotlib figures'],
     'runtime monitor: the artists that each call adds to the figures are recorded and compared with the returned values and given options; all other artists and the results are compared before/after',
     'Sampled executions only; artists are examined, not pixels.')


def main():
    claimed = [p['id'] for p in P if os.path.exists(os.path.join(ROOT, 'harness', 'check_%s.py' % p['id'].lower()))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], state=p['state'], mechanism=p['mechanism'],
                                                 observe_at=p['observe'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='python3 run_check.py --selftest',
               checks=[dict(property=p['id'], quick_cmd='python3 run_check.py %s --tier quick' % p['id'],
                            thorough_cmd='python3 run_check.py %s --tier thorough' % p['id'],
                            technique=p['technique'], level=p['level'], level_note=p['note'])
                       for p in P if p['id'] in claimed],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in claimed],
               notes='No hooks in /repo: all monitors wrap the public API from outside. See DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(claimed), 'claimed')


if __name__ == '__main__':
    main()
