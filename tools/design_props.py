P['C01'] = ('All built-in models are constructed with symbolic data and parameters; `partial()` of the real code is compared with the exact derivative of the term that `result()` returned. One row per point, one column per parameter, any list of selected parameters. Numeric partials (models without their own, user-defined and astropy models) are run with their real central differences on functions of at most second degree, for which these are exact.', 'Tests compare with finite differences at one point; a wrong branch of a piecewise model, a factor that is 1 there, or an index that coincides is not seen. Floor/fractional parts are decided by case split; spline and kernel edges are excluded.')
P['C02'] = ('`derivative()` against the exact x-derivative of the `result()` term. Numeric derivatives likewise: real central differences on functions for which they are exact; user-defined and astropy models included.', 'Models without an analytic derivative use central differences of the base class; the formula with its step is then the oracle.')
P['C03'] = ('Constituents are uninterpreted functions of x and parameters with uninterpreted derivatives. `result`, `partial` and `derivative` of the real `Model` for every expression shape within bounds are compared with a reference evaluator of the arithmetic expression (left to right, the package\'s rule; brackets as built), and with the derivative of that reference. Pipes over all dimension combinations.', 'All models at once: nothing depends on a particular one. Shapes that no test builds (brackets on the right of a division, pipe into a multi-output model) are all there.')
P['C04'] = ('A model with parameters fixed is compared with the free model at substituted parameters (result, partial by chain rule, derivative), for every subset within bounds.', 'Corrections of my own: the demand that the names of the remaining parameters of built-in models be kept was dropped (they are renumbered by design), `fixed={}` is not a supported call.')
P['C05'] = ('Copies: the original and its copy are evaluated, one of the two is mutated in any of the listed ways, and the other must be the same as before (results, names, priors, limits, standard deviations). Compounds: parameter counts, names, order and the isolated parts. Error distributions (mixtures included): hyperparameters, priors, limits and fixed values of the copy and of the original after any change of the other.', 'Aliasing is decided by identity of terms after the mutation. The text of models with symbolic constants is not compared; splines with dynamic knots get a fixed random generator.')
P['C06'] = ('Priors with distinct symbolic attributes are set on simple, fixed and compound models in several ways; every parameter is mapped both ways, alone and all together, and compared with the prior it belongs to.', '')
P['C07'] = ('`unit2Domain`, `domain2Unit` of the real priors composed both ways; monotone by two symbolic values; limits respected.', 'Ranges of centre, scale and limits keep the float replay well conditioned (a first version reported cancellation errors of the replay: corrected).')
P['C08'] = ('`result` against the derivative of the `domain2Unit` term, `logResult` against its logarithm, `partialLog` against its derivative, zero outside the limits.', '')
P['C09'] = ('`logLikelihood`, `logLdata`, `logLikelihood_alt`, `updateLogL` of the real distributions on uninterpreted models against the documented density, weights and accuracies included. Mixtures with the Poisson distribution, which has no hyperparameters, included.', 'Mixtures and distributions that ignore weights by design are not claimed with weights.')
P['C10'] = ('`partialLogL`, `partialLogL_alt`, `nextPartialData` (and the sum over points) against the exact derivative of the log-likelihood term, for every ordered selection of parameters and hyperparameters.', 'Corrections: the scale is not selectable when accuracies replace it (by design); the gradient of a mixture that underflows is zero by design and excluded.')
P['C11'] = ('Residuals, weighted residuals, partials, nuisance parameters, cyclic corrections and route distances of the real `Problem` classes against their definition.', 'Great-circle distance: the oracle is stated through the tangent of the half angle; coincident nodes excluded. Cyclic: data and results within one period.')
P['C12'] = ('The returned parameters are substituted in the weighted normal equations (design matrix from uninterpreted basis functions): the gradient of the weighted sum of squares must vanish, chi-squared must be its value, kept parameters at their value, normalising measurements included.', 'Perfect fits (chi-squared zero: ValueError by design) are excluded.')
P['C13'] = ('Covariance, standard deviations, scale, Monte-Carlo error bar, evidence and Occam factor after a fit against formulas written from the documentation, with the Hessian as a symbolic matrix. The evidence as likelihood of a model (`ModelDistribution`): that of the fit of its arbiter, weights included, with the parameters and scale of that fit.', 'Limits by keyword concern the fitted parameters (documentation ambiguous; the code\'s reading is taken).')
P['C14'] = ('The real Levenberg-Marquardt loop runs on an uninterpreted model; each accepted step, each way to end.', 'The start is clipped into the limits first, the comparison is with the clipped start.')
P['C15'] = ('Two fits in a row on one fitter compared with the second on a new one; the caller\'s arrays compared with copies of them afterwards. Fitters that wrap an optimiser: two fits with other data and all keywords different, with the optimiser replaced by a recorder; the second gets the same method, start, limits, cost and gradient as a first one would.', 'QRFitter keeps its decomposition: equal and different weights are treated separately.')
P['C16'] = ('Whole runs of the real `NestedSampler.sample` with stand-in engines that deliver any walker allowed by C17. The samples, logZ, information and normalised weights against the nested-sampling sums in the order in which likelihoods were discarded; phantom sampler likewise.', 'The phantom sampler trims its ensemble after each update (by design); ordered likelihoods for the larger runs reduce the number of orderings that are the same up to naming.')
P['C17'] = ('One call of each real engine (`Start`, `Chord`, `Galilean`, `Gibbs`, `Step`, `Random`, …) with an uninterpreted likelihood and symbolic random numbers. Every walker left behind, every phantom stored: its logL is the likelihood of its own parameters, not below the threshold; parameters within limits; other walkers untouched.', 'Arrays shared between trial and walker are seen because the likelihood term belongs to the parameter terms.')
P['C18'] = ('One call of each order engine for arbitrary labels: the result is a permutation, logL is that of the route and above threshold, other walkers untouched.', 'Distances themselves are decided in C11; the solver run has a stand-in engine.')
P['C19'] = ('All operations of walker and sample lists on symbolic entries; then one entry is changed in place and all others compared; weighted statistics against formulas.', 'Statistics: clip of a (rounding) negative variance and the square root at variance zero are excluded in part of the cases.')
P['C20'] = ('All operation sequences within bounds on the real collection; order, completeness, bounding box.', 'Correction: the box is that of the moment the threshold was raised (documented); before any threshold there is no box.')
P['C21'] = ('Histories of grow/shrink/vary on the real dynamic models, alone and in chains: counts, values that stay, new values from their own prior, bounds; the birth, death, structure and start engines.', 'Of walkers\' models only the length of the parameter list matters (the walker\'s own list counts). Splines: order 1 for grow and vary.')
P['C22'] = ('All tree shapes and histories within bounds: the sum over leaves of the partial is 1, result is the parameter of the leaf that a reference descent finds, growing and shrinking keeps the rest.', 'The side of a split follows the code (left = larger values); the documentation says otherwise.')
P['C24'] = ('Each kernel on a symbolic x: evenness, value at 0, zero outside, derivative, half width; area by exact antiderivatives (polynomials, or a given antiderivative whose derivative is checked).', '')
P['C25'] = ('All shapes within bounds with symbolic pixels.', '')
P['C26'] = ('Each tool on symbolic input against its defining equation.', '`firstIndex` of nothing is StopIteration as documented; circular averages against an atan2 reference; log factorials of the table by integers.')
P['C27'] = ('The real simplex with an uninterpreted cost: best point, stored values, limits after every kind of move. Each evaluation gives a fresh value.', 'At a positive temperature fluctuations of any size stand in for the random ones.')
P['C28'] = ('The real shells with a stand-in fitter (and with the real linear one); weights, order of fits, stop criterion; covariance-drawn parameters and standard deviation of the models.', 'Correction: the Uniform kernel is a half at its edge. Eigenvalues: closed form up to 2×2.')
P['C29'] = ('One Newton/Halley step from anywhere against the documented step, stop at a solution only; radius, true anomaly, their derivatives against Kepler\'s equation by implicit differentiation; orbit and radial velocity models by chain rule and projection.', '`getMsini` is for a fitted model only. Convergence from any start is not decided.')
P['C30'] = ('Layers with symbolic input and parameters; outputs positive and summing to one; partial and derivative exact.', '')
P['C23'] = ('The real spline models at symbolic positions: differences of order n+1 vanish within an interval, one-sided derivatives agree at a knot (exact stencils), b-splines are non-negative, sum to one and vanish outside their support, derivative and partial belong to the result.', 'Basic splines take their knots through least-squares constants, so fixed uneven knots are used there; with `border=2` the model raises in its constructor for most knots and is outside the claim, as is the derivative of b-splines at the last knot. A `sum` stand-in that differed from the builtin was found by trace validation here.')
P['C31'] = ('The real fitters with the optimiser replaced by a recorder that returns an arbitrary answer. The recorded cost, gradient, hessian and jacobian are evaluated at arbitrary parameters against the stated cost and its symbolic derivative; starting values, limits, options, data and sigmas are compared one by one. Constraint functions are handed over as functions of all parameters.', 'What the optimisers of scipy do with it is N02.')
