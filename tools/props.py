#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'BayesicFitting/source/'


def f(*names):
    return [S + n + '.py' for n in names]


P = []


def prop(pid, title, statement, over, text, why, files, mech, **extra):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **extra)))


prop('C01', 'The partial derivatives a model reports are the gradient of its result',
     'For every built-in model, at every data point and for every parameter vector where the model is smooth, the array '
     'returned by partial() has one row per data point and one column per parameter, and its elements are the derivatives of '
     'result() to the parameters.',
     ['inputs', 'configurations'], 'all real x and parameter values in the model domain; every model class, degree, order and kernel within the bounds',
     'Tests compare analytic with finite-difference partials at a few fixed parameter settings, with loose tolerances and not for every model option or branch.',
     f('*Model', 'kernels/*'), [('basePartial of each model', S + '*Model.py'), ('partial', S + 'Model.py')])
prop('C02', 'The x-derivative a model reports is the derivative of its result',
     'For every built-in model that defines an analytic derivative, the values returned by derivative() are the derivatives of result() with respect to the '
     'independent variable (per axis for multi-dimensional models), for all x and parameters where the model is smooth.',
     ['inputs', 'configurations'], 'all real x and parameters in the model domain; every model class within the bounds',
     'Tests check only some models at a few x values.', f('*Model'), [('baseDerivative of each model', S + '*Model.py'), ('derivative', S + 'Model.py')])
prop('C03', 'Compound models evaluate as the arithmetic expression they were built from',
     'A model built with +, -, *, /, | and bracketed sub-models yields the result, parameter gradient and x-derivative of that '
     'arithmetic expression, evaluated left to right on the constituents with the parameters concatenated in order of appearance.',
     ['programs', 'inputs'], 'every chain of up to 3 (4 in thorough) operations, with and without one level of brackets, over arbitrary (abstract) constituent functions, all x and parameters',
     'Tests use a handful of concrete sums and products; chains mixing pipes, divisions and brackets are combinatorially many.',
     f('Model', 'BracketModel'), [('recursiveResult/recursivePartial/recursiveDerivative', S + 'Model.py'), ('brackets', S + 'BracketModel.py')])
prop('C04', 'Fixing a parameter is the same as substituting it',
     'A model with some parameters fixed, to a constant or to another model, gives the result, gradient and derivative of the '
     'free model with those parameters replaced by the constant or by that model\'s result; only free parameters remain, in their original order.',
     ['configurations', 'inputs'], 'every subset of fixed parameters of the sampled models, fixed to symbolic constants or to models, all x and parameters',
     'Tests fix one or two parameters in a few models at a few values.', f('FixedModel', 'Model'),
     [('expand, select, fixed', S + 'FixedModel.py')])
prop('C05', 'Copied and composed models are independent and keep their bookkeeping consistent',
     'A copy of a model gives the same results, names, priors and limits as the original; changing either afterwards leaves the other '
     'unchanged. The same holds for a copy of an error distribution and its hyperparameters. In a compound model the parameter count, default parameters, names and isolated components always correspond to the constituents in order.',
     ['histories', 'configurations'], 'every built-in model and compound of up to 3 components followed by any one mutation of the original or the copy; all parameter values',
     'Tests copy some models and compare some outputs at fixed values; later mutations of either side are hardly explored.',
     f('Model', 'BaseModel', 'FixedModel', 'BracketModel', '*Model', '*ErrorDistribution', 'ModelDistribution'), [('copy, deepcopy, appendModel, isolateModel', S + 'Model.py')])
prop('C06', 'Priors and limits reach the parameter they were set for',
     'A prior or limit set for parameter k of a simple, fixed or compound model is the one used for parameter k, and only that one, '
     'when parameters are mapped between unit and domain space, when limits are listed and when the hyperparameters of the error distribution are mapped.',
     ['configurations', 'inputs', 'histories'], 'every parameter index of simple, compound (up to 3 components) and bracketed models and of fixed models; symbolic limits and values',
     'Tests look at single models with one kind of prior; the routing over chains is not swept.', f('BaseModel', 'Model', 'FixedModel', 'BracketModel', 'Prior'),
     [('getPrior, setPrior, nextPrior, setLimits, unit2Domain', S + 'Model.py')])
prop('C07', 'Prior maps between unit interval and domain are inverse and stay within limits',
     'For every prior the map from the unit interval to its domain is increasing (decreasing nowhere), stays within its limits, and '
     'is undone by the map back, also for limited (truncated) and circular priors, in both directions.',
     ['inputs', 'configurations'], 'all u in (0,1), all x in the domain, all legal scale, center and limits of every prior class',
     'Tests try a few values of one setting per prior.', f('Prior', '*Prior'), [('unit2Domain, domain2Unit', S + '*Prior.py'), ('limitedUnit2Domain', S + 'Prior.py')])
prop('C08', 'A prior\'s density is the derivative of its cumulative map',
     'For every prior the result is the derivative of the domain-to-unit map inside the limits and zero outside, the log result is '
     'its logarithm, and the log partial is the derivative of that logarithm.',
     ['inputs', 'configurations'], 'all x inside and outside the limits, all legal scale, center and limits of every prior class',
     'Tests compare some values for unlimited priors only.', f('Prior', '*Prior'), [('result, logResult, partialLog', S + '*Prior.py')])
prop('C09', 'Log likelihoods follow their stated distribution, weights and all',
     'For every error distribution the log likelihood is the sum over data points of the weighted log density documented for that '
     'distribution, whichever of the computation routes is used, normalised so that the density integrates to one where it has hyperparameters.',
     ['inputs', 'configurations'], 'all data, residuals, weights and hyperparameters for 2-3 data points, with and without weights',
     'Tests compare two computations on a few data sets.', f('ErrorDistribution', '*ErrorDistribution', 'ModelDistribution'), [('logLikelihood, logLdata', S + '*ErrorDistribution.py')])
prop('C10', 'The gradient of the log likelihood is exact for parameters and hyperparameters',
     'For every error distribution with a gradient, the partial of the log likelihood equals the derivative of the log likelihood to '
     'the selected parameters and hyperparameters, for every selection and whether or not weights are used.',
     ['inputs', 'configurations'], 'all data, parameters, weights, hyperparameters for 2-3 points; every fit index selection',
     'Tests compare with finite differences at a few settings.', f('ErrorDistribution', '*ErrorDistribution'), [('partialLogL, nextPartialData', S + '*ErrorDistribution.py')])
prop('C11', 'Problems present model and data to the likelihood as documented',
     'Residuals are data minus model for the current parameters (shortest way round for cyclic results, flattened for multiple outputs), '
     'weights and accuracies enter once, and the derived problems (errors in x and y, multiple output, evidence) reduce to the classic one when their extra data are trivial.',
     ['inputs', 'configurations'], 'all data, parameters, weights for 2-3 points, every problem class and accuracy shape',
     'Tests run example fits with fixed data.', f('Problem', 'ClassicProblem', 'MultipleOutputProblem', 'ErrorsInXandYProblem', 'EvidenceProblem'),
     [('residuals, weightedResiduals, cyclicCorrection, partial', S + 'Problem.py')])
prop('C12', 'A linear fit returns the weighted least-squares solution',
     'For a linear model the parameters returned by the linear fitters satisfy the weighted normal equations, the chi-squared is the weighted sum of '
     'squared residuals at that solution, kept parameters keep their value, and normalising constraints enter as stated, for every data set, weight and accuracy.',
     ['inputs', 'configurations'], 'all data, weights, accuracies with 3 points and up to 3 parameters; every keep subset',
     'Tests fit a few random data sets and compare numbers.', f('Fitter', 'QRFitter', 'BaseFitter'), [('fit', S + 'Fitter.py'), ('modelFit, fitprolog, fitpostscript', S + 'BaseFitter.py')])
prop('C13', 'Reported uncertainties and evidence follow from the fit',
     'Covariance, standard deviations, scale, Monte-Carlo error and evidence reported after a fit are the documented functions of the Hessian, chi-squared, '
     'weights and prior ranges of that fit; a likelihood that is the evidence of a model is that of the fit to the data with the weights given.',
     ['inputs', 'configurations'], 'all data, weights, noise scale settings with 3 points and up to 2 parameters', 'Tests compare a few numbers.',
     f('BaseFitter', 'NoiseScale', 'MonteCarlo', 'ModelDistribution'), [('covariance, stdevs, getLogZ', S + 'BaseFitter.py')])
prop('C14', 'An iterative fit never ends worse than it started and reports what it returns',
     'Every accepted step of the iterative fitters does not increase the cost function, the returned parameters are those of the reported cost, '
     'and kept parameters keep their values.',
     ['inputs', 'histories'], 'arbitrary (abstract) cost landscapes and all start values, a bounded number of iterations', 'Tests fit benign data only.',
     f('LevenbergMarquardtFitter', 'IterativeFitter', 'AnnealingAmoeba', 'AmoebaFitter'), [('fit, trialfit', S + 'LevenbergMarquardtFitter.py')])
prop('C15', 'Fitting leaves the caller\'s data alone and does not depend on earlier fits',
     'A fit with given data, weights and options gives the same result whatever the fitter was used for before, does not modify the data, weights or initial '
     'parameters handed to it, and leaves the fitted values in the model.',
     ['histories', 'inputs'], 'every sequence of two fits with different symbolic data, weights and keep settings', 'Tests build a new fitter for each fit.',
     f('BaseFitter', 'Fitter', 'QRFitter', 'LevenbergMarquardtFitter', 'ScipyFitter', 'AmoebaFitter', 'CurveFitter'), [('fitprolog, fitpostscript', S + 'BaseFitter.py')])
prop('C16', 'Nested sampling accumulates evidence and weights consistently',
     'At the end of a run the evidence equals the weighted sum of the likelihoods of the discarded walkers and survivors, the sample weights are the posterior weights '
     'that sum to one, the information is their relative entropy, and the prior volume shrinks as prescribed for the number of discarded walkers.',
     ['inputs', 'histories'], 'arbitrary sequences of walker likelihoods over a bounded number of iterations, ensemble and discard sizes', 'Tests run a few seeds and compare to a wide tolerance.',
     f('NestedSampler', 'SampleList', 'WalkerList', 'NestedSolver'), [('doIterations, updateEvidence', S + 'NestedSampler.py'), ('weights, evidence', S + 'SampleList.py')])
prop('C17', 'Exploration keeps walkers inside the constraint and self-consistent',
     'Whatever an engine does, a walker it leaves behind has a likelihood above the constraint, stores the likelihood of its own parameters and keeps its parameters within '
     'the prior domain; a failed move leaves the walker unchanged.',
     ['inputs', 'schedules', 'histories'], 'arbitrary likelihood functions, all walkers, all random numbers, a bounded number of trials', 'Random walks in tests sample a few paths of smooth likelihoods.',
     f('Engine', 'GalileanEngine', 'ChordEngine', 'GibbsEngine', 'StepEngine', 'StartEngine', 'RandomEngine', 'Explorer'), [('execute, setWalker, updateWalkers', S + 'Engine.py')])
prop('C18', 'Order engines permute and never lose a stop',
     'Each move of an order engine yields a permutation of the original list, its stored likelihood is minus the length of the stored route and not below the threshold, and no other walker changes; the loop engine proposes to uncross exactly the paths that cross, the near engine brings the nearest stop next; the solver returns the best route it sampled.',
     ['inputs'], 'arbitrary stop labels (any order) of up to 5-6 stops and all random choices', 'Tests sample random moves.', f('OrderEngine', 'ReverseEngine', 'ShuffleEngine', 'SwitchEngine', 'LoopEngine', 'NearEngine', 'MoveEngine', 'SalesmanProblem', 'DistanceCostFunction'),
     [('execute', S + 'ReverseEngine.py')])
prop('C19', 'Walker and sample lists keep independent, faithful entries',
     'Copying, adding, logging and removing entries in walker and sample lists never makes two entries share mutable state, keeps order and ids, and summary statistics are the weighted ones of the stored samples.',
     ['histories', 'inputs'], 'operation sequences of bounded length over symbolic walkers; symbolic parameter and weight values', 'Tests do one fixed sequence.',
     f('WalkerList', 'SampleList', 'Walker', 'Sample'), [('copy, add, logW', S + 'WalkerList.py')])
prop('C20', 'The phantom collection stays sorted and bounded',
     'The phantom collection stays ordered by likelihood, drops exactly the entries at or below a threshold that is raised, keeps every other one intact, and reports for that threshold the tightest box around the parameter vectors it holds then.',
     ['histories', 'inputs'], 'operation sequences of bounded length with symbolic likelihoods and parameters', 'Tests use random sequences of one size.',
     f('PhantomCollection'), [('storeItems, cut, getList, lengthen', S + 'PhantomCollection.py')])
prop('C21', 'Growing and shrinking a dynamic model keeps it the model it claims to be',
     'After any sequence of grow and shrink operations a dynamic or repeating model has a parameter list of the right length within its bounds, keeps the values of the parameters that survive, and evaluates as the corresponding static model.',
     ['histories', 'inputs'], 'all sequences of up to 3 grow/shrink/shuffle operations, all random choices, symbolic parameters', 'Tests run random sequences of few models.',
     f('Dynamic', 'RepeatingModel', 'PolynomialDynamicModel', 'HarmonicDynamicModel', 'SplinesDynamicModel', 'Modifiable'), [('grow, shrink', S + 'Dynamic.py'), ('grow, shrink', S + 'RepeatingModel.py')])
prop('C22', 'A decision tree model partitions its inputs',
     'In a decision tree model every input belongs to exactly one leaf, the result at an input is the parameter of its leaf, and growing or shrinking the tree keeps the partition and the parameter list consistent.',
     ['histories', 'inputs'], 'trees up to depth 2-3 with symbolic split values; symbolic inputs', 'Tests use a few trees.', f('DecisionTreeModel'), [('sortXdata, grow, shrink', S + 'DecisionTreeModel.py')])
prop('C23', 'Spline models are piecewise polynomials with the stated continuity',
     'Splines of order n are polynomials of order n between knots with n-1 continuous derivatives across knots; B-splines form a non-negative partition of unity with local support; all knot spacings and orders alike.',
     ['inputs', 'configurations'], 'all increasing symbolic knots (2-5; basic splines: fixed uneven knots), orders 0-3, all parameters and positions', 'Tests use evenly spaced knots and check plots or sums at sampled points.',
     f('SplinesModel', 'BasicSplinesModel', 'BSplinesModel', 'bspline', 'splinelab'), [('basePartial, makeBaseBasis', S + 'BasicSplinesModel.py')])
prop('C24', 'Convolution kernels have the shape, area and derivative they state',
     'Each kernel is an even function with value one at the centre, vanishes outside its stated range, has the stated integral and half width, and its partial is the derivative of its result.',
     ['inputs', 'configurations'], 'all x, every kernel class', 'Tests sample a grid.', f('kernels/*'), [('result, partial', S + 'kernels/*.py')])
prop('C25', 'Image axes and pixel values round trip',
     'Converting an image to a list of positions and values and back yields the same image with every value at its own position, for either axis ordering.',
     ['inputs', 'configurations'], 'all shapes up to 4x4 and all values', 'Tests use one shape.', f('ImageAssistant'), [('getIndices, resizeData', S + 'ImageAssistant.py')])
prop('C26', 'Numeric tools meet their definitions',
     'The utility functions meet their defining equations for every input: weighted and circular averages with their spread, orthonormal bases of a stream of vectors, nice numbers, log factorials of numbers and arrays, rounding, ordering, indexing and array helpers.',
     ['inputs'], 'all inputs within the stated sizes', 'Tests check some values.', f('Tools', 'OrthonormalBasis', 'LogFactorial'), [('functions', S + 'Tools.py')])
prop('C27', 'The annealing simplex remembers the best point and respects limits',
     'The simplex minimiser returns the best point it evaluated with its own cost, never evaluates points outside the limits it was given, and keeps values and points of the simplex in step.',
     ['inputs', 'schedules'], 'arbitrary (abstract) cost functions, symbolic starts, all random numbers, a bounded number of moves', 'Tests minimise a few smooth functions.',
     f('AnnealingAmoeba', 'AmoebaFitter'), [('minimize, temperatureStep, trialStep', S + 'AnnealingAmoeba.py')])
prop('C28', 'Robust and Monte-Carlo shells apply the statistics they state',
     'The robust shell weights each point by the kernel of its normalised residual and refits with exactly those weights times the original ones; the Monte-Carlo error is the spread of the models whose parameters are perturbed according to the covariance matrix.',
     ['inputs', 'configurations'], 'all residuals, weights and scales for 3 points, every robust kernel', 'Tests fit one data set.', f('RobustShell', 'MonteCarlo'), [('fit', S + 'RobustShell.py'), ('getError', S + 'MonteCarlo.py')])
prop('C29', 'Kepler orbits solve Kepler\'s equation',
     'The positions used by the orbit and radial velocity models satisfy the conic section relations for the eccentric anomaly, and the derivatives to all orbit parameters are those implied by Kepler\'s equation.',
     ['inputs'], 'all eccentricities in [0,1), periods, phases and anomalies', 'Tests compare a few orbits.', f('Kepplers2ndLaw', 'RadialVelocityModel', 'StellarOrbitModel'), [('radiusAndTrueAnomaly, drvdpar', S + 'Kepplers2ndLaw.py')])
prop('C30', 'Neural-net layers are differentiated exactly',
     'Soft-max and neural-network models give outputs that form a distribution (soft-max) and gradients, through any chain of layers, equal to the derivative of the output.',
     ['inputs', 'configurations'], 'all inputs, weights and offsets for layer sizes up to 3', 'Tests check small random nets.', f('SoftMaxModel', 'NeuralNetUtilities', 'ConnectModel'), [('layer functions', S + 'NeuralNetUtilities.py')])
prop('C31', 'Fitters hand their optimiser the problem the user stated',
     'Whatever optimiser a fitter wraps, it gets the stated cost (chi-squared or minus the log likelihood, with weights, accuracies and kept parameters), the exact gradient of that cost, the initial values and the limits of the free parameters, the constraints, and the keywords of the user; what it returns is put in the right parameters and reported with its cost.',
     ['inputs', 'configurations'], 'every wrapped method, all parameter values, data, weights and limits for models of 2-3 parameters with 2 data points', 'Tests run the optimisers on a few problems, where a wrong gradient, bound or start still converges.',
     f('ScipyFitter', 'MaxLikelihoodFitter', 'AmoebaFitter', 'CurveFitter'), [('fit', S + 'ScipyFitter.py'), ('makeFuncs', S + 'MaxLikelihoodFitter.py'), ('fit', S + 'CurveFitter.py'), ('fit', S + 'AmoebaFitter.py')])
prop('N01', 'Two runs with the same seed give the same answer',
     'A complete fit or nested-sampling run with the same seed, data and settings yields the same numbers, with or without threads.',
     ['schedules', 'histories'], 'all seeds, thread schedules and problem settings', 'Tests fix one seed.', f('NestedSampler', 'Explorer'), [('rng handling', S + 'NestedSampler.py')])
prop('N02', 'General optimisers converge to a minimum of the cost function',
     'The fitters that wrap external optimisers return a local minimum of chi-squared or of the negative log likelihood within the stated tolerance.',
     ['inputs'], 'all data sets and models', 'Tests fit some data sets.', f('ScipyFitter', 'MaxLikelihoodFitter', 'CurveFitter'), [('fit', S + 'ScipyFitter.py')])
prop('N03', 'The Voigt profile and its derivatives are those of the Voigt function',
     'The Voigt model equals the normalised convolution of its Gaussian and Lorentzian parts and its derivatives are exact.',
     ['inputs'], 'all x and widths', 'Tests compare finite differences.', f('VoigtModel'), [('baseResult', S + 'VoigtModel.py')])

NA = {
    'N01': 'the deciding quantities are numpy\'s Mersenne-twister stream and the operating-system thread scheduler; a run needs thousands of branching iterations through compiled code, which cannot be encoded within any useful bound',
    'N02': 'the minimisation runs inside scipy\'s compiled/external optimisers; what can be encoded, the problem they are given and what is done with the answer, is C31; convergence is not decided there',
    'N03': 'the model is scipy.special.wofz of a complex argument; there is no decidable encoding of the Faddeeva function and its recurrences in the SMT solvers here',
}
NOTES = ('Solver-based checking: the real Python functions are executed over symbolic terms on every run, every goal is decided by z3 '
         'over all values within the stated bounds, and counterexamples are replayed on the real package. See DESIGN.md.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            o.write(json.dumps(p) + '\n')
    checks, na = [], []
    import importlib.util
    for p in P:
        pid = p['id']
        path = os.path.join(V, 'symbf', 'checks', pid + '.py')
        if os.path.exists(path) and pid not in NA:
            checks.append(dict(
                property=pid, quick_cmd='./check.sh %s --tier quick' % pid, thorough_cmd='./check.sh %s --tier thorough' % pid,
                technique='symbolic execution of the real Python code + z3 (counterexamples replayed on the real package)',
                level='model_checking',
                level_note=LEVEL.get(pid, 'Holds for all values within the bounds in the evidence file, over real arithmetic; trusts z3, '
                                          'symbf (symbolic executor, normaliser) and its numpy stand-ins, which are cross-validated against the real code on every run.')))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet for this property in this revision')))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as o:
        json.dump(dict(version=1, setup_cmd='./check.sh C01 --only partial/poly3', checks=checks, not_applicable=na, notes=NOTES), o, indent=1)
        o.write('\n')


LEVEL = {}
if __name__ == '__main__':
    main()
