"""writes properties.jsonl"""
import json, os
S = "BayesicFitting/source/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


p("C01", "Every model returns its documented function of x and its parameters",
  "For every model class, every constructor configuration, every valid parameter vector and every valid input array, evaluating the model gives (to rounding) the formula stated in its documentation, one value (or one row of outputs) per input point in the order of the inputs. This includes the models that combine other models: kernels in 1 and 2 dimensions, products, combinations with additive/multiplicative relations, repetitions with shared parameters, softmax, astropy and user supplied functions. Evaluation never depends on earlier evaluations and leaves the input data unchanged.",
  ["inputs", "configurations"], "all model classes x constructor arguments x parameters in their domain x input arrays (1-d and n-d)",
  "The tests look at one or two configurations and a fixed set of points per model and mostly compare with hard-coded numbers of the implementation itself.",
  ["FixedModel.py", "LinearModel.py", "KernelModel.py", "Kernel2dModel.py", "CombiModel.py", "RepeatingModel.py", "ProductModel.py", "SoftMaxModel.py", "NeuralNetUtilities.py", "FreeShapeModel.py", "PadeModel.py", "FootballModel.py"],
  [("baseResult of each model", S + "*Model.py"), ("CombiModel.expandParameters", S + "CombiModel.py"), ("LinearModel.baseResult", S + "LinearModel.py")],
  ["Model.result", "Model.__call__"])

p("C02", "Analytic parameter derivatives equal the derivative of the model result",
  "For every model class, for fixed variants of it and for every compound model built with + - * / | and brackets, the matrix (or list of matrices, one per output) returned by partial() has one row per data point and one column per parameter, and each column equals the derivative of the result to that parameter wherever the function is smooth.",
  ["inputs", "configurations", "programs"], "all models, configurations, parameters, inputs and model expressions of bounded size",
  "Tests compare at one parameter setting per model; fitters, Galilean sampling and error propagation use the derivatives at every setting and for arbitrary compounds.",
  ["Model.py", "FixedModel.py", "LinearModel.py", "StellarOrbitModel.py", "FootballModel.py", "Kernel2dModel.py", "SoftMaxModel.py", "NeuralNetUtilities.py", "CombiModel.py"],
  [("basePartial of each model", S + "*Model.py"), ("Model._recursivePartial (chain, product and quotient rule, pipes)", S + "Model.py"), ("FixedModel.partial", S + "FixedModel.py")],
  ["Model.partial"])

p("C03", "Derivatives to the input equal the derivative of the model result to x",
  "For every model class that provides it, for fixed variants and for every compound model built with + - * / | and brackets, derivative() returns, with the shape of the input (per output), the derivative of the result to the input wherever the function is smooth.",
  ["inputs", "configurations", "programs"], "all models, configurations, parameters, inputs and model expressions of bounded size",
  "Tests sample one setting per model; errors-in-x-and-y problems and piped models rely on it for all settings.",
  ["Model.py", "FixedModel.py", "SplinesModel.py", "SineSplineModel.py", "SineSplineDriftModel.py", "EtalonDriftModel.py", "AstropyModel.py"],
  [("baseDerivative of each model", S + "*Model.py"), ("Model._recursiveDerivative and pipe_N", S + "Model.py")], ["Model.derivative"])

p("C04", "Compound models evaluate as the written expression, left to right with brackets",
  "A model built from other models with + - * / | (or the methods add/subtract/multiply/divide/pipeModel, or the in-place operators) evaluates as the operations applied strictly from left to right on the results of the parts, a compound operand being treated as bracketed and a pipe feeding the result so far as input to the next model. Its parameters are the concatenation of the parameters of the parts in order; number of parameters, names and splitting it up again in its parts agree with that.",
  ["programs", "inputs"], "all model expressions up to a bounded number of leaves, operators and nesting, all parameters and inputs",
  "The expression space is unbounded; the tests have a dozen fixed expressions.",
  ["Model.py", "BracketModel.py", "FixedModel.py"],
  [("Model.appendModel / _recursiveResult / operate", S + "Model.py"), ("Brackets", S + "Model.py"), ("Model.isolateModel", S + "Model.py")],
  ["Model.result", "Model.parameters", "Model.npars", "Model.isolateModel"])

p("C05", "Fixing a parameter is the same as substituting its value or its model",
  "A model constructed with fixed parameters, where the replacements are constants (any index, also negative) or other models (also compound), has the result, the partials and the parameter names of the full model with the replaced parameters substituted: the free parameters keep their order and the parameters of replacing models are appended at the end. A fixed model behaves the same inside a compound and in a copy.",
  ["configurations", "inputs"], "all fixable models x subsets of fixed parameters x constant or model replacements",
  "2^n subsets times replacement models; the tests fix one or two parameters of a few models.",
  ["FixedModel.py", "Model.py", "LinearModel.py"],
  [("FixedModel.expand / select / partial", S + "FixedModel.py")], ["Model.result", "Model.partial", "Model.parNames"])

p("C06", "Copies are equal and independent; building compounds leaves operands intact",
  "A copy of any (compound, fixed, dynamic) model, prior, error distribution or problem returns exactly what the original returns, including parameters, priors and limits, and no later change of parameters, priors, limits or structure in the one is visible in the other (a copy of a problem shares its data and a static model, as documented). Combining models with a binary operator leaves both operands, their parameters and their results unchanged.",
  ["histories", "configurations"], "sequences of copy / operator / mutation steps over all kinds of objects",
  "Needs histories: aliasing only shows when one of the two is changed afterwards; every class has a hand written copy().",
  ["Model.py", "FixedModel.py", "BaseModel.py", "CombiModel.py", "RepeatingModel.py", "BasicSplinesModel.py", "Prior.py", "ErrorDistribution.py", "Problem.py"],
  [("copy() of each class", S), ("Model.__add__ etc. work on a copy", S + "Model.py")], ["copy()", "operators"])

p("C07", "Priors and limits of a model belong to the right parameter",
  "Limits and priors set on a model (per parameter, or fewer than parameters: the last one is repeated within that model) apply to exactly these parameters, also after the model became part of a compound, bracketed, repeated or combined model (for a model with fixed parameters they count the remaining ones), and are reported so by getLimits, getPrior and hasPriors. Mapping parameters from unit space to the domain and back uses for each parameter its own prior and is the identity.",
  ["configurations", "programs", "inputs"], "all compounds x sets of limits and priors on the parts or on the compound x unit vectors",
  "Combinations of compounds and prior settings are unbounded; the tests use one or two.",
  ["Model.py", "BaseModel.py", "FixedModel.py", "Problem.py"],
  [("Model.setLimits / setPrior / getPrior / nextPrior", S + "Model.py"), ("BaseModel.basePrior", S + "BaseModel.py"), ("Model.unit2Domain / domain2Unit", S + "Model.py")],
  ["Model.getLimits", "Model.getPrior", "Model.unit2Domain", "Model.domain2Unit"])

p("C08", "A prior is one consistent distribution",
  "For every prior, with or without limits, circular or not, unit2Domain and domain2Unit are each others inverse and monotone, unit2Domain stays within the limits, its derivative is the inverse of the density given by result(), logResult() is the log of result() (minus infinity or zero outside the limits), and partialLog() is the derivative of logResult(). A circular prior wraps every value into one period. These relations remain valid after limits or attributes are changed and for copies.",
  ["inputs", "configurations", "histories"], "all prior classes x parameters x limits x circularity x values",
  "Continuous input space and combinations of options; the tests check some values.",
  ["Prior.py", "UniformPrior.py", "JeffreysPrior.py", "ExponentialPrior.py", "GaussPrior.py", "CauchyPrior.py", "LaplacePrior.py", "CircularUniformPrior.py"],
  [("Prior.limitedUnit2Domain / limitedDomain2Unit / circular", S + "Prior.py"), ("unit2Domain / domain2Unit of each prior", S + "*Prior.py")],
  ["Prior.unit2Domain", "Prior.domain2Unit", "Prior.result", "Prior.logResult", "Prior.partialLog"])

p("C09", "Likelihoods equal their documented formula and the sum of the per-point terms",
  "For every error distribution and problem type (with weights, accuracies, multiple outputs, cyclic outputs, errors in x and y, evidence problems) logLikelihood equals the documented formula evaluated independently, equals the sum of logLdata, and depends on nothing but the arguments. An integer weight n counts as n identical points and a zero weight as an absent point.",
  ["inputs", "configurations"], "all error distributions x problems x data x weights x accuracies x parameters x hyperparameters",
  "The tests use one data set without ties between weights, accuracy and outputs.",
  ["ErrorDistribution.py", "ScaledErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py", "UniformErrorDistribution.py", "ExponentialErrorDistribution.py", "MixedErrorDistribution.py", "ModelDistribution.py", "Gauss2dErrorDistribution.py", "ErrorsInXandYProblem.py", "MultipleOutputProblem.py", "ClassicProblem.py", "Problem.py"],
  [("logLdata / logLikelihood / logLikelihood_alt", S + "*ErrorDistribution.py"), ("residuals, cyclicCorrection, myXdata", S + "Problem.py")],
  ["ErrorDistribution.logLikelihood", "ErrorDistribution.logLdata"])

p("C10", "The gradient of the likelihood is its derivative to every fitted parameter",
  "For every differentiable error distribution and problem type, partialLogL returns, for any selection of model parameters and hyperparameters to be fitted and in that order, the derivative of logLikelihood to each of them, and it is the sum of the per-point gradients.",
  ["inputs", "configurations"], "as C09, times all selections of fitted (hyper)parameters",
  "Selections times distributions times data; the tests check one selection and a few combinations.",
  ["ErrorDistribution.py", "GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "PoissonErrorDistribution.py", "BernoulliErrorDistribution.py", "ExponentialErrorDistribution.py", "MixedErrorDistribution.py", "Gauss2dErrorDistribution.py", "ErrorsInXandYProblem.py", "MultipleOutputProblem.py"],
  [("nextPartialData / partialLogL", S + "*ErrorDistribution.py")], ["ErrorDistribution.partialLogL"])

p("C11", "Linear fitters return the weighted least squares optimum",
  "For every linear (compound) model and data set for which the problem is well posed, all linear fitters return the parameters that minimise the sum of weighted squared residuals, with any combination of weights, accuracies, fixed parameters, kept parameters, normalization constraints and repeated use of the same fitter object with other data. A weight n is equivalent to n copies of the point, a zero weight to its absence.",
  ["inputs", "configurations", "histories"], "all linear models x data x weights x accuracy x keep x normalization x sequence of fits with one fitter",
  "The tests fit a handful of data sets, without the combinations of options and without re-use.",
  ["Fitter.py", "QRFitter.py", "BaseFitter.py", "LinearModel.py"],
  [("Fitter.fit / solve normal equations", S + "Fitter.py"), ("QRFitter.fit", S + "QRFitter.py"), ("BaseFitter.fitprolog / getVector / getHessian", S + "BaseFitter.py")],
  ["fitter.fit", "model.parameters"])

p("C12", "Chisq, scale, covariance, errors and evidence of a fit equal their definitions",
  "After a fit the chisq, the noise scale, the covariance matrix, the standard deviations, the model error band and (given prior limits) the evidence reported by the fitter equal their defining formulas evaluated independently on the data, weights and accuracies, whether the noise scale is fixed or estimated. They transform properly: data and limits scaled by a factor give the corresponding change in each of them.",
  ["inputs", "configurations"], "all fitters x data x weights x accuracies x fixed/auto scale x prior limits",
  "The values depend on combinations of options; the tests only check some and mostly print.",
  ["BaseFitter.py", "Fitter.py", "MaxLikelihoodFitter.py", "NoiseScale.py"],
  [("BaseFitter.chiSquared / getCovarianceMatrix / getScale / getStandardDeviations / monteCarloError / getLogZ", S + "BaseFitter.py")],
  ["fitter.chisq", "fitter.scale", "fitter.covariance", "fitter.stdevs", "fitter.logZ", "fitter.monteCarloError"])

p("C13", "Iterative fitters end in a stationary point no worse than where they started",
  "For well behaved non-linear (compound) models and data, each iterative fitter either raises a convergence error or returns parameters that are stored in the model, whose chisq (or negative log likelihood) is not larger than at the initial parameters, is the value the fitter reports for them, stays within the limits given to the fitter or set in the model, and is a stationary point (within those limits); on linear models they agree with the linear fitter. With a likelihood-based fitter this holds for every error distribution it accepts.",
  ["inputs", "configurations"], "non-linear and linear models x data x starting points x weights x fitter classes",
  "The tests use one data set per fitter.",
  ["IterativeFitter.py", "LevenbergMarquardtFitter.py", "CurveFitter.py", "MaxLikelihoodFitter.py", "ScipyFitter.py", "AmoebaFitter.py"],
  [("LevenbergMarquardtFitter.fit / trialfit / checkLimits", S + "LevenbergMarquardtFitter.py"), ("MaxLikelihoodFitter.fit", S + "MaxLikelihoodFitter.py"), ("ScipyFitter.fit", S + "ScipyFitter.py")],
  ["fitter.fit", "fitter.chisq", "model.parameters"])

p("C14", "Kept parameters stay put and the rest is fitted as if they were fixed",
  "A dictionary of parameters to keep, given to a fitter at construction (for life) or at fit (for that fit only), results in exactly these values for these parameters in the result and in the model, in the other parameters being equal to those of a fit of the model with these parameters fixed, and in zero uncertainty for them. A fit without keep afterwards is a fit of all parameters again.",
  ["histories", "configurations", "inputs"], "all fitters x subsets of kept parameters x sequences of fits with and without keep",
  "Subsets times fitters times sequences; the tests have one example for some fitters.",
  ["BaseFitter.py", "Fitter.py", "QRFitter.py", "CurveFitter.py", "LevenbergMarquardtFitter.py", "MaxLikelihoodFitter.py", "ScipyFitter.py", "AmoebaFitter.py"],
  [("BaseFitter.keepFixed / insertParameters / fitprolog", S + "BaseFitter.py")], ["fitter.fit(keep=)", "fitter.stdevs"])

p("C15", "Fitting a map equals fitting the flattened pixels",
  "Indices made from an image give every pixel its coordinates in the stated (row or column major) order, convert forth and back without loss, and a fit with an image as data (and weights or accuracies of image shape) gives the same parameters, chisq and result, in image shape, as the fit of the flattened image with the list of indices.",
  ["inputs", "configurations"], "image shapes up to 3 dimensions x order x models x weights",
  "Shapes and orders are unbounded; tests use one or two square images.",
  ["ImageAssistant.py", "BaseFitter.py"],
  [("ImageAssistant.getIndices / getPixels / resizeData", S + "ImageAssistant.py"), ("BaseFitter map=", S + "BaseFitter.py")], ["ImageAssistant", "fitter.fit", "fitter.getResult"])

p("C16", "Robust fitting only de-weights outliers",
  "The robust shell, around any fitter and with any kernel, returns weights between 0 and the original weights, a fit that is the weighted fit with the weights it reports, kernel values of the scaled residuals as weights at convergence, the plain fit when no residual is outside the kernel's influence, and a fit close to the uncontaminated one when a minority of gross outliers is present. The wrapped fitter's own weights and data are not changed by it.",
  ["inputs", "configurations"], "data with and without outliers x weights x kernels x fitters x one-sidedness",
  "One data set in the tests.",
  ["RobustShell.py"], [("RobustShell.fit", S + "RobustShell.py")], ["RobustShell.fit", "RobustShell.weights"])

p("C17", "The annealing amoeba never loses its best point and never leaves the limits",
  "For every function, start, simplex size and limits the amoeba returns a point within the limits whose reported function value is the function at that point and is not larger than at the starting position; every point it evaluates obeys the limits, and at zero temperature on a convex function it ends at the minimum. The same seed gives the same result and the user's starting point is not altered.",
  ["inputs", "configurations", "histories"], "functions x start x size x limits x temperature x seed",
  "The evaluation history is decided by the function; tests have a few functions and seeds.",
  ["AnnealingAmoeba.py", "AmoebaFitter.py"], [("AnnealingAmoeba.minimize / trialStep / limits", S + "AnnealingAmoeba.py")], ["AnnealingAmoeba.minimize"])

p("C18", "Every exploration engine keeps walkers valid",
  "Starting from a valid walker list and a likelihood constraint, each engine (for static, dynamic and modifiable models) leaves every walker with a likelihood not below the constraint, a stored likelihood equal to that of its parameters, all parameters within the limits of their priors, and parameters that are not fitted untouched; the number of parameters, the index of fitted parameters and the model agree with each other. Other walkers than the one addressed are not changed.",
  ["histories", "configurations", "inputs"], "engines x models x priors x error distributions x constraint levels x random streams x sequences of calls",
  "Histories driven by random numbers; the nested sampling tests are excluded from the test run and engines are hardly asserted upon.",
  ["Engine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "RandomEngine.py", "StartEngine.py", "BirthEngine.py", "DeathEngine.py", "StructureEngine.py", "Explorer.py"],
  [("Engine.setWalker / Engine.domain2Unit / execute of each engine", S + "*Engine.py"), ("likelihood constraint lowLhood", S + "*Engine.py")],
  ["engine.execute", "walkers[k].logL", "walkers[k].allpars"])

p("C19", "A nested sampling run keeps its invariants and is reproducible",
  "Each run yields samples with non-decreasing likelihood, weights that are non-negative and sum to 1, a likelihood stored with every sample that is the likelihood of its parameters, parameters within the prior limits, and kept parameters constant; averages and standard deviations follow from the weighted samples. Two runs with the same seed and settings in the same or another process give identical results; engines, ensemble size, discard and maximum size settings are honoured.",
  ["configurations", "inputs", "histories"], "models x error distributions x priors x seeds x ensemble x discard x maxsize x engines x keep",
  "The tests of nested sampling are not part of the reliable test set, and assert little.",
  ["NestedSampler.py", "SampleList.py", "Explorer.py", "Sample.py", "WalkerList.py", "PhantomCollection.py"],
  [("NestedSampler.sample / storeSamples / updateEvidence / updateWalkers", S + "NestedSampler.py"), ("SampleList.normalize / getStandardDeviations", S + "SampleList.py")],
  ["NestedSampler.sample", "NestedSampler.samples"])

p("C20", "The evidence and posterior of nested sampling agree with the exact ones",
  "For problems where evidence and posterior can be calculated independently (linear models with Gaussian noise and uniform or Gaussian priors, one- and two-dimensional problems by quadrature), the log evidence of a nested sampling run agrees with the exact value within a few times its reported error and the weighted sample mean agrees with the exact posterior mean within the sampling error.",
  ["inputs", "configurations"], "random low-dimensional problems, engines, ensemble sizes and seeds",
  "A statistical statement over random streams; no test makes it.",
  ["NestedSampler.py", "SampleList.py", "ChordEngine.py", "GalileanEngine.py"],
  [("NestedSampler.updateEvidence / updateLogL", S + "NestedSampler.py"), ("the engines sample the constrained prior uniformly", S + "*Engine.py")],
  ["NestedSampler.evidence", "NestedSampler.precision", "SampleList.parameters"])

p("C21", "Collections of samples, walkers and phantoms are faithful containers",
  "Under any sequence of adding, removing, copying, weeding, cropping and indexing, a sample or walker list holds exactly the samples that the operations imply, with unique and consistent identity, and its averages, standard deviations, best, median, modus and evolution are those of the weighted samples it holds; the phantom collection holds only points above the current constraint, sorted, within its maximum and reports the extremes of what it holds.",
  ["histories"], "all sequences of operations on the containers",
  "Histories; the tests perform one sequence.",
  ["SampleList.py", "Sample.py", "WalkerList.py", "Walker.py", "PhantomCollection.py"],
  [("SampleList.add/copy/weed/…", S + "SampleList.py"), ("WalkerList.*", S + "WalkerList.py"), ("PhantomCollection.storeItems / cropOnLow", S + "PhantomCollection.py")],
  ["SampleList", "WalkerList", "PhantomCollection"])

p("C22", "Dynamic and modifiable models stay consistent through any history of changes",
  "After every sequence of growing, shrinking, varying and shuffling operations on a dynamic or modifiable model, alone or at any position in a compound model, the number of components is within its limits, the number of parameters, the parameter list, the list of fitted parameters and the evaluation of the model agree with each other, the parameters of the other parts are untouched, and each surviving component keeps its own parameters. A refused operation changes nothing.",
  ["histories", "configurations"], "dynamic model classes x positions in a compound x sequences of grow/shrink/vary",
  "Histories; only grow and shrink are tested once or twice, modifiable tests are excluded.",
  ["Dynamic.py", "Modifiable.py", "PolynomialDynamicModel.py", "HarmonicDynamicModel.py", "RepeatingModel.py", "SplinesDynamicModel.py", "DecisionTreeModel.py"],
  [("Dynamic.grow / shrink / alterParameterNames / alterParameters / alterFitindex", S + "Dynamic.py"), ("SplinesDynamicModel.grow/shrink/varyLocation", S + "SplinesDynamicModel.py"), ("DecisionTreeModel.grow/shrink", S + "DecisionTreeModel.py")],
  ["model.grow", "model.shrink", "model.vary"])

p("C23", "Spline models are splines",
  "For every strictly increasing set of knots and every order the spline models are linear combinations of pieces of polynomials of that order between the knots that have order-1 continuous derivatives at the inner knots; they span the full spline space, the basis splines are non-negative, sum to one and have local support, and different implementations span the same function space. Periodic splines join smoothly at the ends.",
  ["inputs", "configurations"], "knots x order x border x parameters",
  "Knot layouts and orders are unbounded; tests use equidistant ones and a few orders.",
  ["SplinesModel.py", "BasicSplinesModel.py", "BSplinesModel.py", "bspline.py", "splinelab.py", "SurfaceSplinesModel.py"],
  [("BasicSplinesModel.makeBasis", S + "BasicSplinesModel.py"), ("bspline.Bspline", S + "bspline.py"), ("SplinesModel.basePartial", S + "SplinesModel.py")],
  ["partial", "result"])

p("C24", "Kernels are even, 1 at zero, with the stated integral, width and range",
  "Every kernel is an even function that is 1 at zero, is zero outside its stated range, has the stated integral and full width at half maximum, its partial() is its derivative, and its value computed from the squared argument equals the value computed from the argument.",
  ["inputs", "configurations"], "all kernels, convolution orders and inputs",
  "Tests sample a few points and do not compare with integrals.",
  ["kernels/Kernel.py", "kernels/Tophat.py", "kernels/Biweight.py", "kernels/Sinc.py", "kernels/Tricube.py", "kernels/Huber.py"],
  [("result / resultsq / partial of each kernel", S + "kernels/")], ["Kernel.result", "Kernel.partial", "Kernel.integral", "Kernel.fwhm", "Kernel.range"])

p("C25", "Order problems: every engine and solver keeps a permutation and improves it",
  "In a salesman problem the cost of a tour equals the sum of the distances along the closed tour (for every supported distance measure, weights and tables), is invariant under rotation of the tour, and every order engine and the nested solver keep each walker a permutation of the nodes with a stored likelihood equal to its cost that is never below the constraint. The solver returns the best tour among its samples and is reproducible from its seed.",
  ["histories", "configurations", "inputs"], "node sets x distance measures x engines x random streams x constraints",
  "Random histories; the tests of the solver are excluded from the test run.",
  ["SalesmanProblem.py", "OrderProblem.py", "OrderEngine.py", "MoveEngine.py", "ReverseEngine.py", "ShuffleEngine.py", "SwitchEngine.py", "LoopEngine.py", "NearEngine.py", "StartOrderEngine.py", "NestedSolver.py", "DistanceCostFunction.py"],
  [("SalesmanProblem.result / distances", S + "SalesmanProblem.py"), ("execute of the order engines", S + "*Engine.py"), ("NestedSolver.solve", S + "NestedSolver.py")],
  ["engine.execute", "NestedSolver.solve", "DistanceCostFunction.logLikelihood"])

p("C26", "Orbits obey Kepler's laws",
  "For all eccentricities, periods, phases and times the anomalies solve Kepler's equation, radius and true anomaly satisfy the equation of the ellipse and sweep equal areas in equal times, orbits are periodic, and the radial velocity and stellar orbit models are the projections of that orbit; conversion between rectangular and spherical output is consistent.",
  ["inputs"], "eccentricity 0..0.99, period, phase, inclination and angles, times over many periods",
  "Continuous domain with difficult corners (high eccentricity, near periastron).",
  ["Kepplers2ndLaw.py", "RadialVelocityModel.py", "StellarOrbitModel.py"],
  [("Kepplers2ndLaw.eccentricAnomaly / radiusAndTrueAnomaly", S + "Kepplers2ndLaw.py")], ["Kepplers2ndLaw", "RadialVelocityModel.result", "StellarOrbitModel.result"])

p("C27", "Errors in x and y: the correlated Gaussian likelihood of both coordinates",
  "For problems with errors in both coordinates, with accuracies given as none, scalar, per coordinate, with correlation, or per point, the likelihood is that of the two-dimensional Gaussian with the stated covariance around the (hidden) target positions, weights act as multiplicities, the parameters are extended with one target per point with a Gaussian prior around the measured position, and swapping the two coordinates' roles in the covariance is consistent.",
  ["inputs", "configurations"], "models x data x all forms of accuracy x weights x scale",
  "Forms of the accuracy times weights; the tests print more than they check.",
  ["ErrorsInXandYProblem.py", "Gauss2dErrorDistribution.py", "Problem.py"],
  [("ErrorsInXandYProblem.setAccuracy / splitParameters / domain2Unit", S + "ErrorsInXandYProblem.py"), ("Gauss2dErrorDistribution.logLdata", S + "Gauss2dErrorDistribution.py")],
  ["logLikelihood", "problem.varxx", "problem.determinant"])

p("C28", "Basic numerical utilities are correct for every input",
  "The factorial, formatting, orthonormal basis, array conversion, averaging, sub-setting, noise scale and array manipulation utilities return what their documentation states for every valid input, in particular: formatted numbers read back to the given precision, orthonormalised vectors are orthonormal and span the same space, the log factorial is that of the gamma function.",
  ["inputs"], "all valid inputs of the utilities", "Tests check some values.",
  ["Tools.py", "Formatter.py", "LogFactorial.py", "OrthonormalBasis.py", "NoiseScale.py", "MonteCarlo.py"],
  [("formatter / fma", S + "Formatter.py"), ("OrthonormalBasis.normalise", S + "OrthonormalBasis.py"), ("logFactorial", S + "LogFactorial.py"), ("Tools", S + "Tools.py")],
  ["formatter", "logFactorial", "OrthonormalBasis", "Tools"])

p("C29", "ModelDistribution returns as log likelihood the log evidence of its model",
  "For a dynamic or modifiable model in any state, ModelDistribution returns as log likelihood the natural log of the evidence of that model for the data of the problem with its weights, accuracies, noise scale (fixed, or free within limits) and prior limits, whichever arbiter calculates it, and it returns the best-fit parameters and scale; every sample that NestedSampler draws from an EvidenceProblem has this likelihood and these parameters for its own model.",
  ["inputs", "configurations", "histories"], "dynamic and modifiable linear models after any history of grow, shrink and vary x data x weights x accuracies x fixed or free scale x arbiter",
  "The likelihood depends on state, weights and arbiter together; the tests only print it.",
  ["ModelDistribution.py", "EvidenceProblem.py", "BaseFitter.py", "NestedSampler.py"],
  [("ModelDistribution.logLikelihood_alt", S + "ModelDistribution.py"), ("EvidenceProblem", S + "EvidenceProblem.py")],
  ["ModelDistribution.logLikelihood", "NestedSampler.samples"])

p("C30", "Parameters carry the unit and the name of what they stand for",
  "For every model with known units, simple, with fixed or replaced parameters, repeated, combined, multiplied or in a compound chain with brackets, the unit of each parameter follows from the units of x and y such that expressing the data in other units and converting every parameter with its unit yields the same curve; in a chain all parts share the units of the head (factors are dimensionless); the unit of the integral is that of y times x; a parameter keeps its unit and name when other parameters are fixed, and when its model is part of a chain.",
  ["inputs", "configurations"], "all models and model expressions x systems of units x subsets of fixed parameters",
  "Units and names are only printed by the tests; the rule quantifies over all models and their combinations.",
  ["Model.py", "FixedModel.py", "ProductModel.py", "CombiModel.py", "RepeatingModel.py", "SurfaceSplinesModel.py", "PadeModel.py"],
  [("Model.getParameterUnit / getIntegralUnit", S + "Model.py"), ("baseParameterUnit of all models", S + "*Model.py"), ("FixedModel.getParameterUnit", S + "FixedModel.py")],
  ["model.getParameterUnit", "model.getParameterName", "model.getIntegralUnit", "model.result"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
