BASE = "Random search over generated inputs with shrinking, no exhaustiveness; "
TECH = {
 "C01": ("property-based testing (Hypothesis) against an independent closed-form reference per model", BASE + "trusts the reference formulas in lib/catalog.py, written from the documentation."),
 "C02": ("property-based testing: differential against finite differences of the model result", BASE + "differences use two step sizes; points where they disagree get a wider tolerance."),
 "C03": ("property-based testing: differential against Richardson-extrapolated differences of the model result over x", BASE + "points near knots and kernel edges are skipped."),
 "C04": ("property-based testing: random expression trees against a reference evaluator; structural round-trip of isolateModel", BASE + "trees up to 5 leaves."),
 "C05": ("property-based testing: metamorphic, fixed model against the full model with substituted parameters", BASE + "replacing models up to two levels deep."),
}
TECH.update({
 "C06": ("property-based testing: random histories of copy / change with snapshots of everything observable", BASE + "histories up to 8 steps."),
 "C07": ("property-based testing: model-based, a reference list of the prior of each parameter under random settings on random compounds", BASE + "up to 9 parts."),
 "C08": ("property-based testing: round-trip, inverse, quadrature and difference relations of each prior over random limits and histories", BASE + "quadrature to 1e-6."),
})
TECH.update({
 "C09": ("property-based testing: differential against an independent per-point reference of each distribution; metamorphic relations of weights", BASE + "up to 12 data points per problem."),
 "C10": ("property-based testing: differential against finite differences of logLikelihood; sum of per-point terms", BASE + "points near cusps of the likelihood are skipped."),
})
TECH.update({
 "C11": ("property-based testing: differential against an independent least-squares solution over random linear problems and sequences of fits; metamorphic weights versus repeated points", BASE + "up to 10 parameters; ill-conditioned designs (condition > 1e4) are skipped."),
 "C27": ("property-based testing: differential against an independent two-dimensional Gaussian formula; metamorphic relations of weights and roles", BASE + "up to 8 points."),
})
TECH.update({
 "C12": ("property-based testing: differential against independently evaluated defining formulas of chisq, scale, covariance, error band and evidence; metamorphic change of units; linear Gaussian integral", BASE + "up to 10 parameters; evidence as the documented Gaussian approximation."),
 "C13": ("property-based testing: random fits, oracle is descent, stationarity, agreement of reported and recomputed optimum and an independent optimiser", BASE + "models of up to 5 parameters with starting points in the basin of attraction; convergence errors are allowed."),
 "C14": ("property-based testing: random sequences of fits with and without keep, model-based against a fit of the remaining parameters by an independent optimiser and against a new fitter", BASE + "sequences up to 5 fits."),
 "C15": ("property-based testing: round-trip and numpy.ndindex oracle for the indices; metamorphic, map fit versus flattened fit", BASE + "images of up to 4 dimensions."),
 "C16": ("property-based testing: invariant over the recorded history of embedded fits, weights recomputed from the kernel formula; metamorphic with and without outliers", BASE + "up to 60 points with up to 20 % outliers."),
 "C17": ("property-based testing and fuzzing of the minimised function: invariants over the recorded history of evaluations, reproducibility, known minima", BASE + "up to 4 dimensions."),
})
TECH.update({
 "C21": ("property-based testing: stateful, random histories of operations against plain lists of records; statistics against numpy", BASE + "histories up to 50 operations."),
 "C23": ("property-based testing: defining relations of splines (pieces are polynomials, smoothness at the knots, span) and differential against de Boor's recursion", BASE + "order up to 5, up to 12 knots."),
 "C24": ("property-based testing: defining relations of each kernel (integral, symmetry, width, support, derivative) with quadrature", BASE + "quadrature to 1e-6."),
 "C26": ("property-based testing: differential against an own bisection of Kepler's equation and Thiele-Innes constants; invariants (equal areas, periodicity)", BASE + "eccentricity up to 0.99, within 1e-4 period of apastron the derivatives are skipped."),
 "C28": ("property-based testing: round-trip (format and parse), Gram matrix, differential against lgamma, numpy and scipy", BASE + "small arrays."),
})
TECH.update({
 "C22": ("property-based testing: stateful, random histories of grow, shrink, vary, shuffle and copy against an own bookkeeping and formulas of every part", BASE + "histories up to 8 steps, up to 2 parts before and after the dynamic one."),
})
TECH.update({
 "C18": ("property-based testing: stateful, random histories of engine calls on an ensemble with rising constraints; own record of every walker, own limits, fit index and likelihood; every history is run twice", BASE + "ensembles up to 10 walkers, up to 4 rounds of up to 4 engines, up to 9 data points (more for errors in x and y)."),
})
TECH.update({
 "C19": ("property-based testing: random configurations of the samplers; invariants over all samples and walkers with own evaluation of likelihood, weights and averages; repeated runs in the same and in another process", BASE + "ensembles up to 30 walkers, up to 3 fitted parameters; dynamic and modifiable models with up to 5 components."),
 "C20": ("property-based testing: two-sample tests of engine moves against independent draws from the constrained prior; single and pooled nested sampling runs against quadrature", BASE + "up to 3 fitted parameters; statistical limits (p < 1e-7, 5.5 standard errors) that a correct sampler does not reach in practice; galilean and random engines are only approximately invariant by design and get a wide limit."),
 "C25": ("property-based testing: distances node by node, random histories of engine moves with invariants, frequencies of all orders, solver against exhaustive enumeration", BASE + "3 to 12 nodes for engines, up to 7 for the solver."),
})
TECH.update({
 "C29": ("property-based testing: differential against an independent weighted least-squares solution and the defining formula of the evidence, for models after random histories; invariants over samples of nested sampling", BASE + "linear dynamic models up to 8 parameters; nested sampling as arbiter within 6 standard errors."),
 "C30": ("property-based testing: metamorphic change of the system of units (data, configuration and parameters converted with the claimed units must yield the same curve)", BASE + "units m/km/cm, s/ms/min, K/mK, kg/g/t; chains with + - * and brackets up to 3 x 3 models; no pipes."),
})
