TECH = {}; NOTE = {}; NA = {}
MNOTES = "Every check builds /repo/orocos_bfl from its current tree into /verif/build with both matrix back ends and address sanitizer, then runs its generators against both. No hooks in /repo. Replay: python3 /verif/check.py --replay FILE."
I = ["inputs"]; H = ["histories"]; IH = ["inputs", "histories"]; IHC = ["inputs", "histories", "configurations"]
ME = [f"wrappers/matrix/{x}_wrapper.{y}" for x in ("matrix_EIGEN", "vector_EIGEN", "matrix_BOOST", "vector_BOOST") for y in ("cpp", "h")]
MX = ["wrappers/matrix/matrix_wrapper.h", "wrappers/matrix/matrix_wrapper.cpp", "wrappers/matrix/vector_wrapper.h"]
MEF = MX + ["wrappers/matrix/" + x for x in ("matrix_EIGEN.cpp", "matrix_EIGEN.h", "vector_EIGEN.cpp", "vector_EIGEN.h", "matrix_BOOST.cpp", "matrix_BOOST.h", "vector_BOOST.cpp", "vector_BOOST.h")]

prop("P01", "Matrix and vector arithmetic follows linear algebra",
 "For any matrices, symmetric matrices, row and column vectors of matching sizes, every arithmetic operation, transposition, sub-block, row or column extraction, joining, resizing, comparison, copy and assignment gives the elements that textbook linear algebra with indices counted from 1 gives, up to rounding. Operations that are not assignments leave their operands unchanged, copies are independent of the original, a resize that preserves contents keeps the common part, and a symmetric matrix stays symmetric (taken from the lower triangle when converted from a general matrix). Both selectable matrix back ends agree.",
 IHC, "all shapes, values and sequences of wrapper operations" + B, "The wrapper tests use a handful of fixed 3x3 and 3x4 values with one back end; index and aliasing errors for other shapes or operation sequences are never seen.",
 MEF, [("Eigen wrapper", "wrappers/matrix/matrix_EIGEN.cpp"), ("Boost wrapper", "wrappers/matrix/matrix_BOOST.cpp"), ("vectors", "wrappers/matrix/vector_EIGEN.cpp"), ("vectors", "wrappers/matrix/vector_BOOST.cpp")])
TECH["P01"] = "random operation sequences on matrices and vectors against a long-double reference register machine"

prop("P02", "Inverse, determinant, Cholesky, SVD and pseudo-inverse are what they claim",
 "For every well conditioned square or symmetric matrix the inverse times the matrix is the identity and the determinant has its exact value (zero for singular matrices). For every positive semidefinite matrix, including singular ones, the Cholesky routine succeeds and returns a lower triangular factor whose product with its transpose is the matrix; it reports failure for matrices that are not. The singular value decomposition reproduces any rectangular matrix with orthonormal factors and non-negative singular values, and the pseudo-inverse is the Moore-Penrose inverse with singular values below the given threshold dropped.",
 I, "all dimensions, ranks, scales and conditionings within double precision" + B, "Tests check a few fixed invertible matrices; rank deficiency, scaling and larger dimensions are not reached.",
 MEF, [("inverse/determinant/Cholesky", "wrappers/matrix/matrix_EIGEN.cpp"), ("inverse/determinant/Cholesky", "wrappers/matrix/matrix_BOOST.cpp"), ("SVD, pseudo-inverse", "wrappers/matrix/matrix_wrapper.cpp")])
TECH["P02"] = "generated matrices of chosen rank and conditioning against long-double references and defining identities"

G = ["pdf/gaussian.cpp", "pdf/gaussian.h"]
prop("P03", "A Gaussian always reports the density of its current mean and covariance",
 "After any sequence of constructions, changes of mean or covariance, copies, clones, assignments, density queries and sampling calls, a Gaussian of any dimension reports exactly the mean, covariance and dimension last given to it, and its density at every point is the multivariate normal density for them (integrating to one). Objects never influence each other.",
 IH, "all positive definite covariances, means, evaluation points and call histories" + B, "The density is cached between calls; tests evaluate it after construction and one change for one dimension.",
 G, [("cached inverse and determinant", "pdf/gaussian.cpp")])
TECH["P03"] = "stateful call histories over several Gaussians against a closed-form long-double model"

prop("P04", "Samples of a Gaussian follow its mean and covariance",
 "For every positive semidefinite covariance, each sample drawn from a Gaussian, one at a time or as a list of the requested length, is the mean plus a linear map of independent standard normal draws whose square is the covariance, independently across the list. Sampling does not change the distribution, and requests that cannot be served (covariance that is not positive semidefinite, sampling method not provided) report failure.",
 IH, "all means, covariances (also singular), list lengths and prior uses of the object" + B, "Tests look at the order of magnitude of a few random draws; a wrong correlation or a reused draw passes.",
 G + ["wrappers/rng/rng.cpp", "wrappers/matrix/matrix_wrapper.cpp"], [("Cholesky sampling", "pdf/gaussian.cpp")])
TECH["P04"] = "scripted normal draws recover the linear map of the sampler and compare it with the covariance; frequency checks with the real generator"

prop("P05", "Uniform boxes: density and samples match center and width",
 "After any history of construction, redefinition, copy and assignment, a uniform distribution reports the center and width last given, has density one over the volume inside and on the border of the box and zero outside, and all its samples lie in the box, uniformly and independently per coordinate.",
 IH, "all dimensions, centers, positive widths, query points (also border) and histories" + B, "Tests use one two-dimensional box.",
 ["pdf/uniform.cpp", "pdf/uniform.h"], [("density and sampling", "pdf/uniform.cpp")])
TECH["P05"] = "stateful histories against a box model; scripted uniform draws"

prop("P07", "Discrete distributions stay normalised and mean what was set",
 "After any history of setting one probability, setting all probabilities, copying, cloning, assigning and sampling, the probabilities of a discrete distribution are non-negative, sum to one, and equal the values set up to normalisation: setting all gives the given values divided by their sum, setting one gives exactly that value and rescales the others proportionally. All-zero values are refused, the most probable state is one of maximal probability, and distinct objects never influence each other.",
 IH, "all state counts, probability values (also 0, 1 and extreme ratios) and histories", "Tests set one probability on one object.",
 ["pdf/discretepdf.cpp", "pdf/discretepdf.h"], [("normalisation and cumulative list", "pdf/discretepdf.cpp")])
TECH["P07"] = "stateful histories over several objects against a normalised-vector model"

prop("P08", "Discrete conditional distributions are faithful probability tables",
 "For any number and sizes of conditioning variables, the conditional probability of a state given the current conditioning values is the value last stored for exactly that combination, whatever the order in which the table was filled or overwritten and however the conditioning values were set. Copies, clones and assigned objects hold the same table and evolve independently.",
 IH, "all table shapes, fill orders and histories", "Tests fill one small table.",
 ["pdf/discreteconditionalpdf.cpp", "pdf/discreteconditionalpdf.h"], [("table index", "pdf/discreteconditionalpdf.cpp")])
TECH["P08"] = "stateful histories against a map from index tuples to values"

prop("P09", "Discrete samplers follow the probabilities and never leave the support",
 "Single, list and ordered (Ripley) sampling of discrete distributions, conditional tables, sample-based distributions and mixtures return the requested number of samples, never select a state, sample or component of probability zero or outside the range for any value of the underlying random numbers, and select each one with a frequency equal to its probability.",
 I, "all probability vectors and all values of the uniform random numbers, including 0 and the largest below 1", "Random draws of exactly 0 or near 1 practically never occur in tests, and frequencies are not compared.",
 ["pdf/discretepdf.cpp", "pdf/discreteconditionalpdf.cpp", "pdf/mcpdf.h", "pdf/mixture.h"], [("cumulative search", "pdf/discretepdf.cpp"), ("cumulative search", "pdf/mcpdf.h"), ("component choice", "pdf/mixture.h")])
TECH["P09"] = "scripted boundary and stratified uniforms against the exact probabilities, plus frequency tests"

prop("P10", "Sample-based distributions: normalised weights and exact moments",
 "After any history of setting or updating weighted or unweighted sample lists, resizing, copying and sampling, a sample-based distribution holds exactly the given sample values in order with the given weights divided by their sum (equal weights for unweighted lists), a non-decreasing cumulative list ending at one, and reports the weighted mean and weighted covariance of its samples. Lists whose weights are all zero are refused.",
 IH, "all sample values, weights (also extreme ratios) and histories" + B, "Tests set one list and look at a few accessors.",
 ["pdf/mcpdf.h", "pdf/mcpdf.cpp"], [("weight normalisation, moments", "pdf/mcpdf.h")])
TECH["P10"] = "stateful histories against a weighted-list model in long double"

prop("P11", "Mixtures stay normalised and are the weighted sum of their components",
 "After any history of adding (with or without a weight), deleting and re-weighting components, copying and assigning, the weights of a mixture sum to one and relate to the previous ones by proportional rescaling, every component keeps its own parameters and position, and density and mean of the mixture are the weighted sums of those of its components. The most probable component is the first of maximal weight and mixtures never share or alter the pdf objects they were built from.",
 IH, "all component counts, weights and histories" + B, "Tests perform one fixed short sequence.",
 ["pdf/mixture.h", "pdf/mixture.cpp"], [("component and weight lists", "pdf/mixture.h")])
TECH["P11"] = "stateful histories against a list-of-components model"

CG = ["pdf/conditionalpdf.h", "pdf/conditionalgaussian.cpp", "pdf/conditionalgaussian_additivenoise.cpp", "pdf/analyticconditionalgaussian.cpp", "pdf/analyticconditionalgaussian_additivenoise.cpp", "pdf/linearanalyticconditionalgaussian.cpp"]
prop("P12", "Conditional Gaussians track their arguments, matrices and noise",
 "For linear conditional Gaussians with any number of arguments and for user-defined conditional Gaussians with additive noise, after any history of changing conditional arguments, matrices or noise and of cloning, the conditional mean and covariance are the function of the current arguments plus the current noise, the derivatives are the current matrices, and density and samples are those of the normal distribution with that mean and covariance; sampling requests that cannot be served report failure. Clones evolve independently.",
 IH, "all dimensions, argument counts and values, noise, and histories" + B, "Tests use one fixed pair of matrices and arguments.",
 CG, [("conditional mean", "pdf/linearanalyticconditionalgaussian.cpp"), ("density and sampling", "pdf/conditionalgaussian.cpp"), ("additive noise", "pdf/analyticconditionalgaussian_additivenoise.cpp")])
TECH["P12"] = "stateful histories against a long-double linear/nonlinear model; scripted normal draws for sampling"

prop("P14", "System and measurement models evaluate, simulate and linearise their pdf",
 "For Gaussian (linear or user-defined) and discrete models, with and without inputs or sensor parameters, and also after the underlying pdf or matrices were exchanged, the probability of a transition or measurement, the prediction, derivative and covariance at a state and input, and the distribution of simulated values are those of the current pdf with state and input as its arguments. Sizes and the has-inputs or has-parameters indication match the pdf.",
 IH, "all models, states, inputs, parameters and sequences of queries and exchanges" + B, "Tests query one fixed model of each kind.",
 ["model/systemmodel.h", "model/measurementmodel.h", "model/analyticsystemmodel_gaussianuncertainty.cpp", "model/analyticmeasurementmodel_gaussianuncertainty.cpp", "model/linearanalyticsystemmodel_gaussianuncertainty.cpp", "model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp", "model/discretesystemmodel.cpp"], [("argument passing", "model/systemmodel.h"), ("argument passing", "model/measurementmodel.h")])
TECH["P14"] = "random query/exchange sequences against the reference model"

KF = ["filter/kalmanfilter.cpp", "filter/extendedkalmanfilter.cpp", "filter/filter.h"]
prop("P15", "Kalman filtering of linear models computes the exact Bayes posterior",
 "For every linear Gaussian system and measurement model and every interleaving of prediction and measurement updates through any of the update calls, the extended and the iterated extended Kalman filter hold the exact posterior mean and covariance, and the normalised innovation squared they report is exact. The covariance stays symmetric and positive semidefinite, a measurement never increases a variance, fusing measurements jointly, one after the other or in another order gives the same belief, and neither other filters nor the prior object are affected.",
 IH, "all linear models, priors, measurements, measurement dimensions and update histories, within double precision conditioning" + B, "Tests run one robot scenario and compare with recorded numbers.",
 KF + ["filter/iteratedextendedkalmanfilter.cpp"], [("prediction and correction", "filter/kalmanfilter.cpp"), ("per-dimension scratch variables", "filter/extendedkalmanfilter.cpp")])
TECH["P15"] = "stateful update histories against a long-double Joseph-form Kalman filter; sequential/joint and information-form relations"

prop("P16", "The extended Kalman filter linearises at the current estimate",
 "For nonlinear models, with inputs, sensor parameters and state-dependent noise, each prediction of the extended Kalman filter uses function value, derivative and noise covariance at the current mean and input, and each correction those at the predicted mean and parameters, giving the standard first-order posterior, normalised innovation and a symmetric covariance. This holds for every interleaving of updates with several models of different measurement dimension on several filters sharing those models.",
 IH, "all differentiable models, priors, measurements and histories" + B, "Tests run one nonlinear robot scenario.",
 KF, [("linearisation", "filter/extendedkalmanfilter.cpp"), ("gain", "filter/kalmanfilter.cpp")])
TECH["P16"] = "stateful update histories against a long-double EKF"

prop("P17", "The iterated filter re-linearises as often as asked and stops as told",
 "A measurement update of the iterated extended Kalman filter with a given number of iterations (one or more) equals that many Gauss-Newton relinearisations around the successive estimates starting from the predicted belief, or fewer when an innovation check is installed and the squared norm of the change of the estimate falls below its threshold. The posterior covariance is that of the last linearisation and the innovation check itself accepts exactly the innovations whose squared norm reaches the threshold.",
 IH, "all models, iteration counts, thresholds and histories" + B, "Tests run one scenario with a fixed number of iterations and no check.",
 ["filter/iteratedextendedkalmanfilter.cpp", "filter/innovationCheck.cpp", "filter/kalmanfilter.cpp"], [("iteration", "filter/iteratedextendedkalmanfilter.cpp"), ("threshold", "filter/innovationCheck.cpp")])
TECH["P17"] = "update histories against a long-double iterated EKF"

prop("P18", "The square-root filter computes the same belief as the covariance form",
 "For every system model and every implicit linear(ised) measurement model, predictions and measurement updates of the square-root iterated extended Kalman filter give the belief of the iterated Kalman filter, and the square root it exposes times its transpose is the covariance it reports, at every point of every history including after the belief or the square root has been set from outside.",
 IH, "all models, priors, measurements and histories" + B, "There is no test of this filter with more than trivial values.",
 ["filter/SRiteratedextendedkalmanfilter.cpp", "filter/SRiteratedextendedkalmanfilter.h"], [("square-root update", "filter/SRiteratedextendedkalmanfilter.cpp")])
TECH["P18"] = "update histories against the covariance-form reference"

prop("P19", "Resetting a filter or smoother equals creating a new one on that prior",
 "After any history of updates, also failed ones, resetting an extended, iterated or square-root Kalman filter, histogram filter, particle filter (bootstrap, own proposal, EKF proposal, mixture, all with dynamic resampling) or smoother to a prior makes it hold and afterwards compute exactly what a newly created one on that prior would, also when the prior has another number of particles, components or discrete states. The prior object is neither changed nor owned by the filter, later changes of it do not reach the belief, and earlier priors are no longer used.",
 IH, "all histories of updates and resets, all priors of the same state dimension" + B, "No test resets a filter.",
 ["filter/kalmanfilter.cpp", "filter/histogramfilter.cpp", "filter/particlefilter.cpp", "filter/mixtureParticleFilter.cpp", "filter/EKparticlefilter.cpp", "filter/SRiteratedextendedkalmanfilter.cpp", "smoother/rauchtungstriebel.cpp", "smoother/particlesmoother.cpp"], [("Reset", "filter/kalmanfilter.cpp"), ("Reset", "filter/particlefilter.cpp"), ("Reset", "filter/EKparticlefilter.cpp")])
TECH["P19"] = "differential histories: a reset filter against a newly created one under the same random numbers"

prop("P20", "The histogram filter computes the exact discrete Bayes posterior",
 "For every finite state space, transition table and measurement likelihood, with and without inputs and sensor parameters, and every interleaving of predictions and corrections, the belief of the histogram filter is the exact posterior: a probability vector with predicted weights summed over the transition table and corrected weights proportional to likelihood times prediction. A measurement impossible in every possible state is reported as failure, and neither the prior object nor other filters change.",
 IH, "all tables, priors, likelihoods (also zero and tiny ones) and histories", "Tests run one small fixed example.",
 ["filter/histogramfilter.cpp", "filter/histogramfilter.h", "pdf/discretepdf.cpp", "pdf/discreteconditionalpdf.cpp"], [("prediction and correction sums", "filter/histogramfilter.cpp")])
TECH["P20"] = "stateful update histories against a long-double Bayes recursion"

prop("P21", "Particle filters propose, weight and resample as sequential importance sampling",
 "In every history of updates of a particle or bootstrap filter with any system, measurement and proposal densities, inputs and sensor parameters, each particle is moved by one draw from the proposal given its own old value and the input, its weight is multiplied by likelihood times transition over proposal density (likelihood alone for the bootstrap filter) and weights are normalised. Resampling happens exactly when due (fixed period, or effective sample size below the threshold), keeps the number of particles, draws only particles of positive weight with frequencies equal to their weights and leaves equal weights. A measurement impossible for every particle is reported as failure, the time step counts system updates, and prior and other filters are untouched.",
 IH, "all densities, priors, resampling settings and update histories, continuous and discrete measurements" + B, "Tests run one scenario and look at the resulting mean within wide margins.",
 ["filter/particlefilter.cpp", "filter/particlefilter.h", "filter/bootstrapfilter.cpp", "filter/bootstrapfilter.h", "pdf/mcpdf.h"], [("proposal, weights, resampling", "filter/particlefilter.cpp"), ("own system model as proposal", "filter/bootstrapfilter.cpp")])
TECH["P21"] = "update histories with recording densities against an importance-sampling model; frequency tests of resampling"

prop("P22", "The EKF particle filter proposes from a per-particle Kalman update",
 "At every update of the particle filter with extended Kalman proposal, each particle is drawn from the Gaussian that an extended Kalman update of its value with its own covariance gives, weighted with likelihood times transition density over that proposal density and normalised, and keeps the updated covariance for its next step. The proposal density used on its own gives, for whatever state, covariance, input, measurement and sensor parameter are set, the mean, covariance, probabilities and draws of that same update. Resampling, when due, copies value and covariance together from particles of positive weight and leaves equal weights, and the prior object never changes.",
 IH, "all differentiable models, priors, resampling settings and update histories with densities within double range" + B, "Tests look at the mean of one scenario.",
 ["filter/EKparticlefilter.cpp", "pdf/EKF_proposaldensity.cpp", "pdf/filterproposaldensity.cpp", "pdf/conditionalgaussian.cpp"], [("proposal per particle", "filter/EKparticlefilter.cpp"), ("Kalman step as density", "pdf/filterproposaldensity.cpp")])
TECH["P22"] = "update histories with scripted normal draws against a per-particle EKF and importance weights"

prop("P23", "Mixture particle filters filter every component and weigh them by evidence",
 "In every history of updates of a mixture particle or mixture bootstrap filter each component is propagated, weighted and resampled as a particle filter of its own, and the weight of each component becomes its old weight times the sum of the unnormalised new weights of its particles, normalised over the components. A component whose particles are all ruled out gets weight zero without disturbing the others, a measurement ruling out all components is reported as failure, the time step counts system updates once, and the prior mixture is untouched.",
 IH, "all component and particle counts, densities, resampling settings and histories" + B, "Tests run one scenario.",
 ["filter/mixtureParticleFilter.cpp", "filter/mixtureParticleFilter.h", "filter/mixtureBootstrapFilter.cpp", "pdf/mixture.h"], [("per-component steps, mixture weights", "filter/mixtureParticleFilter.cpp")])
TECH["P23"] = "update histories with recording densities against an importance-sampling model per component"

prop("P24", "The Rauch-Tung-Striebel smoother gives the posterior given all measurements",
 "For linear Gaussian models the smoothed means and covariances obtained by stepping backwards through the filtered beliefs equal the marginals of the joint posterior of the whole trajectory given all measurements. For nonlinear models each step is the standard smoothing step with function, derivative and noise at the filtered estimate and the given input, the smoothed covariance is symmetric, and filtered beliefs and prior are untouched.",
 IH, "all models, inputs, filtered beliefs and horizons" + B, "There is no numerical test of the smoother.",
 ["smoother/rauchtungstriebel.cpp", "smoother/backwardfilter.cpp"], [("backward step", "smoother/rauchtungstriebel.cpp")])
TECH["P24"] = "generated step sequences against the long-double smoothing step, and whole trajectories against the joint information-form solution"

prop("P25", "The particle smoother reweights filtered particles by the backward recursion",
 "Each step of the particle smoother keeps the filtered particles in order and gives them normalised weights: filtered weight times the sum over the smoothed particles of their weight times the transition density, each divided by the filtered mixture of transition densities. This holds for any and different particle counts, with and without inputs, step after step, and leaves filtered distribution and prior untouched.",
 IH, "all transition densities (non-vanishing), particle sets and histories" + B, "There is no numerical test of the smoother.",
 ["smoother/particlesmoother.cpp", "smoother/backwardfilter.cpp"], [("backward weights", "smoother/particlesmoother.cpp")])
TECH["P25"] = "generated step sequences against a long-double backward recursion"

prop("P06", "Samples, weighted samples and probabilities are independent values",
 "A sample or weighted sample of any state type holds exactly the value and weight last set, copied or assigned into it, whatever happens to other samples; turning a plain sample into a weighted one gives it weight one, and the dimension follows the value. Probabilities hold, multiply and divide as the numbers they were made of.",
 IH, "all values, weights and histories of copies, assignments and in-place changes, for integer, real, vector and user-defined states", "Tests copy one sample of each type.",
 ["sample/sample.h", "sample/sample.cpp", "sample/weightedsample.h", "bfl_constants.h"], [("value and dimension", "sample/sample.h"), ("weight", "sample/weightedsample.h")])
TECH["P06"] = "stateful histories against a value model"

prop("P13", "Symbolic models give the exact value, derivative and noise at the current point",
 "A Gaussian conditional density defined by symbolic expressions gives, at whatever state, input and noise description it currently has, the value of the function as mean, its exact derivative with respect to the state, and a covariance that is the additive noise or, for noise on symbols, that noise propagated through the linearisation at the mean of those symbols. Density, samples, dimension, copies and clones agree with these, system and measurement models built on it return the functions and symbols they were given, and an extended Kalman filter using them computes the standard update.",
 IH, "all expressions of polynomials, products and trigonometric functions over up to a few symbols, arguments and histories", "Tests and examples use one robot model.",
 ["pdf/nonlinearanalyticconditionalgaussian_ginac.cpp", "pdf/nonlinearanalyticconditionalgaussian_ginac.h", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp"], [("substitution and derivative", "pdf/nonlinearanalyticconditionalgaussian_ginac.cpp")])
TECH["P13"] = "generated expression trees evaluated and differentiated by the harness's own long-double automatic differentiation, under histories of argument changes and copies"

prop("P26", "The random source gives independent draws of the requested distribution",
 "In every interleaving of calls, uniform draws lie in the requested half-open range and are uniformly distributed over it, normal draws have the requested mean and standard deviation and a normal distribution, and successive draws, also of different kinds and parameters, are independent of one another.",
 IH, "all parameters and call histories, up to statistical resolution of a few thousand draws per history", "Tests draw a handful of numbers.",
 ["wrappers/rng/rng.cpp", "wrappers/rng/rng.h"], [("wrapper", "wrappers/rng/rng.cpp")])
TECH["P26"] = "range, moment, correlation and Kolmogorov-Smirnov tests over generated call histories, with thresholds beyond six standard deviations"

prop("P27", "All memory is released exactly once and never touched out of bounds",
 "Over any history of creating, copying, assigning, changing, updating, resetting and destroying distributions, mixtures, models, filters and smoothers, also with failing updates, running the history again and again never makes the memory in use grow. Everything the library allocates is released exactly once, nothing is read or written outside or after the life of its storage, and pdfs, models and priors lent by the user are not deleted by the library.",
 IHC, "all call histories the generators of the other properties produce, in all areas" + B, "A leak or an overrun of a few bytes changes no value a test compares; long-running filters hit it after hours.",
 ["pdf/mixture.h", "pdf/discretepdf.cpp", "pdf/discreteconditionalpdf.cpp", "pdf/mcpdf.h", "filter/kalmanfilter.cpp", "filter/histogramfilter.cpp", "filter/particlefilter.cpp", "filter/mixtureParticleFilter.cpp", "filter/EKparticlefilter.cpp", "smoother/rauchtungstriebel.cpp", "smoother/particlesmoother.cpp", "pdf/filterproposaldensity.cpp", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp", "model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp"],
 [("component ownership", "pdf/mixture.h"), ("posterior ownership", "filter/kalmanfilter.cpp"), ("pdf ownership", "model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp")])
TECH["P27"] = "repeated replay of generated histories of all other checks under address sanitizer, comparing the live heap before and after each repetition"
