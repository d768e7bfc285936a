"""Writes /verif/properties.jsonl from one table, so titles, statements and anchors stay in one place."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
SS = "pymc_extras/statespace/"

p("C01", "Kalman filtering is exact Gaussian conditioning",
 """For every linear Gaussian state space model and every data set, each filter variant returns, at each time step,
 the predicted and filtered state means and covariances, the predicted observation moments and the per-step
 log-likelihood that exact conditioning of the joint Gaussian of states and observations gives, up to the documented
 covariance jitter. Fully or partly missing observations (NaN or the fill value) carry no information and contribute
 nothing to the likelihood; intercepts and system matrices that vary over time are honoured at their own time step.""",
 ["inputs", "configurations"], """all dimensions, system matrices (static or time varying), intercepts, initial moments,
 data with any pattern of missing entries, and all filter variants (standard, Cholesky, univariate)""",
 """Tests check output shapes and compare one univariate data set (Nile) with statsmodels; multivariate values,
 intercepts, partial missingness and time variation are never compared with anything.""",
 [SS+"filters/kalman_filter.py", SS+"filters/utilities.py"],
 [("update/predict recursions", SS+"filters/kalman_filter.py"), ("missing-value masking", SS+"filters/kalman_filter.py"),
  ("static / time-varying argument sorting", SS+"filters/utilities.py")], ["outputs of the filter graph for given inputs"])
p("C02", "Smoothed states are the exact posterior given all the data",
 """For every linear Gaussian state space model and data set, the smoothed state means and covariances equal those of
 the exact conditional distribution of each state given all observations, including models with intercepts, with time
 varying matrices and with missing observations. At the last time step the smoothed and filtered results coincide.""",
 ["inputs", "configurations"], "all system matrices, intercepts, initial moments, missing patterns and sample lengths",
 "Tests compare the smoother with statsmodels on one univariate series without intercepts or time variation.",
 [SS+"filters/kalman_smoother.py"], [("Rauch-Tung-Striebel backward pass", SS+"filters/kalman_smoother.py")],
 ["smoothed states and covariances of the smoother graph"])
p("C03", "Simulated trajectories follow the state space law",
 """Trajectories simulated from a state space model have the joint distribution that the model's equations define: the
 initial state, the state innovations and the observation noise are mutually independent with the declared means and
 covariances, and each step uses the intercepts and matrices of its own time step. With zero covariances the simulated
 path is exactly the deterministic recursion.""",
 ["inputs", "configurations"], "all system matrices (static or time varying), intercepts, lengths, with or without the initial state appended",
 "Tests compare moments of one local level model and otherwise check shapes.",
 [SS+"filters/distributions.py"], [("forward simulation scan", SS+"filters/distributions.py")], ["draws of the latent and observed paths"])
p("C04", "Posterior state and observation samples use each draw's own model",
 """Sampling latent states and observations conditional on data returns, for every posterior draw, values distributed
 with exactly the predicted, filtered and smoothed moments that the model has at that draw's parameters, and sampling
 unconditionally simulates the model at that draw's parameters. Results are labelled with the model's own state,
 observation and time coordinates.""",
 ["inputs", "configurations"], "all models, parameter draws, data sets with gaps, and sampling groups (prior, posterior)",
 "Tests check dimension names, shapes and that sampling does not raise; the values are only looked at for one degenerate case.",
 [SS+"core/statespace.py", SS+"filters/distributions.py"], [("dummy graph reconstruction", SS+"core/statespace.py"), ("sequence MvNormal", SS+"filters/distributions.py")],
 ["datasets returned by the conditional / unconditional samplers"])
p("C05", "Forecasts continue the data with the right law and the right labels",
 """A forecast from any origin has, per posterior draw, the mean and covariance obtained by propagating the filtered
 (or chosen) state at the origin through the model for each future step, using exogenous scenario data for the steps
 they are labelled with regardless of the column order they are supplied in. The returned time labels continue the
 training index from the origin without gap, overlap or off-by-one for every index type, number of periods or end
 point.""",
 ["inputs", "configurations"], "all models, origins (integer, negative, date labels), horizons, index types and frequencies, scenario containers",
 "Tests enumerate a few index types on one model and check index equality and finiteness of values.",
 [SS+"core/statespace.py"], [("forecast index construction", SS+"core/statespace.py"), ("scenario validation and assembly", SS+"core/statespace.py"), ("forecast graph", SS+"core/statespace.py")],
 ["dataset returned by forecasting"])
p("C06", "Impulse responses are the model's propagated shocks",
 """The impulse response of a model at each posterior draw equals the difference between the noise-free recursion with
 and without the requested initial shock or shock trajectory, at that draw's transition and selection matrices; shocks
 given explicitly are applied exactly, and orthogonalised or one-unit shocks follow the innovation covariance.""",
 ["inputs", "configurations"], "all models, shock sizes, covariances, trajectories and horizons",
 "Tests check that calls succeed for one model, never the values.",
 [SS+"core/statespace.py"], [("impulse response scan", SS+"core/statespace.py")], ["dataset returned by the impulse response function"])
p("C07", "The matrix container reads back exactly what was written",
 """After any sequence of assignments of whole matrices, slices, cells and indexed selections (constants or symbolic),
 every read of a system matrix returns the value an ordinary array with the same assignments would hold, with the
 declared shape. An assignment with an unknown name or an incompatible shape is refused, and refusing it leaves the stored
 matrices as they were; a copy is independent of its original.""",
 ["histories"], "all sequences of get, set, copy and rejected operations over all matrices and index forms",
 "Tests run about a dozen single set/get steps, never sequences, copies or reads after a refused write.",
 [SS+"core/representation.py"], [("keyed get/set", SS+"core/representation.py"), ("shape validation", SS+"core/representation.py")], ["values read from the container"])
p("C08", "Model parameters reach the matrices by name, and the log-density is theirs",
 """Whatever the order in which priors are declared and whatever extra variables the probabilistic model contains, each
 named parameter and data variable enters the state space matrices at its own place, so the model's log-density is the
 sum of the prior densities and the exact Gaussian likelihood of the data at those parameter values. A missing parameter
 or data variable is reported by name, and matrices sampled from a posterior equal the matrices at each draw.""",
 ["inputs", "configurations"], "all declaration orders, parameter values, model types, data with gaps and exogenous data",
 "Tests use one declaration order per model and compare no log-density of a full probabilistic model with a reference.",
 [SS+"core/statespace.py", SS+"core/compile.py" if False else SS+"core/compile.py"], [("random variable insertion by graph replacement", SS+"core/statespace.py")], ["compiled log-density of the model", "sampled matrices"])
p("C09", "Observed data are registered faithfully, with their gaps and their time labels",
 """For every supported container (array, series, frame, symbolic data), index type and pattern of missing values, the
 registered data hold exactly the given values with gaps marked, the time coordinate labels them with the given index,
 and the caller's own objects are left unchanged. Data that contain the fill value, have the wrong width or an unusable index are refused
 or warned about rather than silently altered.""",
 ["inputs", "configurations"], "all containers, shapes, dtypes, index types, missing patterns and fill values",
 "Tests enumerate a few containers with a fixed frame; the caller's objects and arbitrary missing patterns are not examined.",
 [SS+"utils/data_tools.py"], [("data normalisation and missing mask", SS+"utils/data_tools.py")], ["registered data and coordinates", "caller's objects after the call"])
p("C10", "Structural components generate the processes they are named for",
 """Each structural component (level/trend of any order, time and frequency seasonality, cycle, autoregression,
 regression, measurement error) generates exactly the textbook recursion for its parameters: the noise-free path from
 given initial values, which states receive innovations, and their variances. In particular noise-free seasonal patterns
 repeat with the stated period and sum to zero over it.""",
 ["inputs", "configurations"], "all component options and parameter values",
 "Tests compare a fixed list of configurations with statsmodels or a simulated pattern.",
 [SS+"models/structural.py"], [("component matrices", SS+"models/structural.py")], ["matrices and noise-free paths of the built model"])
p("C11", "Adding structural components adds independent processes",
 """For every combination and order of components, the built model's observation process is the sum of the component
 processes with independent noise, every component's parameters, states, shocks, data and coordinates appear exactly
 once, and building does not alter the components. Extracting components from hidden states returns, for each named
 component, its own contribution, so that the contributions weighted by the design sum to the observed mean.""",
 ["programs", "inputs"], "all multisets, orders and associations of additions of components, and all hidden state values",
 "Tests add a handful of fixed component pairs.",
 [SS+"models/structural.py", SS+"models/utilities.py"], [("representation combination", SS+"models/structural.py"), ("component extraction", SS+"models/structural.py")], ["matrices, names and coordinates of the built model", "extracted dataset"])
p("C12", "SARIMA models are the textbook process, however the state is laid out",
 """For every order and seasonal order and all coefficients, the state space model's implied process is the one defined
 by the product of the seasonal and non-seasonal lag polynomials with the stated differencing, with stationary initial
 moments when requested. The compact and the interpretable state layouts define the same process, and state names match
 the number of states.""",
 ["inputs", "configurations"], "all (p,d,q)(P,D,Q,S), coefficient values and state layouts",
 "Tests compare a fixed list of orders with statsmodels matrices at random coefficients for one layout.",
 [SS+"models/SARIMAX.py", SS+"models/utilities.py"], [("transition construction", SS+"models/utilities.py"), ("coefficient placement", SS+"models/SARIMAX.py")], ["matrices; impulse responses; autocovariances"])
p("C13", "Vector ARMA models are the textbook process",
 """For every number of series and every AR and MA order, the state space model generates exactly the vector ARMA
 recursion for the given coefficient blocks and innovation covariance, with coefficient axes meaning equation, lag and
 series in that order, and with stationary initial moments when requested.""",
 ["inputs", "configurations"], "all (p,q), number of series, coefficient arrays and covariances",
 "Tests compare a few orders with statsmodels on one data set.",
 [SS+"models/VARMAX.py"], [("coefficient placement", SS+"models/VARMAX.py")], ["matrices; impulse responses; autocovariances"])
p("C14", "Exponential smoothing models are the textbook recursions",
 """For every error/trend/seasonal configuration, number of series and either parameterisation, the noise-driven model
 produces exactly the additive exponential smoothing recursion for its level, trend (damped or not) and seasonal
 components from the given initial values. Each series uses its own parameters, and stationary initialisation solves the
 damped system's steady state.""",
 ["inputs", "configurations"], "all ETS orders, seasonal periods, number of series, parameterisations, values and shock sequences",
 "Tests compare a fixed list of orders with statsmodels at fixed values.",
 [SS+"models/ETS.py"], [("matrix construction", SS+"models/ETS.py")], ["simulated path for given shocks"])
p("C15", "Log-densities and distribution functions match their definitions",
 """For every valid parameter and every value, the log-density of each added distribution (generalised extreme value,
 chi, Maxwell, generalised Poisson, beta negative binomial, Skellam) equals its mathematical definition, is minus infinity exactly
 outside the support, and where a log distribution function is given it is the matching cumulative probability. Invalid
 parameters are reported, never turned into a density.""",
 ["inputs"], "all parameters in the documented domain, all values inside, on the boundary of and outside the support",
 "Tests evaluate fixed parameter grids against scipy at a few values away from boundaries.",
 ["pymc_extras/distributions/continuous.py", "pymc_extras/distributions/discrete.py"], [("logp/logcdf", "pymc_extras/distributions/continuous.py"), ("logp/logcdf", "pymc_extras/distributions/discrete.py")], ["evaluated logp and logcdf"])
p("C16", "Random draws follow the declared distribution",
 """For every valid parameter, draws of each added distribution have the distribution its log-density defines, have the
 requested shape under any broadcasting of parameters and sizes, and lie in the support. The default initial point also
 has that shape and a finite log-density.""",
 ["inputs"], "all parameters in the documented domain, broadcasting patterns and sizes",
 "Tests use a few parameter settings and check shapes or a coarse comparison with scipy.",
 ["pymc_extras/distributions/continuous.py", "pymc_extras/distributions/discrete.py"], [("random generation", "pymc_extras/distributions/discrete.py"), ("support points", "pymc_extras/distributions/continuous.py")], ["draws and initial points"])
p("C17", "Discrete Markov chains have the chain's joint distribution",
 """For every transition tensor, number of lags, length, batch shape and initial distribution, the log-density of a chain is
 the initial state log-probability plus the log-probability of every transition given the preceding lags, and draws follow
 that same law with states always in range. The specialised sampling step proposes each state from its exact conditional
 distribution.""",
 ["inputs"], "all transition tensors and lags, initial distributions, batches of chains and state paths",
 "Tests check a few fixed chains with two or three states and one lag layout.",
 ["pymc_extras/distributions/timeseries.py"], [("logp by indexed lags", "pymc_extras/distributions/timeseries.py"), ("scan simulation", "pymc_extras/distributions/timeseries.py"), ("Gibbs step", "pymc_extras/distributions/timeseries.py")], ["logp; draws; step transitions"])
p("C18", "The R2D2M2CP prior has the variance decomposition it promises",
 """For every input scale, output scale, R2 parameters and importance or probability settings, the prior couples
 coefficients and residual scale so that explained and residual variance add up to the output variance with the explained
 share R2 distributed over coefficients by the importance weights, in both the centred and non-centred form. Both forms
 define the same distribution, with the requested dimensions.""",
 ["inputs", "configurations"], "all argument combinations, batch dims and parameter values",
 "Tests check names, shapes and a few structural facts for fixed arguments.",
 ["pymc_extras/distributions/multivariate/r2d2m2cp.py"], [("prior construction", "pymc_extras/distributions/multivariate/r2d2m2cp.py")], ["values of the created variables and the joint logp"])
p("C19", "Histogram compression keeps the data's mass and approximates the likelihood",
 """For every data set, the compressed representation accounts for every observation exactly once (per trailing
 dimension) in the bin that contains it, the bins cover the data and hold their representative, and the approximated
 log-likelihood is the sum over observations of the log-density at their representative, which for discrete data is the
 exact one. Discrete data are never mapped to values that do not occur, and separated zeros
 stay exact.""",
 ["inputs"], "all data arrays (continuous, discrete, zero inflated, batched, lazy), quantile and size settings",
 "Tests check shapes and count totals for a few random arrays.",
 ["pymc_extras/distributions/histogram_utils.py"], [("quantile histogram", "pymc_extras/distributions/histogram_utils.py")], ["centres and counts; potential logp"])
p("C20", "Marginalised models have the exact marginal density, or are refused",
 """Marginalising any set of finite discrete variables from any model either yields a model whose log-density at every
 point equals the log of the sum, over all joint values of those variables, of the original density, or is refused with an
 error. It never silently yields a different density, whatever broadcasting, indexing, stacking or reductions connect the
 discrete variable with its dependents.""",
 ["programs", "inputs"], "all models combining finite discrete variables (scalar or batched) with dependents through elementwise, indexing, reshaping, stacking and reducing operations, and all values",
 "Tests enumerate a fixed list of models; the class of accepted graphs is open ended.",
 ["pymc_extras/model/marginal/marginal_model.py", "pymc_extras/model/marginal/distributions.py", "pymc_extras/model/marginal/graph_analysis.py"],
 [("dimension analysis of the dependent graph", "pymc_extras/model/marginal/graph_analysis.py"), ("enumeration logp", "pymc_extras/model/marginal/distributions.py")], ["compiled log-density of the marginalised model"])
p("C21", "Hidden Markov marginalisation equals summing over all state paths",
 """Marginalising a discrete Markov chain with any emission models that depend on it elementwise gives a log-density equal
 to summing the joint density over every state path, for every transition matrix, initial distribution, length, batch of
 chains and number of emissions.""",
 ["inputs", "configurations"], "all chains (states, lengths, batches), emission families and counts, values",
 "Tests compare a few fixed chains.",
 ["pymc_extras/model/marginal/distributions.py"], [("forward algorithm", "pymc_extras/model/marginal/distributions.py")], ["compiled log-density"])
p("C22", "Recovered discrete variables follow their exact posterior",
 """Recovering marginalised variables from posterior draws returns, for every draw and every variable asked for, the exact
 conditional log-probabilities given that draw's values and the data, and samples distributed accordingly with the
 variable's own shape, dims and support. Asking for a variable that was not marginalised is refused, and repeated recovery gives the same
 answer.""",
 ["inputs", "histories"], "all marginalised models, posterior draws, variable subsets and repeated calls",
 "Tests recover from two or three fixed models.",
 ["pymc_extras/model/marginal/marginal_model.py"], [("conditional enumeration", "pymc_extras/model/marginal/marginal_model.py")], ["recovered dataset"])
p("C23", "Marginalising and un-marginalising leave other models untouched and invert",
 """Marginalising, cloning, un-marginalising and recovering never change the model they were given (its variables, dims,
 coordinates and log-density), and un-marginalising every variable restores a model with the original log-density,
 variables and dims. This holds for every sequence of such operations.""",
 ["histories"], "all sequences of marginalise, unmarginalise, clone and recover over models with dims and several discrete variables",
 "Tests check one marginalise/unmarginalise pair.",
 ["pymc_extras/model/marginal/marginal_model.py"], [("functional graph rewriting", "pymc_extras/model/marginal/marginal_model.py")], ["names, dims, coords and logp of every live model"])
p("C24", "Automatic reparameterisation preserves the prior and the model",
 """For every hierarchical model and every degree of non-centring, the reparameterised model is the same distribution:
 the log-density of the auxiliary variables is the original one changed by the affine map's Jacobian, the deterministic value is the
 inverse map, and full centring or non-centring are the two limiting cases. Variables not selected are unchanged.""",
 ["inputs", "programs"], "all location/scale models of supported families, shapes, dims, parameter values and degrees",
 "Tests compile two models and check that sampling works and names exist.",
 ["pymc_extras/model/transforms/autoreparam.py"], [("VIP graph rewrite", "pymc_extras/model/transforms/autoreparam.py")], ["compiled log-density of both models"])
p("C25", "Decorated model functions build the same model every time",
 """Calling a function decorated to return a model builds, on every call and for all arguments, a fresh model equal to the
 one obtained by running the body inside a model context with the decorator's name and coordinates (and call-time
 coordinates), independent of earlier calls.""",
 ["histories", "inputs"], "all decorator and call arguments, and all sequences of calls",
 "Tests call each decorated function once.",
 ["pymc_extras/model/model_api.py"], [("decorator closure", "pymc_extras/model/model_api.py")], ["names, coords, dims and logp of the returned models"])
p("C26", "The model table lists every variable once with true facts",
 """For every model, the printed table has exactly one row per variable kept by the options, in the group it belongs to,
 naming its distribution or expression, its dims with their lengths and shape, and the total number of free parameters it
 reports is the true one. Printing never alters the model.""",
 ["programs", "configurations"], "all models of random, observed, deterministic, potential and data variables and all options",
 "Tests print two fixed models.",
 ["pymc_extras/printing.py"], [("row building", "pymc_extras/printing.py")], ["rendered text"])
p("C27", "Model builders survive saving and loading and keep data aligned",
 """A fitted model builder saved and loaded again is equivalent: same configurations, same identity, same training data,
 same posterior, same predictions for the same input, while loading something fitted with a different configuration or class is
 refused. Training and prediction data are paired row by row whatever their index, and neither fitting nor predicting
 alters the caller's objects.""",
 ["histories", "inputs"], "all training sets and indices, configurations and sequences of fit, predict, save and load",
 "Tests use one toy model, one default-index data set and one sequence.",
 ["pymc_extras/model_builder.py", "pymc_extras/linearmodel.py"], [("save/load and identity", "pymc_extras/model_builder.py"), ("data registration", "pymc_extras/model_builder.py"), ("linear model", "pymc_extras/linearmodel.py")], ["files, inference data and predictions"])
p("C28", "Priors built from a posterior have its moments",
 """For every posterior and every choice of variables, new names, dims and transforms, the Gaussian prior constructed from
 draws has the mean and covariance of the (transformed) draws, variables are un-transformed and reshaped to their own
 names, dims and positions, and order of variables does not change any variable's marginal.""",
 ["inputs", "configurations"], "all posteriors, shapes, transforms and configurations",
 "Tests check one posterior and the flattening helper.",
 ["pymc_extras/utils/prior.py"], [("flatten and MVN prior", "pymc_extras/utils/prior.py")], ["variables created in the model and their moments"])
p("C29", "Spline bases are the B-spline partition of unity",
 """For every number of knots' outputs, degree and evaluation points in the domain, the interpolation matrix is the clamped
 B-spline basis: nonnegative rows summing to one with local support, reproducing the end values, identical in dense and
 sparse form, and interpolation is linear in the values and exact for constants.""",
 ["inputs"], "all sizes, degrees, evaluation points and values",
 "Tests compare one size with scipy.",
 ["pymc_extras/utils/spline.py"], [("basis op", "pymc_extras/utils/spline.py")], ["matrices and interpolated values"])
p("C30", "The conjugate gradient solver solves the system it is given",
 """For every symmetric positive definite system with one or many right-hand sides, with or without initial guess or
 preconditioner, the iterative solver returns the solution within its tolerance once enough iterations are allowed, and
 never a solution of a different system.""",
 ["inputs", "configurations"], "all SPD matrices, right-hand sides, guesses, preconditioners and iteration limits",
 "Tests solve one random system.",
 ["pymc_extras/utils/linear_cg.py"], [("conjugate gradient loop", "pymc_extras/utils/linear_cg.py")], ["returned solution"])
p("C31", "Gaussian process approximations equal their dense formulas",
 """For every kernel, mean, inputs and inducing inputs, the projected and Karhunen-Loeve approximations define the priors
 and predictions of their dense definitions, are exact when the approximation is complete (inducing inputs equal to
 inputs, all eigenvectors kept), and predictions at training inputs agree with the prior at those inputs.""",
 ["inputs", "configurations"], "all kernels, means, inputs, inducing points and truncation levels",
 "No test exercises these classes.",
 ["pymc_extras/gp/latent_approx.py"], [("projections", "pymc_extras/gp/latent_approx.py")], ["values of the latent function as a function of the white noise"])
p("C32", "Found modes are stationary points of the model's density, reported faithfully",
 """Maximum a posteriori search returns a point at which the model's log-density (the density of the variables in their natural space, without Jacobian terms) is stationary and at least as high as at
 the start, reports every variable under its own name in both natural and unconstrained space consistently, and honours
 starting values, jittered variables and derivative options without changing the answer for unimodal models.""",
 ["inputs", "configurations"], "all smooth unimodal models, optimisers, derivative backends and starting points",
 "Tests optimise the Rosenbrock function and one normal model.",
 ["pymc_extras/inference/find_map.py"], [("objective compilation", "pymc_extras/inference/find_map.py"), ("unpacking", "pymc_extras/inference/find_map.py")], ["returned point and logp"])
p("C33", "The Laplace approximation is exact for Gaussians and labelled correctly",
 """For every model whose posterior is Gaussian, the approximation's mean and covariance equal the exact ones,
and draws have that law; for any smooth model the approximation is centred at the mode of the density in natural space and its
covariance is the inverse negative Hessian there, in natural or unconstrained space as asked. Draws are mapped back
 through each variable's transform and stored with the right name, shape, dims and coordinates.""",
 ["inputs", "configurations"], "all Gaussian linear models and transformed variables, shapes, dims and options",
 "Tests check two fixed models.",
 ["pymc_extras/inference/laplace.py"], [("covariance at the mode", "pymc_extras/inference/laplace.py"), ("draw unpacking", "pymc_extras/inference/laplace.py")], ["inference data"])
p("C34", "Pathfinder draws come back as the model's own variables",
 """For every model, the draws returned by the Pathfinder approximation hold, for every variable and draw, the value obtained by mapping
 the approximation's unconstrained draw through the variable's own transform, with the right name, shape, dims and
 coordinates, reproducibly for a seed. The draws are those of the Pathfinder algorithm applied to the
model's own density: nothing is scaled, dropped, permuted or started elsewhere than asked.""",
 ["inputs", "configurations"], "all models (shapes, transforms, dims), sample counts and seeds",
 "Tests run one model with loose tolerances.",
 ["pymc_extras/inference/pathfinder.py", "pymc_extras/inference/fit.py"], [("logp compilation and flattening", "pymc_extras/inference/pathfinder.py"), ("conversion to inference data", "pymc_extras/inference/pathfinder.py")],
 ["returned inference data"])
p("C35", "Sequential Monte Carlo targets the model and returns its particles unscrambled",
 """For every model, the functions handed to the sequential sampler evaluate the model's own prior and likelihood at a
 particle, starting particles are prior draws, and the returned inference data contain every particle's value for every
 variable, un-transformed, with the right name, shape and coordinates; on a solvable model the posterior moments and
 evidence are recovered.""",
 ["inputs", "configurations"], "all models (shapes, transforms, dims), particle counts and kernels",
 "Tests run two fixed models.",
 ["pymc_extras/inference/smc/sampling.py"], [("particle initialisation", "pymc_extras/inference/smc/sampling.py"), ("conversion to inference data", "pymc_extras/inference/smc/sampling.py")], ["log-densities at particles; inference data"])
p("C36", "Frame scaling is invertible and aligned",
 """Standardising any numeric data frame gives columns with zero mean and unit variance on the fitted data, keeps index and
 column labels and their pairing, and inverse scaling restores the original values; an unseen frame is scaled by the fitted
 statistics whatever its row order.""",
 ["inputs"], "all numeric frames, indices, and column layouts", "Tests check one transformation.",
 ["pymc_extras/preprocessing/standard_scaler.py"], [("frame wrapping", "pymc_extras/preprocessing/standard_scaler.py")], ["returned frames"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
