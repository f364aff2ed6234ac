"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
DP="src/spey/backends/default_pdf/__init__.py"; SP="src/spey/backends/default_pdf/simple_pdf.py"; DI="src/spey/backends/distributions.py"
US="src/spey/backends/default_pdf/uncertainty_synthesizer.py"; TM="src/spey/backends/default_pdf/third_moment.py"
SM="src/spey/interface/statistical_model.py"; HB="src/spey/base/hypotest_base.py"; MC="src/spey/base/model_config.py"; BB="src/spey/base/backend_base.py"
TS="src/spey/hypothesis_testing/test_statistics.py"; AC="src/spey/hypothesis_testing/asymptotic_calculator.py"; HD="src/spey/hypothesis_testing/distributions.py"
TC="src/spey/hypothesis_testing/toy_calculator.py"; HU="src/spey/hypothesis_testing/utils.py"; UL="src/spey/hypothesis_testing/upper_limits.py"
CO="src/spey/combiner/uncorrelated_statistics_combiner.py"; OC="src/spey/optimizer/core.py"; OS="src/spey/optimizer/scipy_tools.py"; OM="src/spey/optimizer/minuit_tools.py"
CA="src/spey/system/cache.py"; LO="src/spey/system/logger.py"; WU="src/spey/system/webutils.py"; IN="src/spey/__init__.py"; HF="src/spey/helper_functions.py"; MA="src/spey/math.py"; CT="src/spey/multiparameter/contour.py"; MP="src/spey/multiparameter/multiparam.py"

prop("P01","Log-likelihood of every built-in model equals its published formula",
 "For every built-in statistical model and every admissible signal, background, uncertainty, data and parameter point, the log-likelihood (and the objective handed to the optimiser, its negative) equals the documented expression: the product of Poisson or Gaussian terms over the bins at the documented mean, times the documented constraint terms. This includes signals, widths and covariances given as functions of the parameters, non-integer data, data supplied by the caller, and the expected (pre-fit) data set, for which the background yields stand in for the observation.",
 ["inputs","configurations"],"all models x yields x uncertainties/covariances x data sets x parameter points",
 "Unit tests compare a handful of fixed numbers per model; a wrong term that vanishes for one bin, zero nuisance values, integer data or diagonal covariance is invisible to them.",
 [DP,SP,DI],[("Poisson mean and constraint terms of each model","DefaultPDFBase / SimplePDFBase and subclasses"),("log densities","backends/distributions.py")],["backend log-density and objective functions"])
prop("P02","Signal-yield uncertainties follow log-normal morphing with unit constraints",
 "Declaring signal-yield uncertainties multiplies each bin's signal by the product over sources of (1 + relative variation) raised to the source's nuisance value, using the upward variation for positive and the downward variation for negative values, one shared nuisance per normalisation source and one per bin for a shape source, each with a unit-normal constraint. The new nuisances are appended after all existing parameters, with documented names, start values and open bounds, bins without signal are unaffected, and with all new nuisances at zero the likelihood differs from the plain model only by the constant of the constraints. Ill-formed declarations (unknown type, wrong number of bins, combined with a functional signal) are rejected.",
 ["inputs","configurations"],"all lists of sources (type, symmetric/asymmetric, named or not) x models x parameter points",
 "Tests use one or two sources with fixed numbers; layout mistakes only show for mixed lists, functional signals or several bins.",
 [US,DP],[("morphing factor and constraints","signal_uncertainty_synthesizer"),("parameter layout","DefaultPDFBase.__init__")],["log-likelihood","model configuration"])
prop("P03","Gradients and Hessians are those of the model's own log-likelihood",
 "The gradient returned together with the objective and the Hessian of the log-likelihood are the exact first and second derivatives of the documented log-likelihood with respect to every parameter, for observed, pre-fit and caller-supplied data. The public derivative helpers return the same quantities for the negative log-likelihood.",
 ["inputs","configurations"],"all models x parameter points x data sets",
 "Fixed numeric examples cannot distinguish a gradient that ignores one parameter or one data option.",
 [DP,SP,MA,DI],[("automatic differentiation of the objective","get_objective_function / get_hessian_logpdf_func"),("public helpers","math.py")],["value_and_grad and hessian outputs"])
prop("P04","Expected data and pseudo-data follow the model at the given parameters",
 "The expected data of a model at a parameter point are its documented means, followed by the means of the constraint terms when auxiliary data are requested. Sampling any number of pseudo-experiments, including one, yields one row per experiment and one column per bin (plus one per constrained nuisance when auxiliary data are requested), distributed with the model's means, variances and correlations, and reproducible for a fixed random seed; sampling at a fixed parameter of interest uses the profiled nuisance parameters.",
 ["inputs","configurations"],"all models x parameter points x sample sizes",
 "Tests look at shapes or a few means of one model; single-bin models, single samples, correlations and auxiliary columns are not sampled.",
 [DP,SP,DI,SM],[("samplers","distributions.py sample / get_sampler"),("expected data","expected_data")],["samples","expected data"])
prop("P05","Statistical results do not depend on the description of the same physics",
 "Permuting the bins of a model, or multiplying the signal by a positive constant while dividing the signal strength by it, leaves likelihoods, exclusion confidence levels and (rescaled) upper limits unchanged within optimiser accuracy; models that are documented to coincide (diagonal covariance and independent bins, zero third moment and the correlated model, symmetric envelopes and the correlated model) give identical likelihoods. A bin with no signal and no uncertainty constraint only shifts the likelihood by a constant.",
 ["inputs","configurations"],"all models x permutations x scale factors x equivalent descriptions",
 "Requires relating several runs on related inputs; unit tests look at one input at a time.",
 [DP,SP,TM,HB],[("vectorised bin-wise likelihoods","default_pdf"),("limit setting","hypotest_base.py")],["likelihood, CLs and upper limits"])
prop("P06","Profiled likelihood is the optimum over nuisances at the pinned parameters",
 "The likelihood at a fixed parameter of interest returns parameters with the requested parameter(s) exactly at the requested value(s), a value equal to the model's likelihood at those returned parameters, and no other nuisance values in the allowed region give a better likelihood. The value can be requested as likelihood or negative log-likelihood, and addressing the pinned parameter as a number, by index or by name gives the same answer.",
 ["inputs","configurations"],"all models x pinned values x data sets x expectation types x addressing forms",
 "Tests check a few numbers; optimality is a statement about all nuisance values.",
 [SM,OC,OS,MC],[("constrained fit","optimizer/core.fit"),("parameter resolution","ModelConfig.resolve_poi_indices")],["likelihood(), returned parameters"])
prop("P07","Maximum likelihood is the global optimum inside the allowed region",
 "Maximising the likelihood returns a signal strength inside the allowed bounds (non-negative when negative signals are disallowed) and, for likelihoods with a single optimum, a value that no fixed-parameter likelihood and no other point of the allowed region exceeds; the likelihood profiled at the returned best fit reproduces the returned maximum, and where several optima exist the result is at least a consistent point of the likelihood that is no worse than the starting point. When several parameters are requested by index or name, their best-fit values are returned under the requested keys.",
 ["inputs","configurations"],"all models x data sets x expectation types x bound choices x requested parameters",
 "Optimality quantifies over all parameter points.",
 [SM,OC,OS,HB],[("global fit","StatisticalModel.maximize_likelihood")],["maximize_likelihood()"])
prop("P08","Expectation type and supplied data select exactly the intended data set",
 "Observed and post-fit expected queries use the observation; pre-fit expected queries behave as if the background prediction had been observed; data supplied by the caller take precedence over either. A model rebuilt with that data set as its observation gives the same likelihood, maximum and derivatives.",
 ["inputs","configurations"],"all models x expectation types x supplied data x entry points",
 "Tests exercise each option for one model; the equivalence must hold for every entry point.",
 [DP,SP,SM,HB,MA],[("data selection","get_objective_function / get_logpdf_func / get_hessian_logpdf_func")],["likelihood(), maximize_likelihood(), math helpers"])
prop("P09","Asimov data are the profiled background-only (or signal) expectation",
 "The Asimov data set equals the model's expected data at the parameters that maximise the likelihood with the signal strength fixed to zero, or to one for the discovery statistic, given the chosen expectation type. Likelihoods on Asimov data equal the likelihood with that data set supplied explicitly, and for the non-discovery statistics of models without constrained nuisances (or with nuisances at their central values) the signal strength maximising it is zero.",
 ["inputs","configurations"],"all models x expectation types x test statistics x signal strengths",
 "Fixed examples cannot relate three entry points on arbitrary models.",
 [SM,HB,DP],[("Asimov generation","StatisticalModel.generate_asimov_data")],["asimov_likelihood(), maximize_asimov_likelihood(), generate_asimov_data()"])
prop("P10","Results are pure: independent of call history and of returned objects",
 "Any sequence of queries on a model or a combination returns, for each query, the same result a fresh model would return for that query alone, regardless of which other queries (with other options, data, bounds, starting points or expectation types) came before. Queries never modify caller-supplied arguments or the model's configuration, and modifying a returned result never changes later answers (the configuration object, which is handed out live by design, excepted).",
 ["histories"],"all sequences of queries with their options on one or several live models",
 "Unit tests make one call per fresh model; memoisation and shared mutable state only fail over histories.",
 [SM,CA,OC,HB,CO],[("per-instance memoisation","cache_results"),("argument handling","optimizer/core.fit, prepare_for_fit")],["every public query"])
prop("P11","Test statistics equal their likelihood-ratio definitions",
 "Each test statistic (two-sided, alternative for bounded signals, discovery, and left-tailed) equals twice the likelihood difference between the tested point and the best fit, clipped at zero, and is zero in exactly the region its definition prescribes; the tested and maximised likelihoods are taken at the tested value and best fit supplied. The Asimov versions use Asimov likelihoods, the combination of square roots follows the asymptotic formulae in both regimes, unknown names are rejected, and negative best fits are permitted only for the unbounded statistic.",
 ["inputs","configurations"],"all likelihood functions x tested values x best fits x statistics",
 "Tests use constant lambdas; regime boundaries depend on arbitrary relations of the inputs.",
 [TS,HB],[("statistic definitions","hypothesis_testing/test_statistics.py")],["test statistics"])
prop("P12","Asymptotic p-values follow the asymptotic distributions and are ordered",
 "For every pair of observed and Asimov statistics the signal-plus-background, background-only and ratio p-values equal the normal tail probabilities of the asymptotic formulae, lie between zero and one, and the expected values at minus two to plus two standard deviations are those of shifted background pseudo-values, monotonically ordered. The ratio is never smaller than the signal-plus-background value, and for the discovery statistic the signal-plus-background value is returned.",
 ["inputs"],"all non-negative statistic pairs x statistics",
 "Tests compare a few numbers; monotonicity and extreme tails need the whole domain.",
 [AC,HD],[("asymptotic distributions","hypothesis_testing/distributions.py, asymptotic_calculator.py")],["p-values"])
prop("P13","Toy p-values are the empirical tail fractions of the sampled statistic",
 "With pseudo-experiments, each p-value is the fraction of sampled test statistics at least as large as the observed one for the respective hypothesis, the ratio and the expected quantiles follow from those fractions, and all are within [0, 1]. A toy-based exclusion uses the requested number of pseudo-experiments sampled from the background-only and from the tested signal hypothesis with profiled nuisances, and agrees with the asymptotic result within statistical accuracy where the latter is valid.",
 ["inputs","configurations"],"all sample sets x observed values; models x tested values x seeds",
 "Tests mock the sampler; the counting identity must hold for every sample set, including ties.",
 [TC,HD,HB],[("empirical distribution","EmpricTestStatisticDistribution"),("toy loop","HypothesisTestingBase")],["p-values, exclusion confidence level"])
prop("P14","Exclusion confidence level is one minus the p-value chain, end to end",
 "For every model, tested signal strength, expectation type and calculator, the exclusion confidence level equals one minus the ratio of p-values obtained from independently computed profiled, maximised and Asimov likelihoods, lies in [0, 1], and has one value for observed and five ordered values for expected queries; asking for everything at once returns the same numbers. It is non-decreasing in the tested strength above the best fit and zero where the signal has no effect.",
 ["inputs","configurations"],"all models x tested values x expectation types x calculators x statistics",
 "End-to-end identity over arbitrary models; tests pin a few numbers.",
 [HB,TS,AC,HD,HU],[("calculation chain","HypothesisTestingBase.exclusion_confidence_level")],["exclusion_confidence_level()"])
prop("P15","Discovery significance equals its likelihood-ratio definition",
 "The discovery significance equals the square root of twice the likelihood ratio between the background-only and best-fit hypotheses, zero when the best fit is negative, and its p-value is the corresponding normal tail; the Asimov significance uses the signal-injected data set. For a single-bin counting model without uncertainties it equals the textbook closed form.",
 ["inputs","configurations"],"all models x data x expectation types",
 "Tests pin a few numbers; the closed form holds for all yields.",
 [HB,TS],[("significance chain","HypothesisTestingBase.significance")],["significance()"])
prop("P16","Upper limits invert the exclusion confidence level",
 "The upper limit on the signal strength is the value at which the exclusion confidence level equals the requested confidence level, for observed and both expected types; expected bands are returned in ascending order around the median limit. It increases with the requested confidence level, scales inversely with the signal normalisation, is infinite when the model has no signal, and the excluded cross section is the 95% limit times the cross section.",
 ["inputs","configurations"],"all models x confidence levels x expectation types x band options",
 "Inversion and scaling relate several calls on arbitrary models.",
 [UL,HB,SM],[("bracketing and root finding","hypothesis_testing/upper_limits.py")],["poi_upper_limit(), excluded_cross_section()"])
prop("P17","Chi-square, pull and intervals agree with the profile likelihood",
 "The chi-square between a tested point and a reference (the best fit by default, or another point) equals twice the difference of negative log-likelihoods for scalars, scans and named points alike; the pull is its square root with the sign of the best fit minus the tested value. Confidence limits from the chi-square test are exactly the points where the profile likelihood rises by the requested quantile, on the requested side(s) of the best fit, for the parameter of interest and for nuisance parameters, wherever such a crossing exists in the physical region; a sufficiently fine scan returns the crossings of disjoint regions as well.",
 ["inputs","configurations"],"all models x tested points x references x limit types x confidence levels",
 "Tests pin numbers for one model.",
 [HB,UL],[("chi-square and interval search","HypothesisTestingBase.chi2 / chi2_test")],["chi2(), pull(), chi2_test()"])
prop("P18","Uncertainty on the signal strength equals its curvature/Asimov definition",
 "The uncertainty on the signal strength computed from the curvature equals the square root of the matching element of the inverse Hessian of the negative log-likelihood at the profiled point. The Asimov-based estimate equals the distance between tested and assumed strengths divided by the square root of the Asimov statistic (one when that statistic vanishes).",
 ["inputs","configurations"],"all models x tested values x expectation types",
 "Tests pin one number.",
 [SM,HB],[("curvature","sigma_mu_from_hessian"),("Asimov estimate","sigma_mu")],["sigma_mu(), sigma_mu_from_hessian()"])
prop("P19","Root finding for limits returns true crossings and stays bracketed",
 "Given any monotone exclusion curve that crosses the requested level, the limit search returns the crossing within its tolerance; its bracket search returns two points on opposite sides of the level; when there is no crossing below the search ceiling the limit is reported as infinite rather than as a wrong number.",
 ["inputs"],"all monotone curves x crossing positions over many orders of magnitude x starting scales",
 "Tests use a couple of analytic curves near unit scale.",
 [UL],[("bracketing","find_root_limits"),("interval search","upper_limits helpers")],["find_root_limits(), find_poi_upper_limit()"])
prop("P20","A combination behaves as the set of its analyses",
 "A combination holds each analysis at most once, in insertion order, and adding, removing, indexing by name or position, iterating, counting and merging behave as on an ordered mapping from analysis names to models; invalid additions and unknown names are rejected and leave the combination unchanged. Combining two stacks yields the union without modifying either operand.",
 ["histories"],"all sequences of stack operations",
 "Tests exercise each operation once.",
 [CO],[("stack bookkeeping","UnCorrStatisticsCombiner")],["combiner container interface"])
prop("P21","Combined likelihoods are the product over analyses and inference follows",
 "The combined negative log-likelihood at a signal strength is the sum of the members' profiled ones, for each expectation type, per-analysis data and per-model options; the combined maximum is the maximum of that sum over the allowed signal strengths. A combination of single-bin models gives the same likelihoods, maxima, exclusion confidence levels and upper limits as one multi-bin model with independent bins, in any order.",
 ["inputs","configurations"],"all sets of models x signal strengths x expectation types x orders x per-model options",
 "Tests compare a few fixed combinations.",
 [CO,HB],[("summed likelihood","UnCorrStatisticsCombiner.likelihood"),("one-dimensional maximisation","maximize_likelihood")],["combiner likelihoods, maxima, limits"])
prop("P22","Model configuration is internally consistent",
 "A model's configuration always lists as many start values as bounds and names, start values lie inside their bounds, the smallest allowed signal strength is the largest negative value that keeps every bin's expectation non-negative, and requested bound changes affect only the signal-strength entry in the requested way. Deriving bounds for a tested value returns fresh bounds that contain that value (for the signal strength: every value the model allows) and leave the configuration unchanged; renaming parameters keeps names unique and is all-or-nothing for unknown names.",
 ["inputs","configurations"],"all models x options x tested values x renamings",
 "Tests check one configuration.",
 [MC,DP,SP],[("configuration object","base/model_config.py")],["config()"])
prop("P23","Parameters can be addressed by index or name interchangeably",
 "Wherever a tested point is accepted, addressing the parameter(s) as a number, by index, by name, or by a mixture gives identical results, with the others profiled; pinning all parameters gives the plain likelihood. Unknown names, unnamed models, out-of-range and repeated indices are rejected with an error and never silently resolved to another parameter.",
 ["inputs","configurations"],"all models with extra parameters x subsets of pinned parameters x addressing forms x entry points",
 "Tests use one two-parameter model.",
 [MC,SM,HB],[("name resolution","ModelConfig.resolve_poi_indices")],["likelihood(), chi2(), exclusion_confidence_level(), fixed_poi_sampler()"])
prop("P24","Back-ends with only the mandatory methods get the full inference",
 "A user-supplied model that only provides its configuration and log-density (no gradient, Hessian, sampler or expected data) gives the same likelihoods and maxima as a built-in model with the same density, and calculators whose ingredients are missing are reported unavailable and refused with a clear error instead of computing something else. Optional overrides that a model does provide are used in preference to the generic implementation with the caller's arguments passed through unchanged, and their (value, parameters) results are presented in the form the caller asked for.",
 ["inputs","configurations"],"all models x subsets of implemented methods x entry points",
 "Tests mock single methods.",
 [BB,SM,HB],[("fallback chain","StatisticalModel"),("abstract interface","BackendBase")],["every public query"])
prop("P25","Plug-in registry only serves valid, matching, registered models",
 "Every listed model can be retrieved and builds a working model, its metadata match the class, a locally registered model becomes retrievable, listed and described exactly like an installed one, and duplicates, abstract or incomplete models, version mismatches and unknown names are rejected with the documented error while leaving the registry unchanged.",
 ["histories","configurations"],"all sequences of registrations and look-ups with valid and invalid models",
 "Tests stub the registry.",
 [IN,SM],[("registry","register_backend / get_backend / get_backend_metadata")],["AvailableBackends(), get_backend(), get_backend_metadata()"])
prop("P26","Memoisation never returns a result for different arguments",
 "A memoised function returns for every call the value the plain function would return for those arguments; calls with equal arguments within the retained set do not recompute, calls differing in any argument do, instances and functions do not share entries, the oldest entry is evicted first, failures are not stored, and the reported size never exceeds the capacity. Under concurrent calls with equal arguments the function runs once, every caller gets its result (after a failure the others compute it themselves), and nobody blocks forever; with copying enabled, mutating a returned value never changes later results.",
 ["histories","schedules","inputs"],"all call sequences, argument values/types, capacities, and interleavings of concurrent callers",
 "Tests sample a few keys and one thread race.",
 [CA],[("key construction, LRU and in-flight tracking","cache_results")],["decorated functions"])
prop("P27","Log capture de-duplicates and always restores the logger",
 "While capturing, each distinct message at or above the level is written exactly once, in first-seen order, nothing is written by the previous handlers, and on exit, normal or exceptional and however nested, the logger's handlers, level and propagation are exactly as before; temporarily disabling logging likewise restores the previous state. Initialising the logger again leaves exactly one handler, and formatting a record does not alter it.",
 ["histories"],"all nestings of capture/disable blocks, messages, levels and exceptions",
 "Tests use a single block.",
 [LO,IN],[("capture_logs / disable_logging","system/logger.py")],["stream contents, logger state"])
prop("P28","Web look-ups never break the library and hit the network at most once a day",
 "Checking for updates never raises whatever the network or the on-disk cache contains, uses a cache entry younger than 24 hours instead of the network, refreshes older or unreadable entries and keeps only the newest, and warns exactly when the published version or Python requirement calls for it. Bibliography look-ups return the text on success, an empty string on any error status, raise the documented error only for connectivity problems, and collecting a model's citations survives any mixture of these.",
 ["fault_sequences","inputs"],"all sequences of network outcomes, response bodies, cache-file contents and ages",
 "Tests simulate a few outcomes.",
 [WU,IN],[("update check and cache","system/webutils.py"),("citations","get_backend_bibtex")],["check_updates(), get_bibtex(), get_backend_bibtex()"])
prop("P29","The optimiser respects pins, bounds and constraints and reports truthfully",
 "A fit returns parameters with every pinned parameter at its value (within solver tolerance) and every other inside its bounds, a value equal to the log-density at the returned parameters, and a minimum matching the closed form for convex objectives, for both optimisation engines, with or without gradients, and for any pinned subset. Unknown options are ignored, the engine choice is honoured or falls back with a warning, and caller-supplied start values, bounds and constraints are left unchanged.",
 ["inputs","configurations"],"all convex objectives x bounds x pinned subsets x engines x options",
 "Tests use one or two fixed parabolas.",
 [OC,OS,OM],[("fit","optimizer/core.py"),("engines","scipy_tools.py, minuit_tools.py")],["fit()"])
prop("P30","Matrix and bin-merging helpers are exact linear-algebra identities",
 "Converting a covariance to a correlation matrix and back with its standard deviations is the identity and vice versa, correlations have unit diagonal, and merging groups of bins preserves totals of data, background, signal and covariance and equals the aggregation of the original arrays for every non-overlapping grouping, keeping untouched bins as they are. Negative positions count from the end; mismatching inputs and overlapping groups are rejected.",
 ["inputs"],"all covariance matrices x yields x groupings",
 "Tests use one example; the overlap guard is not exercised.",
 [HF],[("helpers","helper_functions.py")],["helper return values"])
prop("P31","Third-moment expansion reproduces the requested moments",
 "Whenever the documented validity condition holds, the expansion coefficients give a variable whose mean, variance and third central moment per bin, and (wherever the documented equation for the correlation has a solution) inter-bin covariance, equal the inputs; bins violating it or with zero third moment revert to the Gaussian coefficients. Third moments computed from asymmetric uncertainties equal the documented bifurcated-Gaussian integral, vanish for symmetric ones and change sign when the sides are exchanged.",
 ["inputs"],"all means, covariances, third moments and asymmetric uncertainties",
 "Tests pin the published example.",
 [TM],[("coefficients","third_moment_expansion / compute_third_moments")],["A, B, C, correlation; third moments"])
prop("P32","Contour points lie on the requested likelihood level and enclose the best fit",
 "Every returned contour point has profiled negative log-likelihood equal to the minimum plus half the chi-square quantile of the requested confidence level and number of parameters, inside the search bounds, and the reported best fit, minimum, threshold and names are consistent with the model. For a Gaussian likelihood the contour is the analytic ellipse covered in all directions, larger levels enclose smaller ones, and a fixed seed reproduces the result.",
 ["inputs","configurations"],"all models with one or more signal parameters x confidence levels x bounds x seeds",
 "There is no contour test in the suite.",
 [CT,MP],[("contour search","multiparameter/contour.py")],["find_contour() result"])
prop("P33","Elementary densities match their textbook definitions",
 "The Poisson, normal and multivariate-normal building blocks give log-densities, expected values and samples matching the textbook distributions for every admissible location, scale or covariance (constant or functional), integer or continuous data and parameter sub-range; composite main and constraint models are the sums of their parts, also when evaluated concurrently.",
 ["inputs","configurations"],"all distribution parameters x data x sub-ranges",
 "Tests use one value per distribution.",
 [DI],[("densities","backends/distributions.py")],["log_prob, sample, expected_data"])
prop("P34","The model wrapper exposes its model faithfully",
 "A wrapped model reports its analysis name, cross section, number of toys, back-end name and exactly the calculators its back-end supports; the excluded cross section requires a cross section; combining two models uses the back-end's own combination rule or fails with the documented error; using the wrapper with positional or keyword arguments builds the same model.",
 ["inputs","configurations"],"all wrapper arguments x back-end capabilities",
 "Tests check a single model.",
 [SM],[("wrapper","StatisticalModel / statistical_model_wrapper")],["wrapper attributes and methods"])
prop("P35","Options given to an inference call reach every fit it makes",
 "Start values, bounds, constraints and optimiser options passed to any inference method (chi2, pull, exclusion levels of every calculator, significance, upper limit, uncertainty, Asimov fits, sampling, combinations) apply to every likelihood evaluation made for the answer, observed and Asimov alike: freezing nuisances this way gives the answer of the model without them. In chi2, mle_kwargs reach the denominator and likelihood_kwargs every point of the numerator. The tested region (negative signals) and the expectation are the same in every evaluation, and the caller's option objects are unchanged.",
 ["inputs","configurations"],"all inference methods x options x argument forms x back-end capabilities",
 "Tests call the methods with default options; a dropped option leaves a plausible number.",
 [HB,SM,CO],[("option routing","HypothesisTestingBase methods / prepare_for_fit / combiner likelihoods")],["results of inference calls with options; calls received by a user back-end"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
