"""Source of properties.jsonl and of the checks list in MANIFEST.json"""

F = "padasip/filters/"
B = F + "base_filter.py"
D = "padasip/detection/"
P = "padasip/preprocess/"
NOT_APPLICABLE = []

TRUST = ("Sampled executions, not a proof: silent on workloads the generator does not reach (see DESIGN.md). "
         "Trusts NumPy, CPython and the reference in /verif/rv; ")


def P_(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
        technique=technique, level_note=TRUST + note)


ALLF = [B] + [F + k + ".py" for k in (
    "ap gmcc gngd llncosh lmf lms nlmf nlms nsslms ocnlms rls sslms vslms_ang vslms_benveniste "
    "vslms_mathews").split()]

PROPS = [
    P_("C01", "Batch filtering returns coherent output, error and weight history",
       "For every filter, data set and earlier history, run(d, x) returns y, e and w with one entry per sample, where "
       "w[k] are the weights in effect before sample k was learned, y[k] is the filter output w[k]*x[k] (of centered "
       "data for OCNLMS) and e[k] = d[k] - y[k]. "
       "The first row of w are the weights the filter had before the call, and the filter afterwards holds the "
       "weights that follow the last sample. "
       "Rows of w are snapshots, no later learning changes them.",
       ["inputs", "histories", "configurations"],
       "all 15 filters, all parameters, data and lengths (1 sample and more), any earlier use of the same instance",
       "tests run each filter once on one seeded data set and pin the sums of y and e, w is nearly unobserved",
       ALLF, [("adaptation loop of run", B + " AdaptiveFilter.run / AdaptiveFilterAP.run")],
       ["values returned by run", "attribute w of the filter"],
       "trace checker over recorded runs (bookkeeping invariants)",
       "the dot product is compared within rounding bounds computed in long double.",
       [("w", "present weights", B), ("w_history", "weights per sample", B)]),
    P_("C02", "Memoryless filters learn by their documented update law",
       "For LMS, NLMS, LMF, NLMF, SSLMS, NSSLMS, GMCC and Llncosh, every processed sample changes the weights exactly "
       "by the increment which the documented formula gives for the error and the input vector of that sample and for "
       "the configured parameters, and by nothing else. "
       "It holds in batch use and in sample-after-sample use, for zero errors, zero inputs and any magnitudes of data "
       "which do not overflow.",
       ["inputs", "configurations", "histories"],
       "all parameters (including extreme ones), lengths, filter sizes, inputs and histories",
       "tests pin one 7 digit sum per filter on one gaussian data set; sign, regularisation, saturation and zero cases are never reached",
       [F + k + ".py" for k in "lms nlms lmf nlmf sslms nsslms gmcc llncosh".split()] + [B],
       [("learning_rule of every filter", F + "*.py"), ("accumulation of the increment", B)],
       ["w rows returned by run", "attribute w after adapt"],
       "stepwise reference oracle (long double) over recorded traces",
       "tolerance is calibrated from perturbed float64 models; samples where error is within rounding of zero are skipped for the sign filters unless data are exact."),
    P_("C03", "Variable step filters (GNGD, VSLMS) follow their adaptation recursions",
       "For GNGD and the three VSLMS filters (Ang, Benveniste, Mathews), every processed sample changes the weights by "
       "the step size in effect times error times input, where the step size (or the compensation term of GNGD) "
       "evolves by the recursion of the algorithm from the previous error, input and gradient estimate. "
       "The recursion starts from the configured values and zero memory when the filter is created, and continues "
       "across batch calls and sample-after-sample calls.",
       ["inputs", "configurations", "histories"],
       "all parameters, data and call histories",
       "tests pin one sum per filter; the adaptation of the step is tiny there, so errors in it are nearly invisible",
       [F + k + ".py" for k in "gngd vslms_ang vslms_benveniste vslms_mathews".split()],
       [("step size recursion in learning_rule", F + "gngd.py, vslms_*.py")],
       ["w rows returned by run", "attribute w after adapt"],
       "stateful reference oracle (long double) over recorded traces",
       "the recursion as implemented at the pinned commit is the specification where the repository gives only a DOI.",
       [("last_e, last_x, last_fi, last_mu, eps", "memory of the recursion", F + "gngd.py, vslms_*.py")]),
    P_("C04", "RLS solves the exponentially weighted least squares problem",
       "Every processed sample changes the RLS weights by R(k) x(k) e(k), where R(k) follows the documented recursion "
       "with forgetting factor mu from R(0) = I/eps. "
       "Equivalently, after any number of samples the weights minimise the exponentially weighted sum of squared "
       "errors regularised towards the initial weights, and the noise-free identification error obeys the bound which "
       "follows from it.",
       ["inputs", "configurations", "histories"],
       "all forgetting factors, initialisations, data, lengths and call histories while the recursion is well conditioned",
       "the test pins one sum for one data set and default forgetting factor",
       [F + "rls.py", B], [("matrix recursion in learning_rule", F + "rls.py")],
       ["w rows returned by run", "attribute w after adapt"],
       "stepwise reference recursion plus closed-form weighted least squares oracle over recorded traces",
       "ill conditioned stretches (perturbed models disagree) are counted and skipped.",
       [("R", "inverse autocorrelation matrix", F + "rls.py")]),
    P_("C05", "AP solves the regularised projection over exactly the last samples",
       "Every processed sample changes the weights of the affine projection filter by mu * X (X^T X + ifc I)^-1 e, "
       "where X holds exactly the last `order` input vectors (newest included, zero vectors before the start) and e "
       "are errors of their targets with the present weights. "
       "This memory is carried over between batch calls and sample-after-sample calls.",
       ["inputs", "configurations", "histories"],
       "all orders (also bigger than the size or number of samples), mu, ifc, data and call histories",
       "the test pins one sum for order 5 and one data set",
       [F + "ap.py", B], [("memory shift and projection", B + " AdaptiveFilterAP"), ("learning_rule", F + "ap.py")],
       ["w rows returned by run", "attribute w after adapt"],
       "independent projection oracle (other algebraic form, long double) over recorded traces",
       "tolerance follows the condition number of the projected matrix.",
       [("x_mem, d_mem", "last `order` samples", B)]),
    P_("C06", "OCNLMS centers data by the means of its memory and learns normalised",
       "OCNLMS keeps the last `mem` inputs and targets, centers the present input by the mean of remembered inputs and "
       "predicts w*(x - mean x) + mean d; every sample changes the weights by mu / (eps + |x - mean x|^2) * e * (x - mean x). "
       "Clearing of the memory makes it behave as a newly created filter with the present weights.",
       ["inputs", "configurations", "histories"],
       "all memory lengths (2 and more), data, lengths below and above the memory and call histories",
       "the test pins one sum for default memory of 100 samples",
       [F + "ocnlms.py"], [("memory bookkeeping", F + "ocnlms.py")],
       ["values returned by run", "attribute w after adapt"],
       "two stateful reference models (documented memory, memory as shipped) over recorded traces",
       "the shipped memory deviates from the documentation (known finding, pinned by an existing test); any behaviour "
       "which is neither the documented one nor exactly the shipped one is a violation.",
       [("mem_x, mem_d, mem_idx, mem_empty", "memory of samples", F + "ocnlms.py")]),
    P_("C07", "Batch, segmented and sample-after-sample filtering give the same result",
       "Any partition of a data stream into run calls, adapt calls and predict calls gives the same weights, outputs and errors as one run over the whole stream. "
       "predict(x) returns the output which the filter gives for x with its present weights and never changes what the filter does later.",
       ["inputs", "histories", "configurations"],
       "all filters, all partitions of the stream, predict with any probe vector between any two samples",
       "no test calls adapt at all, and no test splits a stream",
       ALLF, [("adapt and run share the learning rule", B), ("AP has separate implementation of both", B)],
       ["outputs and weights after every segment"],
       "metamorphic trace comparison of segmented against whole runs",
       "OCNLMS.predict advances the memory (known finding); its effect is matched exactly by a model, anything else is a violation."),
    P_("C08", "Filters and detectors are causal",
       "What a filter outputs and learns up to some sample does not depend on any later sample (whatever the later "
       "values are, NaN and infinity included) nor on the number of samples which follow, and y[k] does not depend on d[k]. "
       "The same holds for Learning Entropy and ESE in relation to later rows of weights, and for ELBND one sample later.",
       ["inputs", "histories"],
       "all filters, detectors and their options, all positions of the change, all contents of the future",
       "no test compares two related runs",
       ALLF + [D + "le.py", D + "elbnd.py", D + "ese.py"],
       [("adaptation loops", B), ("sliding windows", D + "le.py, ese.py")],
       ["results of two runs which share a prefix"],
       "metamorphic prefix comparison of recorded runs (non-interference monitor)",
       "compares pairs of executions of the real code only."),
    P_("C09", "Caller's arrays are neither modified nor retained, results stay stable",
       "No function or method changes the arrays or lists it is given, and read-only arrays are accepted. "
       "A caller may overwrite its arrays after a call returned (for example reuse one buffer for every sample) without "
       "any effect on what filters, networks or results contain, and results that were returned stay unchanged by later use.",
       ["inputs", "histories"],
       "all public functions, filters and the network; any pattern of buffer reuse and overwriting",
       "tests never reuse a buffer and never look at their inputs after the call",
       ALLF + [P + "*.py", D + "*.py", "padasip/misc/error_evaluation.py", "padasip/ann/mlp.py"],
       [("copies made at the API boundary", B), ("np.array conversion", P + ", " + D)],
       ["bytes of arguments and of earlier results"],
       "memory-ownership monitor (byte digests, read-only guards, scribbling buffers) around real calls",
       "each call pattern is compared with an undisturbed twin.",
       [("last_x, x_mem, mem_x, w", "retained data", F)]),
    P_("C10", "Instances are independent and computation is deterministic",
       "Filters (and networks) which are used alternately or from different threads behave exactly as if each of them was alone in the process. "
       "Repeated identical use gives identical results, and apart from random initialisation and shuffling the global "
       "random generator, the NumPy error settings and the warning filters are left untouched.",
       ["schedules", "histories", "configurations"],
       "all pairs and groups of filters, all interleavings of their calls, threads with forced switching",
       "tests use one instance at a time and reseed before each",
       ALLF + [D + "*.py", "padasip/ann/mlp.py"],
       [("all state is held by instances", F), ("no global state", "padasip/")],
       ["results of interleaved and of solitary use", "np.random state, np.geterr"],
       "interleaving and thread-stress monitor against solitary runs",
       "thread interleavings are sampled with a tiny switch interval, the number of observed context switches is reported."),
    P_("C11", "Every way of creating a filter gives the same documented filter",
       "A filter created by its class, by AdaptiveFilter(model, n, ...), by get_filter(name) or used through "
       "filter_data(d, x, model, ...) is of the requested kind for any letter case of the name and behaves the same, with the documented default parameters where they are not given, and filter_data takes the size from the data. "
       "Unknown names and missing size are refused with ValueError. "
       "The helpers do not change the keyword dictionary of the caller.",
       ["configurations", "inputs"],
       "all 15 kinds, all letter cases, positional and keyword parameters, subsets of given parameters",
       "tests create each filter with one set of parameters and do not use the factories for most of them",
       [F + "__init__.py"] + ALLF, [("FILTERS registry", F + "__init__.py"), ("constructor defaults", F + "*.py")],
       ["class and results of filters made in different ways"],
       "differential monitor over construction routes with probing runs",
       "defaults are those of the pinned commit (signature and documentation)."),
    P_("C12", "Initial weights are as requested, invalid requests change nothing",
       "A new filter has zero weights, a copy of the given array, or random weights of zero mean and 0.5 standard deviation from "
       "the global random generator, as requested. "
       "Bad initial weights, disagreeing lengths of d and x, input of wrong width and data which are not numeric are "
       "refused with ValueError, and the filter then continues exactly as if the refused call never happened.",
       ["inputs", "histories", "fault_sequences"],
       "all filters, all kinds of invalid calls at any position of the history",
       "no test passes invalid data to a filter",
       ALLF, [("init_weights", B), ("validation in run and adapt", B)],
       ["attribute w", "behaviour after a refused call"],
       "fault-injection of invalid calls into histories, compared with an undisturbed twin",
       "the moments of random weights are judged by bounds with false alarm probability below 1e-9."),
    P_("C13", "pretrained_run equals training epochs followed by a test run",
       "pretrained_run(d, x, ntrain, epochs) behaves as `epochs` runs of the same filter over the first int(N*ntrain) "
       "samples followed by one run over the remaining samples, and it returns the result of the last run. "
       "The filter afterwards continues from that state.",
       ["inputs", "configurations", "histories"],
       "all filters, ratios with non-empty parts, numbers of epochs and earlier histories",
       "no test uses it with other than trivial settings",
       [B], [("pretrained_run", B)], ["returned values and weights after"],
       "differential monitor against explicit runs of a twin filter",
       "both sides are executions of the real code; C01 to C08 decide what a run does."),
    P_("C14", "Filters are stable, contracting and bounded as their theory guarantees",
       "On noise-free data NLMS (0<=mu<=2, eps>=0), AP of any order (0<=mu<=2) and RLS (while its recursion is well conditioned) never move away from the true weights in "
       "their norms, and LMS does not while mu*|x|^2<=2. "
       "With sufficiently exciting input LMS, NLMS, AP and RLS identify the system at the rate the theory gives. "
       "Increments of SSLMS, NSSLMS, Llncosh and GMCC stay within the bounds given by their error saturation however big the error is.",
       ["inputs", "histories", "configurations"],
       "all noise-free systems, inputs and parameters in the stability region, error magnitudes up to 1e60 for the bounds, alpha>=1 for GMCC",
       "tests only pin sums, nothing relates them to the identified system",
       [F + k + ".py" for k in "lms nlms ap rls sslms nsslms llncosh gmcc".split()],
       [("normalisation and saturation in learning_rule", F + "*.py")],
       ["weights per sample"],
       "online invariant monitor (Lyapunov norm, bounds) over recorded traces",
       "bounds are checked with slack for rounding."),
    P_("C15", "Results do not depend on how the same numbers are represented",
       "Filters, error measures, standardization, history matrices, PCA, LDA, novelty detectors, and the network give the same result for the same numbers passed "
       "as arrays of any integer, boolean or floating type, byte order, memory layout or writability, or as lists and tuples where those are accepted. "
       "No integer overflow and no precision loss by the type of input occurs.",
       ["inputs", "configurations"],
       "all representations in which the values are exact, all filters, run and adapt",
       "tests pass only float64 C-ordered arrays",
       ALLF + ["padasip/misc/error_evaluation.py", P + "standardize.py", P + "standardize_back.py", P + "input_from_history.py", P + "pca.py", P + "lda.py",
                "padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py", "padasip/ann/mlp.py"],
       [("conversion to float64", B + ", " + P), ("to_float", "padasip/misc/error_evaluation.py")],
       ["results for two representations"],
       "metamorphic comparison over data representations",
       "values are chosen exactly representable in both types."),
    P_("C16", "Filters are equivariant to permutation, sign and scaling of the data",
       "Permuting the features permutes the weights and changes nothing else, and negating a feature (or the target "
       "together with the initial weights) only negates the corresponding weights. "
       "Scaling of the input or of the target by a constant, with the parameters rescaled as the update law says, only rescales weights, outputs and errors.",
       ["inputs", "configurations"],
       "all filters, permutations, sign patterns and scale factors",
       "no test compares two related runs",
       ALLF, [("update laws without absolute thresholds or preferred features", F)],
       ["weights, outputs and errors of two related runs"],
       "metamorphic comparison of related runs",
       "power-of-two scales keep rounding equal, other relations are judged against a perturbed twin."),
    P_("C17", "Related filters reduce to each other in their limit cases",
       "GNGD with ro=0 is NLMS, every VSLMS with ro=0 is LMS, AP of order 1 is NLMS with eps=ifc, NLMF, NLMS and NSSLMS with "
       "dominant eps are LMF, LMS and SSLMS with mu/eps. "
       "Llncosh becomes LMS for small and sign-error LMS for big sensitivity, GMCC with alpha=2 and small lambd is LMS, and the first step of RLS and AP is a NLMS step.",
       ["inputs", "configurations"],
       "all data, sizes and parameters of the related filters",
       "no test compares two filters",
       [F + "*.py"], [("learning rules", F)], ["results of two different filters on the same data"],
       "differential monitor between different filters of the real code",
       "limits are compared with tolerance of the neglected term."),
    P_("C18", "ELBND is the error times the following weight increment",
       "ELBND(w, e) gives for every sample the maximum (or sum) over weights of |(w[k+1] - w[k]) * e[k]|, the last "
       "sample has zero. "
       "Unknown function names are refused with ValueError.",
       ["inputs", "configurations"], "all weight histories, errors and both functions",
       "one seeded example per function is pinned",
       [D + "elbnd.py"], [("ELBND", D + "elbnd.py")], ["returned values"],
       "reference oracle on generated histories and on histories recorded from real filters",
       "long double reference."),
    P_("C19", "Learning Entropy compares each increment with its own recent window",
       "Direct Learning Entropy gives for every sample and weight the deviation of the absolute increment of given order from "
       "the mean of the m preceding ones in units of their standard deviation; the multiscale one gives the fraction of weights and sensitivities for "
       "which the increment exceeds the sensitivity times that mean, so it lies in [0, 1]. "
       "The first m samples are zero and adding a constant to a weight changes nothing.",
       ["inputs", "configurations"], "all weight histories, windows, orders and sensitivities",
       "tests pin sums of two examples",
       [D + "le.py"], [("learning_entropy", D + "le.py")], ["returned values"],
       "reference oracle with exact tie cases, offset and column relations",
       "samples whose window reaches the raw initial weights are a known finding and judged against the shipped formula."),
    P_("C20", "ESE evaluates how extreme each increment is in its window",
       "ESE gives for every sample after the first window the sum over weights of -log10 of tail probability of its "
       "absolute increment, by generalised Pareto fitted to the peaks over threshold of the preceding window; increments that are not over the threshold add zero. "
       "The first `window` samples are zero, all values are finite and not negative, and the number of peaks is as the selected method says.",
       ["inputs", "configurations"], "all weight histories, windows and six peak methods",
       "no test runs ESE",
       [D + "ese.py"], [("ESE, pot", D + "ese.py")], ["returned values"],
       "reference oracle with SciPy genpareto on generated and recorded histories",
       "trusts the fit of SciPy."),
    P_("C21", "Error measures are exact and symmetric",
       "MSE, MAE, RMSE and logSE computed from two series equal those computed from their difference, they equal their "
       "definition for any data, and get_mean_error selects them by name. "
       "MSE, MAE and RMSE are not negative, symmetric, zero for equal series and satisfy MAE <= RMSE = sqrt(MSE); different lengths and unknown names are refused with ValueError.",
       ["inputs", "configurations"], "all series, types and lengths",
       "one pair of short series is tested",
       ["padasip/misc/error_evaluation.py"], [("get_valid_error and measures", "padasip/misc/error_evaluation.py")],
       ["returned values"], "reference oracle (long double) and algebraic relations", "relative tolerance 1e-12 of the exact value."),
    P_("C22", "Standardization and its inverse round-trip",
       "standardize(x) has zero mean and unit deviation, or uses exactly the given offset and scale (zero included as offset), "
       "and standardize_back with the same offset and scale returns the original data. "
       "Arguments that are not numbers are refused with ValueError.",
       ["inputs", "configurations"], "all data, shapes, offsets and scales",
       "two short series are tested",
       [P + "standardize.py", P + "standardize_back.py"], [("standardize", P)], ["returned values"],
       "reference oracle and round-trip monitor", "long double reference."),
    P_("C23", "History matrix contains every window exactly once, in order",
       "input_from_history(a, n) gives len(a)-n+1 rows, where row i is exactly a[i:i+n], followed by a column of ones when bias is requested. "
       "A size that is not a positive int and data which are not numeric are refused with ValueError.",
       ["inputs", "configurations"], "all series, n from 1 to the length, both bias options",
       "one example per option is tested",
       [P + "input_from_history.py"], [("input_from_history", P + "input_from_history.py")], ["returned values"],
       "reference oracle (exact)", "exact comparison."),
    P_("C24", "PCA projects on orthonormal directions of biggest variance",
       "PCA(x, n) projects the data on n orthonormal eigenvectors of their covariance in order of descending variance, so outputs are "
       "uncorrelated and have variances equal to the first n values of PCA_components(x), which are all eigenvalues in descending order. "
       "Results are real, n defaults to one less than the number of features, and n equal to or over the number of features is refused.",
       ["inputs", "configurations"], "all data sets of 2 and more features, also degenerate ones",
       "one seeded example is pinned",
       [P + "pca.py"], [("eigen decomposition and ordering", P + "pca.py")], ["returned values"],
       "invariant monitor with independent decomposition", "directions of (nearly) equal variance are judged as a subspace."),
    P_("C25", "LDA projects on the directions that separate the classes best",
       "LDA_discriminants gives eigenvalues of the within/between scatter problem in descending order and LDA(x, labels, n) the "
       "projection of the data on their eigenvectors; both are real. "
       "They depend on labels only by the grouping which the labels make, in whatever type or container, and on rows only as a set.",
       ["inputs", "configurations"], "all data sets with invertible within-class scatter, all numbers and names of classes",
       "one seeded example is pinned",
       [P + "lda.py"], [("scatter matrices and ordering", P + "lda.py")], ["returned values"],
       "reference oracle by symmetric generalised eigenproblem, relabelling relations", "up to sign of directions, in units of conditioning."),
    P_("C26", "Network output is the documented forward pass and inference never learns",
       "run(x) gives for every row what predict gives for it, which is the forward pass through the hidden layers with bias and the selected activation and a linear output, and test(x, d) gives d minus it. "
       "None of them changes the weights; an unknown activation, and x or d of disagreeing shapes given to train or test, are refused with ValueError. "
       "Weights of a new network are random normal with zero mean and the documented standard deviation 1/sqrt(m) for m inputs of the node.",
       ["inputs", "configurations", "histories"], "all layouts, both activations, one or more outputs, before and after training",
       "no test covers the network",
       ["padasip/ann/mlp.py"], [("predict of layer and network", "padasip/ann/mlp.py")], ["returned values", "weights"],
       "reference forward pass (long double) over recorded calls", "reads public weight attributes."),
    P_("C27", "Network training is stochastic gradient descent of the squared error",
       "Every training step changes all weights by -mu times the gradient of half of the squared error of that sample (mu of a layer is 1/sqrt of its inputs for \"auto\") at the weights before the step, and train returns "
       "the error of every sample before it was learned and the mean squared error of every epoch. "
       "In each epoch every sample is used exactly once, in given order or in a new random order for every epoch when shuffling is on; the samples and their targets stay paired.",
       ["inputs", "configurations", "histories"], "all layouts, activations, learning rates, numbers of epochs and outputs",
       "no test covers the network",
       ["padasip/ann/mlp.py"], [("update of layer and network, train", "padasip/ann/mlp.py")], ["errors and weights"],
       "reference backpropagation (long double) and exactly-once order monitor", "order of shuffled samples is inferred from the observed errors."),
    P_("C28", "The package works without SciPy and keeps its public names",
       "Without SciPy installed the package imports and everything works except for ESE, which raises ImportError when it is called. "
       "The documented names are reachable from the package and its subpackages and mean the same object everywhere.",
       ["configurations"], "with and without SciPy, all documented names",
       "tests run in one environment",
       ["padasip/__init__.py", D + "__init__.py", P + "__init__.py", "padasip/misc/__init__.py", F + "__init__.py"],
       [("guarded import", D + "__init__.py"), ("re-exports", "padasip/__init__.py")], ["imports and results in subprocesses"],
       "fault injection (import of SciPy blocked) in subprocesses with workload comparison", "simulates the missing package by an import hook."),
    P_("C29", "Real-time use needs constant memory and time per sample",
       "Memory held by a filter does not grow with the number of samples processed by adapt and predict, nor does the work "
       "per sample. "
       "Batch calls hold only results of the last call.",
       ["histories"], "all filters, arbitrarily long sample-after-sample use",
       "no test runs adapt",
       ALLF, [("fixed-size memories", F)], ["allocated memory", "executed bytecode per sample"],
       "allocation and work monitor (tracemalloc, sys.monitoring counts) over long runs", "length of observed use is bounded (thousands of samples)."),
    P_("C30", "User-defined learning rules are driven once per sample with right data",
       "A filter class derived from AdaptiveFilter, AdaptiveFilterAP or a shipped filter with its own learning_rule has it called "
       "exactly once per sample and in order, by run, adapt and pretrained_run alike, with the error of the present weights and "
       "the input of that sample (AP: inputs and errors of the last `order` samples), and the returned increment is what is added to the weights. "
       "An exception of the rule reaches the caller, samples before it stay learned.",
       ["inputs", "histories", "programs"],
       "any learning rule, base class, data and sequence of calls",
       "tests use only the shipped filters",
       [B], [("template method: base class drives learning_rule", B + " adapt, run")],
       ["arguments and number of learning_rule calls", "attribute w", "values returned by run"],
       "trace checker of calls into a recording learning rule",
       "order of the columns given to AP rules is not judged, override of predict is not exercised."),
    P_("C31", "Copies and checkpoints continue exactly like the original",
       "A filter or network which is deep-copied or pickled at any point of its use gives an object that continues exactly as the "
       "original would, also when it is restored in another process. "
       "Original and copy share nothing: use of one never changes what the other does later.",
       ["histories", "crash_points", "configurations"],
       "every filter and network, any history, point of copy, way of copying and continuation",
       "tests never copy an instance",
       ALLF + ["padasip/ann/mlp.py"], [("all state is held by the instance", F + "*.py, padasip/ann/mlp.py")],
       ["results of the original, the copy and an undisturbed twin"],
       "differential monitoring of original, copy and twin, restored also in fresh processes",
       "copy.deepcopy and pickle only, shallow copies are not covered."),
    P_("C32", "Detection tools treat each weight separately and only by its recent past",
       "Order of weights (columns) and their signs do not matter: ELBND of joined histories is the maximum (sum) of its parts, "
       "direct Learning Entropy stands side by side, the multiscale one is the average over weights and ESE the sum. "
       "Multiplying the history by a constant scales ELBND and leaves Learning Entropy unchanged, and results of rows whose window "
       "lies in the remaining history do not change when older or later rows are cut off.",
       ["inputs", "configurations"],
       "all histories, windows, orders, sensitivities and methods",
       "tests pin sums of single results, relations between results are never observed",
       [D + k for k in ("elbnd.py", "le.py", "ese.py")],
       [("windows over increments per column", D + "*.py")], ["returned arrays"],
       "metamorphic monitoring of observed results",
       "ESE within tolerance of its numerical fit; the direct Learning Entropy is scale free only over its regularisation."),
    P_("C33", "Error measures and preprocessing keep their defining invariances",
       "MSE, MAE and squared RMSE of joined series are weighted means of those of the parts, do not depend on the order of samples nor "
       "on a common shift, and scale with the series. "
       "standardize undoes any linear transformation, history matrices of parts, reversed series and shorter windows are parts of the whole one. "
       "PCA outputs and components do not depend on rotation, position and order of rows (up to sign of outputs), and LDA "
       "discriminants do not depend on any invertible linear map of the features.",
       ["inputs", "configurations"],
       "all (well conditioned) data, sizes and transformations",
       "tests pin single examples, relations between results are never observed",
       ["padasip/misc/error_evaluation.py"] + [P + k for k in ("standardize.py", "standardize_back.py", "input_from_history.py", "pca.py", "lda.py")],
       [("formulas of measures and preprocessing", "padasip/misc, padasip/preprocess")], ["returned values"],
       "metamorphic monitoring of observed results",
       "only data whose spectrum is well separated are used for single outputs of PCA and LDA."),
    P_("C34", "Network training can be split and ignores numbering of nodes",
       "Training in any split (epochs one by one, parts of the data, predict and update per sample, with inference of other data between) gives the same "
       "errors and weights as one training over the same sequence of samples. "
       "Renumbering of inputs, hidden nodes and outputs renumbers weights and changes nothing else, each output equals "
       "that of a network with this output alone, and shuffled training is reproducible from the global random seed.",
       ["inputs", "histories", "configurations"],
       "all layouts, activations, learning rates, data and partitions",
       "tests train one layout once and pin one sum",
       ["padasip/ann/mlp.py"], [("epoch loop, predict and update", "padasip/ann/mlp.py")],
       ["errors returned by train and update", "weights of layers"],
       "differential monitoring of training histories",
       "trainings which amplify rounding too much (measured by perturbed twins) are not judged."),
    P_("C35", "Documented tools compose: real-time loop, history matrix, detection",
       "A real-time loop which predicts from a sliding window and adapts when the target arrives gives the same outputs, errors and weights "
       "as batch filtering of the history matrix of the series, with and without bias. "
       "Filtering of standardized data (parameters in the same units) and transforming back gives what filtering of the original gives, "
       "and error measures and detection tools give for segments of filter results the same as for the whole.",
       ["inputs", "histories", "configurations"],
       "all filters, series, window lengths, horizons and parameters",
       "tests examine each tool alone",
       [B, F + "__init__.py", P + "input_from_history.py", P + "standardize.py", D + "elbnd.py", D + "le.py", "padasip/misc/error_evaluation.py"],
       [("row i of the matrix is the window of the loop", P + "input_from_history.py"), ("adaptation loop", B)],
       ["outputs, errors, weights of both uses", "detection values"],
       "differential monitoring of two uses of the real code",
       "OCNLMS is left out, its predict is a listed finding; scales are powers of two."),
    P_("C36", "Every filter and the network learn the system which made the data",
       "From data of a linear system with little noise, exciting input and usual parameters every filter comes close to the system and, when the system "
       "changes abruptly, to the new one, whether it is used by run, adapt, pretrained_run, filter_data or a mixture of them. "
       "A network trained on samples of a smooth function reproduces them.",
       ["inputs", "configurations", "histories"],
       "all filters with usual parameters, sizes, scales of input, kinds of excitation, ways of use; both activations",
       "tests pin sums of results for one data set, whether anything was learned is not examined",
       ALLF + ["padasip/ann/mlp.py"], [("learning_rule of every filter", F), ("adaptation loops", B), ("train", "padasip/ann/mlp.py")],
       ["weights of every sample, excess error of late samples", "errors of training, output of the trained network"],
       "online performance monitor (excess error from observed weights) over closed-loop identification runs",
       "parameters are the usual ones, bounds are several times over the biggest of thousands of observed values."),
    P_("C37", "Novelty detectors point at an abrupt change of the system",
       "When a system followed by an adaptive filter changes abruptly, ELBND, Learning Entropy (both ways) and Extreme Seeking Entropy of the "
       "observed weights and errors are higher within the following samples than they were before the change. "
       "The bigger a sudden jump of weights in one sample, the higher (never lower) is the value of each detector at this sample.",
       ["inputs", "configurations", "histories"],
       "detectors with their options over filters with usual parameters, random systems, changes and places of them",
       "tests pin sums of detector values over one history without any change",
       [D + k for k in ("elbnd.py", "le.py", "ese.py")] + [B], [("detector values at the change", D + "*.py"), ("weight history in time", B)],
       ["detector values around the change"],
       "end-to-end monitor over runs with an injected change",
       "statistical: little noise, shares of earlier samples from observed distributions with reserve."),
    P_("C38", "Weights set by the caller are the weights from that moment on",
       "When the caller assigns or modifies the attribute w of a filter at any time (transfer, reset by init_weights, constraint after every sample), "
       "outputs, history and further learning continue from exactly these weights. "
       "Step sizes, matrices and memories of the filter continue unaffected, results returned earlier do not change.",
       ["histories", "configurations"],
       "all filters except OCNLMS, any moment and way of setting the weights",
       "no test touches weights of a filter in use",
       ALLF, [("weights live in attribute w only", F)],
       ["weights before and after every sample, outputs, returned histories"],
       "online checker of the recursions over traces with injected weights",
       "OCNLMS is judged by C06."),
]
