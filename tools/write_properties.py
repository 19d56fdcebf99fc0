"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

B, H, V, EM, ST, UT, U2, KL, EXT = (
    "src/hmmlearn/base.py", "src/hmmlearn/hmm.py", "src/hmmlearn/vhmm.py",
    "src/hmmlearn/_emissions.py", "src/hmmlearn/stats.py",
    "src/hmmlearn/utils.py", "src/hmmlearn/_utils.py",
    "src/hmmlearn/_kl_divergence.py", "ext/_hmmc.cpp")

P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))


FAM = ("Categorical, Multinomial, Poisson, Gaussian and Gaussian-mixture HMMs "
       "(every covariance type)")

p("C01", "score is the exact log-likelihood of the data",
  "For " + FAM + ", score() (and the first value of score_samples()) equals "
  "log p(X) of the model as specified by its parameters, i.e. the sum over all "
  "state paths of start x transition x emission probabilities, computed per "
  "sequence and summed over sequences. It holds for any number of states, "
  "features, sequences and frames, for zero probabilities (impossible data "
  "scores -inf with implementation='log') and for very small densities.",
  ["inputs", "configurations"],
  "all valid parameter sets, data sets and splits in sequences, both implementations",
  "Tests compare a handful of fixed 2-3 state models; they never vary sizes, "
  "zero patterns, magnitudes and covariance types jointly.",
  [B, EM, ST, EXT],
  [("forward recursion", EXT + ": forward_log / forward_scaling"),
   ("emission densities", EM + ": _compute_log_likelihood")],
  ["score", "score_samples"])

p("C02", "Posterior state probabilities are the exact smoothing marginals",
  "predict_proba() and score_samples() return, for each frame, the exact "
  "conditional probability of each state given the whole sequence that the "
  "frame belongs to, under the model's parameters; rows are nonnegative and sum "
  "to one, and states that are impossible at a frame get probability zero. This "
  "holds for both implementations and for data sets with any number of "
  "sequences, whenever the data has positive probability.",
  ["inputs", "configurations"],
  "all models and data sets with positive likelihood",
  "Tests check row sums and one textbook example, not marginals on arbitrary models.",
  [B, EXT, UT],
  [("forward-backward", EXT + ": backward_log / backward_scaling"),
   ("posterior normalization", B + ": _compute_posteriors_*")],
  ["predict_proba", "score_samples"])

p("C03", "Viterbi decoding returns a jointly most likely path and its log-prob",
  "decode(algorithm='viterbi') returns, for each sequence, a state path whose "
  "joint log-probability with the observations is maximal over all state paths, "
  "and the returned log-probability is the sum over sequences of that maximum. "
  "The path never uses a zero-probability start, transition or emission when "
  "the data is possible at all, and ties may be broken either way.",
  ["inputs", "configurations"],
  "all models (including zero entries and exact ties) and data sets",
  "Tests decode single fixed examples; optimality over all K^T paths is never "
  "checked, nor ties, zeros, or long sequences.",
  [B, EXT],
  [("Viterbi recursion and traceback", EXT + ": viterbi"),
   ("per-sequence loop", B + ": decode")],
  ["decode", "predict"])

p("C04", "MAP decoding and decoder selection",
  "decode(algorithm='map') returns at each frame a state of maximal posterior "
  "probability (as given by predict_proba), sequence by sequence. decode() "
  "without algorithm and predict() use the model's algorithm attribute, an "
  "explicit algorithm argument to decode() takes precedence over it, and "
  "predict() returns exactly the states of decode(). The returned log "
  "probability is that of the produced state sequence together with the data.",
  ["inputs", "configurations"],
  "all models, data sets, and combinations of algorithm attribute and argument",
  "Tests exercise MAP on one example and never the precedence or multi-sequence cases.",
  [B], [("decoder table", B + ": decode / _decode_map")], ["decode", "predict"])

p("C05", "The log and scaling implementations agree",
  "For the same model and data, implementation='log' and "
  "implementation='scaling' give the same scores, posteriors, decodings and "
  "fitted parameters up to rounding, as long as the scaled forward and backward "
  "quantities are representable in double precision. When the likelihood of a "
  "frame underflows, or a scaled quantity overflows, the scaling implementation "
  "raises a ValueError instead of returning wrong or non-finite posteriors.",
  ["inputs", "configurations"],
  "all EM and variational families; models, data, numbers of training iterations",
  "Tests run each implementation on the same fixed examples but do not compare "
  "them on generated models or near underflow.",
  [B, EXT], [("underflow guard", EXT + ": forward_scaling"),
             ("dispatch", B + ": _score/_do_estep")],
  ["score_samples", "decode", "fit"])

p("C06", "Sequences given by lengths are scored and decoded independently",
  "With lengths, score() is the sum of the scores of the individual sequences, "
  "and posteriors and decoded states are the concatenation of those obtained "
  "for each sequence alone, in order and with one row per sample. This holds "
  "for any split, including many sequences and sequences of length one, for "
  "lengths given as list, tuple or integer array, and lengths=None means one "
  "single sequence.",
  ["inputs", "configurations"],
  "all models, data sets, partitions in sequences, both decoders and implementations",
  "Tests use two or three fixed lengths arrays with long sequences.",
  [B, U2], [("split", U2 + ": split_X_lengths"), ("loops", B + ": _score_*, decode")],
  ["score", "score_samples", "decode", "predict", "predict_proba"])

p("C07", "Training treats sequences as independent, exchangeable samples",
  "Training on several sequences uses every sequence's first state for the "
  "start probabilities and only transitions inside sequences, so the fitted "
  "parameters do not depend on the order of the sequences, and repeating every "
  "sequence k times multiplies all expected counts by k (same maximum "
  "likelihood estimate, k times the log-likelihood). Sequences of length one "
  "contribute their emission and start state but no transition, wherever they "
  "are placed.",
  ["inputs", "configurations"],
  "all families trained from fixed starting parameters, all partitions and permutations",
  "Tests fit on equal-length sequences only and never permute or repeat them.",
  [B, EM, H, V], [("E-step accumulation", B + ": _do_estep, _accumulate_sufficient_statistics*")],
  ["fit", "monitor_.history"])

p("C08", "EM re-estimates start and transition probabilities exactly",
  "One EM iteration sets startprob_ and transmat_ to the normalized expected "
  "counts of first states and of transitions under the current model plus "
  "(Dirichlet prior - 1), negative values being clipped to zero; priors may be "
  "scalars or full arrays. Entries that were exactly zero stay zero. This is "
  "the same for every EM family and both implementations.",
  ["inputs", "configurations"],
  "all EM families, priors, parameters, data sets",
  "Tests only check that the likelihood increases on average data, not the update itself.",
  [B, EXT], [("M-step", B + ": BaseHMM._do_mstep"),
             ("transition counts", EXT + ": compute_log_xi_sum / compute_scaling_xi_sum")],
  ["fit"])

p("C09", "EM re-estimates categorical, multinomial and Poisson emissions exactly",
  "One EM iteration sets the emission probabilities of a CategoricalHMM to the "
  "normalized expected symbol counts plus (prior - 1) clipped at zero, those of "
  "a MultinomialHMM to the normalized expected counts, and the rates of a "
  "PoissonHMM to (prior + expected sum) / (weight + expected number of "
  "observations) of each state and feature. Symbols or features never observed "
  "are treated as zero counts.",
  ["inputs", "configurations"],
  "all parameters, scalar and array priors, data sets and both implementations",
  "Tests check recovery of the generating model loosely or monotonicity only.",
  [H, EM], [("M-steps", H + ": *_do_mstep"), ("counts", EM + ": _accumulate_sufficient_statistics")],
  ["fit"])

p("C10", "EM re-estimates Gaussian means and covariances exactly",
  "One EM iteration of a GaussianHMM sets means_ to (means_weight x means_prior "
  "+ expected sum) / (means_weight + expected count) and covariances to "
  "(covars_prior + expected scatter around the new means + means_weight x outer "
  "product of (means - means_prior)) / (expected count + max(covars_weight - 1, "
  "0) for diag and spherical, or max(covars_weight - n_features, 0) for full "
  "and tied); spherical averages the diag estimate over features and tied pools "
  "the states. When only means or only covariances are trained, the other keeps "
  "its value and the update uses it.",
  ["inputs", "configurations"],
  "all covariance types, priors, params subsets, parameters and data sets",
  "Tests check that the likelihood increases and loose recovery for 3 features.",
  [H, EM], [("M-step", H + ": GaussianHMM._do_mstep"), ("statistics", EM + ": BaseGaussianHMM")],
  ["fit"])

p("C11", "EM re-estimates Gaussian mixtures exactly",
  "One EM iteration of a GMMHMM sets weights_ to the expected component counts "
  "plus (weights_prior - 1), normalized, means_ to (means_weight x means_prior + "
  "expected sum) / (means_weight + expected count), and covars_ to the "
  "documented MAP estimate given the normal-inverse-gamma (spherical, diag) or "
  "normal-inverse-Wishart (full, tied per state) prior, with the scatter taken "
  "around the means of the previous iteration. With the default priors these "
  "are maximum likelihood updates for every covariance type.",
  ["inputs", "configurations"],
  "all covariance types, numbers of mixture components, priors, parameters, data",
  "Tests check monotone likelihood with default priors on one data set.",
  [H, EM], [("M-step", H + ": GMMHMM._do_mstep"), ("responsibilities", EM + ": BaseGMMHMM")],
  ["fit"])

p("C12", "Every EM iteration increases the (penalized) log-likelihood",
  "Starting from any valid model, no iteration of fit() decreases the "
  "log-likelihood of the training data when priors are flat, nor its sum with "
  "the log prior density when they are not, for every EM family, covariance "
  "type and subset of trained parameters. The values recorded by the monitor "
  "are the log-likelihoods of the successive models, so they show it.",
  ["inputs", "histories"],
  "all starting models, data sets, params subsets, numbers of iterations",
  "Tests run a few iterations of a few seeded models and check the history only.",
  [B, H, EM], [("EM loop", B + ": fit")], ["fit", "score", "monitor_.history"])

p("C13", "params and init_params select what is trained and initialized",
  "fit() leaves every parameter whose code is not in params exactly as it was "
  "after initialization, and it starts from the user's value, unchanged, for "
  "every parameter that is set and whose code is not in init_params; a "
  "parameter whose code is in init_params is initialized anew whatever its old "
  "value, and one that is not set is initialized, too. The trained parameters "
  "get the same update whether or not the others are trained (except where an "
  "update depends on another updated one).",
  ["inputs", "configurations"],
  "all families (EM and variational), all subsets of both codes",
  "Tests cover two or three subsets per family.",
  [B, H, V, EM], [("_needs_init", B), ("guards in M-steps", H + ", " + V)], ["fit"])

p("C14", "Forbidden starts and transitions stay forbidden through training",
  "An entry of startprob_ or transmat_ that is zero before fit() (as in "
  "left-right models) is exactly zero after any number of iterations and of "
  "successive calls of fit() that do not re-initialize it, whatever the data, "
  "lengths and Dirichlet priors. The remaining entries still form probability "
  "distributions, and the training continues to be the EM update restricted to "
  "the allowed entries.",
  ["inputs", "histories"],
  "all EM families, zero patterns, priors (also > 1 and < 1), sequences of fits",
  "One test uses one left-right pattern with flat priors.",
  [B], [("np.where guards", B + ": BaseHMM._do_mstep")], ["fit"])

p("C15", "Training ends in a valid model that can be used",
  "After fit() on finite data in which every state (and mixture component) "
  "receives enough posterior mass to determine its parameters, all "
  "start, transition, emission and mixture distributions are nonnegative and "
  "sum to one, rates are nonnegative, covariances are symmetric positive "
  "definite of the documented shape, and everything is finite. The fitted model "
  "can immediately score, decode, and sample, with finite results for the "
  "training data.",
  ["inputs", "configurations"],
  "all EM and variational families, covariance types, initializations, data sets",
  "Tests check a few attributes after fitting friendly data.",
  [B, H, V, EM], [("normalize", UT), ("M-steps", H + ", " + V)],
  ["fit", "score", "sample"])

p("C16", "sample() draws from the distribution of the model",
  "sample(n) returns n observations and n states where the first state follows "
  "startprob_ (or is currstate, if given, including state 0), each next state "
  "follows the row of transmat_ of its predecessor, and each observation "
  "follows the emission distribution of its own state, independently. "
  "Zero-probability states, transitions and symbols never occur, X has one row "
  "of n_features columns per state (one column for categorical models), and "
  "multinomial rows sum to n_trials.",
  ["inputs", "configurations"],
  "all families, parameters, sample sizes, seeds and values of currstate",
  "Tests check shapes and, for one model, loosely the means.",
  [B, EM], [("sampling loop", B + ": sample"), ("emissions", EM + ": _generate_sample_from_state")],
  ["sample"])

p("C17", "A given random_state makes fit and sample reproducible",
  "With an integer random_state (or equal RandomState objects), constructing, "
  "fitting and sampling give bitwise the same result each time, also when "
  "fitting the same object twice, whatever the state of the global generators, "
  "which they neither read nor change, and while other models are trained in "
  "other threads. The random_state passed to sample() takes "
  "precedence over the model's, and fit() does not alter the constructor "
  "parameter random_state.",
  ["inputs", "histories"],
  "all families, data sets (also small clusters), seeds, kinds of random_state",
  "Tests fix the seed but never compare repeated runs or global-state pollution.",
  [B, H, V, EM], [("check_random_state", B + ", " + H + ", " + V)], ["fit", "sample", "get_params"])

p("C18", "Models can be saved, copied and resumed without changing behaviour",
  "A pickled and restored, or deep-copied, model scores, decodes, samples and "
  "continues training exactly like the original, and shares no mutable state "
  "with it; sklearn's clone gives an unfitted model with equal parameters. "
  "Training n1 and then n2 iterations with init_params='' gives the same model "
  "as n1 + n2 iterations in one go (when convergence does not stop it), and "
  "get_params/set_params round-trip.",
  ["histories"],
  "all families; sequences of fit, pickle, copy, clone, score, sample operations",
  "Tests pickle one model per family and compare nothing but its type.",
  [B, H, V], [("sklearn estimator protocol", B + ": BaseEstimator")],
  ["pickle", "copy", "clone", "fit"])

p("C19", "The convergence monitor records and stops training as documented",
  "The i-th value of monitor_.history is the log-likelihood (for variational "
  "models the lower bound) of the training data before the i-th update; "
  "training stops right after the first iteration at which the gain over the "
  "previous value is below tol, or at n_iter iterations, and converged tells "
  "exactly that. Each fit() starts with an empty history, tol and n_iter are "
  "those given to the constructor or set_params(), and a user-supplied monitor "
  "is honoured.",
  ["inputs", "histories"],
  "all families, values of tol (negative, zero, infinite too) and n_iter, repeated fits",
  "Tests use one custom monitor and two monitor unit cases.",
  [B], [("ConvergenceMonitor", B), ("fit loop", B + ": fit")], ["fit", "monitor_"])

p("C20", "AIC and BIC use the score and the number of free parameters",
  "aic(X, lengths) is -2 score + 2 k and bic(X, lengths) is -2 score + k "
  "log(number of samples), where k is the number of free scalar parameters of "
  "the model: states minus one start probabilities, states x (states minus one) "
  "transitions, and the free emission parameters of the family and covariance "
  "type, per state (and per mixture component), with shared (tied) ones counted "
  "once.",
  ["inputs", "configurations"],
  "all EM families, covariance types, sizes, data sets with sequences",
  "Tests check the value for one Gaussian and one mixture size.",
  [B, EM], [("parameter counts", EM + ": _get_n_fit_scalars_per_param")], ["aic", "bic"])

p("C21", "Variational categorical updates are the conjugate posteriors",
  "One iteration of a VariationalCategoricalHMM sets each Dirichlet posterior "
  "(start, transition, emission) to its prior plus the expected counts under "
  "the geometric-mean (exp of expected log) parameters of the current "
  "posteriors, and the normalized posteriors are the startprob_, transmat_ and "
  "emissionprob_ used for scoring. Priors may be omitted (1/n_components, "
  "1/n_features), scalars or arrays, and the start and transition updates are "
  "the same for VariationalGaussianHMM.",
  ["inputs", "configurations"],
  "all priors, posteriors, data sets, params subsets, both implementations",
  "Tests compare with one published example and check that the bound grows.",
  [V, B], [("VB E-step", B + ": _estep_begin"), ("VB M-step", B + ", " + V + ": _do_mstep")], ["fit"])

p("C22", "Variational Gaussian updates are the conjugate posteriors",
  "One iteration of a VariationalGaussianHMM sets beta, means, degrees of "
  "freedom and scale of each state to the normal-Wishart posterior given the "
  "priors and the expected statistics under the current posterior, for full "
  "covariances, and to the pooled (tied), per-feature (diag) or feature-averaged "
  "(spherical) analogue for the others. Afterwards means_ is the posterior mean "
  "and covars_ is the scale divided by the degrees of freedom, in the "
  "documented shapes.",
  ["inputs", "configurations"],
  "all covariance types, priors, posteriors, data sets, both implementations",
  "Tests compare one and two state examples from the literature.",
  [V], [("VB M-step", V + ": VariationalGaussianHMM._do_mstep"),
        ("expected log density", V + ": _compute_subnorm_log_likelihood")], ["fit"])

p("C23", "The variational lower bound is correct and never decreases",
  "The values recorded while training a variational model equal the evidence "
  "lower bound of the current posterior up to a constant that depends only on "
  "the data size: expected-log-parameter likelihood minus the KL divergences of "
  "every posterior factor from its prior. The bound does not decrease from one "
  "iteration to the next when all parameters are trained.",
  ["inputs", "histories"],
  "both variational families, all covariance types, priors, data sets",
  "Tests assert growth on a couple of seeded fits and never the value.",
  [V, B, KL], [("bound", B + ", " + V + ": _compute_lower_bound"), ("KL", KL)],
  ["fit", "monitor_.history"])

p("C24", "The stationary distribution is invariant under the transitions",
  "For a transition matrix with a unique stationary distribution, "
  "get_stationary_distribution() returns it: a real, nonnegative vector that "
  "sums to one and is unchanged by multiplication with transmat_, also for "
  "periodic chains, transient states and one-state models.",
  ["inputs"], "all stochastic matrices with a single recurrent class",
  "Tests check two random matrices.",
  [B], [("eigenvector", B + ": get_stationary_distribution")], ["get_stationary_distribution"])

p("C25", "Invalid models, data and options are rejected, not silently used",
  "Scoring, decoding, sampling or fitting raises an exception when start, "
  "transition, emission or mixture distributions have a wrong shape or do not "
  "sum to one, when mixture covariances or covariances being assigned are not "
  "positive (definite) or have a wrong shape, when data has NaN or infinite "
  "values, a wrong number of features, negative, non-integer, boolean or too "
  "large symbols, when lengths are not positive or do not sum to the number of "
  "samples, when the model is not fitted, when fewer than one sample or an "
  "initial state that does not exist is asked of sample(), or when algorithm, "
  "implementation or covariance type is unknown. Valid models and data with similar values are "
  "accepted.",
  ["inputs", "configurations"],
  "all families and public methods, each way to invalidate an otherwise valid call",
  "Tests try one or two invalid values per attribute of some families.",
  [B, H, V, EM, ST, U2], [("_check", B + ", " + H + ", " + V), ("split_X_lengths", U2),
                     ("_validate_covars", U2)],
  ["fit", "score", "decode", "sample", "covars_"])

p("C26", "Custom emission models work with either likelihood method",
  "A BaseHMM subclass that implements only _compute_log_likelihood, or only "
  "_compute_likelihood, scores, decodes and trains exactly as the built-in "
  "inference prescribes for these emission probabilities (zeros included), "
  "with both implementations; its "
  "_accumulate_sufficient_statistics is called once per sequence and iteration "
  "with the frame (log-)probabilities, exact posteriors and data of that "
  "sequence, and its _do_mstep once per iteration with the accumulated "
  "statistics.",
  ["programs", "inputs"],
  "generated subclasses (tables of emission probabilities), models, data, sequences",
  "Tests subclass once, with one fixed likelihood table.",
  [B], [("mutual fallback", B + ": _compute_likelihood / _compute_log_likelihood")],
  ["score", "decode", "fit"])

p("C27", "Native code stays within memory bounds for every call",
  "No call of the public API, with valid or invalid parameters, data and "
  "lengths (empty, mismatching, non-contiguous, of other dtypes, of one frame "
  "or one state), makes the compiled extension read or write out of bounds, "
  "use uninitialized results, or crash the interpreter: the call returns or "
  "raises a Python exception.",
  ["inputs"], "all array shapes, strides, dtypes and lengths reaching the extension",
  "Tests run an uninstrumented build on well-formed arrays only.",
  [EXT, B, U2], [("shape checks", EXT), ("lengths validation", U2)],
  ["fit", "score", "decode"])

p("C28", "Special cases of one family coincide with the other families",
  "Where two models describe the same distribution they give the same scores, "
  "posteriors, decodings and EM updates (of mixture covariances: with the means "
  "held fixed and flat priors): a MultinomialHMM with one trial and a "
  "CategoricalHMM, a GMMHMM with one component (or identical components, or "
  "all the weight on one) and a GaussianHMM, tied/full, diag/full and "
  "spherical/diag covariances with the same matrices, and a fitted variational "
  "model and the plain model with its startprob_, transmat_ and emission "
  "parameters.",
  ["inputs", "configurations"], "all models in the intersections, data sets",
  "Tests treat each family in isolation.",
  [EM, ST, H, V], [("densities", ST + ", " + EM)], ["score_samples", "decode", "fit"])

p("C29", "Inference and training respect the symmetries of the model",
  "Relabelling the states (and, for discrete data, the symbols or features) "
  "permutes posteriors, decodings and fitted parameters accordingly and leaves "
  "scores unchanged. Shifting and rescaling real-valued data together with the "
  "Gaussian parameters changes the log-likelihood by exactly the log Jacobian "
  "and transforms fitted means and covariances accordingly (with priors that "
  "are flat).",
  ["inputs", "configurations"], "all families, permutations, affine maps",
  "Tests never transform models.",
  [B, EM, H, EXT], [("forward/backward/Viterbi", EXT)], ["score_samples", "decode", "fit"])

p("C30", "Results do not depend on how the same data is represented",
  "Data, lengths and parameters with the same values give the same results "
  "whether they are lists, C- or Fortran-ordered, strided, read-only, or of any "
  "dtype that represents the values exactly (all integer widths for symbols and "
  "counts and for model parameters, integers or float32 for real data, where "
  "only the k-means start of float32 data may differ), and the caller's arrays "
  "are never modified by scoring, decoding, sampling or training.",
  ["inputs"], "all families, methods, memory layouts and dtypes",
  "Tests pass contiguous float64/int64 arrays nearly everywhere.",
  [B, EM, EXT], [("check_array", B), ("array conversion", EXT)],
  ["fit", "score", "score_samples", "decode"])

p("C31", "Queries do not change a model, whatever their order or threads",
  "Scoring, decoding, predicting, sampling with a given random_state, AIC/BIC, "
  "and the stationary distribution are functions of the model parameters and "
  "their arguments alone: any interleaving or repetition of them, also from "
  "concurrent threads and on several models, gives the same answers as each "
  "call alone, and leaves all parameters of the model, and numpy's global error "
  "handling, unchanged. An answer is "
  "always that for the parameters, settings and data as they are now: after "
  "parameters are replaced, overwritten in place or retrained, or the data array "
  "is overwritten, it is the answer of a fresh model in that state.",
  ["histories", "schedules"], "all sequences of queries on several models; threads running queries concurrently",
  "Tests make each query once, on a fresh model, in one thread.",
  [B, EXT, H], [("GIL release with local buffers", EXT), ("_check normalizes attributes", B + ", " + H)],
  ["score", "decode", "predict_proba", "sample", "aic"])

p("C32", "Initialization gives documented, valid starting points",
  "Before training, fit() sets missing (or init_params-selected) parameters to "
  "valid values of the documented shapes: random start, transition and "
  "emission distributions, means that are cluster centres within the range of "
  "the data, covariances equal to the data covariance plus min_covar reduced to "
  "the covariance type (spherical: the mean of its entries), uniform mixture weights, Poisson rates that are "
  "positive, and variational priors that default to 1/n_components, "
  "1/n_features, the data mean, 1, n_features and 1e-3. Sizes are inferred from "
  "the data, and given priors are used as they are. Constructor arguments that "
  "are not given have their documented defaults.",
  ["inputs", "configurations"], "all families, data sets, sizes, initial settings",
  "Tests check shapes for some families and one covariance example.",
  [B, H, V], [("_init", B + ", " + H + ", " + V)], ["fit"])

p("C33", "covars_ of Gaussian models reads and writes what the model uses",
  "Assigning a valid covars_ in the documented shape of the covariance type "
  "copies it, is used by scoring and sampling, and reading covars_ gives "
  "one full covariance matrix per state equal to it; after initialization, training or "
  "copying, covars_ still has shape (n_components, n_features, n_features) and "
  "is the covariance actually used for scoring. Non-positive or asymmetric "
  "values or wrong ranks are rejected on assignment and leave the model as it "
  "was.",
  ["inputs", "histories"], "all covariance types, sizes, sequences of assign / read / fit / score",
  "Tests set and read one covariance per type, mostly with one feature for spherical.",
  [H, V, UT, U2], [("covars_ property", H + ", " + V), ("fill_covars", UT)],
  ["covars_", "score", "sample", "fit"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
