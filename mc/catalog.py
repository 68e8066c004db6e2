"""The properties: metadata from which properties.jsonl and MANIFEST.json are generated (python -m mc.catalog)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="exploration", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


C = "fortuna/conformal/"
prop(
    "C01", "Conformal classification sets keep exactly the sufficiently conforming labels",
    "For every validation table, test table and coverage error, the conformal set of each test point contains exactly the labels whose nonconformity score is not too high with respect to the validation scores (exceeded by or equal to enough of them), so sets are computed per test point, shrink when the error grows and contain everything at error 0. "
    "On exchangeable data the true label is left out with frequency at most the error (twice the error for the cross-validation variant). Array inputs and chunked data-loader inputs give the same sets.",
    ["inputs", "configurations"], "every table of scores up to the size bound, every error on a rational grid, every split of the inputs in chunks, every exchangeable ordering",
    "Tests check shapes and one random table; the defining inequality, its direction and the finite-sample coverage are statements over all tables and all orderings of exchangeable data.",
    [C + "classification/simple_prediction.py", C + "classification/adaptive_prediction.py", C + "classification/base.py"],
    [("score and quantile comparison", C + "classification/base.py")],
    "exhaustive enumeration of bounded score tables on the real code against a rational-arithmetic reference",
    note="Exhaustive within the stated table sizes; assumes float32 comparisons of dyadic scores are exact.",
)
prop(
    "C02", "Conformal regression intervals use the finite-sample corrected level",
    "For every set of validation residuals and every error, the interval is widened by the order statistic of rank ceil((n+1)(1-error)) (or the next one), never by a smaller one, and each interval belongs to its own test point. "
    "On every exchangeable leave-one-out residual table, jackknife-minmax covers with frequency at least 1-error, and jackknife+ and CV+ with frequency at least 1-2*error.",
    ["inputs", "configurations"], "every score multiset over a small alphabet, every leave-one-out residual table up to the bound, all accepted array shapes",
    "Tests compare shapes on one random array; coverage is a counting statement over all orderings of exchangeable data, which fails only for particular sizes and errors.",
    [C + "regression/quantile.py", C + "regression/onedim_uncertainty.py", C + "regression/jackknifeplus.py", C + "regression/jackknife_minmax.py", C + "regression/cvplus.py", C + "regression/base.py"],
    [("quantile level and order statistics", C + "regression/")],
    "exhaustive enumeration of bounded residual tables (tournaments) on the real code, exact counting of coverage",
    note="Exhaustive within the table sizes; when (n+1)*error<1 the library clamps to the largest score by design, and no coverage is required there.",
)
prop(
    "C03", "Adaptive conformal error follows the documented update from every state",
    "From every current error in [0,1], every region, every target and every history of weights and past outcomes, the next error is the current one plus the step size times (target error minus weighted miss rate), clipped to [0,1]. "
    "Membership counts the region's boundary, and scalar and one-element targets behave alike; inconsistent weights or histories are rejected. Wrapping a conformal predictor changes none of its regions.",
    ["histories", "inputs"], "every reachable error of the machine on a dyadic grid, every outcome history up to the depth bound",
    "Tests take one step from one error; the invariants are about every reachable state and every history.",
    [C + "classification/adaptive_conformal_classifier.py", C + "regression/adaptive_conformal_regressor.py"],
    [("error update", C + "classification/adaptive_conformal_classifier.py")],
    "explicit-state model checking: breadth-first search to closure, every model transition replayed on the real code",
    level="model_checking", note="Closed state space on a dyadic grid; histories up to the depth bound.",
)
prop(
    "C04", "EnbPI residuals are out-of-bag and its online window is first-in first-out",
    "For every matrix of bootstrap indices, each training residual compares the target with the aggregate of exactly those models whose bootstrap sample left the point out, and the interval is the aggregate test quantile plus or minus the residual quantile at level 1-error. "
    "Over every sequence of incoming batches of any size, the stored residuals are the most recent ones, constant in number, and the intervals follow from them; the caller's arrays are not modified.",
    ["histories", "inputs"], "every bootstrap index matrix up to the bound; every sequence of batches up to the depth bound",
    "Tests use one random index matrix and a batch of one point; the window is a property of histories and the out-of-bag rule of all index matrices.",
    [C + "regression/enbpi.py"], [("out-of-bag aggregation and residual window", C + "regression/enbpi.py")],
    "explicit-state exploration of batch histories against a queue model, plus exhaustive index matrices",
    level="model_checking", note="Bounded history depth and index matrix sizes; a training point present in every bootstrap sample keeps the library's convention (residual |y|).",
)

M = "fortuna/conformal/multivalid/"
prop(
    "C05", "Multivalid calibration patches a worst cell and reports what it applies",
    "From every set of scores, values and groups, each calibration round of BatchMVP and the iterative multicalibrators either patches one of the cells (group, bucket, bucket type, class) whose calibration error is largest among the eligible ones, with exactly the documented step, or stops for a documented reason. "
    "What calibration returns for the test values is what applying its recorded patches gives, one point at a time or in any batch; values stay in [0,1]; reported losses, errors and status are those of the returned values.",
    ["inputs", "histories"], "every initial vector of values and scores over the alphabet, groups, options, and every number of rounds up to the bound",
    "Tests run one random data set and check that the error decreases; whether each round is a legal transition and whether reported and applied patches agree depends on ties, empty cells, convergence on the last round and on the group structure.",
    [M + "iterative/base.py", M + "iterative/batch_mvp.py", M + "iterative/multicalibrator.py", M + "iterative/classification/binary_multicalibrator.py", M + "iterative/classification/top_label_multicalibrator.py", M + "base.py", M + "mixins/multicalibrator.py", M + "mixins/batchmvp.py"],
    [("round loop and patch application", M + "iterative/base.py"), ("patch and error formulas", M + "mixins/")],
    "explicit-state model checking of a non-deterministic round model; every implementation run is validated as a path of the model",
    level="model_checking", note="Alphabets of 2-4 values, 4 points, up to 6 rounds; cells compared with float32 tolerances, bucket-border values not judged.",
)
prop(
    "C06", "One-shot multicalibration maps each value to the mean outcome of its bucket",
    "For every vector of values and outcomes, the calibrated value of a point is the mean outcome of the calibration points in its bucket when the bucket has enough mass, and its bucket's value otherwise; it depends on that point alone, not on the batch it comes in, and applying the patches to the calibration data leaves each patched bucket calibrated. Class-wise, binary and top-label versions agree with that rule on their own events.",
    ["inputs", "configurations"], "every vector of values and scores over the alphabet, number of buckets and minimal mass; every test batch over the alphabet",
    "Tests check shapes; independence from the batch is a statement over all pairs of batches, and the bucket rule over all ties and empty buckets.",
    [M + "one_shot/base.py", M + "one_shot/multicalibrator.py", M + "one_shot/classification/top_label_multicalibrator.py", M + "one_shot/classification/binary_multicalibrator.py"],
    [("bucketing and patches", M + "one_shot/base.py")],
    "exhaustive enumeration of value/outcome vectors and test batches on the real code",
    note="Up to 3 (quick) or 4 points over a 6-letter alphabet; equidistant values may go to either bucket.",
)
prop(
    "C07", "Max-coverage fixed-precision calibration picks the best admissible scaling",
    "For every data set, thresholds, margin and number of candidates, the chosen scaling of each side has maximal coverage among the candidates whose precision meets the target minus the margin, falls back to the identity otherwise, and is applied to the probabilities on its own side only, preserving their order and side; reported precision and coverage are those of the calibrated probabilities.",
    ["inputs", "configurations"], "every multiset of (probability, label) pairs over the alphabet up to the bound, thresholds, margins, numbers of candidates",
    "Tests use one random data set; optimality among candidates is universally quantified over the candidates and data sets, and the two sides of the threshold behave differently.",
    ["fortuna/conformal/classification/maxcovfixprec_binary_classfication.py"],
    [("grid search", "fortuna/conformal/classification/maxcovfixprec_binary_classfication.py")],
    "exhaustive enumeration of data sets on the real code against a brute-force optimum",
    note="Up to 3 (quick) or 4 points over 9 probabilities.",
)
prop(
    "C08", "Data-loader operations neither lose, repeat, reorder nor mispair data",
    "Over every sequence of loader operations (chop, split, sample, transform, change status, convert to inputs or targets loaders or arrays, rebuild) from every base loader, the batches are those of the corresponding operations on the sequence of points: inputs stay paired with their targets, nothing is lost or repeated, batch sizes are as asked, and every pass gives the same batches. Shuffling is a permutation of the data.",
    ["histories", "configurations"], "all chains of operations up to the depth bound from every base loader up to five points",
    "Tests check a handful of single operations; composition of wrappers over all chunkings cannot be sampled meaningfully.",
    ["fortuna/data/loader/base.py", "fortuna/data/loader/array_loaders.py", "fortuna/data/loader/utils.py"],
    [("loader wrappers", "fortuna/data/loader/")],
    "explicit-state model checking of the loader algebra: breadth-first over operation chains, every transition replayed on the real loaders",
    level="model_checking", note="Up to 5 points, chains of depth 2 (quick) or 3; sampling from an empty loader is outside the space.",
)
prop(
    "C09", "Combined and device-augmented loaders preserve data and labels",
    "Interposed and concatenated loaders contain every point of every loader exactly once with its own label, whatever the number, lengths and batch sizes of the loaders. Splitting batches over devices is a reshape which keeps all points in order when sizes divide and rejects or drops only what it documents. The guard on random loaders flags every loader whose passes differ in its inspected batches, and no deterministic one.",
    ["inputs", "configurations"], "every tuple of up to three loaders with every composition into batches, on one and two devices",
    "Unequal lengths and exhausted iterators only matter for some combinations; tests use one.",
    ["fortuna/data/loader/array_loaders.py", "fortuna/data/loader/utils.py", "fortuna/utils/data.py"],
    [("combining iterators", "fortuna/data/loader/")],
    "exhaustive enumeration of loader tuples on the real code",
    note="Up to 4 points per loader (quick), two simulated CPU devices.",
)

S = "fortuna/prob_model/posterior/"
prop(
    "C10", "A state repository returns the last state put in it, in memory and on disk",
    "Over every sequence of put, get, pull, update and extract on a state repository, in memory or backed by a checkpoint directory (given at construction or per call), get returns the latest state put or updated, update changes exactly the given variables, pull removes what it returns, extract returns exactly the requested fields, and at most keep checkpoints of a prefix remain. "
    "Every kind of state (maps, Gaussian, Laplace, MCMC, calibration) is restored from disk with the same fields, values, paths and order, whichever optional fields it has.",
    ["histories", "configurations"], "all operation sequences up to the depth bound over both stores, two prefixes, steps and keeps; all patterns of optional fields of all state classes",
    "Tests do one put and get per state; the store is a history-dependent object and the steps, prefixes and optional fields interact.",
    [S + "posterior_state_repository.py", "fortuna/training/train_state_repository.py", "fortuna/training/mixin.py", "fortuna/prob_model/posterior/map/map_state.py", S + "state.py"],
    [("repository operations", "fortuna/training/train_state_repository.py")],
    "explicit-state model checking: breadth-first search over a store model, every transition replayed on the real repository",
    level="model_checking", note="Depth 3 (quick) or 4; steps 1, 2, 10 (digit-order sensitive).",
)
prop(
    "C11", "A multi-state repository behaves as independent slots",
    "Over every sequence of operations on a multi-state repository of n states, slot i returns what was last put or updated in slot i and is unaffected by operations on other slots; operations without an index act on all slots in order; an index out of range is an error. "
    "A repository of MCMC samples which stores frozen parameters once reconstructs every full sample exactly, through put, get, update, pull and extract, in memory and on disk.",
    ["histories", "configurations"], "all operation sequences up to the depth bound for 1 to 3 slots, two storage modes and every choice of stochastic parameters",
    "Tests put and get each slot once; interference between slots needs histories, and partial storage needs a change of one slot after another.",
    [S + "posterior_multi_state_repository.py", S + "sgmcmc/sgmcmc_sampling_callback.py", S + "sgmcmc/sgmcmc_posterior_state_repository.py"],
    [("slots", S + "posterior_multi_state_repository.py")],
    "explicit-state model checking over slot contents, every transition replayed on the real repository",
    level="model_checking", note="Depth 3 (quick) or 4, up to 3 slots.",
)
prop(
    "C12", "A crash while saving a state loses neither the previous nor the new state",
    "Whatever operation on a state repository or checkpoint is interrupted, at whatever point, and however much of the file being written reached the disk, reopening the directory finds either the state before the operation or the one after it, complete; leftovers do not confuse later operations, and a crash during the retry is no worse.",
    ["crash_points", "histories"], "every file-system operation of every mutating repository operation after every short history, every torn prefix of a written file, and a second crash during recovery",
    "No test interrupts a save; atomicity is about all crash points.",
    ["fortuna/training/mixin.py", "fortuna/training/train_state_repository.py"],
    [("save and update", "fortuna/training/mixin.py")],
    "exhaustive fault enumeration: directory snapshots at every file-system operation of the real code, torn writes, nested crashes",
    level="fault_enumeration", note="Process crashes only (no loss of unsynced pages); flax's Python file mode.",
)
prop(
    "C13", "The training schedule performs exactly the configured updates and events",
    "For every number of batches and epochs, validation cadence, checkpoint cadence, gradient accumulation, early-stopping option and sequence of validation losses, training performs exactly one step per batch in order, updates parameters exactly every accumulation steps (also across epoch borders), validates on the configured epochs only, stops after the configured number of validations without improvement, saves checkpoints at the configured steps, keeps the best state when early stopping, calls callbacks in order, and returns histories which are the per-epoch means. "
    "Cadences that are disabled produce none of their events.",
    ["configurations", "histories"], "all configurations and all sequences of validation losses over a small alphabet up to the bound",
    "Tests train for a few epochs and look at shapes; schedules go wrong at borders (last batch of an epoch, ties of losses, disabled cadences).",
    ["fortuna/training/trainer.py", "fortuna/training/mixin.py", "fortuna/training/train_state_repository.py"],
    [("training loop", "fortuna/training/trainer.py")],
    "explicit-state model checking of the training automaton, every run of the model replayed on the real trainer",
    level="model_checking", note="Up to 3 batches and 4 epochs (quick), 4 and 6 (thorough).",
)
prop(
    "C14", "Gradient accumulation, clipping and scaling give the documented update",
    "For every sequence of micro-batches, k-fold accumulation gives the parameters of one update on the mean of the k gradients, clipping rescales a gradient exactly when its norm exceeds the bound, and a step which overflows under dynamic loss scaling leaves parameters and optimizer state unchanged and lowers the scale. "
    "Compiled training and training on several devices give the same parameters and losses as plain training on one device.",
    ["inputs", "histories"], "every sequence of gradients over an alphabet (zero, small, large, overflowing) up to the bound for each optimizer, accumulation, clipping and device configuration",
    "Tests never check the value of an update; overflow in the middle of an accumulation window and averaging across devices need specific sequences.",
    ["fortuna/training/trainer.py", "fortuna/utils/training.py"],
    [("training step", "fortuna/training/trainer.py")],
    "explicit-state model checking of an update automaton in float64, every trace replayed on the real trainers",
    level="model_checking", note="Two simulated CPU devices; float32 tolerance.",
)


prop(
    "C15", "Freezing parameters changes only the trainable ones, in every posterior",
    "For every posterior approximation and every subset of parameter leaves a freeze function can declare frozen, fitting leaves exactly the frozen leaves unchanged, and the trainable ones follow the same updates as masked gradient descent on the negative log joint. "
    "The posterior state, and every sample taken from it, has each parameter in its own place.",
    ["configurations", "programs"], "all subsets of parameter leaves x seven posterior approximations x classification and regression x compiled or not, one device or two",
    "Tests freeze one hand-picked subset and look at shapes; splitting and merging nested parameters goes wrong only for particular subsets or key orders.",
    ["fortuna/prob_model/posterior/base.py", "fortuna/utils/freeze.py", "fortuna/utils/nested_dicts.py", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py"],
    [("trainable paths", "fortuna/utils/freeze.py")],
    "explicit-state model checking: every subset of leaves; a masked gradient-descent model, every trace replayed on the real posteriors",
    level="exploration", note="Models of four to six leaves; float32 tolerance; the noise of ADVI, SGMCMC and Laplace made vanishing where the mean is compared.",
)


prop(
    "C16", "Running statistics advance once per training batch, and only there",
    "Models with mutable variables (batch normalization) end training with exactly the running statistics obtained by applying the documented update once per training batch, in order, from the initial ones; this holds in every posterior approximation, with gradient accumulation, freezing, several devices, refitting and separate mean and variance models. "
    "Evaluating, calibrating or predicting reads the stored statistics, changes none, and gives every point the output of the network at that point.",
    ["histories", "configurations"], "all sequences of batches up to twelve x model kinds x posteriors x accumulation x devices",
    "Tests train models with mutables but never compare the statistics; a forgotten, doubled or crossed update leaves shapes and losses plausible.",
    ["fortuna/model/model_manager/regression.py", "fortuna/model/model_manager/classification.py", "fortuna/training/trainer.py", "fortuna/likelihood/base.py", "fortuna/prob_model/posterior/map/map_trainer.py"],
    [("running statistics", "fortuna/training/trainer.py"), ("two models, one mutable", "fortuna/model/model_manager/regression.py")],
    "explicit-state model checking: state (parameters, statistics, batches seen); independent numpy network; every trace replayed on the real trainers",
    level="model_checking", note="Up to four points, three epochs, models of four to eight leaves; float32 tolerance.",
)

prop(
    "C17", "Fits are isolated from each other and honour callbacks",
    "A fit reads its configuration and never changes it or any default, so what a fit returns depends on its own configuration and data only: not on fits made before in the process with shared, default or other configuration objects, nor on configurations used before on the same model object. "
    "Every posterior approximation calls the user's callbacks at the start and end of each epoch and after each step, in order, and goes on with the states they return.",
    ["histories", "configurations", "programs"], "all ordered pairs of posterior approximations x default and shared configuration objects; all sequences of configurations up to length two (three, thorough)",
    "Tests make a new configuration for each fit; contamination through shared default objects, compiled-function caches or model attributes needs two fits in a particular order.",
    ["fortuna/prob_model/fit_config/base.py", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py", "fortuna/prob_model/posterior/sngp/sngp_posterior.py", "fortuna/training/trainer.py"],
    [("configuration written by a sampler", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py"), ("callbacks", "fortuna/training/trainer.py")],
    "stateless model checking: every sequence of fits up to the bound on the real code, differential oracle of the last fit alone; exact callback traces",
    level="exploration", note="Tiny classifier with constant initial parameters; sequences of length two (quick) and three (thorough).",
)

prop(
    "C18", "SGMCMC chains follow their dynamics and samples are taken when documented",
    "SGHMC and (cyclical) SGLD move the chain exactly as their equations say: gradient, momentum decay, step schedule, preconditioner and noise of the step enter once and with the right scale, the noise of two steps or leaves is never the same, exploration steps of cyclical SGLD are noiseless descent. "
    "The stored posterior samples are the chain states after the burn-in, every `n_thinning` steps (for cyclical SGLD: at the sampling steps of each cycle), in order, exactly `n_samples` of them, and training stops or refuses when the budget of steps cannot provide them.",
    ["histories", "configurations", "inputs"], "all sequences of gradients over an alphabet up to the bound x all hyperparameters of small grids; all burn-in, thinning, cycle, exploration, sample, batch and epoch counts of small grids",
    "The tests fit once with one configuration and assert nothing about the chain; an off-by-one in burn-in, a cycle phase or a noise scale changes results silently.",
    ["fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_integrator.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py",
     "fortuna/prob_model/posterior/sgmcmc/sgmcmc_preconditioner.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py", "fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py"],
    [("integrator", "fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py"), ("sampling callback", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py")],
    "model checking: explicit-state exploration of the integrators' transition system in lockstep with an independent numpy model, and of the sampling schedule on whole fits with recorded chains",
    level="model_checking", note="Model and code are stepped together on every transition; noise is measured from a gradient-free chain.",
)
prop(
    "C19", "Chain diagnostics equal their definitions",
    "The effective sample size of a chain is the number of samples divided by the integrated autocorrelation time truncated at the threshold, per coordinate of any nested structure; the kernel Stein discrepancy of samples and score gradients is that of the inverse multi-quadric kernel with the given or estimated hyperparameters.",
    ["inputs"], "all chains over an alphabet up to the bound; all pairs and triples of samples and gradients over small alphabets",
    "Tests check two chains; truncation boundaries, constant chains and explicit kernel hyperparameters are not exercised (the last crashed).",
    ["fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py"],
    [("diagnostics", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py")],
    "stateless model checking: exhaustive enumeration of chains up to the bound on the real code, numpy oracle of direct sums",
    level="exploration", note="Chains of length up to six (quick) and eight (thorough).",
)
prop(
    "C20", "Every predictive statistic is that of one mixture of posterior members",
    "For a key and a number of draws, each predictive statistic (means, modes, variances, entropies, log-probabilities, quantiles, credible intervals, samples, outputs, joint log-probabilities) is the documented functional of one mixture of posterior members: the same draws for all points and for all batches, with the parameters, running state and calibration of one member each. "
    "The result has one entry per point in the order of the data, whatever the batch sizes, compilation and number of devices, and different keys reach different mixtures.",
    ["inputs", "configurations", "programs"], "two known members x all compositions of the points in batches x draws x keys x devices; all mixtures enumerated to decode each result",
    "Tests check shapes on one batch; crossing members' calibration, drawing anew per batch or permuting points over devices keeps all shapes.",
    ["fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py"],
    [("draws shared by batches", "fortuna/prob_model/predictive/base.py"), ("member selection", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py")],
    "stateless model checking: every batching x draws x key x device configuration on the real code; the result must be explained by one of all enumerated mixtures",
    level="exploration", note="Four points, two members; entropies of regression are Monte Carlo by design and compared with quadrature at a margin.",
)
prop(
    "C21", "Likelihoods, priors and output layers equal their definitions",
    "The probabilistic output layers, likelihoods, priors and joints compute the categorical and Gaussian log-probabilities, means, modes, variances, entropies, intervals and samples of their definitions; mini-batch log joints are the prior plus the likelihood scaled by data-set size over batch size; results follow the order of the data for every batching, with or without output calibration and on one or more devices; unsupported requests are refused.",
    ["inputs", "configurations"], "all outputs over an alphabet with extreme values x all targets; all batchings x calibration x devices x auxiliary objects",
    "Tests assert shapes for one random batch; scaling, axis and sign errors, or a statistic taken from the wrong half of the outputs, pass them.",
    ["fortuna/likelihood/base.py", "fortuna/likelihood/classification.py", "fortuna/likelihood/regression.py", "fortuna/prob_output_layer/classification.py", "fortuna/prob_output_layer/regression.py", "fortuna/prob_model/joint/base.py"],
    [("log joint scaling", "fortuna/likelihood/base.py"), ("output layers", "fortuna/prob_output_layer/regression.py")],
    "stateless model checking: exhaustive enumeration of small outputs, targets, batchings and configurations on the real code, numpy oracle of the definitions",
    level="exploration", note="Up to three classes or target dimensions, four points.",
)
prop(
    "C22", "Calibration is gradient descent on the calibration parameters only",
    "Calibrating a probabilistic model minimises the calibration loss of the members' outputs over the output calibrator alone, by the configured optimiser: parameters, running state, losses, metrics and early stopping are those of plain descent; model parameters, statistics and the posterior are untouched, every member receives the calibration, and later predictions use it. "
    "Output calibration models and calibration models do the same for given outputs or a model, training only what is not frozen, on one or several devices, and restore from their checkpoints.",
    ["inputs", "configurations", "histories"], "all batchings x calibrators x validation x modes (jit, no jit, devices) of a grid, each epoch compared with an independent descent, over all mixtures of members",
    "Tests run one epoch without assertions; a gradient flowing into the wrong group, a misaligned output cache or a lost running state is invisible there (three crashes and a device mix-up were).",
    ["fortuna/training/output_calibrator.py", "fortuna/prob_model/base.py", "fortuna/prob_model/prob_model_calibrator.py", "fortuna/output_calib_model/base.py", "fortuna/output_calib_model/loss.py", "fortuna/calib_model/base.py", "fortuna/calib_model/loss.py"],
    [("calibration loop", "fortuna/training/output_calibrator.py"), ("calibration models", "fortuna/calib_model/base.py")],
    "stateless model checking: every configuration of a grid on the real code, each epoch against an independent numpy descent",
    level="exploration", note="Four points, two members, at most three epochs.",
)
prop(
    "C23", "Credible and conformal sets of classifiers equal their definitions",
    "The credible set of a point contains the classes in descending predictive probability until the sum exceeds one minus the error (all classes when it never does); the conformal set contains the labels whose rank of predictive probability among the training points, under the posterior reweighted by the label itself, exceeds error times (n+1). "
    "Both hold for every error in [0, 1], for almost deterministic members, batching, key and device count, are those of one mixture of members, and hence shrink as the error grows.",
    ["inputs", "configurations"], "two known members x all batchings of training and test points x draws x keys x devices x a grid of errors with both extremes; all mixtures enumerated",
    "Tests check shapes at one error; extremes and underflow of the importance weights (both were wrong) need particular errors and posteriors.",
    ["fortuna/prob_model/predictive/classification.py", "fortuna/data/loader/base.py"],
    [("credible sets", "fortuna/prob_model/predictive/classification.py"), ("conformal sets", "fortuna/prob_model/predictive/classification.py")],
    "stateless model checking: every batching x draws x key x error configuration on the real code; the sets must be those of one of all enumerated mixtures",
    level="exploration", note="Four training and four test points, three classes, two members.",
)

prop(
    "C24", "Metrics, losses and kernel regression equal their definitions",
    "Accuracy, Brier score (binary and multi-class), the regression errors and the interval coverage equal their textbook definitions; the calibration errors are the count-weighted average, respectively the maximum, of the gap between accuracy and confidence over ten consecutive confidence bins which cover every point; "
    "cross-entropy, focal loss and variance-scaled squared error, and their gradients, are finite and correct for every finite logit; Nadaraya-Watson regression is the kernel-weighted average of the targets. Arrays of the wrong rank are refused.",
    ["inputs"], "all predictions, confidences, targets, logits and training sets of up to four points over alphabets with extremes",
    "Only the shape of the Brier score is tested; boundary confidences, saturated logits, constant targets and the weighting of the maximum error (all of the last three were wrong) are not.",
    ["fortuna/metric/classification.py", "fortuna/metric/regression.py", "fortuna/loss/classification/focal_loss.py", "fortuna/loss/classification/cross_entropy.py", "fortuna/loss/regression/scaled_mse.py", "fortuna/kernel_regression/nadaraya_watson.py"],
    [("calibration errors", "fortuna/metric/classification.py"), ("focal loss", "fortuna/loss/classification/focal_loss.py")],
    "stateless model checking: exhaustive enumeration of small inputs on the real code, numpy oracle of the definitions; bins are decoded from the reported counts",
    level="exploration", note="Up to four points (six for multisets of confidences).",
)
prop(
    "C25", "Nested structures, freezing and encodings are handled exactly",
    "Reading, assigning, pairing, splitting, searching and merging nested dictionaries, and partitioning parameters into trainable and frozen ones, act on exactly the given paths, in the given order, for every tree, never change their arguments, and refuse missing paths; "
    "frozen optimisers leave frozen leaves alone and treat the others as the plain optimiser would; string paths survive encoding and checkpoint restoration; clipping, schedules, input shapes, loader randomness checks, trainer selection and configuration hashing follow their definitions.",
    ["inputs", "programs"], "all trees of depth three over two keys x all paths, pairs of assignments, labellings and merges; all short path lists, schedules and shapes",
    "Tests use one tree; sibling subtrees, unordered keys, empty selections and missing freeze functions (wrong) are not sampled.",
    ["fortuna/utils/nested_dicts.py", "fortuna/utils/freeze.py", "fortuna/utils/strings.py", "fortuna/utils/training.py", "fortuna/utils/optimizer.py", "fortuna/utils/data.py", "fortuna/utils/builtins.py", "fortuna/utils/device.py"],
    [("nested assignment", "fortuna/utils/nested_dicts.py"), ("trainable paths", "fortuna/utils/freeze.py")],
    "stateless model checking: exhaustive enumeration of trees and operations up to the bound on the real code, functional oracle",
    level="exploration", note="675 trees (and reversed key orders), up to 256 labellings each.",
)
prop(
    "C26", "Out-of-distribution scores equal their definitions",
    "The Mahalanobis detector scores a point by the smallest squared distance to a class mean under the shared within-class covariance (pseudo-)inverse; the DDU detector by the negative log density of one Gaussian per class. Scores of a point do not depend on the batch or on previous fits, are numbers whenever a class could be estimated, and a detector refuses to score before it is fitted.",
    ["inputs", "histories"], "all labelled data sets of up to four scalar (five, thorough) and six planar embeddings over alphabets, with missing, singleton and degenerate classes, and refits",
    "There are no tests; classes without enough data made all scores meaningless, and a wrong normaliser or axis changes no shape.",
    ["fortuna/ood_detection/mahalanobis.py", "fortuna/ood_detection/ddu.py"],
    [("shared covariance", "fortuna/ood_detection/mahalanobis.py"), ("class densities", "fortuna/ood_detection/ddu.py")],
    "stateless model checking: exhaustive enumeration of small labelled data sets on the real code, numpy oracle",
    level="exploration", note="Classes are taken as equally likely, as implemented and cited.",
)

prop(
    "C27", "Random draws are never reused, and repeat with the seed",
    "Every operation of a model (initialization, fits, posterior and predictive sampling, statistics) draws from keys of its own: no two operations of a history, and no two steps of a fit, use the same key. The same seed and history give the same draws and results. An operation given an explicit key depends on that key only and neither reads nor advances the generator of the model. Keys of different calls of a generator, and everything that can be split from them, never coincide.",
    ["histories", "programs"], "for every posterior and kind of model, histories in which every ordered pair of operations is adjacent, explicit keys interposed everywhere; all key derivation trees up to three levels",
    "Reused keys make draws which are taken as independent equal, for instance a posterior member and a member of the mixture of the preceding prediction, and only for particular sequences of calls and numbers of draws.",
    ["fortuna/utils/random.py", "fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/regression.py", "fortuna/training/trainer.py"],
    [("key generation", "fortuna/utils/random.py"), ("keys of predictions", "fortuna/prob_model/predictive/base.py"), ("keys of training steps", "fortuna/training/trainer.py")],
    "stateless model checking: exhaustive exploration of operation histories of the real code with all random keys recorded, and enumeration of key derivation trees",
    level="exploration",
)

prop(
    "C28", "The Laplace posterior is the Gaussian it is defined to be",
    "At a maximum a posteriori state, the Laplace approximation of the trainable parameters is the Gaussian centred at it whose precision is that of the prior plus the diagonal of the generalized Gauss-Newton Hessian of the log-likelihood over all the training data, for every set of frozen parameters, type of prior, output calibrator, normalization layer, batching and number of devices. Posterior samples follow it, frozen parameters keep their value in all samples, and the fit leaves the maximum, the running statistics and the calibration as they are. Tuning the prior picks the candidate of best validation score, and samples use it.",
    ["inputs", "programs", "histories"], "over classification and regression, every subset of trainable leaves, prior, calibrator, normalization, batching of four points and one or two simulated devices; all assignments of validation scores to the candidates of a tuned prior",
    "The Hessian is accumulated over batches and devices and matched with parameters by position; an error of a batch, a factor or an order gives plausible uncertainties, and every combination of frozen leaves, prior and device count is another program.",
    ["fortuna/prob_model/posterior/laplace/laplace_posterior.py", "fortuna/prob_model/posterior/laplace/laplace_state.py"],
    [("Hessian, fit and sampling", "fortuna/prob_model/posterior/laplace/laplace_posterior.py")],
    "stateless model checking: exhaustive exploration of fits and samples of the real code over all bounded configurations, dense reference as oracle",
    level="exploration",
)

prop(
    "C29", "The SWAG posterior has the moments of the iterates of its fit",
    "After a SWAG fit, whatever the number of batches per epoch, frozen parameters, normalization, devices and compilation, mean and standard deviation are those of all iterates of the trainable parameters, the deviations are the last ones from the running mean, as many as the rank, and the state has the last iterate as parameters. Checkpoints hold the moments up to their step; a further fit starts afresh. Samples are Gaussian with that mean and half the sum of the diagonal and low-rank covariances, and frozen parameters keep their value.",
    ["histories", "programs"], "all sequences of up to six (ten, thorough) iterates over a two-letter alphabet, divided in every way into equal epochs, ranks two to four; every subset of trainable leaves, batching, one or two simulated devices, with and without jit",
    "The tests only fit and sample; moments which forget iterates or weight them unevenly give plausible uncertainties, and the error depends on how steps fall into epochs.",
    ["fortuna/prob_model/posterior/swag/swag_trainer.py", "fortuna/prob_model/posterior/swag/swag_posterior.py"],
    [("running moments", "fortuna/prob_model/posterior/swag/swag_trainer.py"), ("sampling", "fortuna/prob_model/posterior/swag/swag_posterior.py")],
    "stateless model checking: exhaustive enumeration of iterate histories driven through real fits by a scripted optimizer, moment oracle",
    level="exploration",
)

prop(
    "C30", "Probit scaling divides outputs by the variance of the linearized model",
    "The probit transformation divides each output, or each of the top-k outputs and each final token, by one plus pi/8 times the variance that the given log-variance of the scaled parameters induces on it through the linearized model, conditionally on the remembered tokens before it; only the parameters selected by the freeze function count. Auxiliary outputs and the other arguments pass unchanged, no gradient reaches the parameters through stopped outputs, and a model with the probit editor (also an SNGP model, which applies its editor once) gives exactly the scaled outputs, in training and in prediction, for batches of any size.",
    ["inputs", "programs"], "over all numbers of tokens, final and remembered tokens, outputs, top-k, sets of scaled parameters, auxiliary outputs and input structures within the bounds, and all models with the editor",
    "The variance is assembled from Jacobian-vector products, incremental inverses over remembered tokens and positional tricks; a wrong row, norm or scale gives plausible confidences, and every shape of the input is another program.",
    ["fortuna/utils/probit.py", "fortuna/utils/grad.py", "fortuna/model_editor/probit.py", "fortuna/model/model_manager/classification.py"],
    [("scaling", "fortuna/utils/probit.py"), ("editor", "fortuna/model_editor/probit.py"), ("models", "fortuna/model/model_manager/classification.py")],
    "stateless model checking: exhaustive exploration of the real code over all bounded shapes and options, dense Jacobians and Schur complements as oracle",
    level="exploration",
)

prop(
    "C31", "Hallucination scores belong to a text and context, not to their batch",
    "The score of a generated text given its context is the geometric mean probability of its tokens under the generative model, and its embedding that of the embedding model, whatever the batch size, the order and the other texts of the batch. Groups are sets of points defined by quantiles of the grouping scores: fitting, predicting, balancing classes, saving and loading leave the data of the caller unchanged and agree with each other; a multivalid calibration on them maps scores of all texts to probabilities; the text cleaner changes only blanks and case, and capitalizes every sentence.",
    ["inputs", "histories"], "over all pairs of contexts and texts up to three tokens in all batches up to three, all data sets of up to four pairs through fit, predict, balance, save and load, all score vectors for grouping and all strings for cleaning",
    "Padding, positions and masks interact with the model only in batches of mixed lengths, and groups only with particular ties of scores; tests use one batch and one data set.",
    ["fortuna/hallucination/base.py", "fortuna/hallucination/grouping/clustering/base.py", "fortuna/hallucination/scoring/inv_perplexity.py", "fortuna/hallucination/utils/string.py"],
    [("detector", "fortuna/hallucination/base.py"), ("groups", "fortuna/hallucination/grouping/clustering/base.py"), ("scores", "fortuna/hallucination/scoring/inv_perplexity.py")],
    "stateless model checking: exhaustive exploration of the real code over all bounded batches and data sets, one-text-at-a-time reference as oracle",
    level="exploration",
)

prop(
    "C32", "A posterior survives saving, loading, calibration and further fits",
    "Saving the posterior of a model to a directory and loading it into another model of the same architecture gives the same posterior, samples included, for every posterior approximation, with and without frozen parameters; what a model and a directory hold depends only on the last operation which wrote it, whatever the sequence of saves, loads and calibration updates of several models. Loading from a directory which holds nothing, or saving a model which holds nothing, fails and changes nothing. A further fit, from a directory or from the current state, starts from exactly that state of each member, leaves the directory it started from untouched unless it saves there, and its own directory holds its posterior.",
    ["histories", "programs", "configurations"], "over all sequences of operations up to the depth bound on two models and two directories, for every posterior approximation, task and freezing, and all ways to fit further",
    "States are written by several routes (checkpoints of trainers, dumped states, explicit saves) in one layout per posterior and are read lazily; which combinations of origin, directory and option work only shows when all are tried.",
    ["fortuna/prob_model/base.py", "fortuna/prob_model/posterior/base.py", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py"],
    [("save and load", "fortuna/prob_model/posterior/base.py"), ("ensembles", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py"), ("chains", "fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py")],
    "explicit-state model checking: breadth-first over a model of models and directories, every transition replayed on the implementation",
    level="model_checking",
)

OVER = {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}


def main():
    assert all(set(p['over']) <= OVER for p in P)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert all(os.path.isfile("/repo/" + x) for x in p["files"]), p["files"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./run.sh setup",
        "checks": [
            {"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
             "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
            for p in P if not p["na"]
        ],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


def consts(pid):
    import ast

    out = {}
    for n in ast.parse(open(os.path.join(HERE, "mc", "props", pid.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "LEVEL"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def design():
    """DESIGN.md from docs/ and the catalog."""
    rd = lambda f: open(os.path.join(HERE, f)).read()
    o = [rd("docs/head.md")]
    for p in P:
        o.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
        if p["na"]:
            o.append(f"- **Not applicable**: {p['na']}\n\n")
            continue
        c = consts(p["id"])
        assert c["LEVEL"] == p["level"], p["id"]
        o.append(f"- **How**: {p['technique']} (level: {p['level']}).\n- **Enumerated**: {c['RULE']}.\n- **Bounds**: {p['note']}\n")
        if c.get("ASSUMPTIONS"):
            o.append("- **Assumes**: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        o.append(f"- **Beyond tests**: {p['why']}\n\n")
    o.append(rd("docs/tail.md"))
    o.append("## Genuine defects found\n\n")
    for l in rd("known_findings.txt").splitlines():
        if l.startswith("fixed: property="):
            pid, com, what = l[16:].split(" ", 2)
            o.append(f"- {pid}, repaired in {com}: {what}\n")
        elif l.startswith("known: property="):
            o.append(f"- recorded, not repaired: {l[16:]}\n")
    o.append("\n## Planted bugs\n\nEach was written from a property and the code; `seeded/ID` has the patch, a demonstration and what it needs.\n"
             "`missed at first` says that the check did not see the bug as it stood when the bug was written, and what was done.\n\n| bug | property | needs | caught by | notes |\n|---|---|---|---|---|\n")
    caught = dict((l.split("\t") + [""])[:1] + [(l.split("\t") + ["", ""])[1:3]] for l in rd("docs/caught.tsv").splitlines() if l)
    d = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, b, "meta.json")))
        k = caught.get(b, ["?", ""])
        o.append(f"| {b} | {m['property']} | {m['needs']} | {k[0]} | {k[1]} |\n")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("".join(o))


if __name__ == "__main__":
    main()
