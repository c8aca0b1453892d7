#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, pathlib
B="irtorch/models/base_irt_model.py"; EV="irtorch/evaluator.py"; PL="irtorch/plotter.py"
AE="irtorch/estimation_algorithms/ae.py"; VAE="irtorch/estimation_algorithms/vae.py"
JML="irtorch/estimation_algorithms/jml.py"; MML="irtorch/estimation_algorithms/mml.py"
IU="irtorch/_internal_utils.py"; U="irtorch/utils.py"; OD="irtorch/outlier_detector.py"
LD="irtorch/load_dataset.py"; BIT="irtorch/rescale/bit.py"
M=lambda n:f"irtorch/models/{n}.py"; R=lambda n:f"irtorch/rescale/{n}.py"; T=lambda n:f"irtorch/torch_modules/{n}.py"
MODELS=[M(x) for x in "one_parameter_logistic two_parameter_logistic three_parameter_logistic generalized_partial_credit graded_response nominal_response nested_logit monotone_nn monotone_polynomial monotone_b_spline surprisal_spline model_mix".split()]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                     **({"observe_at":observe} if observe else {}),**({"state":state} if state else {}))))

p("C01","Data handed in by the caller is never modified",
 "No public operation (fitting, scoring, evaluating, plotting, rescaling, imputing, outlier detection) changes the contents of a tensor, list, array or data frame that the caller passed in, nor its gradient flag. The response data stored with a fitted model and library-wide shared objects such as plotting colour palettes are equally left alone by evaluation and plotting.",
 ["inputs","histories"],"every public entry point, every input tensor whether or not it shares storage with what the library keeps, every sequence of calls",
 "Tests pass fresh tensors and look at return values; an in-place write through a view of the argument only shows for particular inputs (e.g. those that contain NaN) and in later calls.",
 [B,EV,PL,IU,U,OD,BIT,"irtorch/irt_dataset.py"],
 [("copies are taken before masked in-place writes",IU+"::one_hot_encode_test_data"),("clone before residual writes",EV+"::Evaluator.residuals"),("clone before enabling gradients",B+"::expected_item_score_gradients")],
 ["arguments after the call","stored training data after evaluation"])
p("C02","Scoring, evaluating and plotting leave the fitted model as it was",
 "Computing latent scores, standard errors, information, fit statistics, predictions, plots or outlier bounds does not change the model's parameters, scale transformations, stored training data or training scores, and does not leave parameters frozen, gradients switched off or the model on another device. Whatever is switched temporarily during such an operation is switched back on every exit, including when an error is raised half-way.",
 ["histories","fault_sequences"],"every read-only operation on a fitted model and every exit from it, normal or exceptional",
 "Tests call an operation once on a tiny model and check its value; the leftover state only matters to a later fit or save, or after an exception that tests do not provoke.",
 [B,EV,PL,OD,BIT,R("flow"),MML],
 [("finally restores device and gradient flags",B+"::_ml_map_theta_scores"),("finally restores device",B+"::_initial_theta_from_training_data"),("gradients frozen only around the optimisation",BIT)],
 ["model parameters, requires_grad and device after the call"])
p("C03","Missing responses never contribute to a result",
 "A missing response, coded as NaN or as -1, contributes nothing to any log-likelihood, latent score, loss, fit statistic or observed proportion: the result equals the one computed from the observed responses alone. Both codings are treated as missing everywhere, and every model leaves missing entries out in the same way.",
 ["inputs"],"every response matrix with any pattern of NaN and -1, every model and every statistic",
 "Most tests use complete data or one pattern with one missing coding in one model; the masks of the other models and statistics are never exercised.",
 [B,IU,EV,"irtorch/irt_dataset.py",AE,VAE,MML,JML]+MODELS,
 [("missing mask covers NaN and -1",IU+"::get_missing_mask"),("mask applied before the likelihood",B+"::log_likelihood"),("nan-ignoring reductions",EV)],
 ["log-likelihoods and fit statistics"])
p("C04","Respondents, items and latent scores stay aligned",
 "Row i of every per-respondent result belongs to row i of the data, and column j to item j: data, latent scores, missing masks and weights are always reordered, repeated, sliced and reshaped together. Per-response log-likelihoods come back in respondent-by-item order with one entry for every response, missing or not.",
 ["inputs","configurations"],"all batch sizes, numbers of respondents, items, integration points and importance samples, all orderings of the data",
 "A pairing error leaves shapes intact and is invisible with one item, one respondent, sorted or homogeneous data, which is what small tests use.",
 [B,EV,MML,VAE,JML,"irtorch/irt_dataset.py",OD]+[MODELS[-1]],
 [("repeat / repeat_interleave pairing",B+"::_eap_theta_scores"),("common sort index",EV+"::latent_group_probabilities"),("scatter back by mask",B+"::log_likelihood"),("index returned with the batch","irtorch/irt_dataset.py")],
 ["per-respondent outputs"])
p("C05","Chained scale transformations compose correctly",
 "With several scale transformations attached, going to the transformed scale applies them in the order they were added, and going back applies their inverses in the opposite order. The Jacobian of the chain is the product of the individual Jacobians, each taken at the point reached so far, with later scales multiplying from the left.",
 ["configurations"],"every list of attached scales of any length and kind",
 "Tests attach a single mocked or real scale; with one scale every order is the same.",
 [B],[("forward fold",B+"::transform_theta"),("backward fold",B+"::inverse_transform_theta"),("chain rule",B+"::theta_transform_jacobian")],["transformed theta, inverse and Jacobian"])
p("C06","Each scale's inverse and Jacobian belong to its own transformation",
 "For every invertible scale the inverse undoes exactly the operations of the forward transformation, in opposite order and with the same fitted quantities, and the Jacobian differentiates that same forward transformation. A scale that cannot be inverted or differentiated says so with an error and never returns a wrong value.",
 ["inputs","configurations"],"every scale class, all its settings and every theta",
 "Tests check one direction at a few points for some settings; settings such as reversed directions or standardisation are not tested in both directions.",
 [R("scale"),R("reverse"),R("rotate"),R("rank_cdf"),R("flow"),R("link_common_items"),BIT],
 [("paired transform/inverse/jacobian methods",R("scale")+"::Scale"),("refusal",BIT+"::Bit.inverse")],["inverse(transform(theta))"])
p("C07","Models are only evaluated at original-scale latent scores",
 "Item probabilities, expected scores and likelihoods are always computed at latent scores on the model's own (untransformed) scale, and scale transformations are applied only to what is reported or plotted. When a function receives or shows transformed scores, they are converted back before the model is evaluated, and quantities on the two scales are never mixed.",
 ["configurations"],"every evaluation, plotting and rescaling function, with any scale attached",
 "Tests run these functions without an attached scale, where both scales coincide.",
 [B,EV,PL,BIT,R("rotate"),R("link_common_items"),OD],
 [("scores requested unscaled for evaluation",EV+"::_evaluate_data_theta_input"),("transform at the end of scoring",B+"::latent_scores"),("inverse before evaluating on plotted grids",PL)],["evaluation results with a scale attached"])
p("C08","Saving and loading a model restores all of it",
 "A model that is saved and loaded into a freshly constructed model of the same kind behaves identically: parameters, the fitting algorithm with its training scores, and the scale transformations all come back. Everything the saved file needs to hold is written under the name the loader reads, and tensors that are part of the fitted state are part of the saved state.",
 ["histories"],"every model, algorithm and scale configuration",
 "Tests save and load one simple model and compare a few parameters.",
 [B]+MODELS+[T("rational_quadratic_spline"),T("softplus_linear"),T("gaussian_mixture_model")],
 [("save keys",B+"::save_model"),("load keys",B+"::load_model"),("buffers registered","irtorch/torch_modules")],["model state after load"])
p("C09","Training ends with the best state that was seen",
 "When training stops, for whichever reason, the parameters in use are those of the step with the best recorded loss, restored for every component that was trained (model, encoder, latent scores, latent covariance). The snapshot is an independent copy that further training cannot change, it is taken exactly when the loss improves, and the running best is updated with it.",
 ["histories","configurations"],"every training run of every algorithm, with or without validation data, stopped by convergence or by the epoch limit",
 "Tests run one to a few epochs, where the last state is the best state.",
 [AE,VAE,MML,JML],[("best-state bookkeeping",AE),("restore after the loop",AE+"::AE.fit"),("restore after the loop",MML+"::MML.fit"),("restore after the loop",JML+"::JML.fit")],["model parameters after fit"])
p("C10","Refitting starts from a clean slate",
 "Calling fit again on the same algorithm object starts with fresh bookkeeping: best-loss tracking, convergence and annealing counters and any result derived from an earlier fit are reset, never carried over. A fit therefore gives the same outcome as one on a newly made algorithm object given the same starting parameters.",
 ["histories"],"any sequence of fits with one algorithm object, on the same or other data",
 "Tests fit each algorithm object once.",
 [AE,VAE,MML,JML,EV],[("bookkeeping initialised at start of training",AE+"::AE._training_loop")],["training behaviour of the second fit"])
p("C11","All randomness is controlled by the documented seed",
 "Setting the library seed fixes every random choice: all randomness comes from generators that the seed function seeds, nothing reseeds them on its own, and no operation draws from the clock, the operating system or an unseeded private generator.",
 ["histories"],"every sequence of library calls after seeding",
 "Tests do not compare two seeded runs of every stochastic routine.",
 [U,IU,VAE,MML,"irtorch/quantile_mv_normal.py",BIT],[("seeds torch, numpy and random","irtorch/utils.py or config"),("torch generators",MML)],["two seeded runs"])
p("C12","Unknown option values are rejected and every documented one works",
 "Every option that selects among named alternatives accepts each documented name and gives it its own behaviour. A value that is not documented is rejected with an error, and is never silently treated as one of the alternatives.",
 ["inputs"],"every string option of every public function and every possible value",
 "Tests try one or two valid values and at most one invalid value for some options.",
 [B,EV,PL,U,AE,VAE,MML,JML,OD,BIT]+[M("monotone_nn"),M("monotone_polynomial")],[("validation of option names",B+"::latent_scores"),("validation",EV)],["exceptions on invalid options"])
p("C13","Monotone models are monotone for every parameter value",
 "In the monotone models (monotone network, monotone polynomial, monotone B-spline and their building blocks) the item curves never decrease in a latent variable that relates positively to the item and never increase in one that relates negatively, whatever values the trainable parameters take.",
 ["inputs","histories"],"every value of the unconstrained parameters and every latent score",
 "Tests check a handful of random parameter draws, or only shapes.",
 [M("monotone_nn"),M("monotone_polynomial"),M("monotone_b_spline"),T("softplus_linear"),T("monotone_polynomial"),T("negation_layer"),"irtorch/activation_functions.py"],
 [("softplus on weights",T("softplus_linear")),("squared/exponentiated polynomial coefficients",T("monotone_polynomial")),("cumulative sums of positive increments",M("monotone_b_spline"))],["expected item scores along theta"])
p("C14","Response probabilities form a distribution over existing categories",
 "For every model, parameter value and latent score the category probabilities of each item are non-negative and sum to one over the categories that the item has. Categories an item does not have get probability zero, and items with fewer categories are unaffected by the presence of items with more.",
 ["inputs","configurations"],"every model, every mixture of category counts, every parameter value and latent score",
 "Tests use one or two category layouts per model and random weights; they cannot cover all parameter values.",
 [B]+MODELS,[("softmax over the category axis",B+"::probabilities_from_output"),("minus infinity for non-existing categories","irtorch/models/*.py forward")],["item probabilities"])
p("C15","Items respond only to the latent variables they are related to",
 "When item-latent relationships are given, an item's probabilities do not depend on a latent variable it is not related to, before and after training. Items flagged as unrelated for every layer, spline or weight of the model are cut off for all of its categories and no other item is affected.",
 ["configurations","inputs"],"every relationship matrix, every model that accepts one, every parameter value",
 "Tests use one relationship matrix and check shapes or a single gradient.",
 MODELS,[("free weight mask",M("two_parameter_logistic")),("layer masks",M("monotone_nn"))],["item probabilities as theta varies"])
p("C16","Cross-validation never validates on data it trained on",
 "In every cross-validation and train/validation split each respondent is in exactly one validation part, no respondent is in both training and validation data of the same fold, and each candidate and fold starts from an untrained model. The chosen candidate is the one with the best average validation score.",
 ["inputs","configurations"],"any data size, any number of folds, any parameter grid",
 "Tests mock the fitting or check only that something is returned.",
 [U,EV,AE,T("gaussian_mixture_model")],[("fold index complement",U+"::cross_validation"),("fold chunks",EV+"::_cv_gaussian_mixture_model"),("split",U+"::split_data")],["fold membership; selected candidate"])
p("C17","Objectives are optimised in the right direction",
 "Training and scoring always minimise the negative log-likelihood plus penalties (or maximise the log-likelihood plus log-prior): every term enters with the right sign, priors and KL terms included. Comparisons that decide improvement, convergence, learning-rate reduction and best candidates use the same direction.",
 ["histories","inputs"],"every training run and every selection among candidates",
 "With one or two epochs on toy data, a wrong sign of a secondary term or comparison changes nothing a test looks at.",
 [AE,VAE,MML,JML,B,EV,U],[("loss definitions",AE+"::AE._loss_function"),("improvement test",MML)],["loss trajectories and chosen optimum"])
p("C18","Each optimisation step follows the gradient protocol",
 "Every optimisation step clears the gradients, computes the loss on the current batch, back-propagates once and then steps, in this order, with an optimiser that holds exactly the parameters meant to be trained. Validation passes never update parameters, run in evaluation mode without gradients, and training mode is on again for the next epoch.",
 ["schedules","histories"],"every epoch, batch and algorithm",
 "A missing gradient reset or a wrong mode still lowers the loss on toy data.",
 [AE,VAE,MML,JML,B,BIT,R("flow")],[("zero_grad/backward/step",AE+"::AE._train_batch")],["parameter updates"])
p("C19","Fitting and scoring work on any device",
 "Tensors that meet in one computation are on one device: everything created during fitting or scoring follows the requested device or the device of its inputs, and results stored or returned after device work are back on the CPU.",
 ["configurations"],"every device option",
 "The tests run without a GPU, where every tensor is on the CPU.",
 [AE,VAE,MML,JML,B,IU]+MODELS,[("device arguments and .to(device)",AE+"::AE.fit")],["device of tensors"])
p("C20","User-facing numbering starts at one, internal numbering at zero",
 "Wherever the user picks items or latent variables by number, number k means the k-th item or latent variable: it is converted to the internal zero-based position exactly once, and labels shown to the user show the number the user would type.",
 ["inputs"],"every function with a numbered item or latent-variable argument and every number",
 "Tests use the first latent variable of a one-dimensional model, or check only that a figure appears.",
 [EV,PL,BIT,U],[("subtract one when indexing",EV+"::group_fit_log_likelihood"),("labels add one",PL)],["selected column"])
p("C21","Imputation changes missing entries only and uses valid responses",
 "Imputation returns data in which every observed response is unchanged and every missing one, NaN or -1, is replaced by a response the item has, according to the chosen method. Methods that need extra information (correct answers, category counts, a model) refuse to run without it.",
 ["inputs"],"every data matrix and missingness pattern, every imputation method",
 "Tests use small matrices with one coding of missing values.",
 [U,IU],[("imputation by method",IU+"::impute_missing_internal"),("public wrapper",U+"::impute_missing")],["returned data"])
p("C22","The data set cache never holds a partial file",
 "A downloaded data set is stored in the cache so that, whatever happens during writing, a later call either finds the complete file under the final name or finds none and downloads again. A partially written cache file is never read as data.",
 ["crash_points","fault_sequences"],"every crash or error point while downloading, converting or writing the cache",
 "Tests mock the download and never interrupt the write.",
 [LD],[("write to temporary file and rename",LD+"::big_five")],["cache directory after an interruption"])
p("C23","Scoring uses the configuration the model was fitted with",
 "What is chosen at fitting time (imputation method, one-hot coding, item categories, correct answers, scaling of encoder input) is remembered by the fitted algorithm and applied in the same way to new data at scoring time. All algorithms that scoring treats alike remember the same things.",
 ["histories","configurations"],"every fitting configuration followed by any scoring call",
 "Tests score with default settings on complete data.",
 [AE,VAE,B],[("fit arguments stored on the algorithm",AE+"::AE.fit"),("reuse when scoring",B+"::latent_scores")],["encoder input at scoring"])
p("C24","Stored intermediate results are never stale",
 "Results kept to save work (a spline basis computed for fixed latent points, an approximated latent density, a cached grid) are used only for the inputs they were computed from. They are cleared when fitting ends, normally or with an error, and recomputed when the data, parameters or requested kind differ.",
 ["histories","fault_sequences"],"every sequence of fitting, scoring and evaluation calls, including failing ones",
 "Tests call each routine once on a fresh model.",
 [MML,M("monotone_b_spline"),M("surprisal_spline"),EV,BIT],[("basis cleared after fit",MML+"::MML.fit"),("density reused only if of the requested kind",EV)],["results of repeated calls"])
p("C25","Log-domain and probability-domain values are never confused",
 "Log-likelihoods are added, probabilities are multiplied, sums over integration points or samples are taken in the probability domain with the log weights included once, and over the axis that holds those points. Posterior weights are normalised per respondent, and sums over items come before sums over points.",
 ["inputs"],"every data set, number of items, points and samples",
 "A wrong axis or a missing weight keeps shapes and signs plausible and passes tests that check shapes, finiteness or mocks.",
 [B,MML,VAE,EV,"irtorch/quantile_mv_normal.py",T("gaussian_mixture_model"),IU],
 [("log-sum-exp over points",MML),("posterior normalisation",B+"::_eap_theta_scores"),("importance weighting",VAE)],["marginal likelihood, EAP scores, IWAE loss"])
p("C26","Every internal call and name resolves on every path",
 "No public operation fails because of how the library calls itself: every internal call matches the signature of what it calls for all algorithms and models that can be in place, every attribute that is read has been set, and every local variable is assigned before use on every path, including error paths.",
 ["configurations","fault_sequences"],"every path through the library, rare options and error handling included",
 "Tests take the common paths; option combinations and exception handlers are rarely executed.",
 ["irtorch"],[("call signatures",  "irtorch"),("error handling",B+"::_ml_map_theta_scores")],["unexpected TypeError, AttributeError, UnboundLocalError"])
p("C27","Hand-written derivatives are the derivatives of their functions",
 "Where a derivative or antiderivative is written by hand (custom activation gradients, scale Jacobians, log-determinants, polynomial coefficients), it is the exact derivative of the function it accompanies, on every branch.",
 ["inputs"],"every input value and branch",
 "Tests compare values at a few points, not on all branches.",
 ["irtorch/activation_functions.py",T("monotone_polynomial"),T("rational_quadratic_spline"),R("reverse"),R("rotate"),R("rank_cdf")],
 [("custom backward","irtorch/activation_functions.py"),("log-determinant",T("rational_quadratic_spline"))],["gradients"])
p("C28","Marginal and joint estimates converge to the true parameters",
 "With growing data, the estimated item parameters and latent scores approach the values that generated the data, up to the model's indeterminacy.",
 ["inputs","histories"],"every generating parameter and sample",
 "It is an asymptotic statement about random samples.",
 [MML,JML,AE,VAE],[("estimation algorithms","irtorch/estimation_algorithms")],["estimates"])
p("C29","Scoring finds the global optimum",
 "Maximum-likelihood and MAP latent scores are the global maximisers of the likelihood or posterior for each respondent.",
 ["inputs"],"every model and response pattern",
 "Tests cannot certify global optimality of a non-convex search.",
 [B],[("LBFGS from encoder or grid start",B+"::_ml_map_theta_scores")],["latent scores"])
p("C30","Numerical approximations stay within tolerance",
 "Quadrature, quasi-Monte-Carlo integration, bit-score path lengths, quantile-normal densities and spline inversion agree with the exact quantity to a stated tolerance, and never produce NaN or infinity for finite input.",
 ["inputs"],"every finite input",
 "Tests sample a few inputs.",
 [MML,BIT,"irtorch/quantile_mv_normal.py",T("rational_quadratic_spline")],[("numerical routines","several")],["returned values"])
p("C31","Response probabilities follow the documented formula and the parameter table describes them",
 "Each model's response probabilities are those of the item response function it documents, for all parameter values and latent scores, and the table returned by item_parameters holds the parameters of exactly those curves: every entry belongs to the item, category and latent variable it is labelled with, is a free parameter, and the traditional format denotes the same curves. The relationship directions a model reports are the signs of the slopes of its curves, zero for latent variables an item does not depend on.",
 ["inputs","configurations"],"every model class and option, every parameter value and latent score",
 "Tests compare a few numbers of a model with fixed parameters; a swapped, shared or misplaced parameter gives other curves of the same shape.",
 MODELS+[T("monotone_polynomial"),T("negation_layer"),T("softplus_linear")],
 [("item response functions","irtorch/models"),("parameter tables","item_parameters of the models"),("directions","item_theta_relationship_directions")],["probabilities, item_parameters, item_theta_relationship_directions"])
p("C32","Expected scores, information and fit statistics are what they are documented to be",
 "Quantities derived from response probabilities agree with their definition for every probability and response: expected scores are the probability-weighted scores (the probability of the correct option for multiple choice items), information is the expected squared gradient of the log-probability, residuals are observed minus expected scores, infit and outfit are the variance-weighted and unweighted mean squares, accuracy compares the response with the most probable one, and sum score probabilities, group averages and residual correlations are those of the same probabilities. Each statistic averages over what its options say.",
 ["inputs","configurations"],"every model, response matrix with missing entries, option and level of aggregation",
 "Tests check shapes or one number per statistic with fixed mocks; a wrong axis, weight or option gives values in a plausible range.",
 [EV,B],
 [("expected scores and information",B+"::expected_scores"),("fit statistics",EV)],["expected_scores, information, Evaluator results"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
