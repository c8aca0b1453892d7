CLAIMS = {
    "C20": {"technique": "abstract interpretation of every function with a numbered item or latent-variable argument on small models whose probabilities, parameters and scores name the item and latent variable they belong to", "note": "Rules: figures (every plotting method over the worlds of C07 and every number: the curves, points, contours and labels of axes, legends and titles belong to the item and latent variable asked for, with the number the user would type), heatmap (relationships are in the row of their item and the column of their latent variable), tables (row and column names of item parameters, weights and statistics carry the number of what they hold), selected (the evaluator's latent_variable 1 to 3 selects and groups by that column on three-variable models, with and without a scale). The cells are symbols, so a curve or cell of another item is told apart for all parameter values. Bound: the listed worlds (up to 3 items and 3 latent variables) and options. Not covered: the numbering of the item arguments of the Bit and common-item scales, which are documented as zero-based indices; an order changed by an in-place sort of a list that is also used elsewhere is undecided."},
    "C07": {"technique": "abstract interpretation of every figure on models with a known linear scale (which point each drawn number was computed at), and scale provenance of the latent scores every model evaluation, stored value and standard error receives", "note": "Figures: each plotting method is interpreted on nine small models (no scale, invertible, order-reversing and non-invertible scales; 1 to 3 latent variables; with and without training scores), over the options rescale, ranges, fixed scores, items, derivative and group markers. The model's probabilities are symbols that carry the point they were evaluated at, so every drawn number names its point; the figure must draw it at that point's coordinate on the requested scale, gradients and information must be on the scale of the axis, the grid must cover the requested range and fixed scores on the scale it is laid out on, distributions must show scores of the requested scale. Evaluations: in every function of the library that evaluates a model (62 function and option pairs) with a scale attached (invertible or not, training scores kept or not) the latent scores given to a model evaluation must not come from a transformation that is not undone on any consistent path. Kept: what scales and the evaluator return or store without being asked for transformed scores is on the original scale. Reported: latent_scores returns transformed scores and standard errors exactly if rescale is true. Bounds: figures are decided for the listed models and options; provenance follows values, not the meaning of a user-supplied tensor. Scales that evaluate the model (Bit) assume they are first in a chain."},
    "C08": {"technique": "symbolic-heap history analysis (construct, fit, add a scale, save, load onto a second object) with key and value provenance of the saved file; registration and picklability effects of every module, algorithm and scale class", "note": "For every concrete model x every fitting algorithm the calls construct, fit, add_scale_transformation, save_model are followed on one symbolic heap; the object given to torch.save is what torch.load returns to load_model on a second, freshly constructed model. Every attribute of the model, of its parts and of the algorithm that the history changed must come back as the same value (parameters: the whole state_dict under the same names, unconditionally); keys read must be written; the loader must accept whole objects. Every torch module: values drawn at random in the constructor, submodules and parameters in plain containers and state added after construction must be registered. Algorithms and scales: nothing unpicklable, no __getstate__ that drops what is read later. What torch.save/torch.load do with the bytes is trusted; attributes that are computed again when missing are not compared."},
    "C23": {"technique": "abstract interpretation of fit-then-score histories over small response matrices with the algorithm object carried from one call to the next; definite-assignment of the attributes scoring reads", "note": "Every algorithm whose fit takes encoder options is run abstractly as a history on one object: construct, fit (coding x imputation x multiple choice x missing coding x item sets, also refits with other options and other items), then latent_scores (NN, ML, with standard errors) and sample_latent_variables on responses with other missing patterns, also one respondent. Array cells are exact or symbolic; random imputations are compared as sets of alternatives. What the encoder receives at scoring is compared cell by cell with what training gives it for the same responses; the encoder mode at each use, the stored scores of the training data and every attribute of the algorithm that models, evaluators or plots read (set on every path of every fit) are separate rules. Bound: the listed configurations and small matrices; encoder values are opaque."},
    "C24": {"technique": "data flow of kept results: inputs of every value kept in an attribute or table against the condition it is used again under; typestate of prepared results with exact models", "note": "Every function that keeps a result in an attribute (or in a dictionary, lru_cache or cached_property) and looks at what is there before it computes it again: on every path that uses the kept result, each input the result is computed from is one the result was compared with, or a choice of kind that the class of what is kept was compared with, and what it is compared with is kept whenever the result is. Attributes that replace part of a forward pass while set (the spline basis): what is prepared is the expression the forward pass would compute, uses no parameter that training changes, and is removed on every way out of the function that prepares it (normal, early return, error), with every evaluation in between at the prepared points. Conditions are decided propositionally, classes of models one by one. Not judged: users who call precompute_basis themselves; results kept by torch or numpy; whether equal-looking objects were changed in place in between."},
    "C11": {"technique": "effect analysis: every random, clock and operating-system source that any function reaches, the origin of every seed, and what worker processes are given", "note": 'Every function of the library is interpreted and every library call that draws, seeds, makes a generator, or reads the clock, the operating system or a process number is judged. Rules: seed (set_seed gives its argument to the generators of random, numpy and torch on every path, last), reseed (no other function seeds them with a constant, the clock or a state kept from an earlier call), generator (a generator of its own is seeded from a global draw or by the caller), draw (no seed fixed at the call), outside (no value of the clock, the process or the operating system enters a computation), import and kept (nothing drawn at import, in default values, in caches of functions or module variables), worker (functions run in other processes get a seed drawn in this process before they draw). Nondeterminism of library kernels themselves is trusted.'},
    "C22": {"technique": "typestate over file operations in event order: names of files as path terms, temporary and final names, open files and error exits", "note": 'load and download functions of the data sets: the file operations are taken in event order with every path reduced to a normal form over its parts (directory, name, temporary suffix). Rules: the final name of a cache file is only produced by an atomic move from a finished temporary file in the same directory; the temporary file is closed before it is moved and its writing cannot have failed on that path; a cache file is only read under the test that it exists under its final name; no path leaves the reading of a missing file; what is returned on the first call and on later calls comes from the same contents. The atomicity of os.replace itself and concurrent removals by other programs are trusted.'},
    "C16": {"technique": "abstract interpretation of the splitting and cross-validation functions over numbered respondents with fixed permutations and recorded fits and scores", "note": "The fold-splitting and cross-validation functions are interpreted over data whose rows carry their number, for small numbers of rows, folds and candidates, with fixed permutations in place of random orders, and every fit and every scoring call recorded with the rows it is given. Rules: the object that is scored has been fitted on rows of its own fold's training part only and starts from an untrained copy; training and validation rows are disjoint; the validation parts of all folds are each row once; every candidate sees the same folds; the reported score of a candidate is the average over its own folds; the chosen candidate is the best by that score in the right direction. Bound: the listed numbers of rows, folds and candidates; scores are symbols ordered in every way that distinguishes candidates."},
    "C21": {"technique": "abstract interpretation of the imputation functions over small response matrices with symbolic random draws and response probabilities", "note": 'The imputation functions (the public wrapper, the internal one, every method, and the code that imputes encoder input at scoring time) are interpreted over small response matrices (2 to 4 respondents, items with 2 and 3 categories, both codings of missing responses, multiple choice and not) with symbolic probabilities, scores and random draws. Rules: imputed (every observed cell is returned as it was, every missing one becomes, for each value a draw can take, a response the item has according to the method), refused (a method whose additional information is missing raises), input (encoder input at scoring time holds no missing value and is imputed by the method of the fit). Bound: the listed matrices; which of the admissible values a random method draws with what probability is not decided beyond the set it draws from.'},
    "C03": {"technique": "abstract interpretation of likelihoods, losses and statistics over small response matrices with both codings of missing responses", "note": 'Every function that turns responses into likelihoods, losses, scores or statistics is interpreted over small response matrices with abstract response probabilities, with the missing responses coded as -1, as NaN and mixed. Rules: codings (both codings give the same normal form), observed (the result is that of the observed responses alone: it does not depend on the items a respondent skipped, and counts and averages divide by the observed ones), likelihood, loss (the losses of the autoencoder, the variational ones and marginal maximum likelihood equal their definition over observed cells), scores (start values and posterior means use observed responses only), categories, dataset, missing (the start score of the bit grid comes from the observed responses), and call sites (the mask that is computed is the one handed over). Bound: shapes are the listed matrices; probabilities and scores are symbolic.'},
    "C32": {"technique": "abstract interpretation of the statistics over small response matrices with abstract response probabilities, compared with the normal form of their definition", "note": "Expected scores, information, infit and outfit, residuals, accuracy, group averages, sum score probabilities, information criteria, outlier bounds, the library's correlation and entropy statistics, linear interpolation, the quantile transform and the inter-model vigorish are interpreted over small response matrices with abstract response probabilities (a free symbol per item and category), every documented option and level of aggregation. Each cell of the result, a normal form, is compared with the normal form of the documented definition; a differing cell is reported with the assignment of the symbols that separates them. Bound: shapes are the listed matrices; probabilities, gradients and scores are symbolic. Normal forms that contain ordering operations on unknown values are compared case by case."},
    "C31": {"technique": "abstract interpretation of the model classes in a polynomial normal-form domain, compared with the normal form of the documented formula over the entries of the parameter table", "note": 'Every model class is constructed abstractly in every combination of its documented options over small configurations (2 items with 2 and 3 categories, 1 and 2 latent variables, an excluded relationship, each correct option), and the value graph of forward and probabilities_from_output is lifted to one normal form per response probability in which every parameter and every score is a free symbol. Rules: formula (the log-odds of the probabilities equal the documented formula of the model written with the entries of item_parameters, or the structural statement for models without a table), free (each entry is a parameter of its own, no shared or missing ones), traditional (the transformed parametrisation denotes the same curves), sum-zero (nominal response constraints), directions (item_theta_relationship_directions is the sign of the slope of the expected score, 0 exactly when the score is not in the curve), table (labels and rows belong to their item). Bound: shapes are the listed configurations; parameters and scores are unbounded. Cells the normal form cannot express are counted as undecided, never reported.'},
    "C14": {"technique": "abstract interpretation of the model classes in a polynomial normal-form domain with symbolic parameters and scores", "note": 'For every model class, option combination and small configuration, each cell of the probability tensor is a normal form over free parameters and scores: the categories of an item sum to the constant 1, cells of categories an item does not have are the constant 0, every cell is non-negative by its factors, the result has the documented shape, and rows and items do not mix. A wrong cell is reported with the assignment that shows it. Known finding: unordered thresholds of the graded response model. Bound: shapes are the listed configurations; parameters and scores are symbolic.'},
    "C15": {"technique": "abstract interpretation of the model classes in a polynomial normal-form domain: dependence of every probability cell on every score", "note": "For every model class and every option combination with an excluded item-score relationship, the set of score symbols in each probability's normal form is computed: an excluded score must be absent and an included one present, a parameter of one item must not occur in another item's probabilities, and the masks must follow the item when categories are shared. Bound: shapes are the listed configurations; parameters and scores are symbolic."},
    "C13": {"technique": "abstract interpretation of the model classes in a polynomial normal-form domain: direction of every score-level difference", "note": 'Models are built abstractly over small configurations and every option combination; every probability is a normal form over free parameters and scores. For the models documented as monotone: the log-odds of adjacent (or correct against other) categories are decomposed into terms whose direction in each score follows from softplus, exponentials, squares, cumulative sums, non-negative weights and rising spline coefficients; a definite falling direction with the parametrisation that promises rising ones is a violation with a witness assignment; negative relationships must flip whole items. Activations and layers are checked for direction on their own. Bound: shapes are the listed configurations; parameters and scores are symbolic.'},
    "C25": {"technique": "abstract domains of log-probabilities and probabilities combined with symbolic axes: every operation, reduction and normalisation on the way from likelihoods and weights to integrals", "note": 'Every value is classified as log-probability, probability, probability-weighted average, probability-weighted log or ratio of logs; mixing them in one sum, exponentiating probabilities, taking logs of logs, feeding probabilities to softmax or cross-entropy is a violation. For every function that joins repeated data with a log-likelihood, the axes of items, respondents and integration points are derived symbolically: each reduction must sum items before points, in the right domain, over the right axis, with the log-likelihood and each log-weight exactly once; posterior weights are normalised over the points of one respondent; the number of draws is divided off. Rule mixture: density, log-likelihood and one EM step of the Gaussian mixture equal their definition on three points of one and two variables with free weights and centres. Rules quadrature and divergence: Gauss-Hermite points and weights of two variables, and the linking loss between common items, equal their definition. What the sums approximate (quality of the grid) is not decided. Terms whose domain or axes cannot be derived are counted as undecided.'},
    "C17": {"technique": "polarity analysis: signed additive decomposition of every optimised, compared or returned objective into log-probabilities and penalties", "note": "Every objective handed to backward (all fits with exact receivers, the LBFGS closure), every value a learning-rate scheduler or running best compares, every argmax or argmin, and every value returned or stored under a log-likelihood or loss name is decomposed into signed atoms (log-likelihoods, log-densities, densities of an approximation at its own draws, divergences, closed-form Gaussian divergence terms, log-sum-exp shifts). All atoms of one objective must point the same way and that way must agree with the optimiser, scheduler mode, comparison or name. MAP must contain the log-prior with the weight of the likelihood and ML must not. Factors whose sign is not visible are taken as positive."},
    "C10": {"technique": "data flow from the attributes an earlier call left to the uses in a later one: every attribute a fit writes is traced for reads of its old value and for paths that keep it", "note": "fit of every algorithm, scale, density and model class, exact receiver, base class code included. For every attribute of the object that the fit writes: no event (call, condition, store, loop start value) may use the value the attribute had before this fit, and no path may leave that old value in place; attributes that are only moved between devices or modes are exempt. Default arguments and class-level objects must not be changed. A branch on whether the object already has an attribute from an earlier fit (hasattr, getattr with a default) counts as a use of it. The parameters of the model are the starting parameters the property allows to continue."},
    "C09": {"technique": "reaching definitions of the restored state through loops, branches and containers, with the path condition of every stored snapshot and of the running best", "note": "fit of every algorithm, exact receiver. For each module and tensor the optimiser holds: the value it is given after the training loops is traced to its definitions; each must be an independent copy of that component's own state, stored under the condition that the loss of this pass is below the running best; the running best must be set to that loss under the same condition only, start above every loss and live as long as the stored state; no break, continue or return may leave a pass that stepped without storing, or skip putting the state back."},
    "C18": {"technique": "typestate over the event order of training loops (clear, compute, back-propagate, step), with gradient-mode and train or eval state and reachability of parameters in the loss term", "note": "Every function that steps an optimiser (fits of all algorithms and scales, the LBFGS scoring pass), with exact receivers where it is a method. Orders the zero_grad, backward and step events of one optimiser with their loops, conditions and gradient mode; matches the modules and leaf tensors the optimiser holds with those the loss depends on with gradient; checks the train and eval switches on each trained module. Undecided: whether intervals, learning rates and stopping rules are good ones."},
    "C12": {"technique": "interpretation of every option-taking function with each documented constant and with an unknown one; comparison of the effect signatures", "note": "Every function with an option is interpreted once per documented value, once with a value outside the documented set; the sets of calls, writes, raises and returned values are compared. An unknown value must raise, every documented one must have a path that returns, no two may do the same, and each must show what its documentation names. Results per item or per respondent are decided with the shape domain. Options that are only handed on to torch are counted as undecided."},
    "C04": {"technique": "symbolic shape and layout analysis on value graphs: axes as ordered products of named sizes", "note": "Every tensor expression of every function is given a symbolic shape whose axes are ordered products of named sizes (respondents, items, points, draws, categories). Operands that meet must have the same axis order, reshapes must split or join axes in the order they were made, and data, scores, masks and weights that meet must come from the same selection of rows. Expressions whose shape the domain cannot determine are counted as undecided and never reported; the values of index tensors are not modelled beyond their origin. Rule linked: the linking loss compares each common item with the same item of the other model, for the listed index lists."},
    "C27": {"technique": "symbolic differentiation of extracted value graphs in a rational-function normal form", "note": "The forward and backward (or log-determinant, Jacobian, coefficient) expressions are extracted from the source per branch, the forward expression is differentiated symbolically and both are compared as exact rational functions over elementary functions."},
    "C06": {"technique": "value-graph abstract interpretation with rational-function normal forms", "note": "For every scale the terms of transform, inverse and jacobian are extracted from the source; the inverse applied to the transform is normalised (matrix words, rational functions, opaque trained modules with their own inverses) and must be the identity, and the Jacobian must be the derivative of the same transform. The spline module is composed symbolically per region; the bit scores are checked for the items, logarithm and direction they use, and, over small grids with free probabilities, against the sum of entropy differences along the grid."},
    "C05": {"technique": "symbolic interpretation with chains of zero to three abstract scales; comparison of composition terms", "note": "The transformation, inverse and Jacobian functions are interpreted with chains of 0 to 3 distinct abstract scales; the order of composition, the order of the matrix factors and the point at which each Jacobian is taken are read off the resulting terms."},
    "C02": {"technique": "effect analysis with acquire-release typestate over exception exits", "note": "Every write to a model, algorithm, scale or module reached from a scoring, evaluation or plotting operation is found; temporary switches (gradient flags, device, training mode, global torch switches) must be undone on the normal and the error exits."},
    "C01": {"technique": "interprocedural alias and effect analysis", "note": "Every in-place operation reached from a public function is traced to the storage it changes; none may be the contents or gradient flag of an argument, of the stored training data or of a module-level object."},
    "C26": {"technique": "whole-library abstract interpretation: call binding against every possible implementation, definite assignment, attribute existence over all receiver classes",
            "note": "Every call between functions of the library is bound against the signature of every implementation that the receiver's class and its subclasses can have; every local name must be assigned on every consistent path; every attribute read on a library object must exist on every concrete class the receiver can have and that the path's guards admit."},
}
NOT_APPLICABLE = {
    "C19": "On which device each tensor lives is decided by run-time moves of modules and by plain tensors that such moves leave behind; a definite static contradiction needs the device of every stored tensor at every call, and in this sandbox without a GPU neither a reported contradiction nor a repair could be confirmed against the real code, so no alarm could be told from a false one.",
    "C28": "Consistency of estimators is a statement about the limit of random samples and the outcome of stochastic optimisation; no static argument in reach bounds it.",
    "C29": "Reaching the global optimum depends on the shape of a data-dependent non-convex likelihood; it is not decidable from the source.",
    "C30": "Approximation errors are quantities of floating-point run-time values; a sound static bound for these numeric kernels is out of reach.",
}
