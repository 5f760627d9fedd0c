"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []
Q = 'quantificationlib/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [Q + f for f in files],
                     "mechanism": [{"name": n, "where": Q + w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": Q + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)


ALLQ = ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'binary/debias.py', 'binary/emd.py', 'binary/quantiles.py',
        'multiclass/df.py', 'multiclass/em.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/knn.py',
        'multiclass/regression.py', 'ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'ordinal/trees.py',
        'decomposition/multiclass.py', 'decomposition/ordinal.py', 'ensembles/eoq.py']
EST = ['estimators/cross_validation.py', 'estimators/ensembles.py', 'estimators/frank_and_hall.py',
       'estimators/ordinal_ddag.py', 'estimators/weighted_knn.py']

prop("C01", "Predicted prevalences form a probability distribution",
     "Whatever the training sample, the testing sample and the (valid) classifier outputs, the vector a quantifier "
     "predicts sums to one and has no negative entry. A raw estimate that leaves [0, 1] is clipped and renormalised "
     "before it is returned, and no admissible combination of member estimates (all of them answering zero included) "
     "is silently turned into an all-zero or undefined vector.",
     ["inputs", "configurations"],
     "all training/testing samples, class counts, classifier outputs on the simplex, and option values of every quantifier",
     "The tests look at one iris split per method and only compare an error with a tolerance; they never see an "
     "estimate that needs clipping, a zero sum, or an option outside the defaults.",
     ALLQ + ['optimization.py', 'search.py'],
     [("clip and renormalise", "baselines/ac.py"), ("simplex-constrained solvers", "optimization.py"),
      ("[1-p, p] from the search", "search.py"), ("renormalised combination", "ensembles/eoq.py")])

prop("C02", "Each returned prevalence belongs to its class",
     "A predicted vector has exactly one entry per class seen in training, in ascending label order, whatever the label "
     "values are. If the testing sample is exactly an (exact-proportion) mixture of the class-conditional training "
     "behaviour, closed-form estimates return those proportions, each at its own class position. Crisp predictions "
     "returned by the library's classifiers are training labels, never class positions.",
     ["inputs", "configurations"],
     "all label sets (two or more classes, any label values), all samples, every quantifier and classifier",
     "The tests use labels 0..k-1 or 1..k of two iris files, for which positions and labels or the two orders are "
     "easily confused, and judge the result only through an aggregated error.",
     ALLQ + EST,
     [("classes_ = sorted unique labels", "base.py"), ("per-class loops over classes_", "baselines/ac.py"),
      ("one-vs-rest and Frank & Hall member order", "decomposition/multiclass.py"),
      ("label take / inverse_transform", "estimators/cross_validation.py")])

prop("C03", "Training labels stay aligned with training predictions",
     "When the training classifier returns several predictions per training example (repeated cross-validation), every "
     "class-conditional statistic of the training predictions pairs each prediction with the label of the example it "
     "belongs to. The label of an example, and the number of examples of a class, are never taken from a vector of "
     "another length or order than the predictions they are combined with.",
     ["inputs", "configurations"],
     "all samples, all repetition counts of the training predictions, every quantifier that learns from predictions",
     "The tests only use one prediction per training example, where the extended labels and the labels coincide.",
     ['base.py', 'baselines/ac.py', 'binary/emd.py', 'binary/quantiles.py', 'multiclass/df.py', 'multiclass/energy.py',
      'multiclass/friedman.py', 'multiclass/regression.py', 'ordinal/ac_ordinal.py', 'ordinal/pdf.py',
      'ensembles/eoq.py'],
     [("extended labels", "base.py"), ("masks on extended labels", "multiclass/df.py")],
     state=[("y_ext_", "label of each training prediction", "base.py")])

prop("C04", "Training and testing samples are described the same way",
     "The description (histogram, cumulative histogram, rate, score) a matching-based quantifier computes for a testing "
     "sample is the one it computed for each class during training: same bin edges, same normalisation by the "
     "described sample's own size, same cumulative transform. A testing sample equal to the training examples of class "
     "k therefore gets exactly the description stored for class k.",
     ["inputs", "configurations"],
     "all samples and all option values (distribution function, bins, binning strategy, distance, method)",
     "The tests run default options on a split where training and testing samples have similar sizes; a description "
     "that differs between both sides only shifts the error a little.",
     ['multiclass/df.py', 'multiclass/friedman.py', 'multiclass/regression.py', 'ordinal/ac_ordinal.py',
      'ordinal/pdf.py', 'ensembles/eoq.py', 'binary/quantiles.py', 'multiclass/energy.py'],
     [("train_distrib_/test_distrib_", "multiclass/df.py"), ("bag histograms", "multiclass/regression.py"),
      ("bag and test distributions", "ensembles/eoq.py")])

prop("C05", "Refitting replaces everything learned before",
     "After a quantifier, classifier or bag generator is used with a second training sample, its answers are those of a "
     "fresh object given only the second sample. Nothing computed from the first sample (sizes, edges, matrices, "
     "compiled problems, bags, members) or from earlier predictions survives a new fit.",
     ["histories", "inputs"],
     "all histories fit(A), predict*, fit(B), predict of one object, all samples A and B",
     "Every test fits a fresh object exactly once.",
     ALLQ + EST + ['bag_generator.py'],
     [("caches reset in fit", "multiclass/df.py"), ("problem_ reset", "baselines/ac.py"),
      ("bags regenerated for new data", "bag_generator.py")],
     state=[("problem_", "compiled optimisation problem", "multiclass/df.py"),
            ("mixtures_", "cached training mixtures", "binary/quantiles.py")])

prop("C06", "A prediction does not depend on earlier predictions",
     "The result of predict is a function of the fitted object and of the sample (and predictions) passed to that call. "
     "Calling predict any number of times before, with any other samples, never changes a later answer.",
     ["histories", "inputs"],
     "all sequences of predict calls on one fitted object, all samples",
     "Tests call predict once per fitted object.",
     ALLQ + EST + ['optimization.py', 'search.py'],
     [("warm-started problems get the new test distribution", "optimization.py"),
      ("cached mixtures depend on training data only", "search.py")],
     state=[("problem_", "reused compiled problem", "optimization.py"), ("mixtures_", "reused mixtures", "search.py")])

prop("C07", "Data passed by the caller is never modified",
     "No public operation writes into an array, list or dictionary supplied by its caller: samples, labels, predictions, "
     "bags, prevalence vectors, option values and column lists have the same contents after the call. This includes "
     "writes through views and in-place arithmetic or sorting.",
     ["inputs", "histories"],
     "all public functions and methods, all argument values",
     "No test compares its inputs before and after a call.",
     ALLQ + EST + ['bag_generator.py', 'search.py', 'optimization.py', 'metrics/multiclass.py', 'metrics/ordinal.py',
                   'plot/qlplot.py', 'data_utils.py'],
     [("copies before in-place work", "base.py"), ("copies before correction", "decomposition/ordinal.py")])

prop("C08", "Members, templates and defaults are independent objects",
     "Each member of an ensemble or decomposition is its own object, trained on its own data, and the template it was "
     "made from is left unfitted; two objects built with default arguments share no mutable object. Fitting one member "
     "or one object never changes another.",
     ["histories", "configurations"],
     "all ensembles, decompositions and pairs of objects built from the same template or from defaults",
     "The tests reuse templates once and compare only final errors; aliased members still predict.",
     ['ensembles/eoq.py', 'decomposition/multiclass.py', 'decomposition/ordinal.py', 'estimators/ensembles.py',
      'estimators/frank_and_hall.py', 'multiclass/regression.py'],
     [("deepcopy of the template per member", "decomposition/multiclass.py"),
      ("bag generator created per object", "multiclass/regression.py")])

prop("C09", "Estimators are fitted when, and only when, they are not fitted yet",
     "A classifier handed to a quantifier is fitted on the given training data if it has not been fitted before and is "
     "used exactly as it is otherwise; when no classifier is needed none is touched. Only the not-fitted signal of the "
     "classifier triggers the fit.",
     ["inputs", "histories"],
     "all quantifiers taking classifiers, both fitted states of each of the two estimators, shared or distinct",
     "Tests pass fitted or unfitted forests without checking how often they are fitted.",
     ['base.py', 'ensembles/eoq.py', 'decomposition/multiclass.py', 'decomposition/ordinal.py'],
     [("predict probe and NotFittedError handler", "base.py"), ("predict probe", "ensembles/eoq.py")])

prop("C10", "Randomness comes only from the supplied random_state",
     "Every random choice made by the library is drawn from a generator seeded by, or passed as, the object's "
     "random_state. No operation reads or advances a process-wide generator, so equal inputs and seeds give equal "
     "results.",
     ["histories", "configurations", "inputs"],
     "all operations that draw random numbers, all methods and seeds, any state of the global generators",
     "Bag-generator tests only look at shapes; a global generator gives plausible bags.",
     ['bag_generator.py', 'ensembles/eoq.py', 'multiclass/regression.py', 'estimators/cross_validation.py',
      'estimators/ensembles.py'],
     [("RandomState built from random_state", "bag_generator.py")])

prop("C11", "Generated bags have the composition they report",
     "Column b of the reported prevalences is exactly the class composition of the examples listed in column b of the "
     "indexes: every bag has bag_size in-range indexes, the examples drawn for a class carry that class's label, and "
     "their number over the bag size is the reported value. Prior-shift bags draw within a class independently of the "
     "features; covariate-shift bags draw with the similarity weights to a random centre. A uniform prior-shift bag holds at least the minimum prevalence requested for each class.",
     ["inputs", "configurations"],
     "all label vectors, bag counts and sizes, methods, alphas and minimum prevalences",
     "Tests check only array shapes.",
     ['bag_generator.py'],
     [("multinomial split and per-class draw", "bag_generator.py"), ("composition counted from the draw", "bag_generator.py")],
     state=[("prevalences_", "reported composition", "bag_generator.py"), ("indexes_", "bag members", "bag_generator.py")])

prop("C12", "Cross-validated training predictions are out-of-fold",
     "The prediction a cross-validation estimator gives for a training example comes from a member fitted without that "
     "example, in every repetition, for any splitter (shuffled, repeated or grouped). Each prediction is stored at the "
     "position of its example, and for other samples every member contributes.",
     ["inputs", "configurations"],
     "all samples, splitters, group vectors and repetition counts",
     "The tests use one seeded stratified splitter, for which recomputing the folds gives the same folds.",
     ['estimators/cross_validation.py'],
     [("stored folds paired with fitted members", "estimators/cross_validation.py")],
     state=[("estimators_", "one member per fold", "estimators/cross_validation.py")])

prop("C13", "Nothing is printed unless verbosity is requested",
     "With default verbosity no library operation writes to standard output or standard error. Progress messages appear "
     "only when the caller asks for them.",
     ["inputs", "configurations"],
     "all operations with default verbosity, all inputs and options",
     "Tests do not look at the output and do not use the option combinations that print.",
     ALLQ + EST + ['search.py', 'optimization.py', 'bag_generator.py', 'metrics/binary.py', 'metrics/multiclass.py'],
     [("if self.verbose > 0 guards", "base.py")])

prop("C14", "Constructor parameters follow the scikit-learn protocol",
     "Every constructor parameter of a quantifier or classifier can be read back, unchanged, under its own name before "
     "and after fitting, so that get_params, set_params, clone and repr work. fit never replaces a parameter and always "
     "returns the object itself.",
     ["configurations", "histories"],
     "all classes, all constructor arguments, before and after fit and predict",
     "No test clones an object or inspects its parameters.",
     ALLQ + EST,
     [("parameters stored in __init__", "base.py")])

prop("C15", "Unsupported requests are rejected, never silently answered",
     "A request the library does not implement (an unknown distance, method, strategy or binning name, more than two "
     "classes for a binary-only method or distance, too few classes for an ordinal one, missing predictions) ends in an "
     "exception raised no later than the prediction. It never yields a number, a vector or None.",
     ["inputs", "configurations"],
     "all option strings outside the documented ones, all class counts for methods limited to two classes",
     "Tests only use documented values with the right number of classes.",
     ['multiclass/df.py', 'multiclass/friedman.py', 'ordinal/pdf.py', 'ensembles/eoq.py', 'binary/debias.py',
      'binary/emd.py', 'binary/quantiles.py', 'bag_generator.py', 'baselines/ac.py', 'base.py'],
     [("else: raise ValueError", "baselines/ac.py"), ("binary guard in fit", "binary/emd.py")])

prop("C16", "Error measures behave as measures",
     "For all admissible prevalences, vertices of the simplex included, every error measure is finite, distances are "
     "non-negative and zero when both arguments are equal, and the measures documented as symmetric do not depend on "
     "the argument order. Scores are one when both arguments are equal.",
     ["inputs"],
     "all pairs of prevalence values or vectors, including zeros and ones",
     "Each metric is tested at a single point.",
     ['metrics/binary.py', 'metrics/multiclass.py', 'metrics/ordinal.py'],
     [("eps smoothing", "metrics/multiclass.py"), ("zero guards", "metrics/binary.py")])

prop("C17", "Every documented option combination can be executed",
     "No combination of documented option values, class counts (two or more) and sample sizes makes an operation fail "
     "because of an undefined name, a missing attribute, an operation on None, or arrays whose shapes do not fit. This "
     "covers the verbose code paths and the combinations the defaults never reach.",
     ["configurations", "inputs"],
     "the product of documented option values of every class and public function, for two and for more classes",
     "Python resolves names, attributes and shapes only when the line runs; tests run a few default combinations.",
     ALLQ + EST + ['bag_generator.py', 'search.py', 'optimization.py', 'metrics/multiclass.py', 'metrics/ordinal.py'],
     [("option dispatch", "multiclass/df.py"), ("strategy dispatch", "ensembles/eoq.py")])

prop("C18", "Optimisation problems are the ones the methods define",
     "Every solver-based estimate minimises the selected distance between the testing description and the mixture of the "
     "class descriptions, over non-negative prevalences that sum to one, and the very same problem is solved the first "
     "time and on every later call. Mixtures built for the line search are p times the positive plus (1-p) times the "
     "negative description and the search returns [1-p, p].",
     ["inputs", "histories", "configurations"],
     "all training and testing descriptions, first and repeated calls, every distance",
     "Tests only see the error of the final estimate on easy data, where a missing constraint or a wrong objective often "
     "gives a similar answer.",
     ['optimization.py', 'search.py', 'multiclass/df.py', 'multiclass/energy.py', 'baselines/ac.py'],
     [("constraints and objective", "optimization.py"), ("mixture functions", "search.py")])

prop("C19", "Class-probability rows of the library's classifiers are distributions",
     "For every example, the class probabilities returned by the library's averaging, nearest-neighbour, ensemble and "
     "monotone ordinal classifiers are built only from member probabilities in a way that keeps each row non-negative and "
     "summing to one. Probabilities of the two groups of a binary ordinal split are combined as complementary events.",
     ["inputs", "configurations"],
     "all samples, members with valid probabilities, all voting and averaging options",
     "Only the arg-max or the averaged prevalence is looked at.",
     EST,
     [("normalizer", "estimators/weighted_knn.py"), ("mean over members", "estimators/cross_validation.py"),
      ("last class takes the remaining mass", "estimators/frank_and_hall.py")])

prop("C20", "Failures of user-supplied components are never swallowed",
     "An exception raised by a classifier, distance function, bag generator or splitter supplied by the user reaches the "
     "caller. The only failures the library handles itself are the not-fitted signal, answered by fitting, and a singular "
     "matrix, answered by another solver.",
     ["fault_sequences", "inputs"],
     "all calls into user-supplied components, every exception type, at every call",
     "No test makes a component fail.",
     ['base.py', 'search.py', 'baselines/ac.py', 'ensembles/eoq.py'],
     [("except NotFittedError", "base.py"), ("except LinAlgError", "baselines/ac.py")])

prop("C21", "No example is lost when a sample is described",
     "Bin edges used to describe a sample cover every possible value, so each example of the training and of the testing "
     "sample falls in exactly one bin and a description sums to one per descriptor. This holds for every binning "
     "strategy, for degenerate (constant) columns and for values outside the training range.",
     ["inputs", "configurations"],
     "all samples and binning strategies",
     "Values outside the training range and constant columns do not occur in the test data.",
     ['multiclass/df.py', 'multiclass/regression.py', 'ordinal/pdf.py', 'ensembles/eoq.py'],
     [("infinite outer edges", "multiclass/df.py"), ("score range [1, n_classes]", "ordinal/pdf.py")])

prop("C22", "Supplied predictions take precedence over estimators",
     "When predictions are passed to fit or predict they are what is used: the corresponding estimator is not asked for "
     "predictions and the sample itself is not read. When neither predictions nor the estimator that would produce them "
     "is available, a ValueError is raised.",
     ["inputs", "configurations"],
     "all quantifiers that use predictions, all combinations of given and missing predictions, estimators and samples",
     "Tests pass either predictions or estimators, and never both or neither.",
     ['base.py', 'baselines/cc.py', 'baselines/ac.py', 'ensembles/eoq.py', 'decomposition/multiclass.py',
      'decomposition/ordinal.py'],
     [("predictions_test is not None", "base.py"), ("ValueError when both are missing", "base.py")])

prop("C23", "Using an unfitted library classifier raises NotFittedError",
     "predict and predict_proba of every classifier of the library raise scikit-learn's NotFittedError before fit has "
     "been called. This is the signal quantifiers rely on to decide whether an estimator has to be fitted.",
     ["histories"],
     "all classifiers of the library, all samples, before any fit",
     "No test calls predict on an unfitted library classifier.",
     EST,
     [("raise NotFittedError", "estimators/frank_and_hall.py")])

prop("C24", "Ensemble and decomposition members learn from their own part of the data",
     "Member i of an ensemble of quantifiers is trained with the examples, labels and predictions of bag i and nothing "
     "else; member i of a one-vs-rest or Frank & Hall decomposition is trained and asked about the i-th binary problem. "
     "The combined answer uses every selected member once, with the statistic the strategy names.",
     ["inputs", "configurations"],
     "all samples, bags, member counts and strategies",
     "With a forest on iris every bag or sub-problem gives similar members.",
     ['ensembles/eoq.py', 'estimators/ensembles.py', 'decomposition/multiclass.py', 'decomposition/ordinal.py',
      'estimators/frank_and_hall.py'],
     [("X[indexes[:, i]], y[indexes[:, i]]", "ensembles/eoq.py"), ("y_bin[:, i]", "decomposition/multiclass.py")])

prop("C25", "Each method computes the estimate it documents",
     "CC answers the proportions of the predicted labels and PCC the mean posteriors; AC, PAC, PWKQuantifier and ACOrdinal "
     "correct them with the confusion matrix of the training predictions (two classes: (p - fpr)/(tpr - fpr), clipped; more: "
     "the inverse matrix or the prevalences with the smallest distance). DeBias, EM, the histogram methods (documented "
     "binnings, PDF or CDF), FriedmanME, PDFOrdinaly, EDy, CvMy, EDX, SORDy and QUANTy answer the fixed point, or the "
     "minimiser of the distance between mixture and testing description, their documentation defines. REGX/REGy regress "
     "the prevalences of training bags on their histograms.",
     ["inputs", "configurations"],
     "all training and testing samples, class counts and options of every quantifier",
     "The tests compare one estimate per method with loose bounds; a wrong weight, bin or normalisation still passes them.",
     ['baselines/cc.py', 'baselines/ac.py', 'binary/debias.py', 'binary/emd.py', 'binary/quantiles.py', 'multiclass/df.py',
      'multiclass/em.py', 'multiclass/energy.py', 'multiclass/friedman.py', 'multiclass/knn.py', 'multiclass/regression.py',
      'ordinal/ac_ordinal.py', 'ordinal/pdf.py', 'optimization.py'],
     [("compute_bincuts", "multiclass/df.py"), ("def solve_l2(", "optimization.py")])

prop("C40", "Searches return the prevalence with the smallest distance",
     "For every distance function with a single minimum in [a, b], golden_section_search returns a prevalence of [a, b] "
     "within tol of the minimum, as the vector [1 - p, p], together with the distance at that prevalence. For every distance "
     "function, also one with several local minima inside or at the ends of [0, 1] (each the only one within two steps of "
     "0.01), global_search returns, within tol, the prevalence of the smallest of them, whether the mixtures are computed, "
     "kept or taken from an earlier call; the mixtures it keeps are those of the prevalences 0, 0.01 ... 1.",
     ["inputs"], "all distance functions with separate minima, intervals, tolerances and ways of keeping mixtures",
     "Tests use the distances of a few data sets, whose minimum is a single interior one.",
     ['search.py'], [("bracket update", "search.py:golden_section_search"), ("scan of 101 prevalences", "search.py:global_search")])

prop("C41", "Estimates converge to the true prevalence",
     "With enough data satisfying a method's assumptions, the estimates approach the true class prevalences of the "
     "testing sample.",
     ["inputs"], "all distributions satisfying the assumptions, growing samples",
     "Tests fix one data set and a tolerance.",
     ALLQ, [("estimators", "base.py")])

prop("C42", "Every operation terminates",
     "Bag generation, EM iterations, nearest positive-definite repair and searches end for every admissible input.",
     ["inputs", "configurations"], "all admissible inputs and options",
     "Tests run a handful of inputs, all of which end.",
     ['bag_generator.py', 'multiclass/em.py', 'optimization.py', 'search.py'],
     [("max_iter", "multiclass/em.py"), ("rejection loop", "bag_generator.py")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P))
