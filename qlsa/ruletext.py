"""What each check analyses and the rule it applies (evidence and DESIGN.md)."""

COMMON = ('The sources under /repo/quantificationlib are parsed and every scenario (an abstract history of public calls '
          'with symbolic data, any number of examples, features and bags, 2 and n classes) is interpreted abstractly over '
          'value numbers with sources, shapes, aliasing and effects; branches are joined, loops are interpreted once for a '
          'symbolic index; nothing is executed and no solver is used. ')
ASSUME = ['numpy, scipy, scikit-learn, cvxpy and quadprog behave as the models in qlsa/*_models.py say',
          'user-supplied estimators and functions follow the scikit-learn protocol',
          'constructs that are not modelled are unknown and are not reported (they are counted)']

TEXT = {
    'C01': 'every alternative of a returned prevalence vector, in normal form, sums to 1 along the class axis and is not negative, or is the solution of a problem with simplex constraints',
    'C02': 'a value that selects examples by class label selects, for position k of the result, the label at position k of the sorted classes; in an optimisation problem the column of variable j is built from the examples of class j',
    'C03': 'a row of the training predictions is paired with the label of the example it was computed for (row index modulo the number of examples)',
    'C04': 'the description of a class (training) with the selection of the class replaced by the whole testing sample is the description of the testing sample',
    'C05': 'the result after a second fit has no source in the first fit (data, predictions, sizes, classes)',
    'C06': 'the second prediction has no source in the first one and equals it when the samples are exchanged',
    'C07': 'no write (element, view, attribute, in-place method) reaches memory owned by an object the caller passed as data',
    'C08': 'no write reaches a default argument value; members are distinct objects that are neither the template nor a default',
    'C09': 'a supplied estimator is fitted at a site where it is not known to be fitted, with the caller\'s training data, and is not used unfitted',
    'C10': 'no reachable call draws from, or seeds, the global generator of numpy or random, or an unseeded generator',
    'C11': 'drawn positions, bag sizes, minimum prevalences, draw weights and reported prevalences agree as terms',
    'C12': 'the fold used to predict an example is the fold the estimator was not trained with',
    'C13': 'no reachable print, write to a stream, progress bar or warning call under default verbosity',
    'C14': 'constructor parameters are stored unchanged under their own names (also after fit) and fit returns the object',
    'C15': 'an option value outside the documented set, unsupported number of classes or missing argument reaches a raise on every path',
    'C16': 'interval, symmetry, zero-at-equality and definedness of the normal forms of the measures',
    'C17': 'no name, attribute, call, shape or dtype error is derivable on a reachable path, and no operation always ends in an exception',
    'C18': 'objective, matrices and constraints given to the solver are the ones of the documented problem, at the first and at every later prediction',
    'C19': 'each row of predict_proba sums to 1 with non-negative entries (normal form)',
    'C20': 'no handler catches an exception raised by user-supplied code without raising again',
    'C21': 'the first and last edges of every histogram used to describe a sample are unbounded or bound every value',
    'C22': 'supplied predictions are the only source of predictions when given; with neither predictions nor estimators a ValueError is raised',
    'C23': 'every path of predict/predict_proba before fit ends in NotFittedError',
    'C24': 'the data given to member i are exactly the examples of bag i / of sub-problem i, and selection statistics are those of the strategy',
    'C40': 'the bracket update of golden_section_search and the scan of global_search are derived as recurrences over the loss at the prevalences tried, for any loss; the derived result is valued for losses with one or several minima inside and at the ends, for several intervals and tolerances, and must be the least one',
    'C25': 'the derived estimate (or the quantity given to the solver or search) is compared, as a value of the samples, with an independently written definition of the method; problems are compared by the order they put on the prevalences',
}

RULES = {k: {'explanation': COMMON, 'rule': v, 'assumptions': ASSUME} for k, v in TEXT.items()}

READY = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C40".split()

NOT_APPLICABLE = {
    'C41': 'convergence is a statistical statement about the data-generating process, not about the source alone',
    'C42': 'termination depends on run-time numerical convergence (EM, dynamic programming, solvers) that no static bound in reach covers',
}

TECHNIQUE = {'': 'abstract interpretation of the sources (value-flow, alias and effect analysis) with per-property rules'}
NOTE = {'': 'static: the current sources are interpreted abstractly for all data sizes and the catalogued options; a '
            'violation is reported only when derived, unmodelled constructs are unknown and quiet (see DESIGN.md)'}
