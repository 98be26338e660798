#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property
is claimed iff checks/<id>.py exists."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DATA = ['kamrecsys/data/event.py', 'kamrecsys/data/base.py',
        'kamrecsys/base/base.py']
SCORE = ['kamrecsys/data/event_with_score.py'] + DATA
PMF = ['kamrecsys/score_predictor/matrix_factorization.py']
LPMF = ['kamrecsys/item_finder/matrix_factorization.py']
PLSA = ['kamrecsys/score_predictor/topic_model.py']
MODELS = PMF + LPMF + ['kamrecsys/base/base.py',
                       'kamrecsys/score_predictor/base.py',
                       'kamrecsys/item_finder/base.py']
SPLIT = ['kamrecsys/model_selection/split.py']
SCR = ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
       'scripts/exp_recsys_util.py']

# id, title, statement, over, quantifier text, why tests cannot, files,
# mechanisms, technique, level note
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, tech, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech, tech=tech,
                  note=note))


prop('C01', 'External and internal ids correspond one to one',
     'After events are stored, the external ids of each object type that occur in the events are exactly the ids of that type, internal ids are 0..n-1, and converting to internal ids and back is the identity for ids, single events and event arrays. Ids that do not occur are rejected in the id conversion and map to the reserved index n in event conversion; internal ids outside 0..n-1 are rejected.',
     ['inputs', 'configurations'], 'every event array, assignment of object types to columns (also shared and skipped types) and kind of external id',
     'Tests convert ids of one or two fixed data sets with types (0, 1) or (0, 0) and integer ids.', DATA + ['kamrecsys/base/__init__.py'],
     ['EventData.set_event builds sorted id tables per type', 'to_iid / to_eid / to_iid_event / to_eid_event'],
     'bounded exhaustive enumeration of event arrays against a list model',
     'complete within the bounds; ids outside the alphabets and larger sets only along a size ladder')
prop('C02', 'Filtering events yields exactly the container of the survivors',
     'Filtering by a mask or by indices gives a container whose events, scores, event features, objects and object features, in terms of external ids, are exactly those of the selected events in order; objects no longer rated disappear with their features and ids are again consecutive. This holds for any chain of filters, and the filtered container equals one built from the survivors.',
     ['histories', 'inputs'], 'every event array, mask or index array, and chain of filters',
     'Tests filter one fixed data set once and compare a few numbers.', DATA + SCORE[:1],
     ['filter_event re-maps ids via the filtered id tables'],
     'explicit-state exploration of filter chains on the real container against a list model',
     'all masks and chains within the bounds; state comparison is by external ids')
prop('C03', 'Object features stay attached to their objects over any history',
     'After every sequence of storing events, setting features (rows in any order, supersets allowed), filtering and binarizing, the feature row found at an internal id is the row supplied for the object with the corresponding external id, and no feature of an earlier event set survives.',
     ['histories'], 'every sequence of container operations',
     'Tests call set_feature once on one data set; no test combines operations.', DATA + SCORE[:1],
     ['EventData.set_feature', 'filter_event carries features over', 'set_event resets features'],
     'explicit-state exploration of operation histories against a list model',
     'all histories up to the depth over the alphabet')
prop('C04', 'Containers are isolated from each other and from their callers',
     'An operation on one container, or a caller writing in place into arrays it passed in or into a filtered container, never changes any other container; no operation changes an array passed to it.',
     ['histories'], 'every interleaving of operations and in-place writes over several live containers derived from each other',
     'No test looks at aliasing between containers or with the arguments.', DATA + SCORE[:1],
     ['deep copies in filter_event and set_event'],
     'explicit-state exploration of histories over a pool of live containers',
     'all histories up to the depth; writes go into every array reachable through the public attributes')
prop('C05', 'Score levels, bins and digitized scores match the score domain',
     'For every score domain (minimum, maximum, stride) the number of levels is (max - min) / stride + 1, bins separate neighbouring levels in the middle, a score is digitized to the index of its nearest level, and a domain that is not given is inferred from the scores.',
     ['inputs'], 'every domain (decimal strides, negative minima, numeric types) and every score',
     'Tests use two domains, (1, 5, 1) and one with stride 0.5.', SCORE[:1] + ['kamrecsys/metrics/base.py', 'kamrecsys/metrics/score_predictor.py'],
     ['EventWithScoreData.set_event', 'generate_score_bins', 'get_score digitization'],
     'exhaustive enumeration of a grid of domains and scores against exact rational arithmetic',
     'complete over the grid; scores exactly between two levels may take either')
prop('C06', 'Binarizing scores applies the threshold and changes nothing else',
     'Binarizing maps each score to 0 if it is at most the threshold (default: middle of the domain) and to 1 otherwise, sets the domain to (0, 1, 1), and leaves events, ids, features and order unchanged.',
     ['inputs'], 'every score vector, domain, threshold and score type',
     'One test with a single data set and the default threshold.', SCORE,
     ['EventWithScoreData.binarize_score'],
     'exhaustive enumeration of score vectors, domains and thresholds against a list model',
     'complete within the bounds')
prop('C07', 'Event files are loaded exactly as they are written',
     'Loading a tab separated event file gives a container whose events, scores and event features are those of the rows of the file in order, for any column types, with one row or many, from a path or a handle.',
     ['inputs', 'configurations'], 'every table, layout and way to pass the file',
     'Tests load the bundled samples, all of the same layout.', ['kamrecsys/datasets/base.py'] + SCORE,
     ['load_event', 'load_event_with_score'],
     'exhaustive enumeration of small files against a list model of the table',
     'complete within the bounds; other separators and encodings are not varied')
prop('C08', 'Named data sets equal the original files they are converted from',
     'Converting the distributed files of a named data set and loading it gives exactly the ratings and the attributes (age, gender, occupation, zip code, title, release date, genres, ...) of the original files, attached to the right users and items.',
     ['inputs'], 'every content of the original files in the distributed format',
     'The original files are not part of the tests; tests look at a few rows of the loaded result.', ['data/movielens100k.py', 'data/movielens1m.py', 'data/sushi3.py', 'data/flixster.py', 'kamrecsys/datasets/movielens.py', 'kamrecsys/datasets/sushi3.py', 'kamrecsys/datasets/flixster.py', 'kamrecsys/datasets/others.py'],
     ['converters in data/', 'loaders with their dtypes'],
     'exhaustive sweep of attribute values and small rating tables through the real converters and loaders against a list model',
     'each attribute value and each pair of genres at least once; converters run in a scratch copy')
prop('C09', 'Predictions follow the model equation; unknown objects fall back',
     'A fitted matrix factorization model predicts bias plus user bias plus item bias plus inner product of the factors of exactly the queried user and item (through the logistic function for item finders); an unknown user or item contributes zero bias and zero cross term.',
     ['inputs', 'configurations'], 'every pair of known and unknown objects, model, layout of columns, id kind, number of factors and parameter values',
     'Tests predict three fixed pairs at the optimum of one data set.', MODELS,
     ['predict / raw_predict', 'get_event selects user and item columns', 'zero entry for unknown objects'],
     'bounded exhaustive enumeration under an adversarial optimizer against the reference equation',
     'complete over the layouts and queries; parameter values are arbitrary vectors chosen by the controlled optimizer')
prop('C10', 'Prediction is a pure function of the fitted model and the query',
     'Predicting changes neither the model nor the query; an event gets the same prediction alone, inside any batch, at any position, after any other predictions, and from a pickled, copied or deep-copied model.',
     ['histories', 'inputs'], 'every sequence of predictions and copies, and every arrangement of a batch',
     'Tests predict one fixed batch once.', MODELS + PLSA,
     ['BaseEventPredictor.predict', 'to_iid_event'],
     'explicit-state exploration of histories of predictions and copies on real fitted models',
     'all histories up to the depth over the alphabet of queries')
prop('C11', 'Training minimises the documented objective on the given data',
     'The function minimised during fitting equals, at every parameter vector, the objective of the model given by that vector on exactly the training events: half the sum of squared errors for score prediction, or the cross entropy for finding items, plus C/2 times the squared norms of the biases and factors of the training objects.',
     ['inputs', 'configurations'], 'every parameter vector, training set, layout, C and k',
     'Tests evaluate the loss at one or two parameter vectors.', MODELS,
     ['loss', 'fit passes events and scores'],
     'enumeration of optimizer answers: the controlled optimizer evaluates and answers every point of a set spanning the parameter space',
     'complete over the layouts and points; numeric agreement to 1e-9 relative')
prop('C12', 'The gradient used in training is the derivative of the objective',
     'At every parameter vector the gradient handed to the optimizer equals the derivative of the objective handed to it with respect to every parameter.',
     ['inputs', 'configurations'], 'every parameter vector, coordinate, training set, layout, C and k',
     'Tests compare one vector against stored numbers.', PMF + LPMF,
     ['grad_loss'],
     'enumeration of every coordinate direction at a set of points, five point stencil on the objective as oracle',
     'complete over coordinates; agreement to 1e-5 relative')
prop('C13', 'Fit results describe the fit that produced the parameters',
     'After fitting, the recorded results (final loss, status, counts of users, items, events and parameters, iterations, calls, optimizer method and options) are those of the fit that produced the stored parameters; training does not end above its initial loss; training data is not kept, and options of the caller are handed over unchanged.',
     ['configurations', 'fault_sequences', 'inputs'], 'every optimizer outcome (success, limits, failure), option set and training set',
     'Tests only read the success flag and the final loss of one fit.', MODELS + PLSA,
     ['fit fills fit_results_', 'remove_data'],
     'enumeration of optimizer outcomes through a controlled optimizer',
     'complete over the outcome alphabet; final loss compared with the reference objective')
prop('C14', 'A fit depends only on data, hyper-parameters and seed',
     'The result of fitting is the same whatever happened before: earlier complete, failed or interrupted fits and predictions of the same object, other models, or the state of the global random number generator, which is not consumed when a seed or generator is given.',
     ['histories', 'fault_sequences'], 'every history of fits, failures, interruptions and predictions before a fit',
     'Tests fit a fresh object each time.', MODELS + PLSA,
     ['fit initialises all learned state', 'random_state is turned into a generator at fit'],
     'explicit-state exploration of histories of operations preceding a fit, fault injection at every optimizer call',
     'all histories up to the depth; compared with a fresh object bit for bit')
prop('C15', 'A rejected fit leaves a fitted model as it was',
     'If fitting is rejected because of its arguments (data of an illegal class, a container without events, a selection of missing columns, or scores that are not binary where binary ones are required), an already fitted model keeps its parameters, results and predictions.',
     ['fault_sequences', 'histories'], 'every kind of illegal argument after every history of fits',
     'Tests do not fit after a rejected fit.', MODELS + PLSA,
     ['argument checks precede the change of state'],
     'enumeration of illegal arguments after histories of fits, comparison of the complete observable state',
     'all combinations of model, illegal argument and history within the bounds')
prop('C16', 'A fitted model is isolated from later changes of its data',
     'After fitting, no operation on the training container or in-place write to its arrays (or to those of the caller) changes the model, and no fit or prediction changes the container.',
     ['histories'], 'every sequence of operations on the container after the fit',
     'No test touches the data after fitting.', MODELS + PLSA + DATA,
     ['copies of id tables in the recommender', 'get_event returns copies'],
     'explicit-state exploration of histories of container operations after a fit',
     'all histories up to the depth; models compared by predictions and parameters, containers by content')
prop('C17', 'Explicit item finders accept exactly binary scores',
     'Fitting an explicit item finder succeeds for a container with scores if and only if the score domain is (0, 1, 1) and both 0 and 1 and nothing else occur as scores, and is rejected otherwise; predictions are probabilities strictly between 0 and 1 whatever the parameters.',
     ['inputs'], 'every score vector over an alphabet of binary and non binary values, and every parameter vector',
     'Tests try one binary and one non binary data set.', LPMF + ['kamrecsys/item_finder/base.py', 'kamrecsys/utils/base.py'],
     ['BaseExplicitItemFinder.fit checks is_binary', 'sigmoid clipping'],
     'bounded exhaustive enumeration of score vectors and of optimizer answers',
     'complete within the bounds')
prop('C18', 'Implicit item finders train on the set of observed pairs',
     'An implicit item finder treats a pair as positive iff it occurs in the training events, every other pair of known objects as negative, irrespective of repetition, order and scores of the events.',
     ['inputs'], 'every multiset of events, order and layout',
     'Tests use one data set without repeated events.', LPMF + ['kamrecsys/item_finder/base.py'],
     ['BaseImplicitItemFinder.get_event_array builds the event matrix'],
     'bounded exhaustive enumeration of event multisets and permutations; objective observed at arbitrary points through the controlled optimizer',
     'complete within the bounds')
prop('C19', 'Topic model training performs exact EM steps',
     'Every step of topic model training equals one EM step of the smoothed model computed from the definition; distributions stay normalised and positive, and the penalised likelihood never decreases.',
     ['histories', 'inputs'], 'every trajectory of steps from every training set, number of topics, smoothing and seed',
     'Tests run one data set to the end and look at the final loss.', PLSA,
     ['em_step / maximization_step', '_likelihood'],
     'explicit-state exploration of the training transition system: the state after every number of steps is compared with the reference transition',
     'complete trajectories within the bounds; agreement to 1e-9')
prop('C20', 'Topic model predictions follow the published distributions',
     'A topic model predicts the expected score (or, with the mode method, the most probable score) under the learned distributions for exactly the queried user and item, marginalising unknown users or items; predictions lie within the score domain.',
     ['inputs', 'configurations'], 'every pair of known and unknown objects, layout, method and number of topics',
     'Tests predict three pairs of one data set.', PLSA,
     ['raw_predict'],
     'bounded exhaustive enumeration of queries against the equation on the published parameters',
     'complete over pairs and layouts within the bounds')
prop('C21', 'Topic model training stops for the reason it reports',
     'Training stops at the first step whose relative change of loss is within the tolerance and reports success with that number of iterations, or runs for exactly the maximum number of iterations and reports that limit.',
     ['configurations', 'histories'], 'every tolerance, iteration limit and trajectory',
     'Tests do not look at status and number of iterations.', PLSA,
     ['fit loop and its status'],
     'enumeration of tolerances and limits around every value of the trajectory',
     'complete over the limits and over tolerances separating consecutive changes')
prop('C22', 'Mean absolute and squared errors are exact, bad input is rejected',
     'For every pair of equally long vectors the error metrics are the mean and standard deviation of absolute and squared differences (and the root of the mean); vectors that differ in length or have entries that are not finite are rejected, and arguments are not changed.',
     ['inputs'], 'every pair of vectors and of lengths',
     'Tests use one pair of vectors.', ['kamrecsys/metrics/real.py', 'kamrecsys/metrics/base.py'],
     ['MeanAbsoluteError / MeanSquaredError', 'argument checks in the base class'],
     'exhaustive enumeration of vectors over a grid against rational arithmetic',
     'complete within the bounds')
prop('C23', 'Score statistics and histograms count every score once',
     'The statistics and the report of score prediction give exact sizes, errors, means and deviations, and histograms in which every true or predicted score is counted exactly once in the bin of its nearest level, so that counts sum to the number of scores also for predictions outside the domain. Illegal input (different lengths, values that are not finite) is rejected.',
     ['inputs'], 'every score vector and domain',
     'Tests use one vector.', ['kamrecsys/metrics/score_predictor.py', 'kamrecsys/metrics/base.py'],
     ['score_histogram', 'ScorePredictorStatistics'],
     'exhaustive enumeration of score vectors against a counting model',
     'complete within the bounds')
prop('C24', 'Item finder statistics equal their definitions',
     'For every binary truth vector and score vector, the reported size, means, standard deviations and area under the ROC curve equal their definitions; ties count one half, and the area is absent if and only if one class is missing. Truth values that are not binary, different lengths, and values that are not finite are rejected.',
     ['inputs'], 'every truth vector and score vector',
     'Tests use one vector.', ['kamrecsys/metrics/item_finder.py', 'kamrecsys/metrics/base.py'],
     ['ItemFinderStatistics'],
     'exhaustive enumeration of truth and score vectors against counting definitions',
     'complete within the bounds')
prop('C25', 'Variance with a gamma prior equals its definition',
     'The regularised variance of n finite values is (2b + sum of squared deviations from their mean) / (2a + n) for every vector, numeric type, shape and prior; the number of values is returned on request. Missing (NaN) entries are ignored, or rejected if that is requested, and input without a value is rejected.',
     ['inputs'], 'every vector, prior and magnitude',
     'Tests use one vector.', ['kamrecsys/metrics/real.py', 'kamrecsys/metrics/base.py'],
     ['variance_with_gamma_prior'],
     'exhaustive enumeration against rational arithmetic', 'complete within the bounds')
prop('C26', 'Averaging over folds applies the function to each fold exactly once',
     'Averaging a statistic over folds calls the function exactly once per fold with the arguments of that fold alone (records by key, or lists by position) and returns the mean of the results, for any number of folds and arguments.',
     ['inputs'], 'every structure of arguments and number of folds',
     'Tests use one structure.', ['kamrecsys/metrics/base.py'],
     ['statistics_mean'],
     'exhaustive enumeration of argument structures with a recording function', 'complete within the bounds')
prop('C27', 'Within-group K-fold partitions every group over the folds',
     'The test sets of within-group K-fold splitting partition the samples; train is the complement of test; and each group is distributed over the folds in sizes differing by at most one (consecutive members without shuffling); a group smaller than the number of folds and illegal parameters are rejected.',
     ['inputs', 'configurations'], 'every assignment of groups, number of folds, shuffling and seed',
     'Tests use one assignment.', SPLIT, ['KFoldWithinGroups'],
     'exhaustive enumeration of group assignments up to renaming', 'complete within the bounds')
prop('C28', 'Within-group shuffle split respects sizes in every group',
     'Within-group shuffle split yields disjoint train and test sets whose sizes in every group are those requested of that group, without repetition, for every sizes specification; unsatisfiable specifications are rejected.',
     ['inputs', 'configurations'], 'every assignment of groups, sizes specification and seed',
     'Tests use one assignment.', SPLIT, ['ShuffleSplitWithinGroups'],
     'exhaustive enumeration of group assignments and sizes', 'complete within the bounds')
prop('C29', 'Interlaced K-fold assigns sample i to fold i mod K',
     'Interlaced K-fold yields K folds; fold f tests exactly the samples whose index is f modulo K and trains on the others; numbers of folds that are out of range are rejected.',
     ['inputs'], 'every number of samples and folds',
     'Tests use one size.', SPLIT, ['InterlacedKFold'],
     'exhaustive enumeration of sizes', 'complete within the bounds')
prop('C30', 'Splitters are reproducible and independent of other users',
     'With a fixed integer seed a splitter yields the same splits each time it is iterated, however iterations of several splitters are interleaved or abandoned, and consumes no global randomness; inputs are not changed.',
     ['schedules', 'histories'], 'every interleaving of several open iterations and every history of use',
     'Tests iterate one splitter once.', SPLIT, ['check_random_state at the start of an iteration'],
     'exhaustive enumeration of interleavings of open iterations', 'all interleavings within the bounds')
prop('C31', 'Records convert to JSON and back without losing values',
     'Making a record decodable keeps structure and every value of a record of results (nested dicts and lists; integers, floats, strings, arrays, numpy scalars), so that writing it as JSON and reading it gives equal values; values without a JSON form become their text. Converting twice is the same as converting once, and arrays in the record are only read.',
     ['inputs'], 'every nested record over the value alphabet',
     'There is no test.', ['kamrecsys/utils/kamexputils.py'], ['json_decodable'],
     'exhaustive enumeration of nested records against a recursive model', 'complete within the bounds')
prop('C32', 'Numeric helpers meet their definitions on all inputs',
     'The safe logistic function equals the logistic function clipped to [1e-15, 1 - 1e-15], and is monotone and symmetric, for every float and array; the test for binary scores accepts exactly arrays of zeros and ones (both must occur unless uniform ones are allowed). Messages of fitting match their status codes, and environment records give the true versions.',
     ['inputs'], 'every float of every exponent, and every small array',
     'Tests use a few values.', ['kamrecsys/utils/kammath.py', 'kamrecsys/utils/base.py', 'kamrecsys/utils/__init__.py'],
     ['sigmoid', 'is_binary'],
     'enumeration of all exponents and small arrays', 'complete over the alphabets')
prop('C33', 'Cross validation fold by fold equals all folds at once',
     'With the same seed, running the experiment script fold by fold in any order gives, for each fold, what running all folds at once gives for it; merging the results of any folds in any order gives exactly the results of those folds. Statistics of the complete merge equal those of running all folds at once.',
     ['histories', 'configurations'], 'every order of running folds, scheme, method and option',
     'The scripts have no tests.', SCR + ['scripts/exp_recsys_fold_merge.py'],
     ['cross validation loops', 'exp_recsys_fold_merge'],
     'exhaustive enumeration of execution orders of the folds of the real scripts',
     'all orders within the bounds')
prop('C34', 'Experiment results record what was actually run',
     'The result of an experiment pairs every test event with its own true score and the prediction of a model trained only on the training part, in the order of the file or folds; recorded sizes, options, score domain, times and files are those used, and 20% of the events of every user (rounded up) are tested in each fold of cross validation. Illegal arguments leave no result.',
     ['configurations', 'inputs'], 'every scheme, method, layout of the input and option',
     'The scripts have no tests.', SCR,
     ['holdout_test', 'cv_test', 'info record'],
     'exhaustive enumeration of configurations of the real scripts with models replaced by observers',
     'complete over the configurations')
prop('C35', 'Evaluation statistics cover exactly the recorded predictions',
     'The evaluation script reports, for any record of predictions, statistics over all recorded pairs of true and predicted scores - of all folds together, whatever their number, sizes and order - that equal their definitions under the recorded score domain. The rest of the record is passed on unchanged, with the predictions kept iff requested; unknown tasks and malformed predictions are rejected.',
     ['inputs', 'configurations'], 'every record of predictions, distribution over folds, and way to pass files', 'The scripts have no tests.', ['scripts/stats_recsys.py', 'kamrecsys/metrics/score_predictor.py', 'kamrecsys/metrics/item_finder.py'],
     ['do_task pools the folds'], 'exhaustive enumeration of small records through the real script against exact arithmetic', 'complete within the bounds')
prop('C36', 'Models depend only on the selected columns and the identity of ids',
     'Training on two columns of wider events whose other columns add no objects of the selected types gives the model trained on those columns alone. Replacing external ids by others in the same order, of any kind, or adding features, gives the same parameters and the same predictions for corresponding objects.',
     ['inputs', 'configurations'], 'every layout of columns, model and order preserving renaming',
     'Tests use two column data.', MODELS + PLSA,
     ['event_index handling', 'id tables'],
     'bounded exhaustive enumeration of layouts; differential oracle on real fits', 'complete over the layouts')
prop('C37', 'Concurrent use gives the results of sequential use',
     'Threads that predict with or copy the same fitted model, train different models on the same container, filter or read the same container, load files, compute statistics, or iterate splitters get exactly the results of running alone.',
     ['schedules'], 'every interleaving of threads',
     'There is no test with threads.', MODELS + PLSA + DATA + SPLIT,
     ['operations on shared objects only read them'],
     'stateless exploration of thread interleavings at source line granularity with a preemption bound under a controlled scheduler',
     'all schedules with the stated number of preemptions at line boundaries of kamrecsys code')
prop('C38', 'Hyper-parameters act as given',
     'The hyper-parameters of a recommender (C or alpha, k, the use of the expectation, the seed), as reported by get_params or attributes, are those given last, by construction (with the documented defaults), set_params or assignment; training, predicting, cloning and copying do not change them. Fitting gives the model that a new recommender constructed with them gives, whatever was done before, and a clone is an unfitted recommender with the same hyper-parameters, independent of its source.',
     ['histories', 'configurations'], 'every sequence of settings, fits, predictions, clones and copies',
     'Tests construct each model once with one setting and fit it once.', MODELS + PLSA,
     ['constructors of the recommenders', 'fit reads C, alpha, k and the seed from attributes', 'sklearn BaseEstimator protocol'],
     'explicit-state exploration of histories of the real recommender against freshly constructed ones',
     'all histories up to the depth over the alphabet; arguments for optimizers are not part of it')
prop('C39', 'Illegal structure is rejected, legal structure accepted',
     'A container is constructed if and only if there is at least one object type and every column has one of the types; events are converted or predicted if and only if they are one event or an array of events with all the columns, with results of the same shape, and rejected otherwise; event files whose rows differ in their number of columns or have too few columns are rejected. A rejected operation changes nothing.',
     ['inputs', 'configurations'], 'every assignment of types, array shape and table of columns',
     'Tests check a single illegal specification and a single illegal shape.', DATA + ['kamrecsys/datasets/base.py'],
     ['EventData.__init__ checks event_otypes', 'to_eid_event / to_iid_event check shapes', 'load_event reads by a fixed dtype'],
     'bounded exhaustive enumeration of structures against the acceptance rule',
     'complete within the bounds')



def main():
    import importlib.util
    import sys
    sys.path.insert(0, V)
    claims, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['pid']
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': list(dict.fromkeys(p['files'])),
                    'mechanism': [{'name': m, 'where': p['files'][0]}
                                  for m in p['mech']],
                    'hook_needed': None}}) + '\n')
    for p in P:
        path = os.path.join(V, 'checks', p['pid'].lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': p['pid'],
                       'reason': 'no check has been built yet'})
            continue
        src = open(path).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        claims.append({
            'property': p['pid'],
            'quick_cmd': './check %s quick' % p['pid'],
            'thorough_cmd': './check %s thorough' % p['pid'],
            'evidence_file': 'evidence/%s.json' % p['pid'],
            'technique': 'model checking: ' + p['tech'],
            'level': level, 'level_note': p['note']})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': claims,
                   'not_applicable': na,
                   'notes': 'The code under test needs no hooks: the explorer '
                   'replaces scipy.optimize.minimize before the import and '
                   'uses sys.settrace for schedules.'}, f, indent=1)
    print(len(P), 'properties', len(claims), 'claimed')


if __name__ == '__main__':
    main()
