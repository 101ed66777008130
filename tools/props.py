"""The properties, their anchors and how each is claimed."""

AI = 'interprocedural abstract interpretation of the source (ownership and effect analysis)'
LIM = ('Static decision on the current source. Sound within the modelled Python subset and the driven entry points and '
       'option values (sa/specs.py); trusts the effect models of pandas, numpy, sklearn, joblib and torch calls in '
       'sa/ext.py, and treats a call it cannot resolve as free of effects on caller-owned objects.')

EST_FILES = ['ylearn/estimator_model/meta_learner.py', 'ylearn/estimator_model/double_ml.py',
             'ylearn/estimator_model/doubly_robust.py', 'ylearn/estimator_model/approximation_bound.py',
             'ylearn/estimator_model/iv.py', 'ylearn/estimator_model/deepiv.py',
             'ylearn/estimator_model/causal_tree.py', 'ylearn/estimator_model/causal_forest.py',
             'ylearn/estimator_model/_generalized_forest/_base_forest.py', 'ylearn/estimator_model/_permuted.py',
             'ylearn/policy/policy_model.py', 'ylearn/effect_interpreter/ce_interpreter.py', 'ylearn/uplift/_model.py']

CAUSAL_FILES = ['ylearn/causal_model/graph.py', 'ylearn/causal_model/model.py', 'ylearn/causal_model/prob.py',
                'ylearn/causal_discovery', 'ylearn/bayesian', 'ylearn/exp_dataset', 'ylearn/sklearn_ex', 'ylearn/api']

PROPS = [
    dict(
        id='C01', title="Calls leave the caller's data and arguments unmodified",
        statement="Constructing, fitting and querying any effect estimator (single or permuted), policy tree, effect "
                  "interpreter or uplift model, any causal graph, causal model, discovery back end, Bayesian network, "
                  "data cleaning transformer or data generator, and the all-in-one Why, never changes an object the "
                  "caller passed in: the training and test data frames, arrays, lists of column names, causation "
                  "dictionaries, graphs and every other argument hold the same content after the call as before it.",
        quantifier=dict(over=['inputs', 'configurations', 'histories'],
                        text='every option combination and input of construction, fit, refit and every public query of '
                             'every estimator, policy, interpreter, uplift, graph, model, discovery and Why class'),
        why_tests_cant='A test compares at most the frame it built, after the one option combination it ran; no existing '
                       'test compares an argument before and after a call. In-place writes hide behind views, shared '
                       'lists and rarely taken option branches.',
        anchors=dict(files=EST_FILES + ['ylearn/estimator_model/utils.py', 'ylearn/utils/_common.py'] + CAUSAL_FILES,
                     mechanism=[dict(name='column extraction and encoding', where='ylearn/estimator_model/utils.py convert2array'),
                                dict(name='list arguments', where='ylearn/utils/_common.py to_list'),
                                dict(name='fit / estimate of each estimator', where='ylearn/estimator_model/*.py')]),
        technique=AI, level_note=LIM),
    dict(
        id='C02', title='Training happens on copies of the learners a caller gives',
        statement='A machine-learning model, transformer or estimator passed to the constructor or to fit of an effect '
                  'estimator, policy or interpreter, causal model or Why is never itself trained or reconfigured: all training happens on private copies, so the '
                  "caller's object has the same parameters and fitted state after construction, fit, refit and queries.",
        quantifier=dict(over=['configurations', 'histories'],
                        text='every learner-valued argument of every estimator class, with every driven option '
                             'combination, through construction, fit, refit and queries'),
        why_tests_cant='Existing tests create a fresh model for every estimator, so a shared or in-place trained model is '
                       'invisible; aliasing between two estimators given one learner needs a history no test runs.',
        anchors=dict(files=EST_FILES, mechanism=[
            dict(name='clone of the given model', where='ylearn/estimator_model/meta_learner.py'),
            dict(name='cross-fit copies', where='ylearn/estimator_model/double_ml.py _cross_fit'),
            dict(name='copies in the constructor', where='ylearn/estimator_model/doubly_robust.py')]),
        technique=AI, level_note=LIM),
    dict(
        id='C03', title='A second fit starts from scratch',
        statement='Calling fit again, with the same or other options, on an already fitted estimator, policy tree, '
                  'interpreter, uplift model, data cleaner or Why behaves like fitting a fresh instance: no encoder, probability, trained '
                  'model, cached array or flag left behind by the earlier fit is used by the later fit or by the queries '
                  'after it, and nothing of it is still held after a refit with the same options. (Continuing from the '
                  'earlier fit under warm_start=True is what that option asks for and is exempt.)',
        quantifier=dict(over=['histories', 'configurations'],
                        text='every fit; fit history with every driven option combination, for any pair of data sets'),
        why_tests_cant='No existing test fits one instance twice on different data; what the second fit reads from the '
                       'first depends on histories and option branches that sampling does not reach.',
        anchors=dict(files=EST_FILES, mechanism=[
            dict(name='fit entry points', where='ylearn/estimator_model/base_models.py BaseEstModel.fit'),
            dict(name='treatment encoders built in fit', where='ylearn/estimator_model/meta_learner.py _comp_transformer'),
            dict(name='fitted flag', where='ylearn/estimator_model/base_models.py')]),
        technique=AI + ': provenance of every attribute read in a second fit', level_note=LIM),
    dict(
        id='C04', title='Queries do not change the object they are asked of',
        statement='On a fitted estimator, policy tree, interpreter, uplift model or Why, and on a causal graph, causal '
                  'model or discovery back end, queries (estimating effects, predicting, deciding, leaf and importance '
                  'lookups, uplift curves and scores, graph lookups, adjustment sets, identification, discovery calls) '
                  'are read-only: none of them writes state that a later query reads, so answers do not depend on which queries ran before.',
        quantifier=dict(over=['histories', 'configurations'],
                        text='every sequence of queries on every fitted object, with every driven option combination'),
        why_tests_cant='Tests call each query once or twice in one order; an answer that depends on an earlier call with '
                       'other arguments needs a specific history.',
        anchors=dict(files=EST_FILES, mechanism=[
            dict(name='estimate', where='ylearn/estimator_model/*.py estimate'),
            dict(name='nji effects', where='ylearn/estimator_model/*.py effect_nji'),
            dict(name='policy queries', where='ylearn/policy/policy_model.py predict_ind')]),
        technique=AI + ': write sets of queries against read sets of queries', level_note=LIM),
    dict(
        id='C05', title='An object that was never fitted refuses queries',
        statement='A query (estimate effects, predict, decide, apply, importances) on an estimator, policy tree, '
                  'interpreter or Why whose fit was never called always raises; no option or argument combination lets it '
                  'return a value.',
        quantifier=dict(over=['configurations', 'inputs'],
                        text='every public query of every estimator, policy and interpreter class on an unfitted '
                             'instance, for every driven option combination'),
        why_tests_cant='No existing test queries an unfitted object; the guard has to hold on each path of each query, '
                       'and several classes take it from different helpers.',
        anchors=dict(files=EST_FILES, mechanism=[
            dict(name='fitted flag', where='ylearn/estimator_model/base_models.py _is_fitted'),
            dict(name='guards', where='ylearn/estimator_model/*.py estimate, _prepare4est')]),
        technique='typestate analysis by abstract interpretation: reachability of a normal return', level_note=LIM),
    dict(
        id='C06', title='Fit returns the fitted object and queries return results for every option',
        statement='Fit of every estimator, policy tree, interpreter, uplift model, data cleaner and Why returns that same object, and every '
                  'query of a fitted object returns a value rather than nothing. Each documented option value is usable: '
                  'an option combination is either served or refused by an explicit error, never broken by a missing '
                  'attribute, an undefined variable or a call that does not match its function.',
        quantifier=dict(over=['configurations', 'inputs'],
                        text='every driven option combination of fit and of every query of every class'),
        why_tests_cant='The option space is a product; tests run a handful of combinations and never the rest.',
        anchors=dict(files=EST_FILES, mechanism=[
            dict(name='fit return', where='ylearn/estimator_model/*.py fit'),
            dict(name='query returns', where='ylearn/estimator_model/*.py estimate')]),
        technique='abstract interpretation: definite failure and return-value analysis of every option combination',
        level_note=LIM),
    dict(
        id='C07', title='Every name, attribute and call in the package resolves',
        statement='No function of the package, on whatever rare branch, option or error path it sits, refers to a name, '
                  'in-package import or attribute of self that is defined nowhere, or calls a function, method or '
                  'constructor of the package with arguments that do not match its signature.',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='every statement of every function of every module, on every path'),
        why_tests_cant='Python finds such a failure only when the statement runs, and the existing tests do not run rare '
                       'branches, error paths and optional back ends.',
        anchors=dict(files=['ylearn'], mechanism=[
            dict(name='module namespaces', where='ylearn/**/__init__.py'),
            dict(name='class hierarchies', where='ylearn/estimator_model/base_models.py'),
            dict(name='wrappers of discovery back ends', where='ylearn/causal_discovery/_proxy_gcastle.py')]),
        technique='whole-program name, class-family and signature resolution over the syntax trees',
        level_note='Sound for names, in-package imports, calls through module names, self and super(). Attributes are '
                   'resolved against the whole class family, so an attribute set on some path counts as set; classes '
                   'with library bases other than sklearn mix-ins are left out of the attribute rule.'),
    dict(
        id='C08', title='Errors that are built are raised and assertions can fail',
        statement='Wherever the package detects an error, it raises it: no exception object is created and dropped or '
                  'returned, no raise statement raises something that is no exception, no assertion is true by '
                  'construction, and no comparison or message is computed and thrown away.',
        quantifier=dict(over=['inputs', 'configurations'], text='every statement of every function of every module'),
        why_tests_cant='An error path that silently continues passes every test that does not take it with bad input and '
                       'look for the exception.',
        anchors=dict(files=['ylearn'], mechanism=[
            dict(name='validation in fit and estimate', where='ylearn/estimator_model/*.py'),
            dict(name='validation in the api', where='ylearn/api/_why.py')]),
        technique='syntax-tree rule over every raise, assert, return and expression statement',
        level_note='Decides the form of the statement, not whether the tested condition is the right one.'),
    dict(
        id='C09', title='A given random state makes results repeatable',
        statement='Every random draw made while constructing, fitting or querying an object that was given a '
                  'random_state (estimators, forests, policy trees, interpreters, discovery back ends, Bayesian networks, '
                  'data cleaning, Why), or in a data generating or splitting function that was given a seed, comes from a '
                  'generator seeded from that value, whatever integer it is, 0 included: never from the unseeded '
                  'process-wide generator, from a number fixed in the code instead of the given one, or from one '
                  'generator that parallel workers share. (Learners the caller passes in draw as the caller set them up.) Importing the package neither draws from nor seeds the global '
                  'generators.',
        quantifier=dict(over=['inputs', 'configurations', 'histories', 'schedules'],
                        text='every draw reachable from every public call, for every given seed, prior state of the '
                             'global generators and worker schedule'),
        why_tests_cant='Two runs in one test process with one seed agree by luck of the global state, and a draw in a '
                       'rarely taken branch or in a worker thread shows only under a particular schedule or history.',
        anchors=dict(files=EST_FILES + CAUSAL_FILES, mechanism=[
            dict(name='seeds of the trees of a forest', where='ylearn/estimator_model/_generalized_forest/_base_forest.py'),
            dict(name='seeding of torch and numpy', where='ylearn/utils/_common.py set_random_state'),
            dict(name='cross fitting folds', where='ylearn/estimator_model/double_ml.py')]),
        technique='abstract interpretation with a ghost state for each random generator: provenance of the seed of every draw',
        level_note=LIM + ' Which library calls draw, and from which generator, is a table in sa/ext.py.'),
    dict(
        id='C10', title='An effect is the outcome at treat minus the outcome at control',
        statement='When the caller names the treat and the control level, the effect returned by SLearner, TLearner, XLearner '
                  '(the single learners), DoubleML, DoublyRobust, ApproxBound (estimate and effect_nji) and by '
                  'Why.causal_effect with double machine learning on a continuous treatment is, under every option, the '
                  'predicted outcome at the named treat level minus that at the named control level: both levels enter, '
                  'treat only added and control only subtracted. Wherever the package passes levels on '
                  '(Why.causal_effect and Why.uplift_model down to any estimator), the level the caller named as treat never '
                  'arrives as control, nor the reverse.',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='all data, all levels named by the caller, all option combinations driven'),
        why_tests_cant='A test compares one effect on one data set within a tolerance; a sign or a level exchanged on one '
                       'option path (array levels, probabilities, separate folds) leaves the other paths right.',
        anchors=dict(files=EST_FILES + ['ylearn/api/_why.py'], mechanism=[
            dict(name='difference of two predictions', where='ylearn/estimator_model/meta_learner.py _prepare_combined_treat'),
            dict(name='effect of a named level', where='ylearn/estimator_model/double_ml.py _prepare4est'),
            dict(name='levels of each treatment', where='ylearn/api/_why.py _permute_treat_control_sequential')]),
        technique='abstract interpretation with signed provenance tags: each value carries the treatment levels it stands for '
                  'and the sign each enters with',
        level_note=LIM + ' Causal trees and forests (the level enters through Cython code) and the choice of a fitted pair by '
                   'the permuted learners are outside.'),
    dict(
        id='C11', title='No option a caller can name is dropped',
        statement='No named parameter of a public function, method or constructor of the package is silently dropped: the '
                  'value the caller gives reaches, through copies, stored attributes and calls inside the package, at least '
                  'one computation, test, stored result or library call that depends on it, and is not overwritten before '
                  'it is read. Nor does any function of the package call another one that has an optional parameter of the same '
                  'name without passing it on, unless it acts on the value itself. (Parameters a scikit-learn signature requires, such as y of a transformer, unimplemented '
                  'methods and parameters that only complete a common signature are exempt.)',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='every named parameter of every public function, method and constructor of every module, for '
                             'every value'),
        why_tests_cant='A test that passes an option rarely also checks that another value of the option changes the '
                       'outcome; an option dropped at one link of a chain of calls, or stored and never read, raises nothing.',
        anchors=dict(files=EST_FILES + CAUSAL_FILES, mechanism=[
            dict(name='options forwarded by Why', where='ylearn/api/_why.py'),
            dict(name='forest options', where='ylearn/estimator_model/causal_forest.py'),
            dict(name='discovery options', where='ylearn/causal_discovery/_discovery.py')]),
        technique='whole-program value flow graph over parameters, locals and attributes with call resolution, backward '
                  'reachability from uses',
        level_note='Static decision on the current source. Flow insensitive but for overwriting: an option that matters on one '
                   'path and is dropped on another counts as honoured; an attribute of unknown receiver counts as read '
                   'wherever the name is read.'),
    dict(
        id='C12', title='Answers do not depend on the hash seed',
        statement='The sequences a user gets from causal graphs, causal models and their identification, discovery results, '
                  'Bayesian networks and their graphs, the treatment and covariate identifiers, data cleaning and Why - lists of '
                  'variable names, the order of columns, which of several admissible sets is chosen, lists of sets, and random '
                  'draws - never follow the order in which a Python set of names happens to enumerate its elements: the '
                  'same inputs and seeds give the same answer in every process, whatever PYTHONHASHSEED is. (Results that '
                  'are sets have no order and are exempt, as are sets of integers.)',
        quantifier=dict(over=['inputs', 'configurations'],
                        text='every driven entry point, option and input, for every hash seed'),
        why_tests_cant='One process has one hash seed: within it every run agrees, and an order that is right for the '
                       'names of the test graph can be another one tomorrow.',
        anchors=dict(files=CAUSAL_FILES + ['ylearn/utils/_common.py'], mechanism=[
            dict(name='power sets of candidates', where='ylearn/causal_model/model.py get_backdoor_set, get_frontdoor_set'),
            dict(name='covariates found by discovery', where='ylearn/api/_identifier.py'),
            dict(name='sorted blankets', where='ylearn/bayesian/_dag.py sort_nodes')]),
        technique='interprocedural abstract interpretation of the source (order-of-enumeration taint)',
        level_note=LIM + ' Orders that networkx or pandas take internally are trusted to be insertion orders, and orders of '
                   'dictionary keys count only when they are enumerated.'),
]

NOT_APPLICABLE = [
    dict(
        id='N01', title='Estimated effects converge to the true effect',
        statement='Under the documented assumptions of an estimator (no unobserved confounding, valid instrument, overlap, ...) '
                  'its estimates approach the true average or conditional effect as the sample grows.',
        quantifier=dict(over=['inputs'], text='every data generating process satisfying the assumptions'),
        why_tests_cant='A test compares one sample from one process with a tolerance.',
        anchors=dict(files=EST_FILES, mechanism=[dict(name='fit and estimate', where='ylearn/estimator_model')]),
        reason='a statement about limits of numbers under a distribution: no static argument over the source bounds the values '
               'learned by arbitrary sklearn or torch models'),
    dict(
        id='N02', title='Identified expressions equal the interventional distribution',
        statement='Whenever identification succeeds, the returned adjustment sets, instruments or probability expression equal '
                  'the causal effect in every model compatible with the graph; whenever the effect is identifiable, '
                  'identification succeeds.',
        quantifier=dict(over=['inputs'], text='every causal graph, treatment and outcome'),
        why_tests_cant='Tests check a handful of graphs.',
        anchors=dict(files=['ylearn/causal_model/model.py', 'ylearn/causal_model/graph.py'],
                     mechanism=[dict(name='ID and backdoor criterion', where='ylearn/causal_model/model.py id, get_backdoor_set')]),
        reason='functional correctness of graph algorithms over all graphs; it needs a proof or an enumeration of graphs against an '
               'oracle, both outside static analysis of the source'),
    dict(
        id='N03', title='Causal discovery returns an acyclic graph of the data',
        statement='The causation matrix learned by the discovery back ends describes a directed acyclic graph, approaching that of '
                  'the generating process for enough data.',
        quantifier=dict(over=['inputs'], text='every data set'),
        why_tests_cant='Convergence of an optimiser depends on the data.',
        anchors=dict(files=['ylearn/causal_discovery'], mechanism=[
            dict(name='acyclicity penalty', where='ylearn/causal_discovery/_discovery.py')]),
        reason='depends on the convergence of a numerical optimisation, a runtime quantity no static argument bounds'),
    dict(
        id='N04', title='Tree splits maximise their criterion, honest leaves use held out samples',
        statement='Every split of a causal tree, policy tree or generalised forest maximises its documented criterion among '
                  'the admissible ones and honest leaves are valued from samples not used to find the splits.',
        quantifier=dict(over=['inputs'], text='every data set and option'),
        why_tests_cant='Tests look at predictions of a few trees only.',
        anchors=dict(files=['ylearn/estimator_model/_tree', 'ylearn/policy/_tree',
                            'ylearn/estimator_model/_generalized_forest'],
                     mechanism=[dict(name='Cython criteria and splitters', where='ylearn/estimator_model/_tree/tree_criterion.pyx')]),
        reason='numerical optimality decided inside Cython sources compiled with sklearn\'s own splitters, for which no front end '
               'is available here; index arithmetic over runtime arrays'),
]

NOTES = ('All checks are static: they parse /repo/ylearn on every run and never import or execute it. '
         'See DESIGN.md; known_findings.txt lists unrepaired genuine defects and the repaired ones.')
