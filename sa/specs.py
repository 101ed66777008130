"""Which public entry points are driven, and with what kinds of arguments.

Only public names appear here: importable classes and functions, their public
parameters and methods.  Everything behind them is reached by the analysis.
"""

FRAME = {'data', 'test_data', 'df', 'df_lift'}
NAMES = {'outcome', 'treatment', 'adjustment', 'covariate', 'instrument'}
MODEL = {'model', 'y_model', 'x_model', 'yx_model', 'final_effect_model', 'final_proba_model', 'ml_model'}
ARR = {'sample_weight', 'effect', 'effect_array', 'v', 'w', 'wv', 'x_prob'}

GIVEN, ABSENT = '@given', '@absent'

# Further public parameters that no axis below names are varied one at a time (sa/run.py extras); these are the values
# of those whose meaning their default does not tell.
EXTRA = {
    'categories': ['@list'],
    'adjustment_transformer': ['@model'], 'covariate_transformer': ['@model'],
    'proba_output': [{'proba_output': True, 'is_discrete_outcome': True}],
    'final_proba_model': [{'final_proba_model': '@model', 'proba_output': True, 'is_discrete_outcome': True}],
    'max_features': ['@int', '@float', 'sqrt', 'log2'],
    'sub_sample_num': ['@int', '@float'], 'honest_subsample_num': ['@int', '@float'],
    'min_samples_split': ['@float'], 'min_samples_leaf': ['@float'],
    'splitter': ['random'],
    'target_outcome': ['@str'],
    'v': ['@arr'], 'wv': ['@arr'],
    'treatment_basis': [], 'instrument_basis': [], 'covar_basis': [],
    'x_net_config': ['@dict'], 'y_net_config': ['@dict'],
    'treatment_names': ['@list'], 'feature_names': ['@list'],
    'n_jobs': ['@int'], 'verbose': ['@int'], 'sample_n': ['@int'],
    'x_hidden_d': ['@int'], 'y_hidden_d': ['@int'],
    'y_upper': ['@float'], 'y_lower': ['@float'],
    'effect': [], 'effect_array': [], 'est_model': [], 'criterion': [],
}
# is_discrete_treatment of the classes that only support discrete treatments is fixed
# copy=False and inplace=True ask for in-place work
NOEXTRA = {'random_state', 'is_discrete_treatment', 'copy', 'copy_data', 'inplace', 'resume_param_state'}

E = 'ylearn.estimator_model.'
WC = {'adjustment': GIVEN, 'covariate': GIVEN}


def est(name, ctor=None, axes=None, fit=None, fit_axes=None, queries=None, unfitted=None, mod=E, **kw):
    return dict(cls=mod + name, name=name, ctor=ctor or {}, axes=axes or {}, fit=dict(fit if fit is not None else WC),
                fit_axes=fit_axes or {}, queries=queries or {}, family='estimator', **kw)


B = [False, True]
DATA = {'data': [GIVEN, None]}

TC = {'treat': [GIVEN, None], 'control': [GIVEN, None]}

SPECS = [
    est('SLearner', {'model': GIVEN}, {'is_discrete_outcome': B},
        fit_axes={'combined_treatment': B, 'covariate': [GIVEN, ABSENT], 'treat+control': [GIVEN, None]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE']), 'effect_nji': DATA}),
    est('TLearner', {'model': GIVEN}, {'is_discrete_outcome': B},
        fit_axes={'combined_treatment': B, 'covariate': [GIVEN, ABSENT], 'treat+control': [GIVEN, None]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE']), 'effect_nji': DATA}),
    est('XLearner', {'model': GIVEN}, {'is_discrete_outcome': B},
        fit_axes={'combined_treatment': B, 'covariate': [GIVEN, ABSENT], 'treat+control': [GIVEN, None]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE']), 'effect_nji': DATA}),
    est('DoubleML', {'x_model': GIVEN, 'y_model': GIVEN},
        {'yx_model': [GIVEN, None], 'is_discrete_treatment': B, 'is_discrete_outcome': B, 'cf_fold': [1, 3]},
        fit_axes={'covariate': [GIVEN, ABSENT], 'adjustment': [GIVEN, ABSENT]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE'], **{'treat+control': [GIVEN, None]}), 'effect_nji': DATA}),
    est('DoublyRobust', {'x_model': GIVEN, 'y_model': GIVEN, 'yx_model': GIVEN}, {'cf_fold': [1, 3]},
        fit_axes={'treat+control': [GIVEN, None]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE'], all_tr_effects=B), 'effect_nji': DATA}),
    est('CausalForest', {'x_model': GIVEN, 'y_model': GIVEN},
        {'is_discrete_treatment': B, 'cf_fold': [1, 3], 'honest': B}, fit_axes={'control': [GIVEN, None]},
        queries={'estimate': DATA, 'apply': {'v': [GIVEN]}, 'feature_importance': {}, 'effect_nji': DATA}),
    est('GRForest', {}, {'is_discrete_treatment': B, 'honest': B}, fit_axes={},
        queries={'estimate': DATA, 'apply': {'v': [GIVEN]}, 'feature_importance': {}, 'effect_nji': DATA}),
    est('CTCausalForest', {}, {'honest': B}, fit_axes={'treat+control': [GIVEN, None]},
        queries={'estimate': DATA, 'apply': {'v': [GIVEN]}, 'feature_importance': {}, 'effect_nji': DATA},
        mod='ylearn.estimator_model.causal_tree.'),
    est('CausalTree', {}, {}, fit_axes={'treat+control': [GIVEN, None]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE']), 'effect_nji': DATA, 'predict': {'v': [GIVEN]},
                 'get_depth': {}, 'get_n_leaves': {}, 'apply': {'data': [GIVEN, None]},
                 'decision_path': {'data': [GIVEN, None]}, 'feature_importance': {}, 'n_features_': {}}),
    est('ApproxBound', {'y_model': GIVEN, 'x_model': GIVEN}, {'x_prob': [None, GIVEN]},
        fit={'covariate': GIVEN}, fit_axes={'is_discrete_covariate': B},
        queries={'estimate': dict(DATA, assump=[None, 'no-assump', 'non-negative', 'non-positive'],
                                  **{'treat+control': [GIVEN, None]}), 'effect_nji': DATA}),
    est('DeepIV', {}, {'x_net': [None, GIVEN], 'y_net': [None, GIVEN], 'is_discrete_treatment': B, 'is_discrete_outcome': B, 'is_discrete_instrument': B},
        fit={'adjustment': GIVEN, 'instrument': GIVEN}, fit_axes={'approx_grad': B},
        queries={'estimate': dict(DATA, quantity=['CATE', 'ATE'], marginal_effect=B), 'effect_nji': DATA}),
    est('NP2SLS', {'x_model': GIVEN, 'y_model': GIVEN}, {'is_discrete_treatment': B},
        fit={'adjustment': GIVEN, 'covariate': GIVEN, 'instrument': GIVEN},
        fit_axes={'is_discrete_instrument': B, 'covariate': [GIVEN, ABSENT]},
        queries={'estimate': dict(DATA, quantity=[None, 'ATE'], marginal_effect=B), 'effect_nji': DATA}),
    est('RLoss', {'x_model': GIVEN, 'y_model': GIVEN}, {'is_discrete_treatment': B}, fit_axes={'combined_treatment': B},
        queries={'score': {'test_estimator': [GIVEN]}}),
]
PERMUTED = [
    est('PermutedSLearner', {'model': GIVEN}, {'is_discrete_outcome': B}, fit_axes={},
        queries={'estimate': DATA, 'effect_nji': DATA}),
    est('PermutedTLearner', {'model': GIVEN}, {'is_discrete_outcome': B}, fit_axes={},
        queries={'estimate': DATA, 'effect_nji': DATA}),
    est('PermutedXLearner', {'model': GIVEN}, {'is_discrete_outcome': B}, fit_axes={},
        queries={'estimate': DATA, 'effect_nji': DATA}),
    est('PermutedDoublyRobust', {'x_model': GIVEN, 'y_model': GIVEN, 'yx_model': GIVEN}, {}, fit_axes={},
        queries={'estimate': DATA, 'effect_nji': DATA}),
]
INTERP = [
    dict(cls='ylearn.policy.policy_model.PolicyTree', name='PolicyTree', ctor={}, axes={}, fit={'covariate': GIVEN},
         fit_axes={'effect_src': ['effect', 'effect_array', 'est_model'], 'sample_weight': [GIVEN, None]},
         queries={'predict_ind': DATA, 'predict_opt_effect': DATA, 'apply': {'data': [GIVEN, None]},
                  'decision_path': {'data': [GIVEN, None]}, 'feature_importance': {}, 'get_depth': {}, 'get_n_leaves': {}},
         family='policy'),
    dict(cls='ylearn.effect_interpreter.policy_interpreter.PolicyInterpreter', name='PolicyInterpreter', ctor={}, axes={},
         fit={'covariate': GIVEN, 'est_model': GIVEN}, fit_axes={},
         queries={'decide': {'data': [GIVEN]}, 'predict': {'data': [GIVEN]}, 'interpret': DATA}, family='policy'),
    dict(cls='ylearn.effect_interpreter.ce_interpreter.CEInterpreter', name='CEInterpreter', ctor={}, axes={},
         fit={'est_model': GIVEN}, fit_axes={},
         queries={'decide': {'data': [GIVEN]}, 'predict': {'data': [GIVEN]}, 'interpret': {'data': [GIVEN, None]}},
         family='policy'),
    dict(cls='ylearn.uplift._model.UpliftModel', name='UpliftModel', ctor={}, axes={}, fit={'df_lift': GIVEN},
         fit_axes={'true_effect': [None, 'te'], 'random': [None, 'RANDOM']},
         queries={'get_cumlift': {}, 'get_gain': {'normalize': B}, 'get_qini': {'normalize': B}, 'gain_top_point': {},
                  'qini_top_point': {}, 'auuc_score': {}, 'qini_score': {}}, family='uplift'),
]


def obj(cls, ctor=None, axes=None, queries=None, ops=None, kinds=None, name=None, family='', fit=None, fit_axes=None, **kw):
    return dict(cls=cls, name=name or cls.rpartition('.')[2], ctor=ctor or {}, axes=axes or {}, fit=fit, fit_axes=fit_axes or {},
                queries=queries or {}, ops=ops or {}, kinds=kinds or {}, family=family, **kw)


def fn(dotted, axes=None, kinds=None, family='', **kw):
    return dict(func=dotted, name=dotted.rpartition('.')[2], axes=axes or {}, kinds=kinds or {}, family=family, **kw)


XY = {'x': ['@name', '@nameset', '@names']}
GRAPH = [
    obj('ylearn.causal_model.graph.CausalGraph', {'causation': '@causation'},
        {'dag': [None, '@nxgraph'], 'latent_confounding_arcs': [None, '@arcs']},
        queries={
            'prob': {}, 'latent_confounding_arcs': {}, 'is_dag': {}, 'to_adj_matrix': {},
            'is_d_separated': {'x': ['@nameset'], 'y': ['@nameset'], 'test_set': ['@nameset']},
            'c_components': {}, 'ancestors': XY, 'descendents': XY,
            'parents': {'x': ['@name'], 'only_observed': B}, 'observed_dag': {}, 'explicit_unob_var_dag': {},
            'topo_order': {},
            'add_nodes': {'nodes': ['@names', '@nameset'], 'new': [True]},
            'add_edges_from': {'edge_list': ['@arcs'], 'new': [True], 'observed': B},
            'remove_nodes': {'nodes': ['@names', '@nameset'], 'new': [True]},
            'remove_edges_from': {'edge_list': ['@arcs'], 'new': [True], 'observed': B},
            'build_sub_graph': {'subset': ['@names', '@nameset']},
            'remove_incoming_edges': dict(XY, new=[True]), 'remove_outgoing_edges': dict(XY, new=[True])},
        ops={
            'add_nodes': {'nodes': ['@names', '@nameset'], 'new': [False]},
            'add_edges_from': {'edge_list': ['@arcs'], 'new': [False], 'observed': B},
            'add_edge': {'s': ['@str'], 't': ['@str'], 'observed': B},
            'remove_nodes': {'nodes': ['@names', '@nameset'], 'new': [False]},
            'remove_edge': {'edge': ['@tuple'], 'observed': B},
            'remove_edges_from': {'edge_list': ['@arcs'], 'new': [False], 'observed': B},
            'remove_incoming_edges': dict(XY, new=[False]), 'remove_outgoing_edges': dict(XY, new=[False])},
        family='graph'),
]
TO = {'treatment': ['@name', '@nameset'], 'outcome': ['@name', '@nameset']}
TOX = {'treatment+outcome': ['@name', '@nameset']}
CMODEL = [
    obj('ylearn.causal_model.model.CausalModel', {'causal_graph': '@inst:CausalGraph', 'data': GIVEN},
        queries={
            'id': {'y': ['@nameset'], 'x': ['@nameset'], 'prob': [None, '@inst:Prob']},
            'is_valid_backdoor_set': dict(TO, set_=['@nameset', '@names']),
            'get_backdoor_set': dict(TO, adjust=['simple', 'minimal', 'all']),
            'get_backdoor_path': {'treatment': ['@name'], 'outcome': ['@name']},
            'has_collider': {'path': ['@names']},
            'is_connected_backdoor_path': {'path': ['@names']},
            'is_frontdoor_set': {'treatment': ['@name'], 'outcome': ['@name'], 'set_': ['@nameset', '@names']},
            'get_frontdoor_set': dict(TOX, adjust=['simple', 'minimal', 'all']),
            'get_iv': {'treatment': ['@name'], 'outcome': ['@name']},
            'is_valid_iv': {'treatment': ['@name'], 'outcome': ['@name'], 'set_': ['@name', '@nameset', '@names']}},
        ops={
            'identify': dict(TOX, identify_method=['auto', 'general', ('backdoor', 'simple'), ('frontdoor', 'simple')]),
            'estimate': {'estimator_model': ['@inst:SLearner'], 'data': [GIVEN, None], 'treatment': ['@names'],
                         'outcome': ['@names'], 'adjustment': [None, '@names'], 'covariate': [None, '@names']},
            'identify_estimate': {'data': [GIVEN], 'estimator_model': ['@inst:SLearner'], 'treatment': ['@names'],
                                  'outcome': ['@names']},
            'estimate_hidden_cofounder': {}},
        split=True, family='causal_model'),
    obj('ylearn.causal_model.prob.Prob',
        {'variables': '@nameset', 'conditional': '@nameset', 'divisor': '@nameset', 'marginal': '@nameset',
         'product': '@nameset'}, queries={'parse': {}, 'show_latex_expression': {}}, family='causal_model'),
]
CALL = {'data': ['@frame', '@arr'], 'return_dict': B}
D = 'ylearn.causal_discovery.'
DISCOVERY = [
    obj(D + '_discovery.CausalDiscovery', {}, {'random_state': ['@seed', '@seed0']}, queries={'__call__': CALL},
        family='discovery'),
    obj(D + '_discovery.GolemDiscovery', {}, {'random_state': ['@seed', '@seed0']}, queries={'__call__': CALL},
        family='discovery'),
    obj(D + '_discovery.DagmaDiscovery', {}, {'random_state': ['@seed', '@seed0']}, queries={'__call__': CALL},
        family='discovery'),
    obj(D + '_dydiscovery.DyCausalDiscovery', {}, {'random_state': ['@seed', '@seed0']}, queries={'__call__': CALL},
        family='discovery'),
    obj(D + '_dydiscovery.DygolemCausalDiscovery', {}, {'random_state': ['@seed', '@seed0']}, queries={'__call__': CALL},
        family='discovery'),
    obj(D + '_proxy_gcastle.GCastleProxy', {}, {'learner': [None, 'PC', '@any'], 'random_state': ['@seed', '@seed0']},
        queries={'__call__': CALL}, family='discovery'),
    obj(D + '_proxy_pgm.PgmProxy', {}, {'learner': ['PC', 'GES'], 'random_state': ['@seed', '@seed0']},
        queries={'__call__': CALL}, family='discovery'),
]
SEED = {'random_seed': ['@seed', '@seed0']}
X = 'ylearn.exp_dataset.exp_data.'
DATASET = [
    fn(X + 'sq_data', dict(SEED, n=['@int'], d=['@int'], n_x=['@int'])),
    fn(X + 'multi_continuous_treatment', SEED),
    fn(X + 'single_binary_treatment', SEED),
    fn(X + 'single_continuous_treatment', SEED),
    fn(X + 'meaningless_discrete_dataset_', dict(SEED, num=['@int'], treatment_effct=['@list'], data_frame=B)),
    fn(X + 'meaningless_discrete_dataset', dict(SEED, num=['@int'], confounder_n=['@int'], treatment_effct=['@list'],
                                               prob=['@list'], data_frame=B)),
    fn(X + 'binary_data', {}),
    fn(X + 'coupon_dataset', {'n_users': ['@int'], 'treatment_style': ['binary', 'continuous'], 'with_income': B}),
]
for _f in DATASET:
    _f['family'] = 'dataset'

SK = 'ylearn.sklearn_ex.'
XYF = {'X': GIVEN, 'y': GIVEN}
SKLEARN_EX = [
    obj(SK + 'DataCleaner', {}, {'drop_columns': [None, '@list'], 'reserve_columns': [None, '@list']},
        fit=XYF, fit_name='fit_transform', kinds={'X': '@frame', 'y': '@arr'},
        queries={'transform': {'X': [GIVEN], 'y': [None, GIVEN]}, 'get_params': {}}, family='sklearn_ex'),
    obj(SK + 'FeatureImportancesSelectionTransformer', {}, {'data_clean': B, 'task': [None, 'regression']},
        fit=XYF, kinds={'X': '@frame', 'y': '@arr', 'number': '@int'},
        queries={'transform': {'X': [GIVEN]}}, family='sklearn_ex'),
    obj(SK + 'DataFrameMapper', {'features': '@features'}, {'df_out': B, 'default': [False, None]},
        fit=XYF, kinds={'X': '@frame', 'y': '@arr'},
        queries={'transform': {'X': [GIVEN]}}, composite=True, family='sklearn_ex'),
]
BLANKET = {'nodes': ['@name', '@names'], 'return_self': B, 'topo_sorted': B}
DIGRAPH = [
    obj('ylearn.bayesian.DAG', {'graph': '@any'}, {},
        queries={'get_parents': {'node': ['@name']}, 'get_children': {'node': ['@name']}, 'get_upstream_blanket': BLANKET,
                 'get_downstream_blanket': BLANKET, 'get_markov_blanket': BLANKET,
                 'get_blanket': dict(BLANKET, kind=['markov', 'downstream', 'upstream']), 'get_nodes': {}},
        extras=False, family='bayesian'),
]
BAYES = [
    obj('ylearn.bayesian.SviBayesianNetwork', {'graph': '@inst:CausalGraph'}, {},
        fit={'data': GIVEN, 'random_state': '@seed'}, fit_axes={'inplace': [True, ABSENT], 'ce_loss': B},
        kinds={'outcome': '@names', 'treatment': '@names', 'intervention': '@idict', 'verbose': '@int',
               'nodes': '@names', 'random_state': '@seed'},
        queries={
            'sample': {'data': [GIVEN, None], 'nodes': [None, GIVEN], 'random_state': ['@seed', '@seed0']},
            'predict': {'data': [GIVEN], 'outcome': [GIVEN], 'random_state': ['@seed', '@seed0'], 'proba': B},
            'estimate': {'data': [GIVEN], 'treatment': [GIVEN], 'outcome': [GIVEN], 'random_state': ['@seed', '@seed0']},
            'do': {'intervention': [GIVEN], 'data': [GIVEN, None], 'inplace': [False], 'random_state': ['@seed', '@seed0']}},
        family='bayesian'),
]
TCN = {'treat+control': [GIVEN, None]}
WHYK = {'fn_cost': '@any', 'target_outcome': '@str', 'new_value': '@any', 'treatment': '@names', 'outcome': '@name',
        'adjustment': '@names', 'covariate': '@names', 'instrument': '@names', 'identifier_options': '@dict',
        'estimator_options': '@dict', 'random_state': '@seed'}
WHY = [
    # inferred tasks: only fitting is driven, the queries branch on the task and are driven for each below
    obj('ylearn.api._why.Why', {}, {
        'discrete_outcome': [True, False, None], 'discrete_treatment': [True, False, None]},
        fit={'data': GIVEN, 'outcome': '@name'}, fit_axes={'treatment+covariate': [GIVEN, None]},
        fit_only=lambda o: o.get('discrete_outcome') is None or o.get('discrete_treatment') is None,
        extras=False, kinds=WHYK,
        # the documentation limits these two to continuous outcomes and to discrete treatments
        refuses={('whatif', 'discrete_outcome', 'True'), ('uplift_model', 'discrete_treatment', 'False')},
        queries={
            'causal_graph': {},
            'causal_effect': dict(TCN, test_data=[GIVEN, None], quantity=['ATE', 'ITE']),
            'individual_causal_effect': {'test_data': [GIVEN], 'control': [None, GIVEN]},
            'whatif': {'test_data': [GIVEN], 'new_value': [GIVEN]},
            'score': {'test_data': [GIVEN], 'scorer': ['auto', '@inst:RLoss']},
            'policy_interpreter': {'test_data': [GIVEN], 'control': [None, GIVEN]},
            'uplift_model': dict(TCN, test_data=[GIVEN])},
        split=True, cross=False, family='api'),
    obj('ylearn.api._why.Why', {}, {
        'discrete_outcome+discrete_treatment': [True, False],
        'estimator': ['slearner', 'xlearner', 'dml', 'dr', 'tree', 'grf', 'ml', '@inst:DoubleML'],
        'fn_cost': [None]},
        fit={'data': GIVEN, 'outcome': '@name', 'treatment': GIVEN, 'covariate': GIVEN},
        extras=False, kinds=WHYK, name='Why.estimator',
        queries={'causal_effect': {'test_data': [GIVEN]}, 'score': {'test_data': [GIVEN]}},
        split=True, cross=False, family='api'),
    obj('ylearn.api._why.Why', {}, {'discrete_outcome': [True], 'discrete_treatment': [True, False]},
        fit={'data': GIVEN, 'outcome': '@name', 'treatment': GIVEN, 'covariate': '@name'},
        extras=False, kinds=WHYK, name='Why.classes',
        queries={
            'causal_effect': {'test_data': [GIVEN], 'target_outcome': [GIVEN]},
            'individual_causal_effect': {'test_data': [GIVEN], 'target_outcome': [GIVEN]},
            'policy_interpreter': {'test_data': [GIVEN], 'target_outcome': [GIVEN]}},
        split=True, cross=False, family='api'),
    obj('ylearn.api._why.Why', {}, {
        'discrete_outcome+discrete_treatment': [True, False],
        'identifier': ['discovery', 'gcastle', 'pgm', '@any'], 'random_state': ['@seed']},
        fit={'data': GIVEN, 'outcome': '@name'},
        extras=False, kinds=WHYK, name='Why.identifier',
        queries={'causal_graph': {}, 'causal_effect': {'test_data': [GIVEN]}},
        split=True, cross=False, family='api'),
]

IDENTIFIERS = [
    obj(f'ylearn.api._identifier.{c}', ctor, {'method': [None, 'straight', ('backdoor', 'simple'), ('backdoor', 'all')], 'random_state': ['@seed']},
        queries={'identify_aci': {'data': [GIVEN], 'outcome': ['@name'], 'treatment': ['@names']},
                 'identify_treatment': {'data': [GIVEN], 'outcome': ['@name'], 'discrete_treatment': [None, True],
                                        'count_limit': ['@int'], 'excludes': [None, '@names']}},
        extras=False, family='api')
    for c, ctor in (('IdentifierWithNotears', {}), ('IdentifierWithLearner', {'learner': '@any'}))]

BY_CLS = {s['name']: s for s in SPECS + PERMUTED + INTERP + GRAPH + CMODEL if 'cls' in s}

# ------------------------------------------------------------- effects between two levels the caller names
TCG = {'treat+control': [GIVEN]}
TCL = {'treat+control': [GIVEN, '@levels']}
DQ = dict(DATA, quantity=[None, 'ATE', 'CATE'])
TO = [ABSENT, '@num']
PROBA = {'is_discrete_outcome+proba_output': B}


def _ml(name):
    return est(name, {'model': GIVEN}, PROBA, fit_axes={'covariate': [GIVEN, ABSENT], 'adjustment': [GIVEN, ABSENT], **TCG},
               queries={'estimate': dict(DQ, target_outcome=TO), 'effect_nji': DATA}, extras=False)


ORIENT = [
    _ml('SLearner'), _ml('TLearner'), _ml('XLearner'),
    est('DoubleML', {'x_model': GIVEN, 'y_model': GIVEN}, {'is_discrete_treatment': B, 'cf_fold': [1, 3], **PROBA},
        queries={'estimate': dict(DQ, target_outcome=TO, **TCL)}, extras=False),
    est('DoublyRobust', {'x_model': GIVEN, 'y_model': GIVEN, 'yx_model': GIVEN}, {'cf_fold': [1, 3]}, fit_axes=TCG,
        queries={'estimate': DQ}, extras=False),
    est('ApproxBound', {'y_model': GIVEN, 'x_model': GIVEN}, {'x_prob': [None, GIVEN]}, fit={'covariate': GIVEN},
        queries={'estimate': dict(DATA, assump=[None, 'no-assump'], **TCG, **{'y_upper+y_lower': ['@float']})},
        extras=False),
]
def _why_tc(estimators, discrete, **kw):
    return obj('ylearn.api._why.Why', {}, {
        'discrete_outcome+discrete_treatment': discrete, 'estimator': estimators, 'fn_cost': [None]},
        fit={'data': GIVEN, 'outcome': '@name', 'treatment': GIVEN, 'covariate': GIVEN}, extras=False, kinds=WHYK, name='Why',
        queries={'causal_effect': dict(TCG if discrete[0] else TCL, test_data=[GIVEN], quantity=['ATE', 'ITE'], combine_treatment=B if discrete[0] else [False]),
                 **({'uplift_model': dict(TCG, test_data=[GIVEN])} if discrete[0] else {})}, split=True, cross=False, family='api', **kw)


WHY_TC = [_why_tc(['dml'], [False]),
          _why_tc(['slearner', 'tlearner', 'xlearner', 'dr', 'tree', 'ml'], [True], calls_only=True)]
