"""Scenario groups a checker can ask for."""
from . import specs

GROUPS = {
    'estimators': specs.SPECS,
    'permuted': specs.PERMUTED,
    'policy': [s for s in specs.INTERP if s['family'] == 'policy'],
    'graph': specs.GRAPH,
    'causal_model': specs.CMODEL,
    'discovery': specs.DISCOVERY,
    'dataset': specs.DATASET,
    'sklearn_ex': specs.SKLEARN_EX,
    'bayesian': specs.BAYES,
    'api': specs.WHY,
    'identifiers': specs.IDENTIFIERS,
    'digraph': specs.DIGRAPH,
    'uplift': [s for s in specs.INTERP if s['family'] == 'uplift'],
    'orient': specs.ORIENT,
    'why_tc': specs.WHY_TC,
}
