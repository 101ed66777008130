from .props import lifecycle as L

L.CallerData.groups = L.CallerModels.groups = ('estimators', 'permuted', 'policy', 'uplift')
L.Refit.groups = ('estimators', 'permuted', 'policy', 'uplift')
L.QueryPure.groups = ('estimators', 'permuted', 'policy', 'uplift')
L.Unfitted.groups = ('estimators', 'permuted', 'policy')
L.Chains.groups = ('estimators', 'permuted', 'policy', 'uplift')

API = ('api', 'sklearn_ex')
MORE = ('graph', 'causal_model', 'discovery', 'dataset')
L.CallerData.groups += MORE
L.CallerModels.groups += ('causal_model', 'discovery')
L.QueryPure.groups += ('graph', 'causal_model', 'discovery')

for _c in (L.CallerData, L.CallerModels, L.Refit, L.QueryPure, L.Chains):
    _c.groups += API
L.Unfitted.groups += ('api',)
L.CallerData.groups += ('bayesian',)
L.QueryPure.groups += ('bayesian',)

CHECKS = {c.id: c for c in (L.CallerData, L.CallerModels, L.Refit, L.QueryPure, L.Unfitted, L.Chains)}
from .props import lints as LT          # noqa: E402

from .props import repeat as RP           # noqa: E402

RP.Repeatable.groups = ('estimators', 'permuted', 'policy', 'discovery', 'dataset', 'sklearn_ex', 'bayesian', 'causal_model', 'api')
CHECKS['C09'] = RP.Repeatable
for _c in (LT.Resolve, LT.Raised):
    CHECKS[_c.id] = _c

from .props import args as AR             # noqa: E402

CHECKS[AR.Args.id] = AR.Args

from .props import orient as OR           # noqa: E402

OR.Orient.groups = ('orient', 'why_tc')
CHECKS['C10'] = OR.Orient
from .props import hashed as HS           # noqa: E402

HS.Hashed.groups = ('graph', 'causal_model', 'discovery', 'dataset', 'sklearn_ex', 'bayesian', 'digraph', 'identifiers', 'api')
L.CallerData.groups += ('identifiers', 'digraph')
CHECKS['C12'] = HS.Hashed
