"""Arguments of the public API: each one that can be given has a use."""
import ast

from ..lint.argflow import ArgFlow, names_of, omissions, public, stub
from ..specs import FRAME
from .lints import Lint

# accepted for a common signature only, and documented so
PROTOCOL = {'y': ('fit', 'transform', 'fit_transform', 'predict', 'inverse_transform')}
SHARED = {'ylearn.estimator_model._generalized_forest._grf.GRForest.fit:adjustment',
          'ylearn.sklearn_ex._transformer.general_estimator:X'}


class Args(Lint):
    """The value of every named parameter of every public function, method and constructor is followed through copies,
    attributes and the package's own calls to a construct that depends on it."""
    id = 'C11'
    rule = 'a value given for a named parameter reaches a computation, test, stored result or outside call'
    floors = {'public parameters examined': 900, 'reads followed': 12000, 'options handed on': 300}

    def finish(self):
        A = ArgFlow(self.R)
        self.counts['reads followed'] += A.reads
        for fn in public(self.R):
            if stub(fn):
                continue
            a = fn.args
            star = [x.arg for x in (a.vararg, a.kwarg) if x]
            ps = names_of(fn)
            if self.R.owner(fn) is not None and not any(getattr(d, 'id', '') == 'staticmethod' for d in fn.decorator_list):
                ps = ps[1:]
            for p in ps:
                if p in star or p.startswith('_') or fn.name in PROTOCOL.get(p, ()):
                    continue
                key = f'{fn.mod.name}.{fn.myqual}:{p}'
                if key in SHARED:
                    continue
                self.counts['public parameters examined'] += 1
                if not A.used(fn, p):
                    self.report(key,
                                f'the value given for {p!r} of {fn.myqual} is ignored: nothing it reaches depends on it', fn)
        fns = [n for m in self.R.prog.modules.values() for n in ast.walk(m.tree)
               if isinstance(n, ast.FunctionDef) and not stub(n)]
        for f, call, g, p in omissions(A, fns):
            if p in FRAME:
                continue
            self.report(f'{f.mod.name}.{f.myqual}:{p}:{g.myqual}', f'{f.myqual} takes the option {p!r} but calls {g.myqual}, which '
                        f'has the same option, without it', call)
        self.counts['options handed on'] += A.handovers
