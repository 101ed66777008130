"""Properties decided over the whole program's syntax trees after name and class resolution."""
import ast
import symtable
import warnings

from ..base import Checker
from ..lint.resolve import BUILTINS, Resolver, binds, params
from ..program import text

EXC_SUFFIX = ('Error', 'Exception', 'Warning')


def stores(fn):
    out = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


class Lint(Checker):
    groups = ()

    def start(self):
        self.prog = self.w.prog
        self.R = Resolver(self.prog)
        self.driven = ()

    def on(self, rec):
        pass

    def scope(self, node):
        """Innermost class of a construct, or its module: stable when code moves between methods."""
        p = node
        while p is not None and not isinstance(p, ast.ClassDef):
            p = p.parent
        return f'{node.mod.name}.{p.myqual}' if p is not None else node.mod.name

    def qual(self, node):
        q = node.qual if node.qual != '<module>' else node.mod.name
        return f'{node.mod.rel[:-3].replace("/", ".")}.{q}' if node.qual != '<module>' else node.mod.name


class Resolve(Lint):
    """Every global name, every attribute of self and every in-package call in every function of the package is
    resolved against module namespaces, class families and signatures."""
    id = 'C07'
    rule = 'a name, self attribute, imported name or call argument has a definition it resolves to'
    floors = {'name uses resolved': 5000, 'self attribute uses resolved': 1500, 'in-package calls bound': 600,
              'in-package imports resolved': 150}

    def finish(self):
        self.names()
        self.imports()
        self.attrs()
        self.calls()

    # -------------------------------------------------------------- names
    def names(self):
        for m in self.prog.modules.values():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                top = symtable.symtable(m.src, m.path, 'exec')
            have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported()} | set(self.R.bind[m.name])
            have |= {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__'}
            stars = self.R.star[m.name]
            uses = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    uses.setdefault(n.id, []).append(n)
            missing = set()

            def walk(t):
                for s in t.get_symbols():
                    nm = s.get_name()
                    glob = s.is_global() or (t.get_type() == 'module' and not s.is_assigned() and not s.is_imported())
                    if s.is_referenced():
                        self.counts['name uses resolved'] += 1
                        if glob and nm not in have and nm not in BUILTINS:
                            missing.add(nm)
                for c in t.get_children():
                    walk(c)
            walk(top)
            for nm in sorted(missing):
                if any(s not in self.R.bind or self.R.lookup(s, nm) is not None for s in stars):
                    continue
                for n in uses.get(nm, ()):
                    if self.tolerates(n, 'NameError'):
                        continue
                    self.report(f'{self.scope(n)}:name:{nm}', f'name {nm!r} is used but defined nowhere', n)

    def tolerates(self, n, exc):
        """The use stands in a try whose handler takes the failure."""
        p, ch = n.parent, n
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
            if isinstance(p, ast.Try) and ch in p.body:
                for h in p.handlers:
                    t = text(h.type) if h.type is not None else exc
                    if exc in t or 'Exception' in t:
                        return True
            p, ch = p.parent, p
        return False

    def imports(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.ImportFrom):
                    continue
                src = n.module or ''
                if n.level:
                    parts = m.package.split('.')
                    if n.level > 1:
                        parts = parts[:-(n.level - 1)]
                    src = '.'.join(parts + ([n.module] if n.module else []))
                if src.split('.')[0] != self.prog.pkg:
                    continue
                if src not in self.prog.modules and src not in self.prog.pyx:
                    if not self.tolerates(n, 'ImportError'):
                        self.report(f'{self.qual(n)}:import:{src}', f'imports module {src!r}, which does not exist', n)
                    continue
                for a in n.names:
                    self.counts['in-package imports resolved'] += 1
                    if a.name == '*' or src in self.prog.pyx or f'{src}.{a.name}' in self.prog.pyx:
                        continue
                    r = self.R.lookup(src, a.name)
                    if r is None and f'{src}.{a.name}' not in self.prog.modules and not self.tolerates(n, 'ImportError'):
                        self.report(f'{self.qual(n)}:import:{a.name}',
                                    f'imports {a.name!r} from {src}, which defines no such name', n)

    # --------------------------------------------------------- attributes
    def libnames(self, c):
        """Attributes an external base class is known to supply, or None when it is open."""
        for b in c.external():
            if b in ('object', 'abc.ABC', 'ABC', 'type'):
                continue
            if b in ('sklearn.base.BaseEstimator', 'sklearn.base.TransformerMixin'):
                continue
            return None
        return {'get_params', 'set_params', 'fit_transform', '_validate_params', '_get_param_names', '_get_tags',
                '_repr_html_', '_check_n_features', '_check_feature_names', '_validate_data', 'n_features_in_',
                'feature_names_in_'} if c.external() else set()

    def attrs(self):
        kwnames = {k.arg for m in self.prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call)
                   for k in n.keywords if k.arg}
        dkeys = {k.value for m in self.prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Dict)
                 for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
        dyn = kwnames | dkeys | {'_' + x for x in dkeys}
        for c in self.R.classes.values():
            lib = self.libnames(c)
            if lib is None:
                continue
            fam = c.family()
            if any(self.libnames(k) is None for k in fam):
                continue
            have = set(lib)
            for k in fam:
                have |= set(k.own) | k.inst
            loose = any(k.dynamic for k in fam)
            for f in c.node.body:
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or not params(f):
                    continue
                if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
                    continue
                me = params(f)[0]
                for x in ast.walk(f):
                    if not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me
                            and isinstance(x.ctx, ast.Load)):
                        continue
                    self.counts['self attribute uses resolved'] += 1
                    if x.attr in have or x.attr.startswith('__') or (loose and x.attr in dyn):
                        continue
                    if self.guarded(x, me) or self.tolerates(x, 'AttributeError'):
                        continue
                    self.report(f'{self.scope(x)}:attr:{x.attr}',
                                f'attribute {x.attr!r} of {c.name} is read but set nowhere in its class family', x)

    def guarded(self, x, me):
        """Read only under hasattr(self, name)."""
        p = x.parent
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
            t = p.test if isinstance(p, (ast.If, ast.IfExp, ast.While)) else p if isinstance(p, ast.BoolOp) else None
            if t is not None:
                for n in ast.walk(t):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and \
                            len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == x.attr:
                        return True
            p = p.parent
        return False

    # --------------------------------------------------------------- calls
    def calls(self):
        R = self.R
        for m, fn in R.functions():
            own = R.owner(fn)
            loc = set()
            q = fn
            while q is not None:
                if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    loc |= stores(q)
                q = q.parent
            st = [s for s in own.family() if own in s.mro()] if own is not None else []
            for x in ast.walk(fn):
                if not isinstance(x, ast.Call):
                    continue
                f = x.func
                if isinstance(f, ast.Name) and f.id not in loc:
                    r = R.lookup(m.name, f.id)
                    if r is not None and r[0] == 'def':
                        self.bound(x, r[1], False, '')
                elif isinstance(f, ast.Attribute) and own is not None and params(fn):
                    if isinstance(f.value, ast.Name) and f.value.id == params(fn)[0]:
                        for c in st:
                            k, d = c.find(f.attr)
                            if isinstance(d, ast.FunctionDef) and not any(f.attr in z.inst for z in c.family()):
                                self.bound(x, d, True, c.name)
                    elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                            f.value.func.id == 'super' and not f.value.args:
                        for c in st:
                            mro = c.mro()
                            for k in mro[mro.index(own) + 1:]:
                                if f.attr in k.own:
                                    if isinstance(k.own[f.attr], ast.FunctionDef):
                                        self.bound(x, k.own[f.attr], True, c.name)
                                    break

    def bound(self, call, d, meth, cname):
        decs = [text(z) for z in d.decorator_list]
        if isinstance(d, ast.ClassDef):
            c = self.R.classes[f'{d.mod.name}.{d.myqual}']
            if any(b not in ('object', 'abc.ABC') for b in c.external()) and '__init__' not in c.own:
                return
            k, init = c.find('__init__')
            if not isinstance(init, ast.FunctionDef) or c.find('__new__')[0] is not None:
                return
            d, meth, decs = init, True, [text(z) for z in init.decorator_list]
        if any(z not in ('staticmethod', 'classmethod') and 'abstractmethod' not in z for z in decs):
            return
        self.counts['in-package calls bound'] += 1
        why = binds(d, call, meth and 'staticmethod' not in decs)
        if why:
            if self.tolerates(call, 'TypeError'):
                return
            self.report(f'{self.scope(call)}:call:{text(call.func, 60)}',
                        f'{text(call, 90)} does not match {d.myqual}{" (" + cname + ")" if cname else ""}: {why}', call)


class Raised(Lint):
    """Every statement of the package whose only content is a value, every assertion and every raise is checked to have
    the effect it stands for."""
    id = 'C08'
    rule = 'an error that is built is raised; an assertion can fail; a raise raises an exception; no value is computed and dropped'
    floors = {'raise and assert statements examined': 250, 'expression statements examined': 600}

    def isexc(self, m, e):
        f = e.func if isinstance(e, ast.Call) else e
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return nm.endswith(EXC_SUFFIX) and not nm.endswith('Warning') or nm in ('NotImplemented', 'KeyboardInterrupt')

    def finish(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Expr):
                    self.expr(m, n)
                elif isinstance(n, ast.Assert):
                    self.counts['raise and assert statements examined'] += 1
                    t = n.test
                    k = f'{self.qual(n)}:assert'
                    if isinstance(t, ast.Tuple) and t.elts or isinstance(t, (ast.List, ast.JoinedStr, ast.Dict)) or \
                            isinstance(t, ast.Constant) and t.value:
                        self.report(k, f'the assertion {text(t, 80)} is always true', n)
                    elif isinstance(t, ast.Call) and self.isexc(m, t):
                        self.report(k, f'an exception is asserted (always true) instead of raised: {text(t, 80)}', n)
                    elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and any(
                            isinstance(v, ast.Constant) and v.value for v in t.values):
                        self.report(k, f'the assertion {text(t, 80)} is always true', n)
                elif isinstance(n, ast.Raise) and n.exc is not None:
                    self.counts['raise and assert statements examined'] += 1
                    e = n.exc
                    f = e.func if isinstance(e, ast.Call) else e
                    if isinstance(f, ast.Name) and f.id == 'NotImplemented' or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple)):
                        self.report(f'{self.qual(n)}:raise', f'{text(e, 80)} is no exception', n)
                elif isinstance(n, (ast.Return, ast.Assign)) and isinstance(n.value, ast.Call) and self.isexc(m, n.value) \
                        and isinstance(n, ast.Return):
                    if 'exc' in n.qual.lower() or 'err' in n.qual.lower():
                        continue
                    self.report(f'{self.qual(n)}:return', f'an exception is returned instead of raised: {text(n.value, 80)}', n)

    def expr(self, m, n):
        v = n.value
        self.counts['expression statements examined'] += 1
        if isinstance(v, ast.Constant) or isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return
        if isinstance(v, ast.Call):
            if self.isexc(m, v):
                self.report(f'{self.qual(n)}:unraised', f'an error is built but not raised: {text(v, 80)}', n)
            return
        if isinstance(v, (ast.Compare, ast.JoinedStr)) or isinstance(v, (ast.BinOp, ast.BoolOp, ast.UnaryOp)) and not any(
                isinstance(x, ast.Call) for x in ast.walk(v)):
            self.report(f'{self.qual(n)}:dropped', f'the value of {text(v, 80)} is computed and dropped', n)
