"""Where the value of each parameter goes: a whole-program flow graph over parameters, local names and attributes.

A value is used when it is read in any construct other than a plain copy, a log message or a direct argument of a
resolved call of the package; copies and arguments are edges to the name, attribute or parameter that receives it.
"""
import ast

from .resolve import params

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
LOGS = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')
PLAIN = ('object', 'abc.ABC', 'sklearn.base.BaseEstimator', 'sklearn.base.TransformerMixin', 'sklearn.base.ClassifierMixin',
         'sklearn.base.RegressorMixin', 'sklearn.base.MetaEstimatorMixin', 'typing.NamedTuple')
USED = ('used',)


def stub(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) or
               isinstance(s, ast.If) and not s.orelse and all(isinstance(x, ast.Raise) for x in s.body) or
               isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) or
                                              isinstance(s.value, ast.Call) and not s.value.args and not s.value.keywords)
               for s in body)


def names_of(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


class ArgFlow:
    def __init__(self, R):
        self.R = R
        self.edges = {}
        self.strings = {}
        self.scopes = {}
        self.reads = 0
        self.handovers = 0
        for m in R.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, FUNCS):
                    self.scopes[n.nid] = self.bound_names(n)
        for m in R.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    if n.value.isidentifier() and not isinstance(n.parent, ast.keyword):
                        self.strings.setdefault(n.value, set()).add(m.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    f = self.home(n, n.id)
                    if f is None and n.id in ('locals', 'vars', 'eval', 'exec') and isinstance(n.parent, ast.Call) and n is n.parent.func:
                        f = self.fn_of(n)
                        for x in self.scopes[f.nid] if f is not None else ():
                            self.edge(('v', f.nid, x), USED)
                    elif f is not None:
                        self.read(n, ('v', f.nid, n.id), f)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.read(n, *self.attr(n))
        self.solve()

    @staticmethod
    def bound_names(fn):
        out = set(names_of(fn))
        st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while st:
            n = st.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if not isinstance(n, FUNCS):
                st.extend(ast.iter_child_nodes(n))
        return out

    def home(self, n, name):
        """Function whose local the name is."""
        p = n.parent
        child = n
        while p is not None:
            if isinstance(p, FUNCS) and name in self.scopes[p.nid]:
                body = p.body if isinstance(p.body, list) else [p.body]
                if child in body:
                    return p
            child, p = p, p.parent
        return None

    def fn_of(self, n):
        p = n.parent
        while p is not None and not isinstance(p, ast.FunctionDef):
            p = p.parent
        return p

    def me(self, n):
        """(name of self, class) for a construct inside a method, nested functions included."""
        p = self.fn_of(n)
        while p is not None:
            c = self.R.owner(p)
            if c is not None and p.args.args and not any(
                    isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in p.decorator_list):
                return p.args.args[0].arg, c
            p = self.fn_of(p)
        return None, None

    def attr(self, n):
        s, c = self.me(n)
        if isinstance(n.value, ast.Name) and n.value.id == s:
            return ('a', c.key, n.attr), None
        return ('a', '*', n.attr), None

    # ------------------------------------------------------------------ reads
    def edge(self, a, b):
        self.edges.setdefault(a, set()).add(b)

    def read(self, n, node, fn=None):
        self.reads += 1
        for t in self.targets(n):
            self.edge(node, t)

    def targets(self, n):
        """What receives the value read at n."""
        p = n.parent
        if isinstance(p, ast.IfExp):
            if n is not p.test:
                return self.targets(p)
        if isinstance(p, ast.Compare) and isinstance(p.parent, ast.IfExp) and p is p.parent.test and len(p.ops) == 1 and \
                isinstance(p.ops[0], (ast.Is, ast.IsNot)) and isinstance(p.comparators[0], ast.Constant) and n is p.left:
            q = p.parent
            if any(ast.dump(x) == ast.dump(n) for x in (q.body, q.orelse)):
                return []
        if isinstance(p, ast.Assign) and n is p.value:
            return self.stored(p.targets)
        if isinstance(p, ast.AnnAssign) and n is p.value:
            return self.stored([p.target])
        if isinstance(p, ast.Tuple) and isinstance(p.parent, ast.Assign) and p is p.parent.value and len(p.parent.targets) == 1:
            t = p.parent.targets[0]
            if isinstance(t, ast.Tuple) and len(t.elts) == len(p.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + p.elts):
                return self.stored([t.elts[p.elts.index(n)]])
        if isinstance(p, ast.FormattedValue) or isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and n is p.right:
            q = p
            while isinstance(q, (ast.FormattedValue, ast.JoinedStr)):
                q = q.parent
            if isinstance(q, ast.Call) and self.is_log(q):
                return []
        if isinstance(p, ast.keyword) and isinstance(p.parent, ast.Call):
            return self.passed(p.parent, None, p.arg)
        if isinstance(p, ast.Call) and n in p.args:
            if self.is_log(p):
                return []
            return self.passed(p, p.args.index(n), None)
        return [USED]

    @staticmethod
    def is_log(c):
        f = c.func
        if isinstance(f, ast.Name):
            return f.id == 'print'
        return isinstance(f, ast.Attribute) and f.attr in LOGS and isinstance(f.value, ast.Name) and f.value.id in ('logger', 'log', 'logging')

    def stored(self, ts):
        out = []
        for t in ts:
            if isinstance(t, ast.Name):
                f = self.home(t, t.id)
                out.append(('v', f.nid, t.id) if f is not None else USED)
            elif isinstance(t, ast.Attribute):
                k = self.attr(t)[0]
                out.append(k if k[1] != '*' else USED)
            else:
                out.append(USED)
        return out

    def passed(self, call, pos, kw):
        if pos is not None and any(isinstance(x, ast.Starred) for x in call.args[:pos + 1]):
            return [USED]
        cands = self.callees(call)
        if not cands:
            return [USED]
        out = []
        for fn, skip in cands:
            if fn is None:
                return [USED]
            if stub(fn):
                return [USED]
            a = fn.args
            ps = params(fn)[1 if skip else 0:]
            if kw is not None:
                if kw in ps or kw in [x.arg for x in a.kwonlyargs]:
                    out.append(('v', fn.nid, kw))
                elif a.kwarg:
                    out.append(('v', fn.nid, a.kwarg.arg))
                else:
                    out.append(USED)
            elif pos is not None and pos < len(ps):
                out.append(('v', fn.nid, ps[pos]))
            elif pos is not None and a.vararg:
                out.append(('v', fn.nid, a.vararg.arg))
            else:
                # **name: spread over every parameter that was not given
                out.append(USED)
        return out

    def callees(self, call):
        R = self.R
        f = call.func
        if isinstance(f, ast.Name):
            if self.home(f, f.id) is not None:
                return []
            r = R.lookup(f.mod.name, f.id)
            if r is None or r[0] != 'def':
                return []
            return self.target(r[1])
        if isinstance(f, ast.Attribute):
            s, c = self.me(call)
            if isinstance(f.value, ast.Name) and f.value.id == s:
                out = []
                for k in c.family():
                    if c in k.mro():
                        d = k.find(f.attr)[1]
                        if not isinstance(d, ast.FunctionDef):
                            return []
                        out += self.target(d, True)
                if any(f.attr in z.inst for z in c.family()):
                    return []
                return out
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and c is not None:
                for k in c.mro()[1:]:
                    d = k.own.get(f.attr)
                    if isinstance(d, ast.FunctionDef):
                        return self.target(d, True)
                return []
            r = R.expr(f.mod.name, f) if not (isinstance(f.value, ast.Name) and self.home(f.value, f.value.id)) else None
            if r is not None and r[0] == 'def':
                return self.target(r[1])
        return []

    def target(self, d, meth=False):
        if isinstance(d, ast.ClassDef):
            c = self.R.classes[f'{d.mod.name}.{d.myqual}']
            i = c.find('__init__')[1]
            if not isinstance(i, ast.FunctionDef) or c.find('__new__')[0] is not None:
                return []
            return [(i, True)]
        decs = [x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?') for x in d.decorator_list]
        if any(x not in ('staticmethod', 'classmethod', 'abstractmethod', 'property') for x in decs):
            return []
        return [(d, meth and 'staticmethod' not in decs)]

    # ------------------------------------------------------------------ solution
    def solve(self):
        back = {}
        for a, bs in self.edges.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        # an attribute read through self is one of every class that shares instances with this one; read through
        # another object it is one of every class
        byname = {}
        fam = {k: {x.key for x in c.family()} for k, c in self.R.classes.items()}
        live, st = {USED}, [USED]
        for a in set(back) | set(self.edges):
            if a[0] == 'a':
                byname.setdefault(a[2], set()).add(a)
                c = self.R.classes.get(a[1])
                if c is not None and self.strings.get(a[2], set()) & {x.mod.name for x in c.family()} or c is None or c.dynamic or any(b not in PLAIN for b in c.external()):
                    if a[1] != '*':
                        live.add(a)
                        st.append(a)
        while st:
            b = st.pop()
            nxt = set(back.get(b, ()))
            if b[0] == 'a':
                nxt |= {a for a in byname.get(b[2], ()) if b[1] == '*' or a[1] in fam.get(b[1], ())}
            for a in nxt:
                if a not in live:
                    live.add(a)
                    st.append(a)
        self.live = live

    def used(self, fn, p):
        return ('v', fn.nid, p) in self.live and not self.overwritten(fn, p)

    @staticmethod
    def overwritten(fn, p):
        """The parameter is assigned on every path before anything reads it."""
        for s in fn.body:
            loads = any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load) for x in ast.walk(s))
            if loads:
                return False
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets):
                return True
        return False


def mentions(n, names):
    return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names for x in ast.walk(n))


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def derived(fn, p):
    """Locals of fn computed from p."""
    out = {p}
    while True:
        k = len(out)
        for s in ast.walk(fn):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None and mentions(s.value, out):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id != 'self':
                            out.add(x.id)
            elif isinstance(s, (ast.For, ast.comprehension)) and mentions(s.iter, out):
                out |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            elif isinstance(s, ast.If) and mentions(s.test, out):
                for t in s.body + s.orelse:
                    for a in ast.walk(t):
                        if isinstance(a, ast.Name) and isinstance(a.ctx, ast.Store):
                            out.add(a.id)
        if len(out) == k:
            return out


def blocks(s):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(s, f, None)
        if isinstance(b, list):
            yield b
    for h in getattr(s, 'handlers', ()):
        yield h.body


def settled(fn, call, p):
    """Around the call, the function itself acts on p (or what it computed from it): in the arguments, in a test that
    guards the call, in an assertion or early exit before it, or in a statement that follows it."""
    d = derived(fn, p)
    if any(mentions(a, d) for a in call.args) or any(mentions(k.value, d) for k in call.keywords):
        return True
    s = call
    while s is not fn:
        up = s.parent
        if isinstance(up, (ast.IfExp, ast.If, ast.While)) and s is not up.test and mentions(up.test, d):
            return True
        if isinstance(s, ast.expr) and isinstance(up, (ast.Call, ast.BinOp, ast.BoolOp, ast.Compare, ast.Subscript, ast.keyword)) and mentions(
                up, d):
            return True
        for b in blocks(up):
            if s in b:
                i = b.index(s)
                for x in b[:i]:
                    if isinstance(x, ast.Assert) and mentions(x.test, d):
                        return True
                    if isinstance(x, ast.If) and mentions(x.test, d) and (leaves(x.body) or leaves(x.orelse)):
                        return True
                if isinstance(s, (ast.Return, ast.Raise)):
                    return mentions(s, d)
                for x in b[i + 1:]:
                    if mentions(x, d):
                        return True
                    if isinstance(x, (ast.Return, ast.Raise)):
                        return False
                if isinstance(up, (ast.For, ast.While)) and any(mentions(x, d) for x in b):
                    return True
        s = up
    return False


def omissions(A, fns):
    """Calls in fns of another function of the package that takes an optional parameter the calling function also has,
    made without it although nothing around the call acts on its value."""
    for f in fns:
        mine = set(names_of(f))
        for call in ast.walk(f):
            if not isinstance(call, ast.Call) or not (call.args or call.keywords) or A.fn_of(call) is not f:
                continue
            if any(k.arg is None for k in call.keywords) or any(isinstance(x, ast.Starred) for x in call.args):
                continue
            for g, skip in A.callees(call):
                if g is None or stub(g):
                    continue
                ps = params(g)[1 if skip else 0:]
                given = set(ps[:len(call.args)]) | {k.arg for k in call.keywords}
                opt = set(ps[len(ps) - len(g.args.defaults):] if g.args.defaults else ()) | {x.arg for x in g.args.kwonlyargs}
                for p in sorted(opt & mine - given):
                    A.handovers += 1
                    if not settled(f, call, p):
                        yield f, call, g, p
                A.handovers += len(opt & mine & given)


def public(R):
    """Functions and methods a user of the package can call by public names."""
    seen = set()
    for m in R.prog.modules.values():
        if any(x.startswith('_') for x in m.name.split('.')):
            continue
        names = set(R.bind[m.name])
        st, done = list(R.star[m.name]), set()
        while st:
            s = st.pop()
            if s in R.bind and s not in done:
                done.add(s)
                names |= set(R.bind[s])
                st += R.star[s]
        for n in names:
            if n.startswith('_'):
                continue
            r = R.lookup(m.name, n)
            if r is not None and r[0] == 'def':
                seen.add(r[1])
    out = []
    for d in sorted(seen, key=lambda d: (d.mod.name, d.lineno)):
        if isinstance(d, ast.ClassDef):
            for f in d.body:
                if isinstance(f, ast.FunctionDef) and (not f.name.startswith('_') or f.name in ('__init__', '__call__')):
                    out.append(f)
        else:
            out.append(d)
    return out
