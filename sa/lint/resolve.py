"""Whole-program name, class and call resolution on the syntax trees."""
import ast
import builtins
import symtable

BUILTINS = set(dir(builtins))


class Cls:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.bases = []          # resolved Cls or dotted external name
        self.subs = []
        self.own = {}            # name -> def node or value
        self.inst = set()        # self.x stores
        self.dynamic = False     # setattr with computed name / __getattr__

    @property
    def key(self):
        return f'{self.mod.name}.{self.node.myqual}'

    def mro(self):
        out, st = [], [self]
        while st:
            c = st.pop(0)
            if c in out:
                continue
            out.append(c)
            st.extend(b for b in c.bases if isinstance(b, Cls))
        return out

    def family(self):
        """self, ancestors and every class that shares instances with them (descendants)."""
        out, st = [], [self]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.append(c)
            st.extend(c.subs)
        for c in list(out):
            for b in c.mro():
                if b not in out:
                    out.append(b)
        return out

    def external(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def find(self, name):
        for c in self.mro():
            if name in c.own:
                return c, c.own[name]
        return None, None


class Resolver:
    def __init__(self, prog):
        self.prog = prog
        self.modnames = {}
        self.bind = {}            # module -> {name: binding}
        self.classes = {}
        self.star = {}
        for m in prog.modules.values():
            self.scan_module(m)
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[f'{m.name}.{n.myqual}'] = Cls(m, n)
        for c in self.classes.values():
            self.scan_class(c)
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, Cls):
                    b.subs.append(c)

    # ------------------------------------------------------------- modules
    def scan_module(self, m):
        b = self.bind[m.name] = {}
        self.star[m.name] = []

        def absname(level, module):
            if not level:
                return module or ''
            parts = m.package.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            return '.'.join(parts + ([module] if module else []))

        def visit(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            b[a.asname] = ('mod', a.name)
                        else:
                            b[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    src = absname(st.level, st.module)
                    for a in st.names:
                        if a.name == '*':
                            self.star[m.name].append(src)
                        else:
                            b[a.asname or a.name] = ('from', src, a.name)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    b[st.name] = ('def', st)
                else:
                    for n in ast.walk(st) if not isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)) else ():
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            b.setdefault(n.id, ('val', n))
                    for f in ('body', 'orelse', 'finalbody'):
                        visit(getattr(st, f, []) or [])
                    for h in getattr(st, 'handlers', []) or []:
                        visit(h.body)
                    if isinstance(st, (ast.For, ast.With)):
                        for n in ast.walk(st):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                b.setdefault(n.id, ('val', n))
        visit(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    b.setdefault(x, ('val', n))

    def lookup(self, mod, name, depth=0):
        """Binding of a module-level name: ('def', node) / ('mod', dotted) / ('val', node) / ('ext', dotted) / None."""
        if depth > 8:
            return ('ext', name)
        b = self.bind.get(mod)
        if b is None:
            return ('ext', f'{mod}.{name}')
        if name in b:
            x = b[name]
            if x[0] == 'from':
                src, nm = x[1], x[2]
                if src in self.bind:
                    r = self.lookup(src, nm, depth + 1)
                    if r is not None:
                        return r
                if f'{src}.{nm}' in self.bind:
                    return ('mod', f'{src}.{nm}')
                if src.split('.')[0] == self.prog.pkg and src not in self.prog.pyx and f'{src}.{nm}' not in self.prog.pyx:
                    return None if src in self.bind else ('ext', f'{src}.{nm}')
                return ('ext', f'{src}.{nm}')
            return x
        for s in self.star[mod]:
            if s not in self.bind:
                return ('ext', f'{s}.{name}')
            r = self.lookup(s, name, depth + 1)
            if r is not None:
                return r
        if f'{mod}.{name}' in self.bind:
            return ('mod', f'{mod}.{name}')
        return None

    def expr(self, mod, e):
        """Resolve a Name / dotted Attribute used in module scope."""
        if isinstance(e, ast.Name):
            return self.lookup(mod, e.id)
        if isinstance(e, ast.Attribute):
            r = self.expr(mod, e.value)
            if r is None:
                return None
            if r[0] == 'mod':
                if r[1] in self.bind:
                    return self.lookup(r[1], e.attr)
                return ('ext', f'{r[1]}.{e.attr}')
            if r[0] == 'ext':
                return ('ext', f'{r[1]}.{e.attr}')
            return None
        return None

    # ------------------------------------------------------------- classes
    def scan_class(self, c):
        for b in c.node.bases:
            r = self.expr(c.mod.name, b)
            if r is None:
                c.bases.append('?')
            elif r[0] == 'def' and isinstance(r[1], ast.ClassDef):
                c.bases.append(self.classes[f'{r[1].mod.name}.{r[1].myqual}'])
            elif r[0] == 'ext':
                c.bases.append(r[1])
            else:
                c.bases.append('?')
        for st in c.node.body:
            for n in ([st] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ast.walk(st)):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    c.own[n.name] = n
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.own.setdefault(n.id, n)
        for f in c.node.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if f.name in ('__getattr__', '__getattribute__'):
                c.dynamic = True
            a = f.args.posonlyargs + f.args.args
            if not a:
                continue
            me = a[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    c.inst.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args \
                        and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                    k = n.args[1]
                    if isinstance(k, ast.Constant):
                        c.inst.add(k.value)
                    else:
                        c.dynamic = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id == me:
                    p = n.parent
                    if isinstance(p, ast.Attribute) and p.attr == 'update':
                        c.dynamic = True
        # attributes assigned from outside: obj.x = ...
    # ---------------------------------------------------------- functions
    def functions(self):
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n

    def owner(self, fn):
        p = fn.parent
        if isinstance(p, ast.ClassDef):
            return self.classes[f'{fn.mod.name}.{p.myqual}']
        return None


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args]


def binds(fn, call, skip_self):
    """None when the call can bind; otherwise the reason it cannot."""
    a = fn.args
    ps = params(fn)[1 if skip_self else 0:]
    if any(isinstance(x, ast.Starred) for x in call.args):
        npos = None
    else:
        npos = len(call.args)
    kws = [k.arg for k in call.keywords]
    dstar = None in kws
    kws = [k for k in kws if k]
    if npos is not None and npos > len(ps) and not a.vararg:
        return f'too many positional arguments ({npos} for {len(ps)})'
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in kws:
        if k not in ps and k not in kwonly and not a.kwarg:
            return f'unexpected keyword argument {k!r}'
        if npos is not None and k in ps[:npos]:
            return f'multiple values for argument {k!r}'
    if npos is not None and not dstar:
        nd = len(a.defaults)
        req = ps[npos:len(ps) - nd] if nd else ps[npos:]
        if len(ps) - nd < npos:
            req = []
        miss = [p for p in req if p not in kws]
        if miss:
            return f'missing required argument {miss[0]!r}'
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return f'missing required argument {x.arg!r}'
    return None
