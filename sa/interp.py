"""Flow- and context-sensitive abstract interpreter for the analysed package.

It computes, over an abstract heap, where values come from, which objects alias
caller-owned objects, which constants decide branches, and which provenance
tags reach each operation.  Clients read the stream of events it records
(mutations, attribute reads and writes of older objects, fits, predictions,
subtractions, random draws, ...).  Nothing is executed and no path condition is
handed to a solver: branches are joined in a finite lattice.
"""
import ast
import os

from .program import Program, site
from .values import (V, Heap, Obj, C, unk, vobj, vjoin, const, NONE_C, U_C, BOT, TOP, NONE, TRUE, FALSE,
                     BOOL, UNDEF, EMPTY, join_heap, heap_eq, Dead)
from .ext import ExtMixin, ext_installed, CallArgsLite as CallArgs


class Budget(Exception):
    pass


class ClassInfo:
    def __init__(self, name, node, mod, bases, oid):
        self.name = name
        self.node = node
        self.mod = mod
        self.bases = bases          # list of ClassInfo or dotted str
        self.attrs = {}
        self.oid = oid
        self.qual = f'{mod.name}.{getattr(node, "myqual", name)}'
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro) if isinstance(b, ClassInfo) else [b] for b in self.bases]
            seqs.append(list(self.bases))
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    if s and s[0] == cand:
                        s.pop(0)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        started = after is None
        for c in self.mro:
            if not started:
                if c is after:
                    started = True
                continue
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro if isinstance(c, str) and c not in ('builtins.object',)]

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f'<class {self.qual}>'


class Frame:
    __slots__ = ('func', 'envid', 'mod', 'cls', 'self_v', 'returns', 'breaks', 'conts', 'locals',
                 'globals', 'nonlocals', 'loop', 'ctx', 'captured', 'yields', 'is_mod', 'is_cls')

    def __init__(self):
        self.returns = []
        self.breaks = []
        self.conts = []
        self.loop = ()
        self.captured = False
        self.yields = None
        self.is_mod = False
        self.is_cls = False
        self.self_v = None
        self.cls = None


class Event:
    __slots__ = ('kind', 'node', 'phase', 'stack', 'd')

    def __init__(self, kind, node, phase, stack, d):
        self.kind = kind
        self.node = node
        self.phase = phase
        self.stack = stack
        self.d = d

    def __repr__(self):
        s = site(self.node) if self.node is not None else ('', '', 0, '')
        return f'{self.kind}[{self.phase}] {s[0]}:{s[2]} {s[1]} `{s[3]}` {self.d}'


def func_locals(node):
    """Names assigned in a function body (its own scope)."""
    c = getattr(node, '_locals', None)
    if c is not None:
        return c
    loc, glo, nonl = set(), set(), set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    is_gen = False
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus leaks; iterate first iterable
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    loc.add(sub.target.id)
            continue
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    loc -= glo
    loc -= nonl
    node._locals = (frozenset(loc), frozenset(glo), frozenset(nonl), is_gen)
    return node._locals


SKIP_MODULES = ('ylearn.causal_discovery.toy',)


class Interp(ExtMixin):
    MAX_DEPTH = 40
    MAX_STEPS = 6_000_000
    STRICT = True

    def __init__(self, prog):
        self.prog = prog
        self.gh = {}
        self.h = Heap()
        self._ids = {}
        self.phase = 'import'
        self.events = []
        self._evkeys = set()
        self.handlers = [[]]
        self.stack = []
        self.ctx = 0
        self.par = ()
        self.internal = []
        self.total_steps = 0
        self.loop = ()
        self.steps = 0
        self.modstate = {}
        self.modenv = {}
        self.withs = []
        self.opaque = set()      # function quals not inlined
        self.trace = False
        self.funcs_seen = set()
        self.calls_seen = 0
        self.branches_seen = 0
        self.unresolved = {}
        self.extcache = {}
        self.oidkey = {}

    # ---------------------------------------------------------------- ids
    def oid(self, *key):
        i = self._ids.get(key)
        if i is None:
            i = len(self._ids) + 1
            self._ids[key] = i
            self.oidkey[i] = key
        return i

    def get(self, i):
        o = self.h.get(i)
        if o is None:
            o = self.gh.get(i)
            if o is None:
                o = Obj('dead')
        return o

    def put(self, i, o):
        self.h[i] = o

    def new(self, kind, node, extra='', **kw):
        i = self.oid(self.ctx, self.loop, getattr(node, 'nid', 0), extra, kind)
        kw.setdefault('born', self.phase)
        self.h[i] = Obj(kind, **kw)
        return i

    def ext(self, dotted):
        i = self.extcache.get(dotted)
        if i is None:
            i = self.oid('ext', dotted)
            self.gh[i] = Obj('ext', cls=dotted, root='ext', born='ext')
            self.extcache[dotted] = i
        return V(o=frozenset([i]))

    # ------------------------------------------------------------- events
    def emit(self, kind, node, key=(), **d):
        k = (kind, getattr(node, 'nid', 0), self.phase, tuple(key), tuple(n.nid for n, _ in self.stack[-6:]))
        if k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append(Event(kind, node, self.phase, tuple(n for n, _ in self.stack), d))

    # ------------------------------------------------------------ helpers
    def lst(self, node, items=None, elem=BOT, kind='list', extra='', **kw):
        if items is not None:
            items = tuple(items)
        return vobj(self.new(kind, node, extra, items=items, elem=elem, **kw))

    def tags(self, v, depth=3):
        t = v.t
        for i in v.o:
            t = t | self.otags(i, depth)
        return t

    def otags(self, i, depth=3):
        o = self.get(i)
        t = o.tags
        if depth > 0 and o.kind in ('list', 'tuple', 'dict', 'set', 'iter'):
            t = t | self.tags(o.elem, depth - 1)
            if o.items is not None:
                for v in (o.items.values() if isinstance(o.items, dict) else o.items):
                    t = t | self.tags(v, depth - 1)
        return t

    def objs(self, v):
        return [(i, self.get(i)) for i in sorted(v.o)]

    def elems(self, v, node=None):
        """Join of the elements obtained by iterating v."""
        r = BOT
        for c in v.c:
            if c[0] == 'c' and c[1] == 'str':
                r = r.join(unk('str').with_tags(v.t))
            elif c[0] == 'c' and c[1] in ('tuple',):
                for e in c[2]:
                    r = r.join(C(e))
            elif c[0] == '?':
                r = r.join(unk('str') if c[1] == 'str' else TOP)
        if v.x:
            r = r.join(V(x=True, t=v.t))
        for i, o in self.objs(v):
            if o.kind == 'iter' and (o.ex.get('fold') is not None or o.ex.get('zip') is not None) and node is not None:
                r = r.join(self.iter_elem(vobj(i), node))
                continue
            if o.kind in ('list', 'tuple', 'set', 'iter'):
                r = r.join(o.elem)
                for e in (o.items or ()):
                    r = r.join(e)
            elif o.kind == 'dict':
                r = r.join(o.ex.get('keys') or TOP)
                for k in (o.items or {}):
                    r = r.join(C(k))
            elif o.kind in ('arr', 'frame', 'model', 'any', 'graph', 'names'):
                r = r.join(self.child(i, o, '[*]', node))
            elif o.kind == 'inst':
                r = r.join(self.inst_iter(i, o, node))
            else:
                r = r.join(V(x=True, t=o.tags))
        if r.bot and not v.bot:
            r = BOT
        return r.with_tags(frozenset(t for t in v.t if t[0] != 'lay')) if not r.bot else r

    def inst_iter(self, i, o, node):
        c, f = o.cls.find('__iter__')
        if c is not None and node is not None:
            it = self.call(self.bind_attr(i, o, f, node), CallArgs(), node)
            return self.elems(it, node)
        return V(x=True, t=o.tags)

    def child(self, i, o, name, node):
        """Part of an external object (row, view, attribute): aliases it."""
        if o.kind in ('arr', 'frame') and name == '[*]':
            k = 'arr' if o.kind == 'arr' else 'any'
            if o.kind == 'frame':
                return V(x=True, t=o.tags)
        else:
            k = 'any'
        if o.root == 'fresh' and not o.bases:
            return V(x=True, t=o.tags)
        j = self.oid('child', i, name)
        if j not in self.h:
            self.h[j] = Obj(k, bases=frozenset([i]), root=o.root, born=o.born, tags=o.tags,
                            ex={'part': name})
        return V(o=frozenset([j]), t=o.tags)

    def seq(self, v):
        """Precise item tuple of v when it is exactly known, else None."""
        if v.x or len(v.o) + len(v.c) != 1:
            return None
        if v.c:
            c = next(iter(v.c))
            if c[0] == 'c' and c[1] == 'tuple':
                return tuple(C(e) for e in c[2])
            return None
        o = self.get(next(iter(v.o)))
        if o.kind in ('list', 'tuple', 'iter') and o.items is not None and o.elem.bot:
            return o.items
        if o.kind == 'dict' and o.items is not None and o.elem.bot:
            if all(U_C not in w.c for w in o.items.values()):
                return tuple(C(k) for k in o.items)
        return None

    def const_chars(self, v):
        """Characters of a known short string."""
        if v.x or v.o or len(v.c) != 1:
            return None
        c = next(iter(v.c))
        if c[0] == 'c' and c[1] == 'str' and len(c[2]) <= 40:
            return tuple(C(ch) for ch in c[2])
        return None

    # ------------------------------------------------------------ modules
    def load_all(self):
        for name in sorted(self.prog.modules):
            if name in SKIP_MODULES or name.startswith('ylearn.causal_model.other_identification'):
                continue
            self.load_module(name)
        self.gh.update(self.h)
        self.h = Heap()

    def load_module(self, name):
        """Abstractly execute a module body; returns its module object V."""
        if name in self.modenv:
            return vobj(self.oid('module', name))
        m = self.prog.modules.get(name)
        if m is None:
            return self.ext(name)
        parent = name.rpartition('.')[0]
        if parent and parent in self.prog.modules and parent not in self.modenv:
            self.load_module(parent)
            if name in self.modenv:
                return vobj(self.oid('module', name))
        envid = self.oid('modenv', name)
        self.modenv[name] = envid
        self.h[envid] = Obj('env', root='module', born='import', ex={'mod': name})
        mid = self.oid('module', name)
        self.h[mid] = Obj('module', cls=name, root='module', born='import')
        saved = (self.ctx, self.loop, self.stack, self.handlers)
        self.ctx, self.loop, self.stack, self.handlers = self.oid('modctx', name), (), [], [[]]
        fr = Frame()
        fr.func = None
        fr.envid = envid
        fr.mod = m
        fr.locals = fr.globals = fr.nonlocals = frozenset()
        fr.is_mod = True
        self.setattr_env(envid, '__name__', C(name))
        self.setattr_env(envid, '__file__', unk('str'))
        h_before = self.h
        self.exec_block(m.tree.body, fr)
        if self.h is None:     # module body never completes: keep going with what was there
            self.h = h_before
        self.ctx, self.loop, self.stack, self.handlers = saved
        if parent in self.modenv:
            short = name.rpartition('.')[2]
            env = self.get(self.modenv[parent])
            if short not in env.attrs:
                self.setattr_env(self.modenv[parent], short, vobj(mid))
        return vobj(mid)

    def setattr_env(self, envid, name, v):
        e = self.get(envid)
        a = dict(e.attrs)
        a[name] = v
        self.h[envid] = e.w(attrs=a)

    def module_attr(self, name, attr, node=None):
        env = self.get(self.modenv[name]) if name in self.modenv else None
        if env is not None and attr in env.attrs:
            return env.attrs[attr].defined()
        sub = f'{name}.{attr}'
        if sub in self.prog.modules:
            return self.load_module(sub)
        if sub in self.prog.pyx:
            return self.ext(sub)
        return None

    # --------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for st in body:
            if self.h is None:
                return
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget('step budget exhausted')
        m = getattr(self, 's_' + type(st).__name__, None)
        try:
            if m is None:
                for ch in ast.iter_child_nodes(st):
                    if isinstance(ch, ast.expr):
                        self.eval(ch, fr)
                return
            m(st, fr)
        except Dead:
            self.h = None

    def s_Pass(self, st, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr, st)

    def s_AugAssign(self, st, fr):
        t = st.target
        cur = self.eval(self.as_load(t), fr)
        rhs = self.eval(st.value, fr)
        # in-place for mutable operands
        keep = set()
        inplace_tags = self.aug_tags(st.op, self.tags(cur), self.tags(rhs))
        for i, o in self.objs(cur):
            if o.kind in ('list', 'set', 'dict', 'arr', 'frame', 'any', 'model', 'names'):
                if o.kind == 'names' and o.ex.get('immut'):
                    continue
                self.mutate(i, 'augmented assignment', st)
                keep.add(i)
                self.add_contents(i, self.elems(rhs, st) if o.kind in ('list', 'set') else BOT, inplace_tags)
            elif o.kind == 'inst':
                keep.add(i)
        res = self.binop(st.op, cur, rhs, st, fr)
        res = V(res.o | frozenset(keep), res.c, res.x, res.t) if not keep or res.c or not res.bot else res
        if keep and len(keep) == len(cur.o) and not cur.c and not cur.x:
            res = V(frozenset(keep), EMPTY, False, res.t)
        self.assign(t, res, fr, st, aug=True)

    def aug_tags(self, op, cur, t):
        return t

    def as_load(self, t):
        c = getattr(t, '_load', None)
        if c is None:
            import copy
            c = copy.copy(t)
            c.ctx = ast.Load()
            t._load = c
        return c

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                e = self.get(fr.envid)
                if t.id in e.attrs:
                    a = dict(e.attrs)
                    del a[t.id]
                    self.h[fr.envid] = e.w(attrs=a)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                for i, o in self.objs(b):
                    self.mutate(i, 'del []', st)
                    self.dict_del(i, k)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, fr)
                for i, o in self.objs(b):
                    self.mutate(i, f'del .{t.attr}', st)
                    if o.kind == 'inst' and t.attr in o.attrs:
                        a = dict(o.attrs)
                        del a[t.attr]
                        self.h[i] = self.get(i).w(attrs=a)
                        self.emit('attr_del', st, (i, t.attr), oid=i, name=t.attr, obj=o)

    def dict_del(self, i, k):
        o = self.get(i)
        if o.kind == 'dict' and o.items is not None:
            ks = [c[2] for c in k.c if c[0] == 'c']
            if len(ks) == 1 and not k.x and not k.o:
                d = dict(o.items)
                d.pop(ks[0], None)
                self.h[i] = o.w(items=d)
            else:
                self.h[i] = o.w(items={kk: vv.join(UNDEF) for kk, vv in o.items.items()})

    def s_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else NONE
        fr.returns.append((v, self.h))
        self.h = None

    def s_Raise(self, st, fr):
        if st.exc is not None:
            self.eval(st.exc, fr)
        self.raise_now(st)

    def raise_now(self, st):
        self.emit('raise', st)
        self.handlers[-1].append(self.h)
        raise Dead()

    def s_Assert(self, st, fr):
        ht, hf = self.cond(st.test, fr)
        if hf is not None:
            self.h = hf
            try:
                if st.msg is not None:
                    self.eval(st.msg, fr)
                self.emit('raise', st)
                self.handlers[-1].append(self.h)
            except Dead:
                pass
        self.h = ht

    def s_If(self, st, fr):
        self.branches_seen += 1
        ht, hf = self.cond(st.test, fr)
        self.h = ht
        if ht is not None:
            self.exec_block(st.body, fr)
        h1 = self.h
        self.h = hf
        if hf is not None:
            self.exec_block(st.orelse, fr)
        self.h = join_heap(h1, self.h)

    def s_While(self, st, fr):
        nb, nc = fr.breaks, fr.conts
        fr.breaks, fr.conts = [], []
        exit_h = None
        saved = self.loop
        for rnd in range(4):
            start = self.h
            if start is None:
                break
            self.loop = saved + ((st.nid, min(rnd, 2)),)
            self.h = Heap(start)
            ht, hf = self.cond(st.test, fr)
            exit_h = join_heap(exit_h, hf)
            self.h = ht
            if ht is None:
                break
            self.exec_block(st.body, fr)
            for c in fr.conts:
                self.h = join_heap(self.h, c)
            fr.conts = []
            if self.h is None:
                break
            nxt = join_heap(start, self.h)
            if heap_eq(nxt, start):
                break
            self.h = nxt
        self.loop = saved
        self.h = exit_h
        if self.h is not None and st.orelse:
            self.exec_block(st.orelse, fr)
        for b in fr.breaks:
            self.h = join_heap(self.h, b)
        fr.breaks, fr.conts = nb, nc

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        self.need_iterable(it)
        nb, nc = fr.breaks, fr.conts
        fr.breaks, fr.conts = [], []
        saved = self.loop
        items = self.seq(it)
        if items is None:
            items = self.const_chars(it)
        elif len(items) > 12:
            items = None
        if items is not None:
            for k, e in enumerate(items):
                if self.h is None:
                    break
                self.loop = saved + ((st.nid, 'u%d' % k),)
                maybe = U_C in e.c
                h0 = Heap(self.h) if maybe else None
                self.assign(st.target, e.defined(), fr, st)
                self.exec_block(st.body, fr)
                for c in fr.conts:
                    self.h = join_heap(self.h, c)
                fr.conts = []
                if maybe:
                    self.h = join_heap(self.h, h0)
        else:
            self.run_loop(st.target, it, lambda: self.exec_block(st.body, fr), fr, st)
        self.loop = saved
        if self.h is not None and st.orelse:
            self.exec_block(st.orelse, fr)
        for b in fr.breaks:
            self.h = join_heap(self.h, b)
        fr.breaks, fr.conts = nb, nc

    s_AsyncFor = s_For

    def run_loop(self, target, it, body, fr, node):
        """Zero or more iterations over an iterable of unknown length."""
        saved = self.loop
        zero = Heap(self.h)
        done = None
        for rnd in range(4):
            self.loop = saved + ((node.nid, min(rnd, 2)),)
            start = self.h
            self.h = Heap(start)
            e = self.iter_elem(it, node)
            if e.bot:
                self.h = start
                break
            try:
                self.assign(target, e, fr, node)
                body()
            except Dead:
                self.h = None
            for c in fr.conts:
                self.h = join_heap(self.h, c)
            fr.conts = []
            if self.h is None:
                break
            done = join_heap(done, self.h)
            if heap_eq(self.h, start):
                break
            if rnd >= 2:
                self.h = join_heap(self.h, start)
                if heap_eq(self.h, start):
                    break
        self.loop = saved
        self.h = join_heap(Heap(zero), done)

    def need_iterable(self, it):
        """Iterating over None or a number always raises."""
        if not it.o and not it.x and it.c and all(
                c == NONE_C or c[1] in ('int', 'float', 'bool', 'NoneType') for c in it.c):
            self.handlers[-1].append(self.h)
            raise Dead()

    def iter_elem(self, it, node):
        """Element for one iteration; iterators may produce it lazily."""
        r = BOT
        rest = it
        for i, o in self.objs(it):
            if o.kind == 'iter' and o.ex.get('fold') is not None:
                rest = V(rest.o - {i}, rest.c, rest.x, rest.t)
                key = (o.ex['fold'], self.loop)
                tr = V(x=True, t=frozenset([('sel', 'train', key)]))
                te = V(x=True, t=frozenset([('sel', 'test', key)]))
                r = r.join(self.lst(node, (tr, te), kind='tuple', extra='fold'))
            elif o.kind == 'iter' and o.ex.get('zip') is not None:
                rest = V(rest.o - {i}, rest.c, rest.x, rest.t)
                parts = tuple(self.iter_elem(p, node) for p in o.ex['zip'])
                if any(p.bot for p in parts):
                    continue
                r = r.join(self.lst(node, parts, kind='tuple', extra='zip%d' % i))
            elif o.kind == 'iter' and o.ex.get('map') is not None:
                rest = V(rest.o - {i}, rest.c, rest.x, rest.t)
                fn, its = o.ex['map']
                parts = [self.iter_elem(p, node) for p in its]
                if any(p.bot for p in parts):
                    continue
                r = r.join(self.call(fn, CallArgs(parts), node))
        return r.join(self.elems(rest, node))

    def s_Break(self, st, fr):
        fr.breaks.append(self.h)
        self.h = None

    def s_Continue(self, st, fr):
        fr.conts.append(self.h)
        self.h = None

    def imports_fail(self, st):
        """A try body made of imports: True fails, False succeeds, None unknown."""
        r = False
        for s in st.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if not self.importable(a.name):
                        return True
            elif isinstance(s, ast.ImportFrom):
                full = self.abs_import(s)
                if not self.importable(full):
                    return True
            else:
                return None
        return r

    def importable(self, dotted):
        top = dotted.split('.')[0]
        if top == self.prog.pkg:
            return dotted in self.prog.modules or dotted in self.prog.pyx
        return ext_installed(top)

    def s_Try(self, st, fr):
        only_import = all(
            h.type is not None and all(n in ('ImportError', 'ModuleNotFoundError', 'SyntaxError')
                                       for n in _exc_names(h.type)) for h in st.handlers) and st.handlers
        if only_import:
            if self.imports_fail(st) is False:
                self.exec_block(st.body, fr)
                if self.h is not None:
                    self.exec_block(st.orelse, fr)
                if self.h is not None:
                    self.exec_block(st.finalbody, fr)
                return
        fails_now = False
        if st.handlers and st.body and isinstance(st.body[0], (ast.Import, ast.ImportFrom)):
            probe = type('P', (), {'body': st.body[:1]})
            fails_now = self.imports_fail(probe) is True
        nret = len(fr.returns)
        nbr, nco = len(fr.breaks), len(fr.conts)
        self.handlers.append([])
        exc = Heap(self.h)
        if fails_now:
            self.h = None
        else:
            for s in st.body:
                if self.h is None:
                    break
                self.exec(s, fr)
                if self.h is not None:
                    exc = join_heap(exc, self.h) if st.handlers or st.finalbody else exc
        raised = self.handlers.pop()
        for h in raised:
            exc = join_heap(exc, h)
        if self.h is not None and st.orelse:
            self.exec_block(st.orelse, fr)
        out = self.h
        if out is not None and st.handlers and self.oid('ghost', 'rng') in out:
            # seeding a generator does not fail
            exc = Heap(exc)
            exc[self.oid('ghost', 'rng')] = out[self.oid('ghost', 'rng')]
        unhandled = None
        if st.handlers:
            for hd in st.handlers:
                self.h = Heap(exc)
                if hd.type is not None:
                    try:
                        self.eval(hd.type, fr)
                    except Dead:
                        continue
                if hd.name:
                    self.bind_name(hd.name, V(x=True), fr)
                self.handlers.append([])
                self.exec_block(hd.body, fr)
                for h in self.handlers.pop():
                    unhandled = join_heap(unhandled, h)
                out = join_heap(out, self.h)
            if not any(h.type is None or 'Exception' in _exc_names(h.type) or 'BaseException' in _exc_names(h.type)
                       for h in st.handlers):
                for h in raised:
                    unhandled = join_heap(unhandled, h)
        else:
            for h in raised:
                unhandled = join_heap(unhandled, h)
        if st.finalbody:
            for lst, n0 in ((fr.breaks, nbr), (fr.conts, nco)):
                for k in range(n0, len(lst)):
                    self.h = Heap(lst[k])
                    self.exec_block(st.finalbody, fr)
                    lst[k] = self.h
                lst[n0:] = [h for h in lst[n0:] if h is not None]
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for v, h in rets:
                self.h = Heap(h)
                self.exec_block(st.finalbody, fr)
                if self.h is not None:
                    fr.returns.append((v, self.h))
            # implicit exceptions also run the finaliser
            eh = unhandled if st.handlers else exc
            if eh is not None:
                self.h = Heap(eh)
                self.exec_block(st.finalbody, fr)
                if self.h is not None:
                    self.handlers[-1].append(self.h)
            self.h = out
            if self.h is not None:
                self.exec_block(st.finalbody, fr)
        else:
            if unhandled is not None:
                self.handlers[-1].append(unhandled)
            self.h = out

    s_TryStar = s_Try

    def s_With(self, st, fr):
        names = []
        exits = []
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            names.append((it.context_expr, v))
            r = BOT
            for i, o in self.objs(v):
                if o.kind == 'inst':
                    c, f = o.cls.find('__enter__')
                    if c is not None:
                        r = r.join(self.call(self.bind_attr(i, o, f, st), CallArgs(), st))
                        exits.append((i, o))
                        continue
                if o.kind == 'iter':
                    r = r.join(o.elem)
                    continue
                r = r.join(vobj(i))
            if v.x or v.c or not v.o:
                r = r.join(V(x=True, t=v.t))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr, st)
        self.withs.append((st, [n for n, _ in names], [self.describe(v) for _, v in names]))
        try:
            self.exec_block(st.body, fr)
        finally:
            self.withs.pop()
        if self.h is not None:
            for i, o in exits:
                c, f = o.cls.find('__exit__')
                if c is not None:
                    self.call(self.bind_attr(i, o, f, st), CallArgs([NONE, NONE, NONE]), st)

    s_AsyncWith = s_With

    def describe(self, v):
        out = set()
        for i, o in self.objs(v):
            if isinstance(o.cls, str):
                out.add(o.cls)
            elif isinstance(o.cls, ClassInfo):
                out.add(o.cls.qual)
            else:
                out.add(o.kind)
        return frozenset(out)

    def s_Match(self, st, fr):
        self.eval(st.subject, fr)
        h0 = self.h
        out = Heap(h0)
        for c in st.cases:
            self.h = Heap(h0)
            for n in ast.walk(c.pattern):
                nm = getattr(n, 'name', None)
                if isinstance(nm, str):
                    self.bind_name(nm, TOP, fr)
            self.exec_block(c.body, fr)
            out = join_heap(out, self.h)
        self.h = out

    # imports -------------------------------------------------------------
    def abs_import(self, st):
        if not st.level:
            return st.module or ''
        pkg = st.mod.package.split('.')
        pkg = pkg[:len(pkg) - (st.level - 1)] if st.level > 1 else pkg
        return '.'.join(pkg + ([st.module] if st.module else []))

    def s_Import(self, st, fr):
        for a in st.names:
            top = a.name.split('.')[0]
            if top == self.prog.pkg:
                parts = a.name.split('.')
                for k in range(1, len(parts) + 1):
                    v = self.load_module('.'.join(parts[:k]))
                if a.asname:
                    self.bind_name(a.asname, v, fr)
                else:
                    self.bind_name(top, self.load_module(top), fr)
            else:
                if not ext_installed(top):
                    self.emit('import_missing', st, (top,), name=top)
                    self.handlers[-1].append(self.h)
                    raise Dead()
                if a.asname:
                    self.bind_name(a.asname, self.ext(a.name), fr)
                else:
                    self.bind_name(top, self.ext(top), fr)

    def s_ImportFrom(self, st, fr):
        full = self.abs_import(st)
        top = full.split('.')[0]
        if top == '__future__':
            return
        if top != self.prog.pkg:
            if not ext_installed(top):
                self.emit('import_missing', st, (top,), name=top)
                self.handlers[-1].append(self.h)
                raise Dead()
            for a in st.names:
                if a.name == '*':
                    continue
                self.emit('ext_ref', st, (full, a.name), dotted=f'{full}.{a.name}')
                self.bind_name(a.asname or a.name, self.ext(f'{full}.{a.name}'), fr)
            return
        parts = full.split('.')
        for k in range(1, len(parts) + 1):
            self.load_module('.'.join(parts[:k]))
        for a in st.names:
            if a.name == '*':
                env = self.get(self.modenv[full]) if full in self.modenv else None
                if env is not None:
                    for n, v in list(env.attrs.items()):
                        if not n.startswith('_'):
                            self.bind_name(n, v, fr)
                continue
            if full in self.prog.pyx:
                self.bind_name(a.asname or a.name, self.ext(f'{full}.{a.name}'), fr)
                continue
            v = self.module_attr(full, a.name, st) if full in self.modenv else None
            if v is None:
                self.emit('import_unresolved', st, (full, a.name), module=full, name=a.name)
                v = TOP
            self.bind_name(a.asname or a.name, v, fr)

    # definitions ---------------------------------------------------------
    def s_FunctionDef(self, st, fr):
        v = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.bind_name(st.name, v, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, st, fr):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [self.eval(d, fr) if d is not None else None for d in a.kw_defaults]
        fr.captured = True
        i = self.new('func', st, attrs={}, root='code',
                     ex={'node': st, 'env': fr.envid, 'mod': fr.mod, 'cls': fr.cls if fr.is_cls else None,
                         'cls_outer': fr.cls, 'defaults': tuple(defaults), 'kwd': tuple(kwd), 'kind': 'plain',
                         'self_v': fr.self_v})
        return vobj(i)

    def decorate(self, d, v, st, fr):
        name = None
        if isinstance(d, ast.Name):
            name = d.id
        elif isinstance(d, ast.Attribute):
            name = d.attr
        fid = next(iter(v.o)) if len(v.o) == 1 else None
        o = self.get(fid) if fid is not None else None
        if name in ('property', 'cached_property', 'staticmethod', 'classmethod') and o is not None and o.kind == 'func':
            ex = dict(o.ex)
            ex['kind'] = name if name != 'cached_property' else 'property'
            j = self.new('func', st, extra='dec' + name, attrs=o.attrs, root='code', ex=ex)
            return vobj(j)
        if name in ('setter', 'deleter') and isinstance(d, ast.Attribute):
            base = self.lookup(d.value.id, fr, d) if isinstance(d.value, ast.Name) else None
            if base is not None and len(base.o) == 1 and o is not None:
                b = self.get(next(iter(base.o)))
                ex = dict(b.ex)
                ex[name] = fid
                return vobj(self.new('func', st, extra='set', attrs=b.attrs, root='code', ex=ex))
            return v
        if name in ('abstractmethod',):
            return v
        dv = self.eval(d, fr)
        if not dv.o:
            return v
        oo = [self.get(i) for i in dv.o]
        if all(x.kind in ('ext', 'bm', 'model', 'arr', 'any') for x in oo):
            dn = oo[0].cls
            if isinstance(dn, str) and dn.endswith('contextmanager'):
                if o is not None:
                    ex = dict(o.ex)
                    ex['ctxmgr'] = True
                    return vobj(self.new('func', st, extra='cm', attrs=o.attrs, root='code', ex=ex))
            return v     # external decorators are transparent
        return self.call(dv, CallArgs([v]), d)

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            bv = self.eval(b, fr)
            for i, o in self.objs(bv):
                if o.kind == 'class':
                    bases.append(o.cls)
                elif o.kind == 'ext':
                    if o.cls != 'builtins.object':
                        bases.append(o.cls)
                elif o.kind in ('bm', 'any', 'arr', 'model'):
                    bases.append('?.' + str(o.cls))
            if bv.x and not bv.o:
                bases.append('?')
        for kw in st.keywords:
            self.eval(kw.value, fr)
        fr.captured = True
        i = self.oid(self.ctx, self.loop, st.nid, 'class')
        ci = ClassInfo(st.name, st, st.mod, bases, i)
        ci.meta = [self.describe(self.eval(k.value, fr)) for k in st.keywords if k.arg == 'metaclass']
        self.h[i] = Obj('class', cls=ci, root='code', born=self.phase)
        envid = self.oid(self.ctx, self.loop, st.nid, 'clsenv')
        self.h[envid] = Obj('env', ex={'up': fr.envid if not fr.is_mod else None, 'clsbody': True})
        f2 = Frame()
        f2.func = None
        f2.envid = envid
        f2.mod = fr.mod
        f2.cls = ci
        f2.is_cls = True
        f2.locals = f2.globals = f2.nonlocals = frozenset()
        # a closure created in a class body sees the enclosing scope, not the class scope
        saved_up = self.get(envid)
        self.exec_block(st.body, f2)
        if self.h is None:
            raise Dead()
        ci.attrs = dict(self.get(envid).attrs)
        v = vobj(i)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            if dv.o and not dv.x and all(o.kind in ('func', 'bound', 'class', 'partial') for _, o in self.objs(dv)):
                r = self.call(dv, CallArgs([v]), d)
                if r.o and not r.x:
                    v = r
        self.bind_name(st.name, v, fr)

    # ------------------------------------------------------------ binding
    def bind_name(self, name, v, fr):
        if name in fr.globals:
            self.setattr_env(self.modenv[fr.mod.name], name, v)
            self.emit('global_write', fr.func, (name,), name=name)
            return
        if name in fr.nonlocals:
            e = self.get(fr.envid).ex.get('up')
            while e is not None:
                o = self.get(e)
                if name in o.attrs:
                    self.setattr_env(e, name, v)
                    return
                e = o.ex.get('up')
        self.setattr_env(fr.envid, name, v)

    def assign(self, t, v, fr, node, aug=False):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr)
            self.store_attr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            if aug:
                # the element itself was already updated in place
                pass
            self.store_sub(b, k, v, node, t, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node)

    def unpack(self, t, v, fr, node):
        elts = t.elts
        n = len(elts)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        its = self.seq(v)
        if its is None and len(v.o) > 1 and not v.x and not v.c:
            # several known tuples of the same length: join item-wise
            allits = [self.seq(vobj(i)) for i in sorted(v.o)]
            if all(a is not None and len(a) == n for a in allits):
                its = tuple(vjoin(col) for col in zip(*allits))
        if its is not None and not star and len(its) == n:
            for e, x in zip(elts, its):
                self.assign(e, x.defined(), fr, node)
            return
        if its is not None and star and len(its) >= n - 1:
            s = star[0]
            tail = n - 1 - s
            for k in range(s):
                self.assign(elts[k], its[k], fr, node)
            mid = its[s:len(its) - tail]
            self.assign(elts[s].value, self.lst(node, mid, extra='star'), fr, node)
            for k in range(tail):
                self.assign(elts[s + 1 + k], its[len(its) - tail + k], fr, node)
            return
        cols = None
        # positional join for tuples of matching length inside a set of candidates
        rest = v
        cand = []
        for i, o in self.objs(v):
            if o.kind in ('tuple', 'list') and o.items is not None and len(o.items) == n and not star:
                cand.append(o.items)
                rest = V(rest.o - {i}, rest.c, rest.x, rest.t)
        base = self.elems(rest, node)
        if base.bot and not cand:
            base = V(x=True, t=v.t)
        for k, e in enumerate(elts):
            x = base
            for c in cand:
                x = x.join(c[k])
            if isinstance(e, ast.Starred):
                x = self.lst(node, None, elem=x, extra='star')
                self.assign(e.value, x, fr, node)
            else:
                self.assign(e, x.defined() if not x.bot else TOP, fr, node)

    # ---------------------------------------------------- heap mutations
    def mutate(self, i, how, node):
        """An in-place change of object i (and of everything it is a view of)."""
        seen = set()
        work = [i]
        while work:
            j = work.pop()
            if j in seen:
                continue
            seen.add(j)
            o = self.get(j)
            if o.born != self.phase or o.root.startswith('arg'):
                self.emit('mutate', node, (j, how), oid=j, how=how, obj=o, root=o.root, born=o.born,
                          withs=tuple(d for _, _, ds in self.withs for d in ds), via=i)
            if o.kind == 'inst' or o.root != 'fresh':
                ex = dict(o.ex)
                ex['mut'] = (ex.get('mut') or EMPTY) | {self.phase}
                self.h[j] = o.w(ex=ex)
            work.extend(o.bases)

    def add_contents(self, i, elem, tags=EMPTY):
        o = self.get(i)
        if o.kind in ('list', 'set', 'dict', 'iter'):
            e = o.elem.join(elem)
            items = o.items
            if o.kind == 'list' and items is not None:
                for x in items:
                    e = e.join(x)
                items = None
            self.h[i] = o.w(elem=e, items=items)
        elif tags - o.tags:
            self.h[i] = o.w(tags=o.tags | tags)
            for b in o.bases:
                self.add_contents(b, BOT, tags)

    def store_attr(self, b, name, v, node):
        strong = len(b.o) == 1 and not b.x and not b.c
        for i, o in self.objs(b):
            if o.kind == 'inst':
                c, p = o.cls.find(name)
                if c is not None and len(p.o) == 1:
                    po = self.get(next(iter(p.o)))
                    if po.kind == 'func' and po.ex.get('kind') == 'property' and po.ex.get('setter'):
                        self.call_func(po.ex['setter'], CallArgs([vobj(i), v]), node)
                        continue
                c, p = o.cls.find('__setattr__')
                if c is not None:
                    self.call(self.bind_attr(i, o, p, node), CallArgs([C(name), v]), node)
                    continue
                self.raw_store(i, name, v, node, strong)
            elif o.kind in ('func', 'class', 'module', 'env', 'bound'):
                self.emit('code_write', node, (i, name), oid=i, name=name, obj=o)
                if o.kind == 'class':
                    o.cls.attrs[name] = v
                elif o.kind == 'module':
                    self.setattr_env(self.modenv[o.cls], name, v)
                elif o.kind == 'func':
                    a = dict(o.attrs)
                    a[name] = v
                    self.h[i] = o.w(attrs=a)
            elif o.kind == 'ext':
                self.emit('ext_write', node, (o.cls, name), dotted=o.cls, name=name)
            else:
                self.mutate(i, f'.{name} =', node)
                o = self.get(i)
                if o.kind in ('arr', 'frame'):
                    pass
                else:
                    a = dict(o.attrs)
                    a[name] = v if strong else a.get(name, UNDEF).join(v)
                    self.h[i] = o.w(attrs=a)

    def raw_store(self, i, name, v, node, strong=True):
        o = self.get(i)
        if o.born != self.phase or o.root.startswith('arg'):
            self.emit('attr_write', node, (i, name), oid=i, name=name, obj=o, val=v, root=o.root, born=o.born,
                      withs=tuple(d for _, _, ds in self.withs for d in ds))
            if o.root.startswith('arg'):
                self.mutate(i, f'.{name} =', node)
                o = self.get(i)
        a = dict(o.attrs)
        ex = dict(o.ex)
        wp = dict(ex.get('wp') or {})
        if strong:
            a[name] = v
            wp[name] = frozenset([self.phase])
        else:
            a[name] = a.get(name, UNDEF).join(v)
            wp[name] = wp.get(name, EMPTY) | {self.phase}
        ex['wp'] = wp
        self.h[i] = o.w(attrs=a, ex=ex)

    def store_sub(self, b, k, v, node, target, fr):
        vt = self.tags(v)
        ktags = self.tags(k)
        strong = len(b.o) == 1 and not b.x
        for i, o in self.objs(b):
            if o.kind == 'inst':
                c, f = o.cls.find('__setitem__')
                if c is not None:
                    self.call(self.bind_attr(i, o, f, node), CallArgs([k, v]), node)
                    continue
            if o.kind in ('func', 'class', 'module', 'ext'):
                continue
            self.mutate(i, '[...] =', node)
            o = self.get(i)
            if o.kind == 'dict':
                ks = [c[2] for c in k.c if c[0] == 'c']
                if len(ks) == 1 and not k.x and not k.o and len(k.c) == 1:
                    d = dict(o.items or {})
                    d[ks[0]] = v if strong else d.get(ks[0], UNDEF).join(v)
                    self.h[i] = o.w(items=d)
                else:
                    d = o.items
                    if d:
                        d = {kk: vv.join(v) for kk, vv in d.items()}
                    self.h[i] = o.w(items=d if d is not None else {}, elem=o.elem.join(v),
                                    ex={**o.ex, 'keys': (o.ex.get('keys') or BOT).join(k)})
            elif o.kind in ('list', 'tuple', 'iter'):
                ks = [c[2] for c in k.c if c[0] == 'c' and c[1] == 'int']
                if o.items is not None and len(ks) == 1 and not k.x and not k.o and -len(o.items) <= ks[0] < len(o.items):
                    it = list(o.items)
                    it[ks[0]] = v if strong else it[ks[0]].join(v)
                    self.h[i] = o.w(items=tuple(it))
                elif o.items is not None:
                    self.h[i] = o.w(items=tuple(e.join(v) for e in o.items))
                else:
                    self.h[i] = o.w(elem=o.elem.join(v))
            else:
                self.arr_store(i, o, k, v, vt, ktags, node)
        if (b.x or b.c) and isinstance(target.value, ast.Name) and vt - b.t:
            self.bind_name(target.value.id, b.with_tags(self.flow_tags(vt)), fr)

    def flow_tags(self, t):
        return t

    def arr_store(self, i, o, k, v, vt, ktags, node):
        vt = vt | frozenset(('role', x[1]) for x in ktags if x[0] == 'col')
        self.add_contents(i, BOT, vt)

    # -------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            t = EMPTY
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    t |= self.tags(self.eval(ch, fr))
            return V(x=True, t=t)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (bool, int, float, str)):
            return C(v)
        if v is Ellipsis:
            return unk('ellipsis')
        return unk(type(v).__name__)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def lookup(self, name, fr, node):
        envid = fr.envid
        if name in fr.globals:
            envid = None
        first = True
        while envid is not None:
            o = self.get(envid)
            if (first or not o.ex.get('clsbody')) and name in o.attrs:
                v = o.attrs[name]
                if U_C in v.c:
                    v = v.defined()
                    if v.bot:
                        self.emit('unbound', node, (name,), name=name)
                        return TOP
                return v
            if first and name in fr.locals and not fr.is_mod:
                self.emit('unbound', node, (name,), name=name)
                return TOP
            first = False
            envid = o.ex.get('up')
        menv = self.modenv.get(fr.mod.name)
        if menv is not None:
            o = self.get(menv)
            if name in o.attrs:
                return o.attrs[name].defined()
        import builtins
        if hasattr(builtins, name):
            return self.ext('builtins.' + name)
        if name in ('__file__', '__doc__', '__class__'):
            return TOP
        self.emit('name_missing', node, (name,), name=name)
        return TOP

    def e_Tuple(self, e, fr):
        return self.display(e, fr, 'tuple')

    def e_List(self, e, fr):
        return self.display(e, fr, 'list')

    def display(self, e, fr, kind):
        items = []
        elem = BOT
        precise = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                s = self.seq(v)
                if s is not None:
                    items.extend(s)
                else:
                    precise = False
                    elem = elem.join(self.elems(v, e))
            else:
                items.append(self.eval(x, fr))
        if precise:
            return self.lst(e, items, kind=kind)
        return self.lst(e, None, elem=elem.join(vjoin(items)), kind=kind)

    def e_Set(self, e, fr):
        vs = [self.eval(x.value if isinstance(x, ast.Starred) else x, fr) for x in e.elts]
        return self.lst(e, None, elem=vjoin(vs), kind='set')

    def e_Dict(self, e, fr):
        items = {}
        elem = BOT
        keys = BOT
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.eval(x, fr)
                for i, o in self.objs(v):
                    if o.kind == 'dict':
                        for kk, vv in (o.items or {}).items():
                            items[kk] = vv
                        elem = elem.join(o.elem)
                    else:
                        elem = elem.join(V(x=True, t=o.tags))
                continue
            kv = self.eval(k, fr)
            v = self.eval(x, fr)
            ks = [c[2] for c in kv.c if c[0] == 'c']
            if len(ks) == 1 and len(kv.c) == 1 and not kv.x and not kv.o and _hashable(ks[0]):
                items[ks[0]] = v
            else:
                elem = elem.join(v)
                keys = keys.join(kv)
        return vobj(self.new('dict', e, items=items, elem=elem, ex={'keys': keys} if not keys.bot else {}))

    def e_JoinedStr(self, e, fr):
        t = EMPTY
        parts = []
        ok = True
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, fr)
                cs = [c for c in v.c]
                if len(cs) == 1 and cs[0][0] == 'c' and not v.x and not v.o and x.format_spec is None and x.conversion == -1:
                    parts.append(str(cs[0][2]))
                else:
                    ok = False
            else:
                parts.append(str(x.value))
        if ok:
            return C(''.join(parts))
        return unk('str')

    def e_FormattedValue(self, e, fr):
        self.eval(e.value, fr)
        return unk('str')

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr, e)
        return v

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        if fr.yields is not None:
            fr.yields.append(v)
        return V(x=True)

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        if fr.yields is not None:
            fr.yields.append(self.elems(v, e))
        return V(x=True)

    def e_Slice(self, e, fr):
        t = EMPTY
        parts = []
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                v = self.eval(x, fr)
                parts.append(v)
                t |= self.tags(v)
            else:
                parts.append(None)
        i = self.new('slice', e, tags=t, ex={'parts': tuple(parts)})
        return vobj(i)

    def e_IfExp(self, e, fr):
        ht, hf = self.cond(e.test, fr)
        r = BOT
        out = None
        for h, x in ((ht, e.body), (hf, e.orelse)):
            if h is None:
                continue
            self.h = h
            try:
                r = r.join(self.eval(x, fr))
                out = join_heap(out, self.h)
            except Dead:
                pass
        self.h = out
        if out is None:
            raise Dead()
        return r

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        r = BOT
        out = None
        for k, x in enumerate(e.values):
            last = k == len(e.values) - 1
            if last:
                try:
                    r = r.join(self.eval(x, fr))
                    out = join_heap(out, self.h)
                except Dead:
                    pass
                break
            h0 = self.h
            self.h = Heap(h0)
            v = self.eval(x, fr)
            self.h = h0
            ht, hf = self.cond(x, fr)
            stop = hf if is_and else ht
            go = ht if is_and else hf
            if stop is not None:
                keep = self.refine_truth(v, not is_and)
                r = r.join(keep)
                out = join_heap(out, stop)
            if go is None:
                break
            self.h = go
        self.h = out
        if out is None:
            raise Dead()
        return r

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return V(c=frozenset(const(not x) for x in t))
        if isinstance(e.op, ast.USub):
            cs = [c for c in v.c]
            if len(cs) == 1 and cs[0][0] == 'c' and cs[0][1] in ('int', 'float') and not v.o and not v.x:
                return C(-cs[0][2])
            tg = self.tags(v)
            self.emit('neg', e, (tg,), tags=tg, val=v)
            return V(x=True, t=self.neg_tags(tg))
        r = V(x=True, t=self.tags(v))
        if isinstance(e.op, ast.Invert):
            r = V(x=True, t=self.invert_tags(self.tags(v)))
        return r

    def neg_tags(self, t):
        return t

    def invert_tags(self, t):
        return t

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b, e, fr)

    def binop(self, op, a, b, node, fr):
        ca = [c for c in a.c]
        cb = [c for c in b.c]
        if (len(ca) == 1 and len(cb) == 1 and not a.o and not b.o and not a.x and not b.x and
                ca[0][0] == 'c' and cb[0][0] == 'c'):
            try:
                x, y = ca[0][2], cb[0][2]
                r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                     ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y,
                     ast.Div: lambda: x / y}[type(op)]()
                if isinstance(r, (int, float, str, bool)) and (not isinstance(r, str) or len(r) < 200):
                    return C(r).with_tags(a.t | b.t)
            except Exception:
                pass
        ta, tb = self.tags(a), self.tags(b)
        self.emit('binop', node, (type(op).__name__, ta, tb), op=type(op).__name__, lt=ta, rt=tb, left=a, right=b)
        # list / tuple concatenation
        if isinstance(op, (ast.Add, ast.Mult)):
            ka = {self.get(i).kind for i in a.o}
            kb = {self.get(i).kind for i in b.o}
            if isinstance(op, ast.Add) and ka and kb and ka | kb <= {'list', 'tuple'} and not a.x and not b.x:
                sa, sb = self.seq(a), self.seq(b)
                kind = 'list' if 'list' in ka else 'tuple'
                if sa is not None and sb is not None:
                    return self.lst(node, sa + sb, kind=kind, extra='cat')
                return self.lst(node, None, elem=self.elems(a, node).join(self.elems(b, node)), kind=kind, extra='cat')
            if isinstance(op, ast.Mult) and (ka | kb) & {'list', 'tuple'}:
                src = a if ka & {'list', 'tuple'} else b
                return self.lst(node, None, elem=self.elems(src, node),
                                kind='list' if 'list' in (ka | kb) else 'tuple', extra='rep')
        # set algebra on sets / keys
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            ka = {self.get(i).kind for i in a.o}
            if ka and ka <= {'set'} and not a.x:
                return self.lst(node, None, elem=self.elems(a, node).join(
                    self.elems(b, node) if not isinstance(op, ast.Sub) else BOT), kind='set', extra='alg')
        # user-defined operators
        for i, o in self.objs(a):
            if o.kind == 'inst':
                nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'MatMult': '__matmul__'}.get(type(op).__name__)
                if nm:
                    c, f = o.cls.find(nm)
                    if c is not None:
                        return self.call(self.bind_attr(i, o, f, node), CallArgs([b]), node)
        if isinstance(op, ast.Mod) and all(c[1] == 'str' for c in ca) and ca and not a.o:
            return unk('str')
        if isinstance(op, ast.Add) and ca and all(c[1] == 'str' for c in ca) and not a.o and not a.x:
            return unk('str')
        return V(x=True, t=self.binop_tags(op, ta, tb, node))

    def binop_tags(self, op, ta, tb, node):
        return ta | tb

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        t = self.tags(left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, fr)
            t |= self.tags(rv)
            s = self.compare(op, left, rv, e)
            res = s if res is None else {x and y for x in res for y in s}
            left = rv
        if res == {True}:
            return TRUE
        if res == {False}:
            return FALSE
        self.emit('compare', e, (t,), tags=t)
        return V(c=BOOL.c, x=True, t=self.cmp_tags(t))

    def cmp_tags(self, t):
        return t

    def compare(self, op, a, b, node):
        """Possible truth values of `a op b`."""
        both = {True, False}
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            if isinstance(op, ast.IsNot):
                r = {not x for x in r}
            return r
        if a.x or b.x or a.o or b.o:
            if isinstance(op, (ast.Eq, ast.NotEq)) and not (a.x or b.x):
                # containers/instances versus scalars: never equal
                ko = [self.get(i).kind for i in (a.o | b.o)]
                if all(k in ('list', 'tuple', 'dict', 'set', 'func', 'class', 'module', 'slice') for k in ko):
                    if (a.o and not a.c and b.c and not b.o) or (b.o and not b.c and a.c and not a.o):
                        return {False} if isinstance(op, ast.Eq) else {True}
            if isinstance(op, (ast.In, ast.NotIn)):
                r = self.contains(b, a)
                if isinstance(op, ast.NotIn):
                    r = {not x for x in r}
                return r
            return both
        out = set()
        for x in a.c:
            for y in b.c:
                if x[0] != 'c' or y[0] != 'c':
                    if isinstance(op, (ast.Eq, ast.NotEq)) and x[1] != y[1] and 'NoneType' in (x[1], y[1]):
                        out.add(isinstance(op, ast.NotEq))
                        continue
                    return both
                try:
                    u, w = x[2], y[2]
                    out.add(bool({ast.Eq: lambda: u == w, ast.NotEq: lambda: u != w, ast.Lt: lambda: u < w,
                                  ast.LtE: lambda: u <= w, ast.Gt: lambda: u > w, ast.GtE: lambda: u >= w,
                                  ast.In: lambda: u in w, ast.NotIn: lambda: u not in w}[type(op)]()))
                except Exception:
                    return both
        return out or both

    def contains(self, cont, x):
        both = {True, False}
        s = None
        if len(cont.o) == 1 and not cont.c and not cont.x:
            o = self.get(next(iter(cont.o)))
            if o.kind in ('list', 'tuple', 'iter') and o.items is not None and o.elem.bot:
                s = o.items
            elif o.kind == 'dict' and o.items is not None and o.elem.bot:
                s = tuple(C(k) for k, v in o.items.items())
                if any(U_C in v.c for v in o.items.values()):
                    s = None
            elif o.kind == 'set' and o.elem.bot is False and not o.elem.x and not o.elem.o:
                s = None
                vals = {c for c in o.elem.c}
                if all(c[0] == 'c' for c in vals) and not x.o and not x.x and all(c[0] == 'c' for c in x.c):
                    if not (x.c & vals):
                        return {False}
                return both
        if s is None:
            return both
        if not s:
            return {False}
        if x.x or x.o:
            return both
        out = set()
        for c in x.c:
            if c[0] != 'c':
                return both
            hit = set()
            for it in s:
                if it.x or it.o or any(k[0] != 'c' for k in it.c):
                    hit.add('?')
                elif len(it.c) == 1:
                    if next(iter(it.c)) == c or _ceq(next(iter(it.c)), c):
                        hit.add('y')
                else:
                    if c in it.c:
                        hit.add('?')
            if 'y' in hit:
                out.add(True)
            elif '?' in hit:
                return both
            else:
                out.add(False)
        return out or both

    def is_same(self, a, b):
        out = set()
        if a.x or b.x:
            # an unknown value may be None or not, unless the other side excludes it
            return {True, False}
        for x in list(a.c) + [('o', i) for i in a.o]:
            for y in list(b.c) + [('o', i) for i in b.o]:
                if x[0] == 'c' and y[0] == 'c':
                    out.add(x == y)
                elif x[0] == 'o' and y[0] == 'o':
                    if x[1] != y[1]:
                        kx, ky = self.get(x[1]), self.get(y[1])
                        if kx.bases or ky.bases:
                            out |= {True, False}
                        else:
                            out.add(False)
                    else:
                        out |= {True} if self.get(x[1]).kind in ('func', 'class', 'module', 'ext') else {True, False}
                elif x[0] in ('?',) or y[0] in ('?',):
                    if x[0] != 'o' and y[0] != 'o':
                        tx, ty = x[1], y[1]
                        out |= {False} if tx != ty else {True, False}
                    else:
                        out.add(False)
                else:
                    out.add(False)
        return out or {True, False}

    # ------------------------------------------------------------- truth
    def truth(self, v):
        out = set()
        if v.x:
            return {True, False}
        for c in v.c:
            if c[0] == 'c':
                out.add(bool(c[2]))
            elif c[0] == '?':
                out |= {True, False}
        for i, o in self.objs(v):
            if o.kind in ('list', 'tuple', 'dict', 'set', 'iter'):
                if o.kind == 'iter' and o.ex:
                    out.add(True)
                elif o.items is not None and o.elem.bot:
                    vs = o.items.values() if isinstance(o.items, dict) else o.items
                    if any(U_C not in w.c for w in vs):
                        out.add(True)
                    elif len(o.items):
                        out |= {True, False}
                    else:
                        out.add(False)
                else:
                    out |= {True, False}
            elif o.kind in ('func', 'class', 'module', 'bound', 'slice', 'ext', 'model', 'super', 'partial', 'rng', 'delayed', 'parallel'):
                out.add(True)
            elif o.kind == 'inst':
                if any(o.cls.find(n)[0] is not None for n in ('__len__', '__bool__')) or o.cls.ext_bases():
                    out |= {True, False}
                else:
                    out.add(True)
            else:
                out |= {True, False}
        return out or {True, False}

    def refine_truth(self, v, want):
        cs = set()
        for c in v.c:
            if c[0] == 'c':
                if bool(c[2]) == want:
                    cs.add(c)
            elif c[0] != 'U':
                cs.add(c)
        os_ = set()
        for i in v.o:
            if want in self.truth(vobj(i)):
                os_.add(i)
        return V(frozenset(os_), frozenset(cs), v.x, v.t)

    def cond(self, e, fr):
        """(heap if true, heap if false); None when infeasible."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, fr)
            return b, a
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = None
            for x in e.values:
                ht, hf = self.cond(x, fr)
                stop, go = (hf, ht) if is_and else (ht, hf)
                acc = join_heap(acc, stop)
                self.h = go
                if go is None:
                    break
            return (self.h, acc) if is_and else (acc, self.h)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            r = self.cond_exact(e, fr)
            return r if r is not None else self.cond_compare(e, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'callable', 'hasattr') and e.args:
            return self.cond_type(e, fr)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e, fr)
            return self.split(e.target, v, fr)
        v = self.eval(e, fr)
        return self.split(e, v, fr)

    def split(self, e, v, fr):
        t = self.truth(v)
        h = self.h
        ht = hf = None
        if True in t:
            self.h = Heap(h) if False in t else h
            r = self.refine_truth(v, True)
            if r.bot:
                ht = None
            else:
                self.refine(e, v, r, fr)
                ht = self.h
        if False in t:
            self.h = h
            r = self.refine_truth(v, False)
            if r.bot:
                hf = None
            else:
                self.refine(e, v, r, fr)
                hf = self.h
        return ht, hf

    def refine(self, e, old, new, fr):
        """Write back a narrowed value for a name or attribute path."""
        if old == new:
            return
        if isinstance(e, ast.Name):
            o = self.get(fr.envid)
            if e.id in o.attrs:
                self.setattr_env(fr.envid, e.id, new)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = self.get(fr.envid)
            b = o.attrs.get(e.value.id)
            if b is not None and len(b.o) == 1 and not b.x and not b.c:
                i = next(iter(b.o))
                ob = self.get(i)
                if ob.kind == 'inst' and e.attr in ob.attrs:
                    a = dict(ob.attrs)
                    a[e.attr] = new
                    self.h[i] = ob.w(attrs=a)

    def cond_compare(self, e, fr):
        op = e.ops[0]
        a = self.eval(e.left, fr)
        b = self.eval(e.comparators[0], fr)
        tg = self.tags(a) | self.tags(b)
        if tg:
            self.emit('compare', e, (tg,), tags=tg)
        s = self.compare(op, a, b, e)
        h = self.h
        ht = hf = None
        for want in (True, False):
            if want not in s:
                continue
            self.h = Heap(h)
            ok = True
            for x, vx, vy in ((e.left, a, b), (e.comparators[0], b, a)):
                r = self.narrow(op, vx, vy, want, x is e.left)
                if r is not None:
                    if r.bot:
                        ok = False
                        break
                    self.refine(x, vx, r, fr)
            if ok:
                if want:
                    ht = self.h
                else:
                    hf = self.h
        return ht, hf

    def narrow(self, op, v, other, want, is_left):
        """Narrow v under (v op other) == want; None when nothing is learnt."""
        eq = None
        if isinstance(op, (ast.Is, ast.Eq)):
            eq = want
        elif isinstance(op, (ast.IsNot, ast.NotEq)):
            eq = not want
        if eq is not None:
            if other.o or other.x or len(other.c) != 1:
                return None
            k = next(iter(other.c))
            if k[0] != 'c':
                return None
            is_id = isinstance(op, (ast.Is, ast.IsNot))
            if eq:
                if k in v.c or v.x or any(c[0] == '?' and c[1] == k[1] for c in v.c):
                    keep_o = frozenset() if is_id else frozenset(
                        i for i in v.o if self.get(i).kind in ('arr', 'frame', 'any', 'names', 'inst'))
                    return V(keep_o, frozenset([k]), False, v.t)
                if is_id:
                    return V(EMPTY, EMPTY, False, v.t)
                return None
            cs = frozenset(c for c in v.c if c != k)
            if k == NONE_C and v.x and is_id:
                return V(v.o, cs, v.x, v.t)
            return V(v.o, cs, v.x, v.t)
        if isinstance(op, (ast.In, ast.NotIn)) and is_left:
            yes = want if isinstance(op, ast.In) else not want
            its = None
            if len(other.o) == 1 and not other.c and not other.x:
                o = self.get(next(iter(other.o)))
                if o.kind in ('list', 'tuple') and o.items is not None and o.elem.bot:
                    its = o.items
                elif o.kind == 'set':
                    its = tuple(V(c=frozenset([c])) for c in o.elem.c) if not o.elem.x and not o.elem.o else None
                elif o.kind == 'dict' and o.items is not None and o.elem.bot:
                    its = tuple(C(kk) for kk in o.items)
            if its is None:
                return None
            if any(len(i.c) != 1 or i.x or i.o for i in its):
                return None
            ks = {next(iter(i.c)) for i in its}
            if any(k[0] != 'c' for k in ks):
                return None
            if yes:
                if v.x or any(c[0] == '?' for c in v.c):
                    return V(v.o, frozenset(ks), False, v.t) if not v.o else None
                return V(v.o, frozenset(c for c in v.c if c in ks), False, v.t)
            return V(v.o, frozenset(c for c in v.c if c not in ks), v.x, v.t)
        return None

    def cond_type(self, e, fr):
        v = self.eval(e, fr)
        target = e.args[0]
        if isinstance(target, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            a = self.eval(target, fr)
            ty = self.eval(e.args[1], fr)
            t = self.truth(v)
            h = self.h
            out = []
            for want in (True, False):
                if want not in t:
                    out.append(None)
                    continue
                self.h = Heap(h)
                keep_o, keep_c, x = set(), set(), False
                for i in a.o:
                    if want in self.isinstance_(vobj(i), ty):
                        keep_o.add(i)
                for c in a.c:
                    if want in self.isinstance_(V(c=frozenset([c])), ty):
                        keep_c.add(c)
                names = self.type_names(ty)
                xx = a.x
                if want and a.x and names is not None and names <= {'str', 'int', 'float', 'bool'} and not keep_o and not keep_c:
                    r = V(EMPTY, frozenset(('?', n, None) for n in names), False, a.t)
                else:
                    r = V(frozenset(keep_o), frozenset(keep_c), xx, a.t)
                if r.bot:
                    out.append(None)
                    continue
                self.refine(target, a, r, fr)
                out.append(self.h)
            return tuple(out)
        return self.split(e, v, fr)

    def cond_exact(self, e, fr):
        """type(x) == T, type(x) in [T, ...] and their negations."""
        c = e.left
        op = e.ops[0]
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'type' and len(c.args) == 1
                and not c.keywords and isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq, ast.In, ast.NotIn))):
            return None
        a = self.eval(c.args[0], fr)
        self.eval(c, fr)
        ty = self.eval(e.comparators[0], fr)
        if isinstance(op, (ast.In, ast.NotIn)):
            s = self.seq(ty)
            ts = None if s is None else vjoin(s)
        else:
            ts = ty
        if ts is None or ts.x or ts.c or not ts.o:
            return None
        h = self.h
        exact = ('list', 'tuple', 'set', 'dict')
        yes = V(frozenset(i for i in a.o if True in self.isinstance_(vobj(i), ts)),
                frozenset(k for k in a.c if True in self.isinstance_(V(c=frozenset([k])), ts)), a.x, a.t)
        no = V(frozenset(i for i in a.o if False in self.isinstance_(vobj(i), ts) or self.get(i).kind not in exact),
               frozenset(k for k in a.c if False in self.isinstance_(V(c=frozenset([k])), ts)), a.x, a.t)
        out = []
        for r in (yes, no):
            if r.bot:
                out.append(None)
                continue
            self.h = Heap(h)
            self.refine(c.args[0], a, r, fr)
            out.append(self.h)
        return tuple(out) if isinstance(op, (ast.Is, ast.Eq, ast.In)) else tuple(out[::-1])

    def type_names(self, ty):
        out = set()
        for i, o in self.objs(ty):
            if o.kind == 'ext' and o.cls.startswith('builtins.'):
                out.add(o.cls[9:])
            elif o.kind == 'tuple' and o.items is not None:
                for v in o.items:
                    s = self.type_names(v)
                    if s is None:
                        return None
                    out |= s
            else:
                return None
        return out

    # ------------------------------------------------------ comprehensions
    def comp(self, e, fr, leaf):
        envid = self.oid(self.ctx, self.loop, e.nid, 'compenv')
        self.h[envid] = Obj('env', ex={'up': fr.envid})
        f2 = Frame()
        for s in ('func', 'mod', 'cls', 'self_v', 'globals', 'nonlocals', 'yields', 'is_cls'):
            setattr(f2, s, getattr(fr, s, None))
        f2.is_cls = False
        f2.returns = fr.returns
        f2.envid = envid
        f2.locals = frozenset()
        f2.captured = False

        def gen(k):
            if k == len(e.generators):
                leaf(f2)
                return
            g = e.generators[k]
            it = self.eval(g.iter, f2)
            self.need_iterable(it)
            its = self.seq(it)

            def body():
                ok = True
                falses = None
                for c in g.ifs:
                    ht, hf = self.cond(c, f2)
                    falses = join_heap(falses, hf)
                    self.h = ht
                    if ht is None:
                        ok = False
                        break
                if ok:
                    st['cond'] = st['cond'] or falses is not None
                    gen(k + 1)
                self.h = join_heap(self.h, falses)
                if self.h is None:
                    raise Dead()
            if its is not None and len(its) <= 12:
                saved = self.loop
                for n, x in enumerate(its):
                    self.loop = saved + ((g.target.nid, 'u%d' % n),)
                    h0 = Heap(self.h)
                    try:
                        c0 = st['cond']
                        if U_C in x.c:
                            st['cond'] = True
                        self.assign(g.target, x.defined(), f2, e)
                        body()
                    except Dead:
                        self.h = None
                    self.loop = saved
                    if self.h is None:
                        raise Dead()
            else:
                st['loop'] = True
                self.run_loop(g.target, it, body, f2, g.target)
                if self.h is None:
                    raise Dead()
        st = {'cond': False, 'loop': False}
        gen(0)
        if f2.captured:
            fr.captured = True
        else:
            self.h.pop(envid, None)
        return st

    def e_ListComp(self, e, fr, kind='list'):
        vals = []
        st = self.comp(e, fr, lambda f2: vals.append(self.eval(e.elt, f2)))
        if not st['loop'] and not st['cond'] and kind != 'set':
            return self.lst(e, vals, kind=kind)
        if not st['loop'] and kind != 'set' and False:
            pass
        elem = vjoin(vals)
        return self.lst(e, None, elem=elem, kind=kind)

    def e_SetComp(self, e, fr):
        return self.e_ListComp(e, fr, 'set')

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr, 'iter')

    def e_DictComp(self, e, fr):
        vals = []

        def leaf(f2):
            vals.append((self.eval(e.key, f2), self.eval(e.value, f2)))
        st = self.comp(e, fr, leaf)
        items, elem, keys = {}, BOT, BOT
        for k, v in vals:
            ks = [c[2] for c in k.c if c[0] == 'c']
            if len(ks) == 1 and len(k.c) == 1 and not k.x and not k.o and not st['loop']:
                items[ks[0]] = v.join(UNDEF) if st['cond'] else v
            else:
                elem = elem.join(v)
                keys = keys.join(k)
        return vobj(self.new('dict', e, items=items, elem=elem, ex={'keys': keys} if not keys.bot else {}))

    # ---------------------------------------------------------- attributes
    def e_Attribute(self, e, fr):
        b = self.eval(e.value, fr)
        return self.load_attr(b, e.attr, e)

    def load_attr(self, b, name, node):
        r = BOT
        n_ok = 0
        outs = []
        for i, o in self.objs(b):
            try:
                v = self.load_attr1(i, o, name, node)
            except Dead:
                if len(b.o) == 1:
                    raise
                continue
            if v is not None:
                r = r.join(v)
        for c in b.c:
            if c[0] == 'U':
                continue
            if c[0] == 'c' and c[2] is None:
                self.emit('none_attr', node, (name,), name=name, sure=(len(b.c) == 1 and not b.o and not b.x))
                continue
            r = r.join(self.bm(V(c=frozenset([c]), t=b.t), name, node))
        if b.x:
            r = r.join(V(x=True, t=self.attr_tags(b.t, name)))
        if r.bot:
            if b.bot:
                return TOP
            r = TOP
        return r

    def bm(self, recv, name, node):
        return vobj(self.new('bm', node, extra='bm' + name, cls=name, bases=recv.o, tags=self.tags(recv),
                             ex={'recv': recv, 'name': name}))

    def bind_attr(self, i, o, f, node):
        """Class attribute f accessed through instance (i, o)."""
        r = BOT
        for j, fo in self.objs(f):
            if fo.kind == 'func':
                k = fo.ex.get('kind')
                if k == 'staticmethod':
                    r = r.join(vobj(j))
                elif k == 'classmethod':
                    r = r.join(self.bound(j, vobj(o.cls.oid), node))
                elif k == 'property':
                    r = r.join(self.call_func(j, CallArgs([vobj(i)]), node))
                else:
                    r = r.join(self.bound(j, vobj(i), node))
            elif fo.kind == 'partial' and fo.ex.get('method'):
                r = r.join(self.bound(j, vobj(i), node))
            else:
                r = r.join(vobj(j))
        return r.join(V(EMPTY, f.c, f.x, f.t))

    def bound(self, fid, selfv, node):
        key = ('bound', fid, selfv)
        i = self.oid(*key)
        if i not in self.h:
            self.h[i] = Obj('bound', ex={'func': fid, 'self': selfv}, root='code', born=self.phase)
        return vobj(i)

    def load_attr1(self, i, o, name, node):
        k = o.kind
        if k == 'inst':
            if name in o.attrs:
                v = o.attrs[name]
                if o.born != self.phase:
                    wp = (o.ex.get('wp') or {}).get(name, EMPTY)
                    self.emit('attr_read', node, (i, name), oid=i, name=name, obj=o, val=v, wp=wp, maybe=U_C in v.c)
                dv = v.defined()
                if not dv.bot:
                    if U_C in v.c:
                        self.emit('attr_maybe', node, (i, name), oid=i, name=name, obj=o)
                    return dv
            if name == '__class__':
                return vobj(o.cls.oid)
            if name == '__dict__':
                return vobj(self.new('dict', node, extra='__dict__', items=None, elem=vjoin(o.attrs.values()).defined(),
                                     bases=frozenset([i]), root=o.root, born=o.born))
            c, f = o.cls.find(name)
            if c is not None:
                return self.bind_attr(i, o, f, node)
            c, f = o.cls.find('__getattr__')
            if c is not None:
                return self.call(self.bind_attr(i, o, f, node), CallArgs([C(name)]), node)
            if o.cls.ext_bases():
                r = self.bm(vobj(i), name, node)
                return V(r.o, r.c, True, r.t)
            if name in ('__repr__', '__str__', '__init__', '__eq__', '__hash__', '__module__', '__doc__', '__reduce__'):
                return TOP
            if o.ex.get('open'):
                return TOP
            self.emit('attr_missing', node, (i, name), oid=i, name=name, obj=o)
            # AttributeError
            self.handlers[-1].append(self.h)
            raise Dead()
        if k == 'ext':
            d = o.cls + '.' + name
            self.emit('ext_ref', node, (d,), dotted=d)
            return self.ext(d)
        if k == 'module':
            v = self.module_attr(o.cls, name, node)
            if v is None:
                self.emit('modattr_missing', node, (o.cls, name), module=o.cls, name=name)
                return TOP
            return v
        if k == 'class':
            c, f = o.cls.find(name)
            if c is not None:
                r = BOT
                for j, fo in self.objs(f):
                    if fo.kind == 'func' and fo.ex.get('kind') == 'classmethod':
                        r = r.join(self.bound(j, vobj(i), node))
                    else:
                        r = r.join(vobj(j))
                return r.join(V(EMPTY, f.c, f.x, f.t))
            if name in ('__name__', '__qualname__'):
                return C(o.cls.name)
            if name == '__bases__' or name == '__mro__':
                return TOP
            if o.cls.ext_bases() or name.startswith('__') or getattr(o.cls, 'meta', None):
                return self.bm(vobj(i), name, node)
            self.emit('attr_missing', node, (i, name), oid=i, name=name, obj=o)
            return TOP
        if k == 'super':
            return self.super_attr(i, o, name, node)
        if k == 'func':
            if name in o.attrs:
                return o.attrs[name].defined()
            if name == '__name__':
                return C(getattr(o.ex['node'], 'name', '<lambda>'))
            return V(x=True)
        if k in ('bound', 'partial'):
            return V(x=True)
        if name in o.attrs:
            return o.attrs[name].defined()
        return self.ext_attr(i, o, name, node)

    def super_attr(self, i, o, name, node):
        inst, cls = o.ex['inst'], o.ex['cls']
        r = BOT
        for j, io in self.objs(inst):
            if io.kind == 'inst':
                c, f = io.cls.find(name, after=cls)
                if c is not None:
                    r = r.join(self.bind_attr(j, io, f, node))
                elif io.cls.ext_bases() or name.startswith('__'):
                    r = r.join(self.bm(vobj(j), name, node))
                else:
                    self.emit('attr_missing', node, (j, name), oid=j, name=name, obj=io)
                    r = r.join(TOP)
            elif io.kind == 'class':
                c, f = io.cls.find(name, after=cls)
                if c is not None:
                    for q, fo in self.objs(f):
                        if fo.kind == 'func' and fo.ex.get('kind') == 'classmethod':
                            r = r.join(self.bound(q, vobj(j), node))
                        else:
                            r = r.join(vobj(q))
                else:
                    r = r.join(TOP)
        return r if not r.bot else TOP

    # -------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        sv = (self.loop, self.ctx, len(self.stack), len(self.handlers), list(self.withs))
        try:
            return self.e_Call_(e, fr)
        except (Dead, Budget, RecursionError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as ex:
            if self.STRICT:
                raise
            # a construct the engine does not model: the call may return anything
            self.internal.append((type(ex).__name__, str(ex)[:80], site(e)))
            self.loop, self.ctx = sv[0], sv[1]
            del self.stack[sv[2]:]
            del self.handlers[sv[3]:]
            self.withs = sv[4]
            if self.h is None:
                raise Dead()
            return TOP

    def e_Call_(self, e, fr):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            return self.make_super(e, fr)
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value, fr)
            args = self.eval_args(e, fr)
            return self.call_method(base, f.attr, args, e, fr, f)
        if isinstance(f, ast.Name) and f.id == 'locals':
            o = self.get(fr.envid)
            return vobj(self.new('dict', e, items={k: v for k, v in o.attrs.items()}))
        fv = self.eval(f, fr)
        args = self.eval_args(e, fr)
        return self.call(fv, args, e, fr)

    def make_super(self, e, fr):
        cls = fr.cls
        inst = fr.self_v
        if len(e.args) == 2:
            cv = self.eval(e.args[0], fr)
            inst = self.eval(e.args[1], fr)
            for i, o in self.objs(cv):
                if o.kind == 'class':
                    cls = o.cls
        if cls is None or inst is None:
            return TOP
        return vobj(self.new('super', e, ex={'inst': inst, 'cls': cls}))

    def eval_args(self, e, fr):
        a = CallArgs()
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                s = self.seq(v)
                if s is not None and a.star is None:
                    a.pos.extend(w.defined() for w in s)
                else:
                    a.star = (a.star or BOT).join(self.elems(v, e))
            else:
                v = self.eval(x, fr)
                if a.star is not None:
                    a.star = a.star.join(v)
                else:
                    a.pos.append(v)
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is not None:
                a.kw[k.arg] = v
            else:
                self.expand_kw(a, v)
        return a

    def expand_kw(self, a, v):
        for i, o in self.objs(v):
            if o.kind == 'dict':
                for kk, vv in (o.items or {}).items():
                    if isinstance(kk, str):
                        if U_C in vv.c:
                            a.kw[kk] = vv      # maybe absent: binder joins the default
                        else:
                            a.kw[kk] = vv
                if not o.elem.bot:
                    a.dstar = (a.dstar or BOT).join(o.elem)
                if o.items is None and o.elem.bot:
                    a.dstar = (a.dstar or BOT).join(TOP)
            else:
                a.dstar = (a.dstar or BOT).join(V(x=True, t=o.tags))
        if v.x:
            a.dstar = (a.dstar or BOT).join(V(x=True, t=v.t))

    def call_method(self, base, name, args, node, fr=None, attr_node=None):
        """base.name(args) without materialising the bound method when possible."""
        targets = []
        plain = BOT
        for i, o in self.objs(base):
            if o.kind in ('inst', 'ext', 'module', 'class', 'super', 'func', 'bound', 'partial'):
                targets.append(('attr', i, o))
            elif name in o.attrs:
                targets.append(('attr', i, o))
            else:
                targets.append(('ext', i, o))
        for c in base.c:
            if c[0] == 'c' and c[2] is None:
                self.emit('none_attr', node, (name,), name=name, sure=(len(base.c) == 1 and not base.o and not base.x))
                continue
            if c[0] == 'U':
                continue
            targets.append(('const', c, None))
        if base.x:
            targets.append(('x', None, None))
        if not targets:
            self.handlers[-1].append(self.h)
            raise Dead()       # only None: AttributeError
        r = BOT
        out = None
        h0 = self.h
        for n, (k, i, o) in enumerate(targets):
            self.h = Heap(h0) if len(targets) > 1 else h0
            try:
                if k == 'attr':
                    fv = self.load_attr(vobj(i), name, attr_node or node)
                    v = self.call(fv, args, node, fr)
                elif k == 'ext':
                    v = self.ext_method(vobj(i).with_tags(base.t), i, o, name, args, node)
                elif k == 'const':
                    v = self.ext_method(V(c=frozenset([i]), t=base.t), None, None, name, args, node)
                else:
                    v = self.ext_method(V(x=True, t=base.t), None, None, name, args, node)
                r = r.join(v)
                out = join_heap(out, self.h)
            except Dead:
                pass
        self.h = out
        if out is None:
            raise Dead()
        return r

    def call(self, fv, args, node, fr=None):
        targets = self.objs(fv)
        multi = len(targets) + (1 if fv.x or fv.c else 0) > 1
        if not targets:
            self.calls_seen += 1
            self.escape(args, node)
            return V(x=True, t=self.call_tags(fv, args))
        r = BOT
        out = None
        h0 = self.h
        for i, o in targets:
            self.h = Heap(h0) if multi else h0
            try:
                r = r.join(self.call1(i, o, args, node, fr))
                out = join_heap(out, self.h)
            except Dead:
                pass
        if fv.x:
            self.h = Heap(h0)
            r = r.join(V(x=True, t=self.call_tags(fv, args)))
            out = join_heap(out, self.h)
        self.h = out
        if out is None:
            raise Dead()
        return r

    def call_tags(self, fv, args):
        t = fv.t
        for a in args.all():
            t = t | self.tags(a)
        return frozenset(x for x in t if x[0] != 'lay')

    def escape(self, args, node):
        """Values handed to an unknown callable: callbacks are run once."""
        pass

    def call1(self, i, o, args, node, fr=None):
        self.calls_seen += 1
        k = o.kind
        if k == 'func':
            return self.call_func(i, args, node)
        if k == 'bound':
            a = CallArgs([o.ex['self']] + args.pos, args.kw, args.star, args.dstar)
            f = o.ex['func']
            fo = self.get(f)
            if fo.kind == 'func':
                return self.call_func(f, a, node)
            return self.call(vobj(f), a, node)
        if k == 'class':
            return self.instantiate(o.cls, args, node)
        if k == 'ext':
            return self.ext_call(o.cls, args, node, fr)
        if k == 'bm':
            recv = o.ex['recv']
            if len(recv.o) == 1 and not recv.c and not recv.x:
                j = next(iter(recv.o))
                return self.ext_method(recv, j, self.get(j), o.ex['name'], args, node)
            return self.ext_method(recv, None, None, o.ex['name'], args, node)
        if k == 'partial':
            kw = dict(o.ex['kw'])
            kw.update(args.kw)
            a = CallArgs(list(o.ex['args']) + args.pos, kw, args.star, args.dstar)
            return self.call(o.ex['fn'], a, node, fr)
        if k == 'inst':
            c, f = o.cls.find('__call__')
            if c is None:
                c, f = o.cls.find('forward')
            if c is not None:
                return self.call(self.bind_attr(i, o, f, node), args, node, fr)
            return V(x=True, t=self.call_tags(V(t=o.tags), args))
        if k == 'module':
            return TOP
        return self.ext_method(vobj(i), i, o, '__call__', args, node)

    def instantiate(self, ci, args, node):
        eb = ci.ext_bases()
        if any(b in ('builtins.dict', 'builtins.list') for b in eb):
            pass
        i = self.new('inst', node, extra='new' + ci.qual, cls=ci, attrs={})
        c, f = ci.find('__init__')
        self.emit('instantiate', node, (ci.qual,), cls=ci, args=args, oid=i)
        if c is not None:
            self.call(self.bind_attr(i, self.get(i), f, node), args, node)
        else:
            o = self.get(i)
            t = EMPTY
            for a in args.all():
                t |= self.tags(a)
            if eb:
                self.h[i] = o.w(tags=t)
        return vobj(i)

    def call_func(self, fid, args, node):
        fo = self.get(fid)
        fn = fo.ex['node']
        qual = f'{fn.mod.name}.{fn.myqual}'
        hook = self.intercept(fid, fo, qual, args, node)
        if hook is not None:
            return hook
        depth = sum(1 for n, _ in self.stack if n is fn)
        if len(self.stack) >= self.MAX_DEPTH or depth >= 2:
            t = EMPTY
            for a in args.all():
                t |= self.tags(a)
            return V(x=True, t=t)
        self.funcs_seen.add(qual)
        loc, glo, nonl, is_gen = func_locals(fn)
        saved = (self.ctx, self.loop)
        ctx = self.oid('ctx', self.ctx, self.loop, getattr(node, 'nid', 0), fid)
        env, fr = {}, Frame()
        self.bind_params(fn, fo, args, env, node)
        self.ctx, self.loop = ctx, ()
        envid = self.oid('env', ctx, fn.nid)
        self.h[envid] = Obj('env', attrs=env, ex={'up': fo.ex['env'] if self.get(fo.ex['env']).ex.get('mod') is None else None})
        up = fo.ex['env']
        uo = self.get(up)
        # closures defined in class bodies skip the class scope
        while up is not None and uo.ex.get('clsbody'):
            up = uo.ex.get('up')
            uo = self.get(up) if up is not None else None
        if up is not None and uo is not None and uo.ex.get('mod') is not None:
            up = None
        self.h[envid] = Obj('env', attrs=env, ex={'up': up})
        fr.func = fn
        fr.envid = envid
        fr.mod = fn.mod
        fr.cls = fo.ex.get('cls') or fo.ex.get('cls_outer')
        fr.locals, fr.globals, fr.nonlocals = loc, glo, nonl
        ps = fn.args.posonlyargs + fn.args.args
        if fo.ex.get('cls') is not None and ps:
            fr.self_v = env.get(ps[0].arg)
        else:
            fr.self_v = fo.ex.get('self_v')
        if is_gen:
            fr.yields = []
        self.stack.append((fn, node))
        try:
            if isinstance(fn, ast.Lambda):
                try:
                    v = self.eval(fn.body, fr)
                    fr.returns.append((v, self.h))
                except Dead:
                    pass
            else:
                self.exec_block(fn.body, fr)
                if self.h is not None:
                    fr.returns.append((NONE, self.h))
        finally:
            self.stack.pop()
            self.ctx, self.loop = saved
        if not fr.returns:
            raise Dead()
        r = BOT
        out = None
        for v, h in fr.returns:
            r = r.join(v)
            out = join_heap(out, h)
        self.h = out
        if out is fr.returns[0][1] and len(fr.returns) > 1:
            self.h = Heap(out)
        if not fr.captured:
            self.h.pop(envid, None)
        if is_gen:
            y = vjoin(fr.yields)
            its = None
            r = vobj(self.new('iter', node, extra='gen%d' % fn.nid, elem=y if not y.bot else TOP, items=its))
            if fo.ex.get('ctxmgr'):
                pass
        self.on_return(fn, r, node)
        return r

    def intercept(self, fid, fo, qual, args, node):
        return None

    def on_return(self, fn, r, node):
        pass

    def bind_params(self, fn, fo, args, env, node):
        a = fn.args
        ps = a.posonlyargs + a.args
        pos = list(args.pos)
        kw = dict(args.kw)
        nd = len(a.defaults)
        defaults = fo.ex['defaults']
        used_kw = set()
        for k, p in enumerate(ps):
            d = None
            di = k - (len(ps) - nd)
            if di >= 0:
                d = defaults[di]
            if k < len(pos):
                env[p.arg] = pos[k]
                if p.arg in kw:
                    self.bind_fail(node, (fn.nid, p.arg, 'dup'), fn, f'multiple values for argument {p.arg!r}')
                continue
            if p.arg in kw:
                v = kw.pop(p.arg)
                if U_C in v.c:
                    v = v.defined().join(d if d is not None else BOT)
                env[p.arg] = v
                continue
            v = BOT
            if args.star is not None:
                v = v.join(args.star)
            if args.dstar is not None:
                v = v.join(args.dstar)
            if d is not None:
                v = v.join(d)
            elif v.bot:
                self.bind_fail(node, (fn.nid, p.arg, 'missing'), fn, f'missing required argument {p.arg!r}')
                v = TOP
            env[p.arg] = v
        extra = pos[len(ps):]
        if a.vararg:
            if args.star is None:
                env[a.vararg.arg] = self.lst(node, extra, kind='tuple', extra='va%d' % fn.nid)
            else:
                env[a.vararg.arg] = self.lst(node, None, elem=vjoin(extra).join(args.star), kind='tuple', extra='va%d' % fn.nid)
        elif extra:
            self.bind_fail(node, (fn.nid, 'pos'), fn, f'too many positional arguments ({len(pos)} for {len(ps)})')
        for k, p in enumerate(a.kwonlyargs):
            d = fo.ex['kwd'][k]
            if p.arg in kw:
                v = kw.pop(p.arg)
                if U_C in v.c:
                    v = v.defined().join(d if d is not None else BOT)
                env[p.arg] = v
            else:
                v = BOT
                if args.dstar is not None:
                    v = v.join(args.dstar)
                if d is not None:
                    v = v.join(d)
                elif v.bot:
                    self.bind_fail(node, (fn.nid, p.arg, 'missing'), fn, f'missing required argument {p.arg!r}')
                    v = TOP
                env[p.arg] = v
        if a.kwarg:
            env[a.kwarg.arg] = vobj(self.new('dict', node, extra='kw%d' % fn.nid, items=kw, elem=args.dstar or BOT))
        else:
            for k in kw:
                if U_C in kw[k].c:
                    continue
                self.bind_fail(node, (fn.nid, k, 'unexpected'), fn, f'unexpected keyword argument {k!r}')

    def bind_fail(self, node, key, fn, msg):
        self.emit('bind_error', node, key, func=fn, msg=msg)
        self.handlers[-1].append(self.h)
        raise Dead()

    # ---------------------------------------------------------- subscript
    def e_Subscript(self, e, fr):
        b = self.eval(e.value, fr)
        k = self.eval(e.slice, fr)
        return self.load_sub(b, k, e, fr)

    def load_sub(self, b, k, node, fr=None):
        r = BOT
        kt = self.tags(k)
        for i, o in self.objs(b):
            if o.kind == 'dict':
                ks = [c[2] for c in k.c if c[0] == 'c']
                if o.items is not None and ks and not k.x and not k.o and all(q in o.items for q in ks if _hashable(q)):
                    v = vjoin(o.items[q] for q in ks if _hashable(q)).defined()
                    r = r.join(v if not v.bot else TOP)
                elif (o.ex.get('factory') is not None and o.items is not None and len(ks) == 1 and len(k.c) == 1
                      and not k.x and not k.o and _hashable(ks[0])):
                    # defaultdict: a missing constant key is inserted
                    known = not o.elem.bot
                    self.mutate(i, '[missing key] (default inserted)' + (' maybe' if known else ''), node)
                    nv = self.call(o.ex['factory'], CallArgs(), node).join(o.elem)
                    o2 = self.get(i)
                    d = dict(o2.items or {})
                    d[ks[0]] = nv
                    self.h[i] = o2.w(items=d)
                    r = r.join(nv)
                else:
                    v = o.elem
                    for q in (o.items or {}).values():
                        v = v.join(q.defined())
                    r = r.join(v if not v.bot else V(x=True, t=o.tags))
                    if o.ex.get('factory') is not None:
                        self.mutate(i, '[missing key] (default inserted) maybe', node)
                        nv = self.call(o.ex['factory'], CallArgs(), node)
                        r = r.join(nv)
                        o2 = self.get(i)
                        self.h[i] = o2.w(elem=o2.elem.join(nv))
            elif o.kind in ('list', 'tuple', 'iter'):
                ks = [c[2] for c in k.c if c[0] == 'c' and c[1] == 'int']
                sl = [self.get(j) for j in k.o]
                if sl and sl[0].kind == 'slice':
                    its = o.items
                    p = sl[0].ex['parts']
                    got = None
                    if its is not None and o.elem.bot:
                        try:
                            idx = [None if q is None else _only_const(q) for q in p]
                            got = its[slice(*idx)]
                        except (ValueError, TypeError):
                            got = None
                    kind = 'list' if o.kind != 'tuple' else 'tuple'
                    if got is not None:
                        r = r.join(self.lst(node, got, kind=kind, extra='sl%d' % i))
                    else:
                        r = r.join(self.lst(node, None, elem=self.elems(vobj(i), node), kind=kind, extra='sl%d' % i))
                elif o.items is not None and o.elem.bot and ks and not k.x and not k.o and all(-len(o.items) <= q < len(o.items) for q in ks):
                    r = r.join(vjoin(o.items[q] for q in ks).defined())
                else:
                    v = self.elems(vobj(i), node)
                    r = r.join(v if not v.bot else TOP)
            elif o.kind == 'inst':
                c, f = o.cls.find('__getitem__')
                if c is not None:
                    r = r.join(self.call(self.bind_attr(i, o, f, node), CallArgs([k]), node))
                else:
                    r = r.join(V(x=True, t=o.tags))
            elif o.kind in ('class',):
                # Generic[...] or a metaclass __getitem__: a derived class
                r = r.join(self.class_getitem(i, o, k, node))
            elif o.kind in ('ext', 'module', 'func'):
                r = r.join(TOP)
            else:
                r = r.join(self.arr_sub(i, o, k, kt, node))
        for c in b.c:
            if c[0] == 'c' and c[1] == 'str':
                r = r.join(self.str_sub(c[2], k))
            elif c[0] == '?' and c[1] == 'str':
                r = r.join(unk('str'))
            elif c[0] != 'U' and c != NONE_C:
                r = r.join(TOP)
        if b.x:
            r = r.join(V(x=True, t=self.sub_tags(b.t, kt)))
        if r.bot:
            self.handlers[-1].append(self.h)
            raise Dead()
        return r

    def str_sub(self, s, k):
        try:
            if len(k.o) == 1 and not k.c and not k.x:
                o = self.get(next(iter(k.o)))
                if o.kind == 'slice':
                    return C(s[slice(*[None if q is None else _only_const(q) for q in o.ex['parts']])])
            else:
                return C(s[_only_const(k)])
        except (ValueError, TypeError, IndexError):
            pass
        return unk('str')

    def class_getitem(self, i, o, k, node):
        return vobj(i)



def _only_const(v):
    if v.x or v.o or len(v.c) != 1:
        raise ValueError
    c = next(iter(v.c))
    if c[0] != 'c':
        raise ValueError
    return c[2]


def _hashable(x):
    return isinstance(x, (str, int, float, bool, type(None), tuple))


def _ceq(a, b):
    try:
        return a[2] == b[2] and a[1] in ('int', 'float', 'bool') and b[1] in ('int', 'float', 'bool')
    except Exception:
        return False


def _exc_names(t):
    if isinstance(t, ast.Tuple):
        return [n for e in t.elts for n in _exc_names(e)]
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    return ['?']
