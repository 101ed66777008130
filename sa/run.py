"""Scenario runner: enumerates option combinations and lifecycle phases."""
import ast
import itertools
import multiprocessing as mp
import os

from .specs import FRAME, NAMES, MODEL, ARR, GIVEN, ABSENT, EXTRA, NOEXTRA
from .values import *
from .world import World

SEED_PARAMS = ('random_state', 'random_seed', 'seed')
LEVELS = {'treat': 'T', 'control': 'C'}


class Rec:
    """One call made by a scenario."""
    __slots__ = ('spec', 'label', 'opts', 'phase', 'method', 'ret', 'events', 'inst', 'before', 'after', 'extra', 'seeded')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def entry(self):
        return f"{self.spec['name']}.{self.method}"

    @property
    def returned(self):
        return self.ret is not None


def unknown(t):
    return V(c=frozenset([('?', t, None)]))


class Runner:
    def __init__(self, world, hook=None):
        self.w = world
        self.recs = 0
        self.hook = hook
        self.methods_missing = []
        self.dead = 0
        self.with_extras = True
        self.kinds = {}
        self.seeds = False          # also drive the seed 0
        self.ctor_seed = self.kwseed = False
        from .specs import BY_CLS
        self.by_cls = BY_CLS

    # ------------------------------------------------------- arguments
    def arg(self, p, ph, val=GIVEN):
        w = self.w
        root = f'arg:{ph}:{p}'
        L = f'{ph}:{p}'
        if val is GIVEN and p in self.kinds:
            val = self.kinds[p]
        if isinstance(val, str) and val.startswith('@') and val != GIVEN:
            if val in ('@int', '@float', '@str', '@bool'):
                return unknown(val[1:])
            if val == '@name':
                return w.names(L, root, p, 'str')
            if val == '@list':
                return w.obj('list', L, root, elem=V(c=frozenset([('?', 'str', None), ('?', 'int', None)])), items=None)
            if val == '@num':
                return V(c=frozenset([('?', 'int', None), ('?', 'float', None)]))
            if val in ('@model', '@arr', '@frame', '@any'):
                kw = {'cls': 'user.' + p} if val == '@model' else {}
                return w.obj(val[1:], L, root, **kw)
            if val == '@levels':
                return w.obj('arr', L, root, [('lvl', LEVELS[p], 1)])
            if val == '@dict':
                return w.obj('dict', L, root, elem=TOP, items=None)
            if val == '@names':
                return w.names(L, root, p)
            if val == '@nameset':
                return w.obj('set', L, root, elem=unknown('str'), items=None)
            if val == '@tuple':
                return w.obj('tuple', L, root, elem=unknown('str'), items=None)
            if val == '@seed':
                return V(c=frozenset([('?', 'int', None)]), t=frozenset([('seed', 'user')]))
            if val == '@seed0':
                return V(c=frozenset([const(0)]), t=frozenset([('seed', 'user')]))
            if val == '@causation':
                row = w.obj('list', L + ':row', root, elem=unknown('str'), items=None)
                return w.obj('dict', L, root, elem=row, items=None)
            if val == '@arcs':
                arc = w.obj('tuple', L + ':arc', root, elem=unknown('str'), items=(unknown('str'), unknown('str')))
                return w.obj('list', L, root, elem=arc, items=None)
            if val == '@features':
                row = w.obj('tuple', L + ':row', root, elem=BOT, items=(
                    w.obj('any', L + ':cols', root), w.obj('model', L + ':tf', root, cls='user.transformer')))
                return w.obj('list', L, root, elem=row, items=None)
            if val == '@nxgraph':
                return w.obj('graph', L, root)
            if val == '@idict':
                return w.obj('dict', L, root, elem=V(c=frozenset([('?', 'int', None), ('?', 'str', None)])), items=None)
            if val.startswith('@inst:'):
                return self.given_instance(val[6:], L, root, ph)
            raise LookupError(val)
        if val is not GIVEN:
            if isinstance(val, V):
                return val
            return C(val)
        if p in FRAME:
            return w.obj('frame', L, root)
        if p in NAMES:
            return w.names(L, root, p)
        if p in MODEL:
            return w.obj('model', L, root, cls='user.' + p)
        if p in ARR:
            return w.obj('arr', L, root)
        if p in LEVELS:
            t = frozenset([('lvl', LEVELS[p], 1)])
            return V(c=frozenset([('?', 'str', None), ('?', 'int', None)]), t=t)
        if p == 'random_state':
            return V(c=frozenset([('?', 'int', None)]), t=frozenset([('seed', 'user')]))
        return w.obj('any', L, root)

    def given_instance(self, cls, L, root, ph):
        """An object of a class of the package that the caller built before."""
        w = self.w
        spec = self.by_cls[cls]
        before = set(w.it.h)
        old = self.kinds
        self.kinds = spec.get('kinds', {})
        w.phase('given')
        seeds = self.ctor_seed, self.kwseed
        ci = w.clsinfo(spec['cls'])
        v = w.new(spec['cls'], L, **self.kwargs(ci, '__init__', ph + ':given', spec['ctor'], next(self.combos(spec['axes']))))
        if v is not None and spec.get('fit') is not None:
            w.meth(v, spec.get('fit_name', 'fit'), L, **self.kwargs(ci, spec.get('fit_name', 'fit'), ph + ':given',
                   spec['fit'], next(self.combos(spec['fit_axes']))))
        self.kinds = old
        self.ctor_seed, self.kwseed = seeds
        w.phase(ph)
        if v is None:
            raise LookupError(f'cannot build a {cls}')
        h = w.it.h
        for i in set(h) - before:
            o = h[i]
            if o.kind not in ('class', 'module', 'func', 'ext') and o.root != 'module':
                h[i] = o.w(root=root, born='caller')
        return v

    def node_of(self, ci, name):
        if self.w.it.h is None:         # the call before ended in an error; every driven call restores its own state
            self.w.it.h = Heap()
        c, f = ci.find(name)
        if c is None:
            return None
        for i, o in self.w.it.objs(f):
            while o.kind == 'bound':
                o = self.w.it.get(o.ex['func'])
            if o.kind == 'func':
                return o.ex['node']
        return None

    def params_of(self, ci, name):
        c, f = ci.find(name)
        if c is None:
            return None
        n = self.node_of(ci, name)
        if n is not None:
            a = n.args
            return [q.arg for q in a.posonlyargs + a.args + a.kwonlyargs][1:], a.kwarg is not None
        return [], True

    def extras(self, ci, method, taken):
        """Further public parameters of a method: (strong, {param: value}) one at a time.

        strong: the parameter switches behaviour or hands over an object; the others are numeric hyperparameters.
        """
        n = self.node_of(ci, method)
        if n is None or not isinstance(n, ast.FunctionDef) or not self.with_extras:
            return []
        a = n.args
        ps = a.posonlyargs + a.args
        ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
        out = []
        for p, d in list(zip(ps, ds))[1:] + list(zip(a.kwonlyargs, a.kw_defaults)):
            p = p.arg
            if p in EXTRA:
                for v in EXTRA[p]:
                    v = v if isinstance(v, dict) else {p: v}
                    if not set(v) & taken - {p} or p not in taken:
                        out.append((True, v))
                continue
            if p in taken or p in NOEXTRA:
                continue
            if p in NAMES or p in LEVELS or p in MODEL or p in ARR:
                if d is not None:
                    out.append((True, {p: GIVEN}))
                continue
            if not isinstance(d, ast.Constant):
                continue
            v = d.value
            if isinstance(v, bool):
                out.append((True, {p: not v}))
            elif isinstance(v, int):
                out.append((False, {p: '@int'}))
            elif isinstance(v, float):
                out.append((False, {p: '@num'}))
            elif isinstance(v, str):
                out.append((False, {p: '@str'}))
            elif v is None:
                out.append((False, {p: '@num'}))
        return out

    def kwargs(self, ci, method, ph, given, combo):
        ps, var = self.params_of(ci, method) or ([], True)
        out = {}
        sel = {}
        for k, v in given.items():
            sel[k] = v
        for k, v in combo.items():
            for q in k.split('+'):
                sel[q] = v
        if method in ('fit',):
            for q in ('data', 'outcome', 'treatment'):
                if q in ps:
                    sel.setdefault(q, GIVEN)
        if method == '__init__' and ('random_state' in ps):
            sel.setdefault('random_state', GIVEN)
        if 'effect_src' in sel:
            sel[sel.pop('effect_src')] = GIVEN
        for k, v in sel.items():
            if v is ABSENT:
                continue
            if k == 'effect':
                out[k] = self.w.names(f'{ph}:{k}', f'arg:{ph}:{k}', 'effect')
                continue
            if ps and k not in ps and not var:
                continue
            out[k] = self.arg(k, ph, v)
        self.kwseed = self.has_seed(out)
        return out

    @staticmethod
    def has_seed(kw):
        return any(k in SEED_PARAMS and NONE_C not in v.c for k, v in kw.items())

    @staticmethod
    def combos(axes):
        ks = list(axes)
        for vs in itertools.product(*[axes[k] for k in ks]):
            yield dict(zip(ks, vs))

    @staticmethod
    def lab(c):
        return ','.join(f'{k}={v}' for k, v in c.items() if v is not GIVEN)

    @staticmethod
    def taken(*ds):
        out = set()
        for d in ds:
            for k in d:
                out |= set(k.split('+'))
        return out | {'data', 'outcome', 'treatment', 'random_state', 'effect_src'}

    # -------------------------------------------------------------- jobs
    def jobs(self, spec, tier='quick'):
        """Constructor option combinations to drive: (combo, extra options, depth)."""
        out = self.jobs_(spec, tier)
        if spec.get('split'):
            # one part per queried method: the queries of one heavy class then run in parallel
            ms = list(spec['queries']) + list(spec.get('ops', {}))
            out = [(c, e, d, m) for c, e, d in out for m in ([''] if spec['fit'] else []) + ms]
        return out

    def jobs_(self, spec, tier):
        if 'func' in spec:
            return [(c, {}, 'all') for c in self.combos(spec['axes'])]
        self.w.begin()
        ci = self.w.clsinfo(spec['cls'])
        if ci is None:
            raise LookupError(f"public class {spec['cls']} not found")
        self.with_extras = spec.get('extras', True)
        base = list(self.combos(spec['axes']))
        if self.seeds and 'random_state' not in spec['axes'] and 'random_state' in (self.params_of(ci, '__init__') or [()])[0]:
            base = base[:1] + [{**base[0], 'random_state': '@seed0'}] + base[1:]
        out = [(c, {}, 'all' if i == 0 or tier == 'thorough' else 'full') for i, c in enumerate(base)]
        ex = self.extras(ci, '__init__', self.taken(spec['ctor'], spec['axes']))
        for strong, e in ex:
            few = base[:1] + base[-1:] if len(base) > 1 else base
            for c in base if tier == 'thorough' else few if strong else base[:1]:
                out.append((c, e, 'strong' if strong else 'weak'))
        if tier == 'thorough':
            st = [e for s, e in ex if s]
            for a, b in itertools.combinations(st, 2):
                if not set(a) & set(b):
                    for c in few:
                        out.append((c, {**a, **b}, 'weak'))
        return out

    def run(self, spec, c, tier='quick'):
        for j in self.jobs(spec, tier):
            self.job(spec, c, j)

    # -------------------------------------------------------- lifecycle
    def job(self, spec, c, job):
        w = self.w
        on = c.on
        self.kinds = spec.get('kinds', {})
        self.with_extras = spec.get('extras', True)
        ctor, ex, depth = job[:3]
        part = job[3] if len(job) > 3 else None
        if part and not (c.queries or c.unfitted or c.cross and spec.get('cross', True)):
            return
        if part is not None:
            spec = {**spec, 'queries': {m: a for m, a in spec['queries'].items() if m == part},
                    'ops': {m: a for m, a in spec.get('ops', {}).items() if m == part}}
        if 'func' in spec:
            return self.func_job(spec, c, ctor)
        ctor = {**ctor, **ex}
        w.begin()
        ci = w.clsinfo(spec['cls'])
        fit = spec.get('fit_name', 'fit')
        w.phase('ctor')
        kw = self.kwargs(ci, '__init__', 'ctor', spec['ctor'], ctor)
        self.ctor_seed = self.kwseed
        inst = w.new(spec['cls'], 'ctor', **kw)
        self.emit(on, spec, ctor, 'ctor', '__init__', inst, inst, 0, None, ex)
        if inst is None:
            self.dead += 1
            return
        h_ctor = w.snap()
        if c.unfitted:
            for m, axes in spec['queries'].items():
                for q, qe in self.qcombos(ci, m, axes, depth):
                    self.query(on, spec, ci, inst, ctor, h_ctor, m, q, 'unfitted:', {**ex, **qe})
        if spec['fit'] is None:
            if c.queries:
                for m, axes in spec['queries'].items():
                    for q, qe in self.qcombos(ci, m, axes, depth):
                        self.query(on, spec, ci, inst, ctor, h_ctor, m, q, 'query:', {**ex, **qe})
            if c.ops:
                for m, axes in spec.get('ops', {}).items():
                    for q, qe in self.qcombos(ci, m, axes, depth):
                        self.query(on, spec, ci, inst, ctor, h_ctor, m, q, 'op:', {**ex, **qe})
            return
        if not c.needs_fit:
            return
        base = list(self.combos(spec['fit_axes']))
        fits = [(f, {}) for f in base]
        if depth == 'weak':
            fits = fits[:1]
        if depth in ('full', 'all'):
            for strong, e in self.extras(ci, fit, self.taken(spec['fit'], spec['fit_axes'])):
                for f in base if strong else base[:1]:
                    fits.append(({**f, **e}, e))
        if depth == 'all' and self.with_extras:
            for p in sorted(NAMES):
                if p in (self.params_of(ci, fit) or ((),))[0]:
                    fits.append(({**base[0], p: '@name'}, {p: '@name'}))
        for fc, fe in fits:
            w.restore(h_ctor)
            w.phase('fit1')
            n0 = len(w.it.events)
            w.it._evkeys.clear()
            r = w.meth(inst, fit, 'fit1', **self.kwargs(ci, fit, 'fit1', spec['fit'], fc))
            opts = {**ctor, **fc}
            e = {**ex, **fe}
            self.emit(on, spec, opts, 'fit1', fit, r, inst, n0, h_ctor, e)
            if r is None:
                continue
            h_fit = w.snap()
            if c.queries and not (spec.get('fit_only') and spec['fit_only'](opts)):
                for m, axes in spec['queries'].items():
                    for q, qe in self.qcombos(ci, m, axes, depth):
                        self.query(on, spec, ci, inst, opts, h_fit, m, q, 'query:', {**e, **qe})
            if c.refit and (not part or c.cross and spec.get('cross', True)):
                self.again(on, spec, ci, inst, opts, fc, h_fit, 'fit2', e)
                if c.cross and not fe and spec.get('cross', True):
                    for f2 in base:
                        if f2 == fc:
                            continue
                        r = self.again(on, spec, ci, inst, {**ctor, **f2}, f2, h_fit, 'fit2x', e,
                                       note=f'first fit {self.lab(fc) or "as given"}')
                        if r is None:
                            continue
                        h2 = w.snap()
                        for m, axes in spec['queries'].items():
                            for q in self.combos(axes):
                                self.query(on, spec, ci, inst, {**ctor, **f2}, h2, m, q, 'after2:', e,
                                           note=f'first fit {self.lab(fc) or "as given"}')

    def func_job(self, spec, c, combo):
        """A public function, called once."""
        w = self.w
        w.begin()
        self.ctor_seed = False
        ph = 'call:' + spec['name']
        w.phase(ph)
        f = w.cls(spec['func'])
        if f is None:
            raise LookupError(f"public function {spec['func']} not found")
        node = None
        for i, o in w.it.objs(f):
            if o.kind == 'func':
                node = o.ex['node']
        ps = [q.arg for q in node.args.posonlyargs + node.args.args + node.args.kwonlyargs] if node is not None else []
        sel = {}
        for k, v in combo.items():
            for q in k.split('+'):
                sel[q] = v
        kw = {k: self.arg(k, ph, v) for k, v in sel.items() if v is not ABSENT and (not ps or k in ps)}
        n0 = len(w.it.events)
        self.kwseed = self.has_seed(kw)
        r = w.call(f, ph, **kw)
        self.emit(c.on, spec, combo, ph, spec['name'], r, NONE, n0, {}, {})

    def again(self, on, spec, ci, inst, opts, fc, h, ph, ex, note=''):
        w = self.w
        fit = spec.get('fit_name', 'fit')
        w.restore(h)
        w.phase(ph)
        n0 = len(w.it.events)
        w.it._evkeys.clear()
        r = w.meth(inst, fit, ph, **self.kwargs(ci, fit, ph, spec['fit'], fc))
        self.emit(on, spec, opts, ph, fit, r, inst, n0, h, ex, note)
        return r

    def qcombos(self, ci, m, axes, depth):
        base = list(self.combos(axes))
        for q in base:
            yield q, {}
        if depth != 'weak':
            for strong, e in self.extras(ci, m, self.taken(axes) - {'data'}):
                for q in base if strong else base[:1]:
                    if not set(e) & set(q):
                        yield {**q, **e}, e

    def query(self, on, spec, ci, inst, opts, h, m, q, pre, ex, note=''):
        w = self.w
        w.restore(h)
        ph = pre + m
        w.phase(ph)
        n0 = len(w.it.events)
        w.it._evkeys.clear()
        pr = self.params_of(ci, m)
        if pr is None:
            self.methods_missing.append(f"{spec['name']}.{m}")
            return
        c, f = ci.find(m)
        isprop = any(o.kind == 'func' and o.ex.get('kind') == 'property' for _, o in w.it.objs(f))
        if isprop:
            try:
                w.n_calls += 1
                r = w.it.load_attr(inst, m, w.node(ph))
            except Exception as e:
                if type(e).__name__ != 'Dead':
                    raise
                r = None
        else:
            r = w.meth(inst, m, ph, **self.kwargs(ci, m, ph, {}, q))
        self.emit(on, spec, {**opts, **q}, ph, m, r, inst, n0, h, ex, note)

    def emit(self, on, spec, opts, phase, method, ret, inst, n0, before, extra=None, note=''):
        self.recs += 1
        ev = self.w.it.events[n0:]
        lab = self.lab(opts)
        on(Rec(spec=spec, label=f'{lab}; {note}' if note else lab, opts=opts, phase=phase, method=method, ret=ret,
               events=ev, inst=inst, before=before, after=Heap(self.w.it.h) if ret is not None else None,
               extra=extra or {}, seeded=self.ctor_seed or self.kwseed))


# ------------------------------------------------------------ parallel runs
_W = {}


def _work(k):
    w, cls, jobs, tier = _W['w'], _W['cls'], _W['jobs'], _W['tier']
    c = cls(w)
    c.tier = tier
    c.start()
    r = Runner(w)
    s0 = w.it.total_steps + w.it.steps
    f0 = set(w.it.funcs_seen)
    i0 = len(w.it.internal)
    for spec, job in jobs[k]:
        r.job(spec, c, job)
    return k, c.pack(), dict(recs=r.recs, missing=r.methods_missing, dead=r.dead,
                             steps=w.it.total_steps + w.it.steps - s0, funcs=w.it.funcs_seen - f0,
                             internal=[x[:2] for x in w.it.internal[i0:]])


def drive(w, checker, specs, tier, procs=None):
    """Drive all specs for one checker, in parallel, and merge what the workers found."""
    procs = procs or min(8, os.cpu_count() or 1)
    r = Runner(w)
    r.seeds = checker.seeds
    work = [(s, j) for s in specs for j in r.jobs(s, tier)]
    # neighbouring jobs share analysis caches, so hand out small runs of them; the heavy ones go first, one by one
    heavy = [x for x in work if x[0].get('split')]
    work = [x for x in work if not x[0].get('split')]
    size = max(1, min(12, len(work) // (procs * 6) or 1))
    chunks = [[x] for x in heavy] + [work[i:i + size] for i in range(0, len(work), size)]
    tot = dict(recs=0, missing=set(), dead=0, steps=0, funcs=set(), internal=[])
    if not chunks:
        return tot
    _W.update(w=w, cls=type(checker), jobs=chunks, tier=tier)
    if procs == 1:
        it = map(_work, range(len(chunks)))
        pool = None
    else:
        pool = mp.get_context('fork').Pool(procs)
        it = pool.imap(_work, range(len(chunks)))
    try:
        for k, packed, st in it:
            checker.merge(packed)
            tot['recs'] += st['recs']
            tot['missing'] |= set(st['missing'])
            tot['dead'] += st['dead']
            tot['steps'] += st['steps']
            tot['funcs'] |= st['funcs']
            tot['internal'] += st['internal']
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    return tot
