"""Models of builtins, the standard library and the numeric stack.

Only what the properties need is modelled: which calls change an argument in
place, which results alias an argument, which create tracked containers, and
where random numbers, model fitting and prediction happen.  Every other
external call returns a fresh untracked value carrying its arguments' tags.
"""
import glob
import os
import sys

from .values import (V, Heap, Obj, C, unk, vobj, vjoin, const, NONE_C, U_C, BOT, TOP, NONE, TRUE, FALSE,
                     BOOL, UNDEF, EMPTY, join_heap, Dead)

_SITE = None


def site_dirs():
    global _SITE
    if _SITE is None:
        _SITE = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
    return _SITE


_INST = {}
_STDLIB = set(getattr(sys, 'stdlib_module_names', ())) | {'builtins'}


def ext_installed(top):
    r = _INST.get(top)
    if r is None:
        r = top in _STDLIB
        if not r:
            for d in site_dirs():
                if (os.path.isdir(os.path.join(d, top)) or os.path.exists(os.path.join(d, top + '.py'))
                        or glob.glob(os.path.join(d, top + '.*.so'))):
                    r = True
        _INST[top] = r
    return r


LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', 'appendleft', 'popleft'}
DICT_MUT = {'update', 'setdefault', 'pop', 'popitem', 'clear', '__setitem__', '__delitem__', 'move_to_end'}
SET_MUT = {'add', 'discard', 'remove', 'update', 'pop', 'clear', 'difference_update', 'intersection_update',
           'symmetric_difference_update'}
FRAME_MUT = {'insert', 'update', 'pop', '__setitem__'}
ARR_MUT = {'fill', 'sort', 'put', 'partition', 'resize', 'itemset', 'setflags', 'setfield', 'byteswap_',
           'update', 'pop', 'insert', '__setitem__', 'requires_grad_'}
MODEL_MUT = {'fit', 'partial_fit', 'fit_transform', 'fit_predict', 'fit_resample', 'learn', 'set_params', 'step',
             'load_state_dict', 'train', 'eval', 'zero_grad', '__setattr__', 'init_param', 'initialize', 'register_buffer'}
# estimators usable before fit, or wrapping parts that may already be fitted
STATELESS = {'FunctionTransformer', 'Pipeline', 'FeatureUnion', 'ColumnTransformer', 'Normalizer', 'Binarizer',
             'HashingVectorizer', 'FeatureHasher', 'SelectFromModel', 'VotingClassifier', 'VotingRegressor'}
MODEL_FIT = {'fit', 'partial_fit', 'fit_transform', 'fit_predict', 'learn'}
MODEL_PRED = {'predict', 'predict_proba', 'predict_log_proba', 'transform', 'decision_function', 'apply',
              'score', 'inverse_transform', '__call__', 'estimate', 'forward'}
GRAPH_MUT = {'add_edge', 'add_edges_from', 'add_node', 'add_nodes_from', 'remove_edge', 'remove_edges_from',
             'remove_node', 'remove_nodes_from', 'add_weighted_edges_from', 'clear', 'clear_edges', 'update',
             'add_path', 'add_cycle'}
ANY_MUT = LIST_MUT | DICT_MUT | SET_MUT | GRAPH_MUT | {'fill', 'fit', 'partial_fit', 'learn', 'set_params', 'step',
                                                       'load_state_dict', 'fit_transform', 'itemset', 'put'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'detach', 'numpy', 'cpu', 'to', 'cuda',
                'unsqueeze', 'expand', 'permute', 'contiguous', 'to_numpy', 'float', 'double', 'diagonal', 'view_as',
                'expand_as', 'requires_grad_', 'asfreq', 'flat'}
VIEW_ATTRS = {'values', 'T', 'flat', 'real', 'data', 'array', 'mT', 'A', 'A1'}
SHAPE_ATTRS = {'shape', 'ndim', 'dtype', 'size', 'dtypes', 'columns', 'index', 'empty', 'name', 'device', 'nbytes', 'itemsize'}
SHAPE_METHODS = {'size', 'dim', 'nunique', 'numel', 'keys', 'is_floating_point'}
NP_VIEW = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'squeeze',
           'expand_dims', 'transpose', 'swapaxes', 'moveaxis', 'broadcast_to', 'ascontiguousarray', 'asfortranarray',
           'array_split', 'split', 'hsplit', 'vsplit', 'diagonal', 'from_numpy', 'as_tensor', 'unsqueeze', 'nan_to_num_',
           'frombuffer', 'column_or_1d', 'check_array', 'flip', 'rot90', 'matrix_transpose', 'flatten', 'as_float_array', 'require'}
NP_ALLOC = {'zeros', 'ones', 'full', 'empty', 'array', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'arange',
            'linspace', 'eye', 'identity', 'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack',
            'copy', 'repeat', 'tile', 'where', 'unique', 'einsum', 'tensor', 'cat', 'r_', 'c_', 'array_like', 'append',
            'delete', 'insert', 'meshgrid', 'diag', 'triu', 'tril', 'kron', 'clip', 'sort', 'argsort', 'nonzero', 'ones_like',
            'bincount', 'digitize', 'searchsorted', 'row_stack', 'block', 'pad', 'roll', 'choose', 'take', 'compress', 'select'}
NP_MUT0 = {'put', 'place', 'copyto', 'fill_diagonal', 'putmask', 'shuffle', 'put_along_axis'}
SCALAR_RANDOM = {'seed', 'RandomState', 'default_rng', 'SeedSequence', 'Generator', 'get_state', 'set_state', 'manual_seed',
                 'get_rng_state', 'set_rng_state', 'fork_rng', 'PCG64', 'MT19937', 'mtrand', 'Random', 'SystemRandom'}
# library models that draw from their random_state when fitted (the global numpy generator when it is None)
RANDOM_MODELS = {a + b for a in ('RandomForest', 'ExtraTrees', 'GradientBoosting', 'DecisionTree', 'ExtraTree', 'Bagging',
                                 'AdaBoost', 'HistGradientBoosting', 'MLP', 'SGD', 'PassiveAggressive')
                 for b in ('Regressor', 'Classifier')} | {'Perceptron', 'KMeans', 'MiniBatchKMeans', 'GaussianMixture',
                                                          'RandomizedSearchCV', 'IsolationForest', 'RANSACRegressor'}
SHUFFLERS = {'ShuffleSplit', 'StratifiedShuffleSplit', 'GroupShuffleSplit'}
# torch modules whose constructor initialises weights from the global torch generator
TORCH_INIT = {'Linear', 'Bilinear', 'Conv1d', 'Conv2d', 'Conv3d', 'LSTM', 'GRU', 'RNN', 'LSTMCell', 'GRUCell', 'RNNCell',
              'Embedding', 'EmbeddingBag', 'MultiheadAttention', 'Transformer', 'TransformerEncoderLayer', 'LazyLinear'}
TORCH_DRAW = {'rand', 'randn', 'randint', 'randperm', 'normal', 'bernoulli', 'multinomial', 'rand_like', 'randn_like',
              'randint_like', 'poisson', 'binomial'}
ENTROPY = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'os.urandom', 'os.getpid', 'uuid.uuid1',
           'uuid.uuid4', 'builtins.id', 'builtins.hash', 'secrets.randbits', 'secrets.randbelow', 'random.SystemRandom',
           'datetime.datetime.now', 'threading.get_ident'}
OPEN = frozenset(['open'])
FALSE_C = const(False)
IMM = ('func', 'class', 'ext', 'module', 'bound', 'slice', 'super', 'partial', 'bm', 'delayed')
DATA = ('arr', 'frame', 'any', 'model', 'graph')
BOUNDARY = ('env',)


def no_lay(t):
    return frozenset(x for x in t if x[0] != 'lay') if t else t


class ExtMixin:

    # ------------------------------------------------------------- tools
    def attr_tags(self, t, name):
        if name in SHAPE_ATTRS:
            return EMPTY
        return no_lay(t)

    def fresh(self, node, kind, tags=EMPTY, extra='', **kw):
        return vobj(self.new(kind, node, extra='x' + extra, tags=tags, **kw))

    def alias(self, v, node, kind='arr', extra=''):
        """A value that may share memory with v."""
        bases = frozenset(i for i in v.o if self.get(i).kind in DATA or self.get(i).kind == 'acc'
                          or (self.get(i).kind == 'names'))
        t = self.tags(v)
        live = frozenset(i for i in bases if self.get(i).bases or self.get(i).root != 'fresh'
                         or self.get(i).born != self.phase or True)
        i = self.new(kind, node, extra='al' + extra, bases=live, tags=t)
        r = vobj(i).with_tags(frozenset(x for x in v.t))
        if v.c - {NONE_C} or v.x:
            r = V(r.o, r.c, True, r.t)
        return r

    def arg_tags(self, args):
        t = EMPTY
        for a in args.all():
            t = t | self.tags(a)
        return t

    def run_callbacks(self, args, node, elem=TOP):
        for a in args.all():
            for i, o in self.objs(a):
                if o.kind in ('func', 'bound', 'partial'):
                    f = o
                    skip = 0
                    if o.kind == 'bound':
                        f = self.get(o.ex['func'])
                        skip = 1
                    if o.kind == 'partial':
                        f = None
                    n = 1
                    if f is not None and f.kind == 'func':
                        a_ = f.ex['node'].args
                        n = len(a_.posonlyargs + a_.args) - len(a_.defaults) - skip
                    h0 = Heap(self.h)
                    try:
                        self.call(vobj(i), CallArgsLite([elem] * max(0, n)), node)
                    except Exception as e:
                        if type(e).__name__ != 'Dead':
                            raise
                        self.h = h0
                        continue
                    self.h = join_heap(self.h, h0)

    def dead(self):
        self.handlers[-1].append(self.h)
        raise Dead()

    def deep(self, v, node, reset=False, memo=None):
        """copy.deepcopy / sklearn clone."""
        if memo is None:
            memo = {}
        os_ = set()
        for i in sorted(v.o):
            os_.add(self.deep1(i, node, reset, memo))
        return V(frozenset(os_), v.c, v.x, v.t)

    def deep1(self, i, node, reset, memo):
        if i in memo:
            return memo[i]
        o = self.get(i)
        if o.kind in IMM or o.kind in BOUNDARY:
            memo[i] = i
            return i
        j = self.oid('deep', self.ctx, self.loop, node.nid, i)
        memo[i] = j
        ex = dict(o.ex)
        if o.kind == 'inst':
            ex['wp'] = {k: frozenset([self.phase]) for k in o.attrs}
        if reset:
            ex.pop('fit', None)
            ex['unfitted'] = True
        ex['copy_of'] = (ex.get('copy_of') or EMPTY) | {o.root}
        base = Obj(o.kind, o.cls, {}, None, BOT, EMPTY, 'fresh', self.phase, o.tags, ex)
        self.h[j] = base
        attrs = {k: self.deep(w, node, reset, memo) for k, w in o.attrs.items()}
        items = o.items
        if isinstance(items, tuple):
            items = tuple(self.deep(w, node, reset, memo) for w in items)
        elif isinstance(items, dict):
            items = {k: self.deep(w, node, reset, memo) for k, w in items.items()}
        elem = self.deep(o.elem, node, reset, memo)
        self.h[j] = base.w(attrs=attrs, items=items, elem=elem)
        return j

    def shallow(self, v, node, extra='cp'):
        os_ = set()
        for i, o in self.objs(v):
            if o.kind in IMM:
                os_.add(i)
                continue
            j = self.new(o.kind, node, extra=f'{extra}{i}', cls=o.cls, attrs=dict(o.attrs), items=o.items, elem=o.elem,
                         tags=o.tags, ex=dict(o.ex))
            if o.kind == 'inst':
                c = self.get(j)
                ex = dict(c.ex)
                ex['wp'] = {k: frozenset([self.phase]) for k in o.attrs}
                self.h[j] = c.w(ex=ex)
            os_.add(j)
        return V(frozenset(os_), v.c, v.x, v.t)

    def lib_tags(self, t):
        return no_lay(t)

    # ----------------------------------------------------- external calls
    def ext_call(self, d, args, node, fr=None):
        for k in ('out',):
            if k in args.kw:
                for i, o in self.objs(args.kw[k]):
                    self.mutate(i, f'{d}(out=)', node)
        if d == '@identity':
            return args.get(0, None, TOP)
        top, _, rest = d.partition('.')
        last = d.rpartition('.')[2]
        self.emit('ext_call', node, (d,), dotted=d, args=args)
        if top == 'builtins':
            if d in ENTROPY:
                return V(x=True, t=frozenset([('entropy',)]))
            f = getattr(self, 'b_' + last, None)
            if f is not None:
                return f(args, node, fr)
            if last in ('NotImplemented', 'Ellipsis', 'None'):
                self.emit('call_noncallable', node, (d,), dotted=d)
                self.dead()
            return V(x=True)
        if d in ENTROPY:
            return V(x=True, t=frozenset([('entropy',)]))
        f = getattr(self, 'x_' + last, None)
        if f is not None:
            r = f(d, args, node, fr)
            if r is not None:
                return r
        if top in ('logging', 'warnings', 'os', 'sys', 'time', 're', 'inspect', 'io', 'pickle', 'json', 'datetime', 'tempfile', 'threading'):
            if last[:1].isupper() or last in ('compile',):
                return self.fresh(node, 'any', extra=d)
            return V(x=True)
        if '.random.' in '.' + d or top == 'random':
            return self.random_call(d, last, args, node)
        if top == 'torch' and (last in TORCH_DRAW or last in ('manual_seed', 'seed') or d.startswith('torch.nn.init.')):
            return self.random_call(d, last, args, node)
        if d in ('pyro.set_rng_seed', 'pyro.util.set_rng_seed'):
            st = self.seed_state(args.get(0, 'rng_seed'))
            for g in ('np', 'py', 'torch'):
                self.set_ghost(g, st)
            return NONE
        if top == 'pyro' and last in ('sample', 'param'):
            if last == 'sample':
                self.draw('torch', d, node)
        t = self.lib_tags(self.arg_tags(args))
        if top in ('numpy', 'torch', 'scipy', 'sklearn', 'pandas', 'jax'):
            a0 = args.get(0)
            if last in NP_MUT0 and a0 is not None:
                for i, o in self.objs(a0):
                    self.mutate(i, d, node)
                return NONE
            if last.endswith('_') and not last.startswith('_') and top == 'torch' and a0 is not None:
                for i, o in self.objs(a0):
                    self.mutate(i, d, node)
                return a0
            if last in ('check_random_state',):
                return self.random_call(d, last, args, node)
            if last in NP_VIEW and a0 is not None:
                if any(self.get(i).kind in DATA for i in a0.o):
                    return self.alias(a0, node, 'arr', extra=last)
                return self.fresh(node, 'arr', t, extra=last)
            if last == 'nan_to_num' and a0 is not None:
                cp = args.get(1, 'copy')
                if cp is not None and const(False) in cp.c:
                    for i, o in self.objs(a0):
                        self.mutate(i, d + '(copy=False)', node)
                    return a0
            if last in NP_ALLOC and top in ('numpy', 'torch'):
                return self.fresh(node, 'arr', self.alloc_tags(last, args, t), extra=last)
            if d.startswith('pandas.'):
                if last in ('DataFrame', 'Series'):
                    cp = args.get(None, 'copy')
                    if a0 is not None and any(self.get(i).kind in ('arr', 'frame') for i in a0.o) and not (
                            cp is not None and const(True) in cp.c):
                        r = self.alias(a0, node, 'frame' if last == 'DataFrame' else 'arr', extra=last)
                        return r
                    return self.fresh(node, 'frame' if last == 'DataFrame' else 'arr', t, extra=last)
                if last == 'concat':
                    return self.fresh(node, 'frame', t, extra=last)
                if last in ('merge', 'get_dummies', 'read_csv', 'crosstab', 'pivot_table'):
                    return self.fresh(node, 'frame', t, extra=last)
        if top == 'networkx' and last in ('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'):
            return self.fresh(node, 'graph', t, extra=last)
        if last in ('OrderedDict',):
            return self.b_dict(args, node, fr)
        if last[:1].isupper() and not last.isupper():
            return self.make_model(d, args, node)
        self.run_callbacks(args, node)
        if top == 'numpy' and last[:1].islower():
            return V(x=True, t=self.np_tags(last, args, t, node))
        return V(x=True, t=t)

    def np_tags(self, last, args, t, node):
        return t

    def alloc_tags(self, last, args, t):
        if last in ('zeros_like', 'ones_like', 'empty_like', 'zeros', 'ones', 'empty', 'arange', 'linspace', 'eye'):
            return EMPTY
        return t

    def make_model(self, d, args, node):
        ex = {'ctor': args, 'dotted': d}
        self.emit('ext_new', node, (d,), dotted=d, args=args)
        if d.startswith('sklearn.') and d.rpartition('.')[2] not in STATELESS:
            ex['unfitted'] = True
        t = self.lib_tags(self.arg_tags(args))
        ex['rs'] = self.seed_state(args.get(None, 'random_state'))
        if d.startswith('torch.nn.') and d.rpartition('.')[2] in TORCH_INIT:
            self.draw('torch', d, node)
        if d.endswith('.DataLoader'):
            sh = args.get(1000, 'shuffle')
            if sh is not None and FALSE_C not in sh.c and args.get(None, 'generator') is None:
                self.draw('torch', d + '(shuffle=True)', node)
        bases = EMPTY
        if d.endswith(('Pipeline', 'GridSearchCV', 'RandomizedSearchCV', 'MultiOutputRegressor', 'OneVsRestClassifier',
                       'Optimizer', 'Adam', 'SGD')):
            for a in args.all():
                for i, o in self.objs(a):
                    bases |= {i} if o.kind in DATA else EMPTY
        return vobj(self.new('model', node, extra='m' + d, cls=d, tags=t, ex=ex, bases=bases))

    # ------------------------------------------------------- randomness
    # One ghost cell tells, per process-wide generator, how it was seeded since the call of the driver began.
    def ghost(self):
        i = self.oid('ghost', 'rng')
        if i not in self.h:
            self.reset_ghost()
        return i

    def reset_ghost(self):
        self.h[self.oid('ghost', 'rng')] = Obj('ghost', root='ghost', born='ghost', attrs={
            g: V(c=frozenset([const('open')])) for g in ('np', 'py', 'torch')})

    def set_ghost(self, g, st):
        i = self.ghost()
        o = self.h[i]
        self.h[i] = o.w(attrs={**o.attrs, g: V(c=frozenset(const(x) for x in st))})

    def ghost_state(self, g):
        return frozenset(c[2] for c in self.h[self.ghost()].attrs[g].c)

    def seed_state(self, v):
        """How repeatable a generator seeded with v is: 'open' stands for no seed at all."""
        if v is None:
            return OPEN
        out = set()
        t = self.tags(v)
        if ('entropy',) in t:
            return OPEN
        for c in v.c:
            if c == NONE_C:
                out.add('open')
            elif c != U_C:
                out.add('given' if ('seed', 'user') in t else 'const')
        for i, o in self.objs(v):
            if o.kind == 'rng':
                out |= o.ex.get('st') or {'unk'}
            else:
                out.add('unk')
        if v.x:
            out.add('given' if ('seed', 'user') in t else 'unk')
        return frozenset(out or {'unk'})

    def draw(self, gen, what, node, st=None, rng=None):
        """A random draw from a process-wide generator ('np', 'py', 'torch') or from a generator object."""
        if st is None:
            st = self.ghost_state(gen)
        elif 'global' in st:
            st = (st - {'global'}) | self.ghost_state('np')
            gen = 'np'
        shared = False
        if self.par:
            # inside a job of joblib.Parallel: is the generator shared between the workers?
            shared = gen != 'own'
            if rng is not None and gen == 'own':
                lp = rng.ex.get('loop') or ()
                shared = any(lp == p[:len(lp)] and len(lp) < len(p) and k in d for p, d, k in
                             ((p, d, rng.ex.get('key')) for p, d in self.par))
        self.emit('draw', node, (gen, what, tuple(sorted(st)), shared), gen=gen, what=what, state=st, shared=shared)

    def model_draw(self, i, o, name, node, seen=()):
        last = o.cls.rpartition('.')[2] if isinstance(o.cls, str) else ''
        if last in RANDOM_MODELS or (last in SHUFFLERS and name == 'split'):
            st = o.ex.get('rs')
            if st:
                if 'open' in st:
                    st = (st - OPEN) | {'global'}
                self.draw('own', f'{last}.{name}', node, st)
        for j in o.bases:
            p = self.get(j)
            if p.kind == 'model' and j not in seen:
                self.model_draw(j, p, name, node, seen + (i,))

    def random_call(self, d, last, args, node):
        seed = None
        if last in SCALAR_RANDOM or last == 'check_random_state':
            seed = args.get(0, 'seed')
        self.emit('rng', node, (d,), dotted=d, last=last, seed=seed, args=args)
        a0 = args.get(0)
        gen = 'torch' if d.startswith('torch') else 'py' if d.startswith('random') else 'np'
        st = EMPTY
        if last in ('seed', 'manual_seed'):
            self.emit('seeding', node, (d,), what=d)
            self.set_ghost(gen, self.seed_state(args.get(0, 'seed' if gen != 'py' else 'a')))
        elif last in ('RandomState', 'default_rng', 'check_random_state', 'Generator', 'Random', 'PCG64', 'MT19937'):
            st = self.seed_state(seed)
            if last == 'check_random_state' and 'open' in st:
                st = (st - OPEN) | {'global'}
        elif last not in SCALAR_RANDOM:
            self.draw(gen, d, node)
        if last in NP_MUT0 and a0 is not None:
            for i, o in self.objs(a0):
                self.mutate(i, d, node)
            return NONE
        if last in ('RandomState', 'default_rng', 'check_random_state', 'Generator', 'Random', 'PCG64', 'MT19937'):
            if last == 'check_random_state' and a0 is not None and a0.o and not a0.c and not a0.x and all(
                    o.kind == 'rng' for i, o in self.objs(a0)):
                return a0
            bases = EMPTY
            if last == 'check_random_state' and a0 is not None:
                bases = frozenset(i for i in a0.o if self.get(i).kind in DATA)
            t = self.tags(a0) if a0 is not None else EMPTY
            i = self.new('rng', node, extra=last, cls=d, tags=t, bases=bases,
                         ex={'seed': seed, 'st': st, 'loop': self.loop})
            self.h[i] = self.h[i].w(ex={**self.h[i].ex, 'key': i})
            return vobj(i)
        if last in ('seed', 'manual_seed'):
            return NONE
        return V(x=True, t=self.lib_tags(self.arg_tags(args)))

    # ------------------------------------------------- special externals
    def x_deepcopy(self, d, args, node, fr):
        if d == 'copy.deepcopy':
            return self.deep(args.get(0, 'x', TOP), node)

    def x_copy(self, d, args, node, fr):
        if d == 'copy.copy':
            return self.shallow(args.get(0, 'x', TOP), node)

    def x_clone(self, d, args, node, fr):
        if d.startswith('sklearn'):
            v = args.get(0, 'estimator', TOP)
            return self.deep(v, node, reset=True)

    def x_partial(self, d, args, node, fr):
        if d == 'functools.partial' and args.pos:
            return vobj(self.new('partial', node, ex={'fn': args.pos[0], 'args': tuple(args.pos[1:]), 'kw': dict(args.kw)}))

    def x_partialmethod(self, d, args, node, fr):
        if d == 'functools.partialmethod' and args.pos:
            return vobj(self.new('partial', node, ex={'fn': args.pos[0], 'args': tuple(args.pos[1:]), 'kw': dict(args.kw), 'method': True}))

    def x_wraps(self, d, args, node, fr):
        if d == 'functools.wraps':
            return self.ext('@identity')

    def x_lru_cache(self, d, args, node, fr):
        if d == 'functools.lru_cache':
            return self.ext('@identity')

    x_cache = x_lru_cache

    def x_reduce(self, d, args, node, fr):
        if d == 'functools.reduce' and len(args.pos) >= 2:
            acc = args.pos[2] if len(args.pos) > 2 else BOT
            e = self.iter_elem(args.pos[1], node)
            acc = acc.join(e)
            r = acc
            for _ in range(2):
                if r.bot:
                    break
                r = r.join(self.call(args.pos[0], CallArgsLite([r, e]), node))
            return r

    def x_defaultdict(self, d, args, node, fr):
        if d != 'collections.defaultdict':
            return None
        fac = args.get(0)
        base = CallArgsLite(args.pos[1:], args.kw)
        v = self.b_dict(base, node, fr)
        i = next(iter(v.o))
        o = self.get(i)
        if fac is not None and NONE_C not in fac.c:
            self.h[i] = o.w(ex={**o.ex, 'factory': fac})
        return v

    def x_Parallel(self, d, args, node, fr):
        if d.startswith('joblib') or d.startswith('sklearn'):
            self.emit('parallel', node, (), args=args)
            return vobj(self.new('parallel', node, ex={'args': args}))

    def x_delayed(self, d, args, node, fr):
        if d.startswith('joblib') or d.startswith('sklearn'):
            return vobj(self.new('delayed', node, ex={'fn': args.get(0, None, TOP)}))

    def x_chain(self, d, args, node, fr):
        if d == 'itertools.chain':
            seqs = [self.seq(a) for a in args.pos]
            if args.star is None and all(s is not None for s in seqs):
                return self.lst(node, [e for s in seqs for e in s], kind='iter')
            return self.lst(node, None, elem=vjoin([self.iter_elem(a, node) for a in args.pos] +
                                                   ([self.elems(args.star, node)] if args.star is not None else [])), kind='iter')

    def x_from_iterable(self, d, args, node, fr):
        e = self.iter_elem(args.get(0, None, TOP), node)
        return self.lst(node, None, elem=self.elems(e, node), kind='iter')

    def x_product(self, d, args, node, fr):
        if d == 'itertools.product':
            parts = [self.iter_elem(a, node) for a in args.pos]
            if args.star is not None or not parts:
                return self.lst(node, None, elem=self.lst(node, None, elem=vjoin(parts + [args.star or TOP]), kind='tuple', extra='pt'), kind='iter')
            if any(p.bot for p in parts):
                return self.lst(node, (), kind='iter')
            return self.lst(node, None, elem=self.lst(node, parts, kind='tuple', extra='pt'), kind='iter')

    def x_combinations(self, d, args, node, fr):
        if d.startswith('itertools'):
            e = self.iter_elem(args.get(0, None, TOP), node)
            return self.lst(node, None, elem=self.lst(node, None, elem=e, kind='tuple', extra='pt'), kind='iter')

    x_permutations = x_combinations_with_replacement = x_combinations

    def x_zip_longest(self, d, args, node, fr):
        return self.b_zip(args, node, fr)

    def x_train_test_split(self, d, args, node, fr):
        if not d.startswith('sklearn'):
            return None
        rs = args.kw.get('random_state')
        self.emit('rng', node, (d,), dotted=d, last='train_test_split', seed=rs, args=args)
        sh = args.get(None, 'shuffle')
        if sh is None or const(False) not in sh.c:
            st = self.seed_state(args.get(None, 'random_state'))
            self.draw('own', 'train_test_split', node, (st - OPEN) | {'global'} if 'open' in st else st)
        items = []
        for k, a in enumerate(args.pos):
            for part in ('train', 'test'):
                key = ('rows', ('tts', node.nid, part))
                kinds = {self.get(i).kind for i in a.o}
                kind = 'frame' if kinds == {'frame'} else 'arr'
                items.append(self.fresh(node, kind, self.tags(a) | {key}, extra=f'tts{k}{part}'))
        return self.lst(node, items)

    def x_namedtuple(self, d, args, node, fr):
        return TOP

    def split_iter(self, recv, node):
        """KFold(...).split(...)"""
        return vobj(self.new('iter', node, extra='fold', ex={'fold': (node.nid, self.ctx)}))

    # ------------------------------------------------------------ builtins
    def b_len(self, args, node, fr):
        v = args.get(0, None, TOP)
        self.need_iterable(v)
        for i, o in self.objs(v):
            if o.kind == 'inst':
                c, f = o.cls.find('__len__')
                if c is not None:
                    return self.call(self.bind_attr(i, o, f, node), CallArgsLite(), node)
        s = self.seq(v)
        if s is not None and not any(U_C in e.c for e in s):
            return C(len(s))
        cs = [c for c in v.c if c[0] == 'c' and c[1] == 'str']
        if len(cs) == 1 and not v.o and not v.x and len(v.c) == 1:
            return C(len(cs[0][2]))
        return unk('int')

    def b_range(self, args, node, fr):
        cs = []
        for a in args.pos:
            if len(a.c) == 1 and not a.x and not a.o:
                c = next(iter(a.c))
                if c[0] == 'c' and c[1] == 'int':
                    cs.append(c[2])
        if cs and len(cs) == len(args.pos) and args.star is None:
            try:
                r = range(*cs)
                if len(r) <= 8:
                    return self.lst(node, [C(k) for k in r], kind='iter')
            except Exception:
                pass
        return self.lst(node, None, elem=unk('int'), kind='iter')

    def lazy(self, v):
        return any(o.kind == 'iter' and (o.ex.get('fold') is not None or o.ex.get('zip') is not None) for _, o in self.objs(v))

    def b_enumerate(self, args, node, fr):
        v = args.get(0, 'iterable', TOP)
        s = self.seq(v)
        st = args.get(1, 'start', C(0))
        st = [c[2] for c in st.c] if not st.o and not st.x else []
        st = st[0] if len(st) == 1 and isinstance(st[0], int) else None
        if st is not None and s is not None and len(s) <= 8 and not any(U_C in e.c for e in s):
            return self.lst(node, [self.lst(node, (C(st + k), e), kind='tuple', extra='en%d' % k) for k, e in enumerate(s)], kind='iter')
        return vobj(self.new('iter', node, extra='enum', ex={'zip': (self.lst(node, None, elem=unk('int'), kind='iter', extra='cnt'), v)}))

    def b_zip(self, args, node, fr):
        if args.star is not None:
            return self.lst(node, None, elem=self.lst(node, None, elem=vjoin(
                [self.elems(a, node) for a in args.pos] + [self.elems(args.star, node)]), kind='tuple', extra='zt'), kind='iter')
        ss = [self.seq(a) for a in args.pos]
        if ss and all(s is not None for s in ss):
            n = min(len(s) for s in ss)
            if n <= 8:
                return self.lst(node, [self.lst(node, tuple(s[k].defined() for s in ss), kind='tuple', extra='zt%d' % k)
                                       for k in range(n)], kind='iter')
        return vobj(self.new('iter', node, extra='zip', ex={'zip': tuple(args.pos)}))

    def b_map(self, args, node, fr):
        if len(args.pos) < 2:
            return V(x=True)
        fn, its = args.pos[0], args.pos[1:]
        ss = [self.seq(a) for a in its]
        if all(s is not None for s in ss):
            n = min(len(s) for s in ss)
            if n <= 8:
                saved = self.loop
                out = []
                for k in range(n):
                    self.loop = saved + ((node.nid, 'u%d' % k),)
                    out.append(self.call(fn, CallArgsLite([s[k].defined() for s in ss]), node))
                self.loop = saved
                return self.lst(node, out, kind='iter')
        saved = self.loop
        r = BOT
        for rnd in range(2):
            self.loop = saved + ((node.nid, rnd),)
            parts = [self.iter_elem(a, node) for a in its]
            if any(p.bot for p in parts):
                break
            h0 = Heap(self.h)
            r = r.join(self.call(fn, CallArgsLite(parts), node))
            self.h = join_heap(self.h, h0)
        self.loop = saved
        return self.lst(node, None, elem=r, kind='iter')

    def b_filter(self, args, node, fr):
        v = args.get(1, None, TOP)
        e = self.iter_elem(v, node)
        if not e.bot and args.pos and NONE_C not in args.pos[0].c:
            h0 = Heap(self.h)
            try:
                self.call(args.pos[0], CallArgsLite([e]), node)
            except Exception as ex:
                if type(ex).__name__ != 'Dead':
                    raise
                self.h = h0
            self.h = join_heap(self.h, h0)
        return self.lst(node, None, elem=e, kind='iter')

    def to_seq(self, args, node, kind):
        v = args.get(0, None)
        if v is None:
            return self.lst(node, ()) if kind == 'list' else self.lst(node, (), kind=kind)
        s = self.seq(v)
        if s is not None and kind != 'set' and not any(U_C in e.c for e in s):
            return self.lst(node, s, kind=kind)
        if all(c[0] == 'c' and c[1] == 'str' for c in v.c) and v.c and not v.o and not v.x:
            return self.lst(node, None, elem=unk('str'), kind=kind)
        e = self.iter_elem(v, node)
        return self.lst(node, None, elem=e.defined(), kind=kind)

    def b_list(self, args, node, fr):
        return self.to_seq(args, node, 'list')

    def b_tuple(self, args, node, fr):
        return self.to_seq(args, node, 'tuple')

    def b_set(self, args, node, fr):
        v = args.get(0, None)
        if v is None:
            return self.lst(node, None, elem=BOT, kind='set')
        return self.to_seq(args, node, 'set')

    b_frozenset = b_set

    def b_dict(self, args, node, fr):
        items, elem, keys = {}, BOT, BOT
        for a in args.pos[:1]:
            for i, o in self.objs(a):
                if o.kind == 'dict':
                    items.update(o.items or {})
                    elem = elem.join(o.elem)
                    keys = keys.join(o.ex.get('keys') or BOT)
                    if o.items is None:
                        elem = elem.join(TOP)
                else:
                    e = self.iter_elem(vobj(i), node)
                    s = self.seq(vobj(i))
                    if s is not None and all(self.seq(p) is not None and len(self.seq(p)) == 2 for p in s):
                        for p in s:
                            k, w = self.seq(p)
                            if len(k.c) == 1 and not k.o and not k.x and next(iter(k.c))[0] == 'c':
                                items[next(iter(k.c))[2]] = w
                            else:
                                elem = elem.join(w)
                                keys = keys.join(k)
                        continue
                    for j, p in self.objs(e):
                        s = self.seq(vobj(j))
                        if s is not None and len(s) == 2:
                            keys = keys.join(s[0])
                            elem = elem.join(s[1])
                        else:
                            elem = elem.join(self.elems(vobj(j), node))
                    if e.x:
                        elem = elem.join(TOP)
            if a.x:
                elem = elem.join(TOP)
        for k, v in args.kw.items():
            items[k] = v
        if args.dstar is not None:
            elem = elem.join(args.dstar)
        return vobj(self.new('dict', node, items=items, elem=elem, ex={'keys': keys} if not keys.bot else {}))

    def b_fromkeys(self, args, node, fr):
        a, w = args.get(0, None, TOP), args.get(1, None, NONE)
        s = self.seq(a)
        if s is not None and all(len(k.c) == 1 and not k.o and not k.x and next(iter(k.c))[0] == 'c' for k in s):
            return vobj(self.new('dict', node, items={next(iter(k.c))[2]: w for k in s}, elem=BOT, ex={}))
        return vobj(self.new('dict', node, items={}, elem=w, ex={'keys': self.iter_elem(a, node)}))

    def b_sorted(self, args, node, fr):
        v = args.get(0, None, TOP)
        self.run_callbacks(CallArgsLite([], {k: a for k, a in args.kw.items() if k == 'key'}), node, self.elems(v, node))
        return self.lst(node, None, elem=self.iter_elem(v, node).defined(), kind='list')

    def b_reversed(self, args, node, fr):
        v = args.get(0, None, TOP)
        s = self.seq(v)
        if s is not None:
            return self.lst(node, s[::-1], kind='iter')
        return self.lst(node, None, elem=self.iter_elem(v, node), kind='iter')

    def b_iter(self, args, node, fr):
        return self.to_seq(args, node, 'iter')

    def b_next(self, args, node, fr):
        v = args.get(0, None, TOP)
        for i, o in self.objs(v):
            if o.kind == 'inst':
                c, f = o.cls.find('__next__')
                if c is not None:
                    return self.call(self.bind_attr(i, o, f, node), CallArgsLite(), node)
        r = self.iter_elem(v, node)
        if len(args.pos) > 1:
            r = r.join(args.pos[1])
        return r if not r.bot else TOP

    def b_str(self, args, node, fr):
        v = args.get(0, None)
        if v is not None and len(v.c) == 1 and not v.o and not v.x:
            c = next(iter(v.c))
            if c[0] == 'c':
                return C(str(c[2]))
        return unk('str')

    def b_repr(self, args, node, fr):
        return unk('str')

    b_format = b_chr = b_ascii = b_repr

    def conv(self, args, name, py):
        v = args.get(0, None)
        if v is None:
            return C(py())
        if len(v.c) == 1 and not v.o and not v.x:
            c = next(iter(v.c))
            if c[0] == 'c':
                try:
                    return C(py(c[2])).with_tags(v.t)
                except Exception:
                    pass
        return V(c=unk(name).c, t=no_lay(self.tags(v)))

    def b_int(self, args, node, fr):
        return self.conv(args, 'int', int)

    def b_float(self, args, node, fr):
        return self.conv(args, 'float', float)

    def b_bool(self, args, node, fr):
        v = args.get(0, None)
        if v is None:
            return FALSE
        return V(c=frozenset(const(b) for b in self.truth(v)))

    def b_isinstance(self, args, node, fr):
        v = args.get(0, None, TOP)
        ty = args.get(1, None, TOP)
        out = set()
        for i in v.o:
            out |= self.isinstance_(vobj(i), ty)
        for c in v.c:
            if c[0] != 'U':
                out |= self.isinstance_(V(c=frozenset([c])), ty)
        if v.x:
            out |= {True, False}
        return V(c=frozenset(const(b) for b in (out or {True, False})))

    def b_issubclass(self, args, node, fr):
        v, ty = args.get(0, None, TOP), args.get(1, None, TOP)
        out = set()
        for i, o in self.objs(v):
            for j, p in self.objs(ty):
                if o.kind == 'class' and p.kind == 'class':
                    out.add(o.cls.issub(p.cls))
                elif o.kind == 'class' and p.kind == 'ext' and not o.cls.ext_bases():
                    out.add(False)
                else:
                    out |= {True, False}
        if v.x or ty.x or not out:
            out = {True, False}
        return V(c=frozenset(const(b) for b in out))

    def b_callable(self, args, node, fr):
        v = args.get(0, None, TOP)
        out = set()
        if v.x:
            out = {True, False}
        for i, o in self.objs(v):
            if o.kind in ('func', 'bound', 'class', 'partial', 'super'):
                out.add(True)
            elif o.kind == 'inst':
                out.add(o.cls.find('__call__')[0] is not None or bool(o.cls.ext_bases()))
            elif o.kind in ('list', 'dict', 'set', 'tuple', 'arr', 'frame', 'names'):
                out.add(False)
            else:
                out |= {True, False}
        if v.c:
            out.add(False)
        return V(c=frozenset(const(b) for b in (out or {True, False})))

    def has_attr(self, i, o, name, node):
        k = o.kind
        if k == 'inst':
            if name in o.attrs:
                v = o.attrs[name]
                if o.born != self.phase:
                    self.emit('hasattr', node, (i, name), oid=i, name=name, obj=o, wp=(o.ex.get('wp') or {}).get(name, EMPTY),
                              maybe=U_C in v.c)
                if v.defined().bot:
                    pass
                elif U_C in v.c:
                    return {True, False}
                else:
                    return {True}
            if o.cls.find(name)[0] is not None:
                return {True}
            if o.born != self.phase:
                self.emit('hasattr', node, (i, name), oid=i, name=name, obj=o, wp=EMPTY, maybe=True)
            if o.cls.ext_bases() or o.ex.get('open'):
                return {True, False}
            if name.startswith('__'):
                return {True, False}
            return {False}
        if k == 'class':
            if o.cls.find(name)[0] is not None:
                return {True}
            return {True, False} if o.cls.ext_bases() or name.startswith('__') else {False}
        if k in ('list', 'tuple', 'dict', 'set'):
            py = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set}[k]
            return {hasattr(py, name)}
        if k == 'func' and name in o.attrs:
            return {True}
        return {True, False}

    def const_names(self, v):
        if v.x or v.o:
            return None
        r = []
        for c in v.c:
            if c[0] != 'c' or c[1] != 'str':
                return None
            r.append(c[2])
        return r

    def b_hasattr(self, args, node, fr):
        v, nm = args.get(0, None, TOP), self.const_names(args.get(1, None, TOP))
        if nm is None:
            return BOOL
        out = set()
        if v.x:
            out = {True, False}
        for n in nm:
            for i, o in self.objs(v):
                out |= self.has_attr(i, o, n, node)
            for c in v.c:
                if c[0] == 'c':
                    out.add(hasattr(c[2], n))
                elif c[0] == '?':
                    out |= {True, False}
        return V(c=frozenset(const(b) for b in (out or {True, False})))

    def b_getattr(self, args, node, fr):
        v = args.get(0, None, TOP)
        nm = self.const_names(args.get(1, None, TOP))
        if nm is None:
            r = V(x=True, t=self.tags(v))
            for i, o in self.objs(v):
                if o.kind == 'inst':
                    for w in o.attrs.values():
                        r = r.join(w.defined())
            return r
        r = BOT
        for n in nm:
            for i, o in self.objs(v):
                h = self.has_attr(i, o, n, node) if len(args.pos) > 2 else {True}
                if True in h:
                    try:
                        r = r.join(self.load_attr(vobj(i), n, node))
                    except Exception as e:
                        if type(e).__name__ != 'Dead' or len(args.pos) <= 2:
                            raise
                if False in h and len(args.pos) > 2:
                    r = r.join(args.pos[2])
            if v.x or v.c:
                r = r.join(V(x=True, t=v.t))
                if len(args.pos) > 2:
                    r = r.join(args.pos[2])
        return r if not r.bot else TOP

    def b_setattr(self, args, node, fr):
        v, x = args.get(0, None, TOP), args.get(2, None, TOP)
        nm = self.const_names(args.get(1, None, TOP))
        if nm is not None and len(nm) == 1:
            self.store_attr(v, nm[0], x, node)
            return NONE
        for i, o in self.objs(v):
            if o.kind == 'inst':
                if nm:
                    for n in nm:
                        self.raw_store(i, n, x, node, strong=False)
                else:
                    self.emit('attr_write_any', node, (i,), oid=i, obj=o, val=x)
                    for n in list(self.get(i).attrs):
                        self.raw_store(i, n, x, node, strong=False)
                    o2 = self.get(i)
                    self.h[i] = o2.w(ex={**o2.ex, 'open': True})
            elif o.kind in ('func', 'class', 'module'):
                self.emit('code_write', node, (i, 'setattr'), oid=i, name='?', obj=o)
            elif o.kind == 'ext':
                self.emit('ext_write', node, (o.cls, '?'), dotted=o.cls, name='?')
            else:
                self.mutate(i, 'setattr', node)
        return NONE

    def b_delattr(self, args, node, fr):
        v = args.get(0, None, TOP)
        nm = self.const_names(args.get(1, None, TOP)) or []
        for i, o in self.objs(v):
            self.mutate(i, 'delattr', node)
            if o.kind == 'inst':
                a = dict(self.get(i).attrs)
                for n in nm:
                    a.pop(n, None)
                self.h[i] = self.get(i).w(attrs=a)
        return NONE

    def b_type(self, args, node, fr):
        v = args.get(0, None, TOP)
        r = BOT
        for i, o in self.objs(v):
            if o.kind == 'inst':
                r = r.join(vobj(o.cls.oid))
            else:
                r = r.join(TOP)
        if v.x or v.c or r.bot:
            r = r.join(TOP)
        return r

    def b_vars(self, args, node, fr):
        if args.pos:
            return self.load_attr(args.pos[0], '__dict__', node)
        return TOP

    def b_sum(self, args, node, fr):
        v = args.get(0, None, TOP)
        e = self.elems(v, node)
        if len(args.pos) > 1:
            ks = {self.get(i).kind for i in args.pos[1].o}
            if ks and ks <= {'list', 'tuple'}:
                return self.lst(node, None, elem=self.elems(e, node), kind=next(iter(ks)))
        return V(x=True, t=no_lay(self.tags(v)))

    def reduce_(self, args, node, fr):
        self.run_callbacks(CallArgsLite([], {k: a for k, a in args.kw.items() if k == 'key'}), node)
        r = BOT
        if len(args.pos) == 1:
            r = self.elems(args.pos[0], node)
        else:
            r = vjoin(args.pos)
        if args.star is not None:
            r = r.join(args.star)
        if r.o and not r.x:
            return r
        if len(r.c) > 1 or any(c[0] == '?' for c in r.c):
            r = V(r.o, EMPTY, True, r.t)
        return V(r.o, r.c, True, r.t) if len(r.c) != 1 or r.o else r.join(TOP)

    b_max = b_min = reduce_

    def scal(self, args, node, fr):
        return V(x=True, t=no_lay(self.arg_tags(args)))

    b_abs = b_round = b_pow = b_divmod = b_hash = scal

    def b_id(self, args, node, fr):
        return unk('int')

    def boolish(self, args, node, fr):
        return BOOL

    b_any = b_all = boolish

    def b_print(self, args, node, fr):
        self.emit('print', node, ())
        return NONE

    def b_object(self, args, node, fr):
        return self.fresh(node, 'any')

    def b_open(self, args, node, fr):
        return V(x=True)

    def b_dir(self, args, node, fr):
        return self.lst(node, None, elem=unk('str'))

    # -------------------------------------------------------- isinstance
    def isinstance_(self, v, ty):
        both = {True, False}
        out = set()
        if ty.x or (not ty.o):
            return both
        hit = False
        unsure = False
        for j, p in self.objs(ty):
            if p.kind in ('tuple', 'list') and p.items is not None:
                s = set()
                for w in p.items:
                    s |= {'t'} if self.isinstance_(v, w) == {True} else {'f'} if self.isinstance_(v, w) == {False} else {'u'}
                if 't' in s:
                    hit = True
                elif 'u' in s:
                    unsure = True
                continue
            r = self.isinst1(v, j, p)
            if r == {True}:
                hit = True
            elif r == both:
                unsure = True
        if hit:
            return {True}
        if unsure:
            return both
        return {False}

    def isinst1(self, v, j, p):
        both = {True, False}
        for c in v.c:
            if p.kind == 'class':
                return {False}
            if p.kind == 'ext':
                n = p.cls.rpartition('.')[2]
                if c[1] == 'NoneType':
                    return {n == 'NoneType'}
                if p.cls.startswith('builtins.'):
                    if n == 'object':
                        return {True}
                    if c[1] == 'bool':
                        return {n in ('bool', 'int')}
                    return {n == c[1]}
                if n in ('Iterable', 'Sequence', 'Sized'):
                    return {c[1] in ('str', 'tuple')}
                if n in ('Number', 'Integral', 'Real'):
                    return {c[1] in ('int', 'float', 'bool')}
                if n == 'Callable':
                    return {False}
                return {False}
            return both
        for i, o in self.objs(v):
            k = o.kind
            if p.kind == 'class':
                if k == 'inst':
                    return {o.cls.issub(p.cls)}
                if k in ('model', 'rng', 'arr', 'frame', 'list', 'tuple', 'dict', 'set', 'iter', 'func', 'class', 'bound',
                         'ext', 'module', 'names', 'graph', 'slice', 'partial', 'parallel'):
                    return {False}
                return both
            if p.kind != 'ext':
                return both
            n = p.cls.rpartition('.')[2]
            if n == 'object':
                return {True}
            if k in ('list', 'tuple', 'dict', 'set'):
                if n == k:
                    return {True}
                if n in ('Iterable', 'Sized', 'Container', 'Collection'):
                    return {True}
                if n in ('Sequence',):
                    return {k in ('list', 'tuple')}
                if n in ('Mapping', 'MutableMapping'):
                    return {k == 'dict'}
                if n in ('OrderedDict', 'defaultdict', 'frozenset'):
                    return both
                return {False}
            if k == 'iter':
                return both if n in ('Iterable', 'Iterator', 'Generator') else {False}
            if k == 'frame':
                return {n in ('DataFrame', 'Iterable', 'NDFrame')}
            if k == 'arr':
                if n in ('ndarray',):
                    return both if o.ex.get('series') else {True} if not o.bases else both
                if n in ('Series', 'Tensor', 'Index', 'matrix', 'spmatrix'):
                    return both
                if n in ('Iterable',):
                    return {True}
                return {False}
            if k in ('func', 'bound', 'partial'):
                return {n in ('Callable', 'FunctionType', 'LambdaType', 'function', 'MethodType')}
            if k == 'class':
                return {n in ('type', 'Callable', 'ABCMeta')} if not getattr(o.cls, 'meta', None) else both
            if k == 'inst':
                if p.cls in o.cls.mro:
                    return {True}
                if p.cls.startswith('builtins.') and n in ('str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set'):
                    return {any(b == p.cls for b in o.cls.ext_bases())}
                if n == 'Callable':
                    return {o.cls.find('__call__')[0] is not None}
                if o.cls.ext_bases():
                    return both
                if n in ('Iterable', 'Sized', 'Container'):
                    return both
                return {False}
            if k in ('model', 'rng', 'graph', 'parallel'):
                if p.cls.startswith('builtins.'):
                    return {False}
                if n in ('ndarray', 'DataFrame', 'Series', 'Tensor'):
                    return {False}
                if p.cls == o.cls:
                    return {True}
                return both
            if k in ('ext', 'module'):
                return both
            if k == 'slice':
                return {n == 'slice'}
            return both
        return both

    # ---------------------------------------------------- external attrs
    def ext_attr(self, i, o, name, node):
        k = o.kind
        t = o.tags
        if k in ('frame', 'arr'):
            if name in SHAPE_ATTRS:
                if name == 'columns':
                    return V(x=True, t=frozenset(x for x in t if x[0] == 'col'))
                return V(x=True)
            if name in ('loc', 'iloc', 'at', 'iat', 'ix'):
                return vobj(self.new('acc', node, extra=f'{name}{i}', bases=frozenset([i]), tags=t, ex={'acc': name}))
            if name in VIEW_ATTRS:
                return self.alias(vobj(i), node, 'arr', extra=name)
            if name in ('str', 'dt', 'cat'):
                return V(x=True, t=no_lay(t))
            if name in ('grad', 'grad_fn', 'requires_grad'):
                return V(x=True)
            return self.bm_view(i, o, name, node)
        if k == 'model' and (name in MODEL_FIT or name in MODEL_PRED or name == 'set_params'):
            return self.bm_view(i, o, name, node)
        if k in ('model', 'any', 'graph', 'rng', 'parallel'):
            r = self.child(i, o, '.' + name, node)
            if k == 'graph' and name in ('nodes', 'edges', 'adj', 'pred', 'succ'):
                return r
            return r
        if k in ('list', 'tuple', 'dict', 'set', 'iter', 'names', 'slice'):
            return self.bm(vobj(i), name, node)
        return V(x=True, t=no_lay(t))

    def bm_view(self, i, o, name, node):
        return self.bm(vobj(i), name, node)

    # -------------------------------------------------- external methods
    def ext_method(self, recv, i, o, name, args, node):
        if name == '__getattribute__' and o is not None and args.pos:
            nm = self.const_names(args.pos[0])
            if nm:
                return vjoin([self.load_attr(vobj(i), n, node) for n in nm])
        r = self.ext_method_(recv, i, o, name, args, node)
        return r

    def ext_method_(self, recv, i, o, name, args, node):
        if o is None:
            return self.plain_method(recv, name, args, node)
        k = o.kind
        f = getattr(self, 'm_' + k, None)
        if f is not None:
            r = f(recv, i, o, name, args, node)
            if r is not None:
                return r
        return self.plain_method(recv, name, args, node)

    def plain_method(self, recv, name, args, node):
        strs = recv.c and all(c[1] == 'str' for c in recv.c) and not recv.o and not recv.x
        if strs:
            if name in ('partition', 'rpartition'):
                a = args.get(0)
                if len(recv.c) == 1 and a is not None and len(a.c) == 1 and not a.o and not a.x:
                    c0, c1 = next(iter(recv.c)), next(iter(a.c))
                    if c0[0] == 'c' and c1[:2] == ('c', 'str') and c1[2]:
                        return self.lst(node, tuple(C(q) for q in getattr(c0[2], name)(c1[2])), kind='tuple')
                return self.lst(node, None, elem=unk('str'), kind='tuple')
            if name in ('split', 'rsplit', 'splitlines'):
                return self.lst(node, None, elem=unk('str'))
            if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric', 'isidentifier', 'islower', 'isupper', 'isspace'):
                cs = list(recv.c)
                a = args.get(0)
                if len(cs) == 1 and cs[0][0] == 'c' and a is not None and len(a.c) == 1 and not a.o and not a.x:
                    c = next(iter(a.c))
                    if c[0] == 'c' and c[1] == 'str' and name in ('startswith', 'endswith'):
                        return C(getattr(cs[0][2], name)(c[2]))
                if len(cs) == 1 and cs[0][0] == 'c' and name.startswith('is') and not args.all():
                    return C(getattr(cs[0][2], name)())
                return BOOL
            if name == 'join' and len(recv.c) == 1:
                c0 = next(iter(recv.c))
                its = self.seq(args.get(0)) if args.get(0) is not None else None
                if c0[0] == 'c' and its is not None and all(
                        not e.x and not e.o and len(e.c) == 1 and next(iter(e.c))[:2] == ('c', 'str') for e in its):
                    return C(c0[2].join(next(iter(e.c))[2] for e in its))
            if name in ('lower', 'upper', 'strip', 'capitalize', 'title') and all(c[0] == 'c' for c in recv.c) and not args.all():
                return V(c=frozenset(const(getattr(c[2], name)()) for c in recv.c))
            if name in ('find', 'index', 'count', 'rfind'):
                return unk('int')
            if name == 'encode':
                return TOP
            return unk('str').with_tags(recv.t)
        t = self.tags(recv) | self.arg_tags(args)
        self.run_callbacks(args, node)
        if name in SHAPE_METHODS:
            return V(x=True)
        if name in ('copy', 'clone') or name in VIEW_METHODS or name in ('flatten', 'astype'):
            return V(x=True, t=recv.t)
        if name in MODEL_PRED and not recv.o:
            self.emit('x_predict', node, (name,), name=name, args=args)
        if name in MODEL_FIT and not recv.o:
            self.emit('x_fit', node, (name,), name=name, args=args)
        return V(x=True, t=self.meth_tags(name, no_lay(t), recv, args, node))

    def meth_tags(self, name, t, recv, args, node):
        return t

    # containers
    def m_list(self, recv, i, o, name, args, node):
        a0 = args.get(0)
        if name in LIST_MUT:
            self.mutate(i, '.' + name + '()', node)
            o = self.get(i)
            if name in ('append', 'appendleft'):
                if o.items is not None and not self.loop_like(i) and len(o.items) < (
                        12 if a0 is None or a0.o or a0.x else 60):
                    self.h[i] = o.w(items=o.items + (a0,) if name == 'append' else (a0,) + o.items)
                else:
                    self.add_contents(i, a0 if a0 is not None else TOP)
                return NONE
            if name == 'extend':
                s = self.seq(a0) if a0 is not None else None
                if o.items is not None and s is not None and len(o.items) + len(s) < 12:
                    self.h[i] = o.w(items=o.items + tuple(s))
                else:
                    self.add_contents(i, self.iter_elem(a0, node) if a0 is not None else TOP)
                return NONE
            if name == 'insert':
                a1 = args.get(1, None, TOP)
                if o.items is not None and a0 is not None and a0.c == C(0).c and len(o.items) < 12:
                    self.h[i] = o.w(items=(a1,) + o.items)
                else:
                    self.add_contents(i, a1)
                return NONE
            if name in ('pop', 'popleft'):
                e = self.elems(vobj(i), node)
                if o.items is not None:
                    if not args.pos and o.items and o.elem.bot and name == 'pop':
                        e = o.items[-1]
                        self.h[i] = o.w(items=o.items[:-1])
                    else:
                        self.h[i] = o.w(items=None, elem=o.elem.join(vjoin(o.items)))
                if e.bot:
                    self.dead()
                return e.defined()
            if name == 'clear':
                self.h[i] = o.w(items=(), elem=BOT)
                return NONE
            if name in ('remove', 'sort', 'reverse'):
                if o.items is not None:
                    self.h[i] = o.w(items=None, elem=o.elem.join(vjoin(o.items)))
                self.run_callbacks(CallArgsLite([], {k: a for k, a in args.kw.items() if k == 'key'}), node)
                return NONE
            return NONE
        if name == 'copy':
            return self.shallow(vobj(i), node)
        if name in ('index', 'count', '__len__'):
            return unk('int')
        if name == 'tolist':
            return self.shallow(vobj(i), node)
        return V(x=True, t=o.tags)

    def loop_like(self, i):
        # a list that grows inside a loop has no fixed length
        return any(isinstance(x[1], int) for x in self.loop if x[0] not in self.born_loops(i))

    def born_loops(self, i):
        k = self.oidkey.get(i)
        try:
            return {x[0] for x in k[1]} if isinstance(k[1], tuple) else set()
        except Exception:
            return set()

    def m_tuple(self, recv, i, o, name, args, node):
        if name in ('index', 'count'):
            return unk('int')
        return V(x=True, t=o.tags)

    def m_iter(self, recv, i, o, name, args, node):
        if name in ('send', '__next__'):
            return self.elems(vobj(i), node)
        if name == 'close':
            return NONE
        return V(x=True)

    def m_set(self, recv, i, o, name, args, node):
        a0 = args.get(0)
        if name in SET_MUT:
            self.mutate(i, '.' + name + '()', node)
            o = self.get(i)
            if name == 'add':
                self.add_contents(i, a0 if a0 is not None else TOP)
                return NONE
            if name == 'update':
                for a in args.all():
                    self.add_contents(i, self.iter_elem(a, node))
                return NONE
            if name == 'pop':
                if o.elem.bot:
                    self.dead()
                return o.elem
            if name == 'clear':
                self.h[i] = o.w(elem=BOT)
            return NONE
        if name in ('union', 'symmetric_difference'):
            e = o.elem
            for a in args.all():
                e = e.join(self.elems(a, node))
            return self.lst(node, None, elem=e, kind='set', extra='su')
        if name in ('intersection', 'difference', 'copy'):
            return self.lst(node, None, elem=o.elem, kind='set', extra='si')
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return BOOL
        return V(x=True, t=o.tags)

    def m_dict(self, recv, i, o, name, args, node):
        a0 = args.get(0)
        if name == 'items':
            if o.items is not None and o.elem.bot and len(o.items) <= 12 and not any(U_C in v.c for v in o.items.values()):
                return self.lst(node, [self.lst(node, (C(k), v), kind='tuple', extra='it%d' % n)
                                       for n, (k, v) in enumerate(o.items.items())], kind='iter')
            ks = (o.ex.get('keys') or BOT)
            for k in (o.items or {}):
                ks = ks.join(C(k))
            vs = o.elem
            for v in (o.items or {}).values():
                vs = vs.join(v.defined())
            if vs.bot and o.items is not None:
                return self.lst(node, (), kind='iter')
            return self.lst(node, None, elem=self.lst(node, (ks if not ks.bot else TOP, vs if not vs.bot else TOP), kind='tuple', extra='it'), kind='iter')
        if name == 'keys':
            if o.items is not None and o.elem.bot and not any(U_C in v.c for v in o.items.values()):
                return self.lst(node, [C(k) for k in o.items], kind='iter')
            return self.lst(node, None, elem=self.elems(vobj(i), node), kind='iter')
        if name == 'values':
            if o.items is not None and o.elem.bot and not any(U_C in v.c for v in o.items.values()):
                return self.lst(node, list(o.items.values()), kind='iter')
            v = o.elem
            for w in (o.items or {}).values():
                v = v.join(w.defined())
            return self.lst(node, None, elem=v, kind='iter')
        if name in ('get', 'pop', 'setdefault'):
            dflt = args.get(1, 'default')
            if dflt is None and name != 'pop':
                dflt = NONE
            nm = [c[2] for c in a0.c if c[0] == 'c'] if a0 is not None else []
            exact = a0 is not None and len(nm) == len(a0.c) and nm and not a0.x and not a0.o and o.items is not None
            r = BOT
            if exact:
                for n in nm:
                    if n in o.items:
                        w = o.items[n]
                        r = r.join(w.defined())
                        if U_C in w.c:
                            if dflt is not None:
                                r = r.join(dflt)
                            r = r.join(o.elem)
                    else:
                        r = r.join(o.elem)
                        if dflt is not None:
                            r = r.join(dflt)
            else:
                r = o.elem
                for w in (o.items or {}).values():
                    r = r.join(w.defined())
                if o.items is None:
                    r = r.join(TOP)
                if dflt is not None:
                    r = r.join(dflt)
            if name == 'pop':
                self.mutate(i, '.pop()', node)
                self.dict_del(i, a0 if a0 is not None else TOP)
            if name == 'setdefault':
                self.mutate(i, '.setdefault()', node)
                o = self.get(i)
                if exact and len(nm) == 1:
                    d = dict(o.items)
                    d[nm[0]] = r
                    self.h[i] = o.w(items=d)
                else:
                    self.h[i] = o.w(elem=o.elem.join(dflt))
            if r.bot:
                if name == 'pop':
                    self.dead()
                r = TOP
            return r
        if name == 'popitem':
            self.mutate(i, '.popitem()', node)
            return TOP
        if name == 'update':
            self.mutate(i, '.update()', node)
            o = self.get(i)
            v = self.b_dict(args, node, None)
            n = self.get(next(iter(v.o)))
            items = dict(o.items or {})
            maybe = any(not self.get(j).kind == 'dict' for a in args.pos for j in a.o) or any(len(a.o) > 1 for a in args.pos)
            for kk, vv in (n.items or {}).items():
                items[kk] = vv if not maybe else items.get(kk, UNDEF).join(vv)
            keys = (o.ex.get('keys') or BOT).join(n.ex.get('keys') or BOT)
            ex = {**o.ex, 'keys': keys} if not keys.bot else o.ex
            if o.items is None:
                self.h[i] = o.w(elem=o.elem.join(n.elem).join(vjoin((n.items or {}).values())), ex=ex)
            else:
                self.h[i] = o.w(items=items, elem=o.elem.join(n.elem), ex=ex)
            return NONE
        if name == 'clear':
            self.mutate(i, '.clear()', node)
            self.h[i] = self.get(i).w(items={}, elem=BOT)
            return NONE
        if name == 'copy':
            return self.shallow(vobj(i), node)
        if name == 'move_to_end':
            self.mutate(i, '.move_to_end()', node)
            return NONE
        return V(x=True, t=o.tags)

    def m_names(self, recv, i, o, name, args, node):
        if name in LIST_MUT | SET_MUT | DICT_MUT and not o.ex.get('immut'):
            self.mutate(i, '.' + name + '()', node)
            return TOP
        return None

    # frames and arrays
    def true_kw(self, args, k):
        v = args.kw.get(k)
        return v is not None and (const(True) in v.c or v.x)

    def false_kw(self, args, k):
        v = args.kw.get(k)
        return v is not None and const(False) in v.c

    def m_frame(self, recv, i, o, name, args, node):
        t = o.tags | self.arg_tags(args)
        if self.true_kw(args, 'inplace'):
            self.mutate(i, f'.{name}(inplace=True)', node)
            self.add_contents(i, BOT, no_lay(self.arg_tags(args)))
            if const(True) in args.kw['inplace'].c and len(args.kw['inplace'].c) == 1:
                return NONE
            return self.fresh(node, 'frame', t, extra='ip')
        if name in FRAME_MUT:
            self.mutate(i, f'.{name}()', node)
            self.add_contents(i, BOT, no_lay(self.arg_tags(args)))
            if name == 'pop':
                return self.fresh(node, 'arr', t, extra='pop')
            return NONE
        if name == 'copy':
            if self.false_kw(args, 'deep'):
                return self.alias(vobj(i), node, 'frame', extra='shallow')
            return self.fresh(node, 'frame', o.tags, extra='copy%d' % i)
        if name in ('to_numpy', 'squeeze', 'transpose'):
            if self.true_kw(args, 'copy'):
                return self.fresh(node, 'arr', t, extra='npc')
            return self.alias(vobj(i), node, 'arr', extra=name)
        if name == 'astype':
            if self.false_kw(args, 'copy'):
                return self.alias(vobj(i), node, 'frame', extra=name)
            return self.fresh(node, 'frame', t, extra=name)
        if name in ('xs', 'get', 'pipe') :
            return self.alias(vobj(i), node, 'arr', extra=name)
        if name == 'sample':
            self.emit('rng', node, ('sample',), dotted='DataFrame.sample', last='sample', seed=args.kw.get('random_state'), args=args)
            st = self.seed_state(args.get(None, 'random_state'))
            self.draw('own', 'DataFrame.sample', node, (st - OPEN) | {'global'} if 'open' in st else st)
        if name in ('tolist', 'to_list'):
            return self.lst(node, None, elem=V(x=True, t=t))
        if name in ('keys', 'to_dict', 'iterrows', 'itertuples', 'items', 'sum', 'mean', 'max', 'min', 'nunique', 'unique',
                    'isnull', 'isna', 'any', 'all', 'std', 'var', 'count', 'describe', 'memory_usage', 'to_csv', 'groupby'):
            self.run_callbacks(args, node)
            return V(x=True, t=no_lay(t))
        self.run_callbacks(args, node)
        return self.fresh(node, 'frame', no_lay(t), extra='m' + name)

    def m_arr(self, recv, i, o, name, args, node):
        t = o.tags | self.arg_tags(args)
        if self.true_kw(args, 'inplace'):
            self.mutate(i, f'.{name}(inplace=True)', node)
            return NONE
        if name in ARR_MUT or (name.endswith('_') and not name.startswith('_') and name not in ('requires_grad_',)):
            self.mutate(i, f'.{name}()', node)
            return vobj(i) if name.endswith('_') else NONE
        if name in ('copy', 'clone'):
            return self.fresh(node, 'arr', o.tags, extra='copy%d' % i).with_tags(frozenset(x for x in recv.t if x[0] == 'lay'))
        if name == 'flatten':
            if node is not None and False:
                pass
            return self.fresh(node, 'arr', no_lay(o.tags), extra='flat')
        if name == 'astype':
            if self.false_kw(args, 'copy'):
                return self.alias(vobj(i), node, 'arr', extra=name)
            return self.fresh(node, 'arr', o.tags, extra='ast').with_tags(frozenset(x for x in recv.t if x[0] == 'lay'))
        if name in VIEW_METHODS:
            if self.true_kw(args, 'copy'):
                return self.fresh(node, 'arr', o.tags, extra='vc')
            return self.alias(vobj(i), node, 'arr', extra=name)
        if name in ('tolist', 'to_list'):
            return self.lst(node, None, elem=V(x=True, t=no_lay(t)))
        if name in SHAPE_METHODS:
            return V(x=True)
        if name == 'to_frame':
            return self.alias(vobj(i), node, 'frame', extra=name)
        self.run_callbacks(args, node)
        return V(x=True, t=self.meth_tags(name, no_lay(t), recv, args, node))

    def m_acc(self, recv, i, o, name, args, node):
        return V(x=True, t=o.tags)

    # models
    def m_model(self, recv, i, o, name, args, node):
        at = self.arg_tags(args)
        if name == 'split' and isinstance(o.cls, str):
            a = o.ex.get('ctor')
            sh = a.get(None, 'shuffle') if a is not None else None
            st = o.ex.get('rs')
            if st and sh is not None and const(True) in sh.c:
                self.draw('own', o.cls.rpartition('.')[2] + '.split', node, (st - OPEN) | {'global'} if 'open' in st else st)
            else:
                self.model_draw(i, o, name, node)
            return self.split_iter(recv, node)
        if name in ('sample', 'rsample') and isinstance(o.cls, str) and o.cls.startswith(('torch.distributions', 'pyro')):
            self.draw('torch', f'{o.cls}.{name}', node)
        if name == 'sample_y':
            st = self.seed_state(args.kw['random_state']) if 'random_state' in args.kw else frozenset(['const'])
            self.draw('own', 'sample_y', node, (st - OPEN) | {'global'} if 'open' in st else st)
        if name == 'set_params' and 'random_state' in args.kw and o.kind == 'model':
            self.h[i] = o.w(ex={**o.ex, 'rs': self.seed_state(args.kw['random_state'])})
            o = self.get(i)
        if name in MODEL_FIT:
            self.model_draw(i, o, name, node)
            self.mutate(i, f'.{name}()', node)
            a0 = args.get(0, 'X', None) or args.get(None, 'x', None)
            a1 = args.get(1, 'y', None)
            xt = self.tags(a0) if a0 is not None else EMPTY
            yt = self.tags(a1) if a1 is not None else EMPTY
            lay = self.layout(a0, node) if a0 is not None else None
            self.emit('fit', node, (i, xt, yt, name), oid=i, name=name, obj=o, xt=xt, yt=yt, lay=lay, args=args, at=at)
            o = self.get(i)
            ex = dict(o.ex)
            ex['fit'] = (ex.get('fit') or EMPTY) | frozenset([(node.nid, self.ctx, self.loop, xt, yt, lay)])
            ex.pop('unfitted', None)
            tags = o.tags | frozenset(x for x in at if x[0] not in ('lay',))
            self.h[i] = o.w(ex=ex, tags=tags)
            if name in ('fit_transform', 'fit_predict'):
                return self.fresh(node, 'arr', self.lib_tags(at), extra='ft')
            return vobj(i)
        if name in MODEL_MUT:
            if name in ('train', 'eval', 'zero_grad') and o.root == 'fresh':
                return vobj(i)
            self.mutate(i, f'.{name}()', node)
            return vobj(i)
        if name in MODEL_PRED:
            a0 = args.get(0, 'X', None) or args.get(None, 'x', None)
            lay = self.layout(a0, node) if a0 is not None else None
            xt = self.tags(a0) if a0 is not None else EMPTY
            if (o.ex.get('unfitted') and not o.ex.get('fit') and o.root == 'fresh' and isinstance(o.cls, str)
                    and o.cls.startswith('sklearn.')):
                # NotFittedError
                self.handlers[-1].append(self.h)
                raise Dead()
            self.emit('predict', node, (i, name, xt), oid=i, name=name, obj=o, fit=o.ex.get('fit') or EMPTY,
                      unfitted=bool(o.ex.get('unfitted')) and not o.ex.get('fit'), xt=xt, lay=lay, args=args)
            return self.predict_value(i, o, name, args, at, node)
        if name in ('get_params', 'parameters', 'state_dict', 'named_parameters', 'children', 'modules'):
            return V(x=True) if name == 'get_params' else self.child(i, o, '.params', node)
        if name == 'copy':
            return self.deep(vobj(i), node)
        if name in ('backward',):
            return NONE
        self.run_callbacks(args, node)
        # an attribute of a model used as a method: conservative, no effect
        return V(x=True, t=no_lay(o.tags | at))

    def predict_value(self, i, o, name, args, at, node):
        t = no_lay(at) | frozenset([('pred', i)]) if False else no_lay(at)
        return self.fresh(node, 'arr', t, extra='pred%s' % name)

    def layout(self, v, node):
        return frozenset(x for x in self.tags(v) if x[0] == 'lay')

    def m_rng(self, recv, i, o, name, args, node):
        self.emit('rng_draw', node, (i, name), oid=i, name=name, obj=o, args=args)
        if name == 'seed':
            self.h[i] = o.w(ex={**o.ex, 'st': self.seed_state(args.get(0, 'seed'))})
            return NONE
        if name not in ('get_state', 'set_state'):
            self.draw('own', name, node, o.ex.get('st') or frozenset(['unk']), rng=o)
        if o.root != 'fresh' or o.born != self.phase or o.bases:
            self.emit('rng_state', node, (i, name), oid=i, name=name, obj=o)
        a0 = args.get(0)
        if name == 'shuffle' and a0 is not None:
            for j, p in self.objs(a0):
                self.mutate(j, 'shuffle()', node)
            return NONE
        return V(x=True, t=no_lay(self.arg_tags(args)) | frozenset(x for x in o.tags if x[0] == 'seed'))

    def m_graph(self, recv, i, o, name, args, node):
        if name in GRAPH_MUT:
            self.mutate(i, f'.{name}()', node)
            self.add_contents(i, BOT, no_lay(self.arg_tags(args)))
            return NONE
        if name in ('copy', 'to_directed', 'to_undirected', 'reverse'):
            return self.fresh(node, 'graph', o.tags, extra='copy%d' % i)
        if name in ('subgraph', 'edge_subgraph'):
            return self.alias(vobj(i), node, 'graph', extra=name)
        return V(x=True, t=no_lay(o.tags | self.arg_tags(args)))

    def m_any(self, recv, i, o, name, args, node):
        if name in ANY_MUT or self.true_kw(args, 'inplace'):
            self.mutate(i, f'.{name}()', node)
            self.emit('any_call', node, (i, name), oid=i, name=name, obj=o, args=args)
            return self.child(i, o, f'.{name}()', node) if o.root != 'fresh' or o.bases else TOP
        if name in ('copy',):
            return V(x=True, t=o.tags)
        if name in VIEW_METHODS or name in ('get', '__getitem__', 'items', 'keys', 'values', 'parameters', 'state_dict'):
            return self.child(i, o, f'.{name}()', node)
        self.emit('any_call', node, (i, name), oid=i, name=name, obj=o, args=args)
        self.run_callbacks(args, node)
        return V(x=True, t=no_lay(o.tags | self.arg_tags(args)))

    def m_inst(self, recv, i, o, name, args, node):
        """Method inherited from an external base class."""
        at = self.arg_tags(args)
        if name in ('__init__', '__new__', '__setattr__'):
            o2 = self.get(i)
            self.h[i] = o2.w(tags=o2.tags | no_lay(at), ex={**o2.ex, 'extinit': True})
            return NONE
        if name in MODEL_FIT or name in ('set_params', 'load_state_dict', 'step'):
            self.mutate(i, f'.{name}()', node)
            if name == 'set_params':
                for k, v in args.kw.items():
                    self.raw_store(i, k, v, node, len(recv.o) == 1)
                if args.dstar is not None and not args.dstar.bot:
                    for k in [k for k in self.get(i).attrs if not k.startswith('_') and not k.endswith('_')]:
                        self.raw_store(i, k, args.dstar, node, False)
            return vobj(i)
        if name in ('to', 'cuda', 'cpu', 'train', 'eval', 'float', 'double'):
            return vobj(i)
        if name in ('append', 'add', 'update', 'pop', 'clear', 'setdefault', 'extend', 'insert', 'remove'):
            self.mutate(i, f'.{name}()', node)
            return V(x=True, t=no_lay(o.tags | at))
        if name == '__call__':
            c, f = o.cls.find('forward')
            if c is not None:
                return self.call(self.bind_attr(i, o, f, node), args, node)
        if name in ('parameters', 'state_dict', 'named_parameters', 'children', 'modules'):
            return V(x=True)
        self.run_callbacks(args, node)
        return V(x=True, t=no_lay(o.tags | at))

    def m_parallel(self, recv, i, o, name, args, node):
        if name == '__call__':
            v = args.get(0, None, TOP)
            s = self.seq(v)
            if s is not None:
                return self.lst(node, s, kind='list')
            return self.lst(node, None, elem=self.elems(v, node), kind='list')
        return TOP

    def m_delayed(self, recv, i, o, name, args, node):
        if name == '__call__':
            self.emit('delayed_call', node, (), fn=o.ex['fn'], args=args)
            self.par = self.par + ((self.loop, frozenset(j for j, p in self.h.items() if p.kind == 'rng')),)
            try:
                return self.call(o.ex['fn'], args, node)
            finally:
                self.par = self.par[:-1]
        return TOP

    # --------------------------------------------------------- subscripts
    def key_kind(self, k):
        """'scalar', 'slice', 'fancy' or 'any' for a subscript value."""
        kinds = set()
        for i, o in self.objs(k):
            if o.kind == 'slice':
                kinds.add('slice')
            elif o.kind == 'tuple':
                sub = {self.key_kind(v) for v in (o.items or (TOP,))}
                kinds.add('fancy' if 'fancy' in sub else 'any' if 'any' in sub else 'slice')
            elif o.kind in ('list', 'arr', 'set', 'frame'):
                kinds.add('fancy')
            elif o.kind == 'names':
                kinds.add('fancy')
            else:
                kinds.add('any')
        for c in k.c:
            kinds.add('scalar')
        if k.x:
            kinds.add('any')
        if len(kinds) == 1:
            return next(iter(kinds))
        if kinds <= {'scalar', 'slice'}:
            return 'slice'
        return 'any'

    def arr_sub(self, i, o, k, kt, node):
        kk = self.key_kind(k)
        t = self.sub_value_tags(o, o.tags, k, kt)
        if o.kind == 'frame':
            if kk == 'fancy':
                return self.fresh(node, 'frame', t, extra='sub%d' % i)
            if kk == 'scalar':
                # no row/column known to be absent: a column view
                j = self.new('arr', node, extra='col%d' % i, bases=frozenset([i]), tags=t, ex={'series': True})
                return vobj(j)
            return self.fresh(node, 'frame', t, extra='sub%d' % i) if kk == 'any' and self.is_mask(k) else vobj(
                self.new('arr', node, extra='col%d' % i, bases=frozenset([i]), tags=t, ex={'series': True}))
        if o.kind == 'acc':
            base = [self.get(b).kind for b in o.bases]
            kind = 'frame' if 'frame' in base and kk != 'scalar' else 'arr'
            if kk == 'fancy':
                return self.fresh(node, kind, t, extra='acc%d' % i)
            return vobj(self.new(kind, node, extra='acc%d' % i, bases=o.bases, tags=t))
        if o.kind == 'arr':
            if kk == 'fancy' or (kk == 'any' and self.is_mask(k)):
                return self.fresh(node, 'arr', t, extra='sub%d' % i)
            return vobj(self.new('arr', node, extra='sub%d' % i, bases=frozenset([i]), tags=t))
        if o.kind in ('any', 'model', 'graph'):
            return self.child(i, o, '[]', node).with_tags(t)
        if o.kind == 'names':
            return V(x=True, t=t)
        return V(x=True, t=t)

    def is_mask(self, k):
        return k.x and not k.c

    def sub_value_tags(self, o, t, k, kt):
        r = no_lay(t)
        cols = frozenset(('role', x[1]) for x in kt if x[0] == 'col')
        if cols:
            r = frozenset(x for x in r if x[0] != 'role') | cols
        r = r | frozenset(x for x in kt if x[0] in ('sel', 'rows'))
        return r

    def sub_tags(self, bt, kt):
        r = no_lay(bt)
        cols = frozenset(('role', x[1]) for x in kt if x[0] == 'col')
        if cols:
            r = frozenset(x for x in r if x[0] != 'role') | cols
        return r | frozenset(x for x in kt if x[0] in ('sel', 'rows'))


class CallArgsLite:
    __slots__ = ('pos', 'star', 'kw', 'dstar')

    def __init__(self, pos=(), kw=None, star=None, dstar=None):
        self.pos = list(pos)
        self.star = star
        self.kw = dict(kw or {})
        self.dstar = dstar

    def all(self):
        r = list(self.pos) + list(self.kw.values())
        if self.star is not None:
            r.append(self.star)
        if self.dstar is not None:
            r.append(self.dstar)
        return r

    def get(self, i, name=None, default=None):
        if i is not None and i < len(self.pos):
            return self.pos[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        if self.star is not None or self.dstar is not None:
            return TOP
        return default
