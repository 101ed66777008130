"""Interpretation that follows the order in which sets are enumerated.

('hord', file, function): an element that was met by enumerating a set built in that function. Put into a sequence it
makes the order of the sequence depend on the hash seed of the process; kept beyond the loop it is a choice that does.
Sets, sorting, comparing, counting and summing forget the order.
"""
import ast

from .interp import Interp
from .program import site
from .values import *

NXSETS = ('descendants', 'ancestors', 'node_connected_component', 'minimum_node_cut', 'minimum_edge_cut', 'isolates_set')


def hord(t):
    return frozenset(x for x in t if x[0] == 'hord')


def bare(v):
    t = frozenset(x for x in v.t if x[0] != 'hord')
    return v if t == v.t else V(v.o, v.c, v.x, t)


class HashOrder(Interp):
    hloops = 0

    # ---------------------------------------------------------- sources
    def elems(self, v, node=None):
        r = super().elems(v, node)
        if r.bot or node is None:
            return r
        add = frozenset()
        for i, o in self.objs(v):
            if o.kind == 'set' and not o.ex.get('ints') and o.root == 'fresh' and not (o.elem.bot and not o.items):
                s = o.ex.get('made') or site(node)[:2]
                add |= {('hord',) + tuple(s)}
            elif o.kind == 'dict':
                add |= (o.ex.get('korder') or EMPTY)
        return r.with_tags(add) if add else r

    def lst(self, node, items=None, elem=BOT, kind='list', extra='', **kw):
        if kind == 'set':
            elem = bare(elem)
            if elem.bot and not elem.c and not elem.o and not elem.x:
                pass
            ex = dict(kw.pop('ex', None) or {})
            ex.setdefault('made', tuple(site(node)[:2]))
            if elem.c and not elem.o and not elem.x and all(
                    c[0] == '?' and c[1] == 'int' or c[0] == 'c' and c[1] in ('int', 'bool', 'float') for c in elem.c):
                ex['ints'] = True
            kw['ex'] = ex
        return super().lst(node, items, elem, kind, extra, **kw)

    def add_contents(self, i, elem, tags=EMPTY):
        o = self.get(i)
        if o.kind == 'set':
            if o.ex.get('ints'):
                self.h[i] = o.w(ex={k: v for k, v in o.ex.items() if k != 'ints'})
            elem = bare(elem)
        super().add_contents(i, elem, tags)

    def x_descendants(self, d, args, node, fr):
        if d.startswith('networkx'):
            return self.lst(node, None, elem=V(x=True), kind='set')

    x_ancestors = x_descendants

    # ---------------------------------------------------------- looked up under such an element
    def key_order(self, k):
        t = hord(k.t)
        for i, o in self.objs(k):
            if o.kind in ('list', 'tuple', 'iter', 'arr', 'any'):
                t |= hord(self.tags(o.elem, 1)) | hord(o.tags)
                for e in o.items or ():
                    t |= hord(self.tags(e, 1))
        return t

    def load_sub(self, b, k, node, fr=None):
        t = self.key_order(k)
        r = super().load_sub(b, k, node, fr)
        listed = any(self.get(i).kind in ('list', 'tuple', 'arr') for i in k.o)
        if listed and not t:
            # columns or rows picked in an order of their own
            for i in r.o:
                o = self.get(i)
                if o.kind in ('frame', 'arr') and hord(o.tags):
                    self.h[i] = o.w(tags=frozenset(x for x in o.tags if x[0] != 'hord'))
            return bare(r)
        if t:
            for i in r.o:
                o = self.get(i)
                if o.kind in ('frame', 'arr') and o.root == 'fresh':
                    self.h[i] = o.w(tags=o.tags | t)
            r = r.with_tags(t)
        return r

    def arr_store(self, i, o, k, v, vt, ktags, node):
        if self.key_order(k):
            # what belongs to an element is stored under it
            vt = frozenset(x for x in vt if x[0] != 'hord')
        super().arr_store(i, o, k, v, vt, ktags, node)

    def store_sub(self, b, k, v, node, target, fr):
        t = self.key_order(k)
        super().store_sub(b, k, bare(v) if t else v, node, target, fr)
        if t:
            for i, o in self.objs(b):
                if o.kind == 'dict':
                    o = self.get(i)
                    self.h[i] = o.w(ex={**o.ex, 'korder': (o.ex.get('korder') or EMPTY) | t})

    # ---------------------------------------------------------- kept
    def b_set(self, args, node, fr):
        r = super().b_set(args, node, fr)
        a = args.get(0)
        if a is not None:
            if all(o.ex.get('ints') for _, o in self.objs(a)) and a.o and not a.x:
                for i in r.o:
                    self.h[i] = self.h[i].w(ex={**self.h[i].ex, 'ints': True})
            r = r.with_tags(hord(a.t))
        return r

    b_frozenset = b_set

    def b_range(self, args, node, fr):
        r = super().b_range(args, node, fr)
        for i in r.o:
            if not self.h[i].ex.get('ints'):
                self.h[i] = self.h[i].w(ex={**self.h[i].ex, 'ints': True})
        return r

    def m_set(self, recv, i, o, name, args, node):
        r = super().m_set(recv, i, o, name, args, node)
        if o.ex.get('ints') and name in ('difference', 'intersection', 'copy'):
            for j in r.o:
                if self.get(j).kind == 'set':
                    self.h[j] = self.h[j].w(ex={**self.h[j].ex, 'ints': True})
        if name == 'pop' and not o.ex.get('ints') and o.root == 'fresh':
            return r.with_tags({('hord',) + tuple(o.ex.get('made') or site(node)[:2])})
        return bare(r)

    def x_combinations(self, d, args, node, fr):
        r = super().x_combinations(d, args, node, fr)
        return None if r is None else self.chosen(r)

    x_permutations = x_combinations_with_replacement = x_combinations

    def x_product(self, d, args, node, fr):
        r = super().x_product(d, args, node, fr)
        return None if r is None else self.chosen(r)

    def chosen(self, r):
        """Groups of enumerated elements are enumerated themselves."""
        for i in r.o:
            o = self.h[i]
            t = hord(self.tags(o.elem, 1))
            if t:
                self.h[i] = o.w(elem=o.elem.with_tags(t))
        return r

    # ---------------------------------------------------------- forgotten
    def b_sorted(self, args, node, fr):
        r = super().b_sorted(args, node, fr)
        k = args.kw.get('key')
        if k is not None and any(self.get(i).kind == 'ext' and str(self.get(i).ex.get('dotted', '')).endswith('len') for i in k.o):
            return r
        for i in r.o:
            o = self.h[i]
            if o.kind == 'list':
                self.h[i] = o.w(elem=bare(o.elem), items=None if o.items is None else tuple(bare(x) for x in o.items))
        return r

    def m_list(self, recv, i, o, name, args, node):
        r = super().m_list(recv, i, o, name, args, node)
        if name == 'sort' and not args.kw.get('key'):
            o = self.get(i)
            self.h[i] = o.w(elem=bare(o.elem))
        return r

    def cmp_tags(self, t):
        return frozenset(x for x in super().cmp_tags(t) if x[0] != 'hord')

    def b_sum(self, args, node, fr):
        return bare(super().b_sum(args, node, fr))

    def reduce_(self, args, node, fr):
        r = super().reduce_(args, node, fr)
        return r if args.kw.get('key') is not None else bare(r)

    b_max = b_min = reduce_

    def b_isinstance(self, args, node, fr):
        return bare(super().b_isinstance(args, node, fr))

    def np_tags(self, last, args, t, node):
        t = super().np_tags(last, args, t, node)
        if last in ('sum', 'mean', 'unique', 'sort', 'isin', 'in1d', 'max', 'min', 'any', 'all', 'median'):
            return frozenset(x for x in t if x[0] != 'hord')
        return t

    def s_AugAssign(self, st, fr):
        super().s_AugAssign(st, fr)
        if isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub)):
            v = self.eval(self.as_load(st.target), fr)
            if hord(v.t) and not any(self.get(i).kind in ('list', 'tuple') for i in v.o) and not any(c[1] == 'str' for c in v.c if c[0] != 'U'):
                self.bind_name(st.target.id, bare(v), fr)

    def binop(self, op, a, b, node, fr):
        r = super().binop(op, a, b, node, fr)
        if any(self.get(i).kind == 'set' for i in r.o) and not hord(a.t):
            r = bare(r)
        return r

    # ---------------------------------------------------------- draws
    def run_loop(self, target, it, body, fr, node):
        on = bool(hord(self.elems(it, node).t))
        self.hloops += on
        try:
            return super().run_loop(target, it, body, fr, node)
        finally:
            self.hloops -= on

    def draw(self, gen, what, node, st=None, rng=None):
        if self.hloops:
            self.emit('hdraw', node, (what,), what=what)
        return super().draw(gen, what, node, st, rng)
