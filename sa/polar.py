"""Sign-aware interpretation: which level (treat or control) a value stands for, and with which sign.

Tags used here
  ('lvl', L, s)  the value is computed for level L, entering with sign s
  ('slv', L, s)  the value consists of rows selected for level L
  ('msk', L, s)  the value is a 0/1 mask of the rows at level L
A prediction takes the rows' values from its argument and the level from what its model was trained on.
"""
import ast

from .interp import Interp
from .values import *

POLAR = ('lvl', 'slv', 'msk')
SIGNED = ('lvl', 'slv')
OUT = ('role', 'outcome')


def flip(t):
    return frozenset((x[0], x[1], -x[2]) if x[0] in POLAR else x for x in t)


def polarity(t):
    """{level: signs}"""
    r = {}
    for x in t:
        if x[0] in SIGNED:
            r.setdefault(x[1], set()).add(x[2])
    return r


def scaled(t):
    """Tags of a factor: without polarity unless it is an outcome or a difference between two levels."""
    if OUT in t:
        return t
    p = polarity(t)
    if len(p) == 2 and all(len(s) == 1 for s in p.values()) and len({next(iter(s)) for s in p.values()}) == 2:
        return t
    sel = frozenset(('slv', x[1], 1) for x in t if x[0] == 'msk' and x[2] == 1)
    return frozenset(x for x in t if x[0] not in POLAR) | sel


def product(ta, tb):
    """A weight on an outcome keeps no level, unless it is a difference between two."""
    if (OUT in ta) != (OUT in tb):
        return scaled(ta) | scaled(tb)
    return ta | tb


class Polar(Interp):
    def binop_tags(self, op, ta, tb, node):
        n = op if isinstance(op, str) else type(op).__name__
        if n in ('Add', 'Sub') and (OUT in ta) != (OUT in tb):
            # what is no outcome carries no level into a sum with outcomes
            ta, tb = (ta, scaled(tb)) if OUT in ta else (scaled(ta), tb)
        if n == 'Sub':
            return ta | flip(tb)
        if n in ('Mult', 'MatMult'):
            return product(ta, tb)
        if n in ('Div', 'FloorDiv'):
            return ta | frozenset(x for x in tb if x[0] not in POLAR)
        return ta | tb

    def binop(self, op, a, b, node, fr):
        r = super().binop(op, a, b, node, fr)
        if isinstance(op, (ast.Mult, ast.MatMult, ast.Div)):
            for v in (a, b):
                cs = [c[2] for c in v.c if c[0] == 'c' and isinstance(c[2], (int, float))]
                if cs and not v.o and not v.x and len(cs) == len(v.c):
                    if all(c < 0 for c in cs):
                        r = V(r.o, r.c, r.x, flip(self.tags(r)))
                    elif any(c < 0 for c in cs):
                        r = r.with_tags(flip(self.tags(r)))
        return r

    def aug_tags(self, op, cur, t):
        return self.binop_tags(op, cur, t, None) - cur if isinstance(op, (ast.Sub, ast.Mult, ast.Div)) else t

    def neg_tags(self, t):
        return flip(t)

    def invert_tags(self, t):
        return flip(t)

    def cmp_tags(self, t):
        return frozenset(('msk', x[1], 1) if x[0] in SIGNED else x for x in t)

    def compare_op_tags(self, t, op):
        return t

    def np_tags(self, last, args, t, node):
        p = args.pos
        two = len(p) == 2
        if last == 'subtract' and two:
            return self.binop_tags('Sub', self.tags(p[0]), self.tags(p[1]), node)
        if last == 'negative' and p:
            return flip(self.tags(p[0]))
        if last in ('multiply', 'dot', 'matmul', 'inner', 'outer', 'kron') and two:
            return product(self.tags(p[0]), self.tags(p[1]))
        if last in ('divide', 'true_divide') and two:
            return self.binop_tags('Div', self.tags(p[0]), self.tags(p[1]), node)
        if last == 'einsum':
            r = EMPTY
            for a in p:
                r = product(r, self.tags(a)) if r else self.tags(a)
            return r
        if last in ('equal', 'not_equal', 'isin', 'in1d'):
            return self.cmp_tags(t)
        if last == 'where' and p:
            m = self.tags(p[0])
            if len(p) == 1:
                return frozenset(x for x in m)
            r = frozenset(x for x in m if x[0] not in POLAR)
            for a in p[1:]:
                r |= self.tags(a)
            return r
        if last == 'diff':
            return frozenset(x for x in t if x[0] not in POLAR)
        if last in ('zeros_like', 'ones_like', 'full_like', 'empty_like', 'sort', 'argsort', 'abs', 'absolute', 'square', 'shape', 'ndim', 'size'):
            return frozenset(x for x in t if x[0] not in POLAR)
        return t

    def meth_tags(self, name, t, recv, args, node):
        p = args.pos
        if name in ('sub', 'subtract', 'rsub') and p:
            a, b = self.tags(recv), self.tags(p[0])
            return self.binop_tags('Sub', *((b, a) if name == 'rsub' else (a, b)), node)
        if name in ('mul', 'multiply', 'dot', 'matmul', 'mm') and p:
            return product(self.tags(recv), self.tags(p[0]))
        if name in ('neg', '__neg__'):
            return flip(t)
        if name in ('eq', 'isin'):
            return self.cmp_tags(t)
        return t

    def bind_params(self, fn, fo, args, env, node):
        super().bind_params(fn, fo, args, env, node)
        for a, b in (('treat', 'control'), ('treats', 'control')):
            if a in env and b in env:
                f = [frozenset(x[1] for x in self.tags(env[k], 3) if x[0] == 'lvl') for k in (a, b)]
                if f[0] or f[1]:
                    self.emit('levels', node, (fn.nid,), fn=fn, treat=f[0], control=f[1])

    # levels used as a position or selecting rows
    def pick(self, kt):
        return (frozenset(('slv', x[1], x[2]) for x in kt if x[0] == 'msk')
                | frozenset(x for x in kt if x[0] == 'lvl'))

    def sub_value_tags(self, o, t, k, kt):
        return super().sub_value_tags(o, t, k, kt) | self.pick(kt)

    def sub_tags(self, bt, kt):
        return super().sub_tags(bt, kt) | self.pick(kt)

    def arr_store(self, i, o, k, v, vt, ktags, node):
        super().arr_store(i, o, k, v, vt | frozenset(x for x in ktags if x[0] == 'lvl'), ktags, node)

    def store_sub(self, b, k, v, node, target, fr):
        super().store_sub(b, k, v, node, target, fr)
        kt = frozenset(x for x in self.tags(k) if x[0] == 'lvl')
        if kt and (b.x or b.c) and isinstance(target.value, ast.Name) and kt - b.t:
            self.bind_name(target.value.id, b.with_tags(kt), fr)

    # models
    def ext_attr(self, i, o, name, node):
        r = super().ext_attr(i, o, name, node)
        if name in ('classes_', 'categories_') and o.kind == 'model':
            return V(x=True, t=frozenset(x for x in self.tags(r) if x[0] not in POLAR))
        return r

    def predict_value(self, i, o, name, args, at, node):
        t = frozenset(x for x in at if x[0] not in ('lay', 'slv'))
        if name in ('predict', 'predict_proba', 'predict_log_proba', 'decision_function', 'forward', '__call__', 'predict_array'):
            for f in o.ex.get('fit') or ():
                t = frozenset(x for x in t if x[0] != 'role') | frozenset(x for x in f[4] if x[0] in SIGNED + ('role',))
        elif name == 'transform' and args.pos and not args.kw:
            s = self.seq(args.pos[0])
            if s is not None and s and all(not v.o for v in s):
                return self.fresh(node, 'arr', t, extra='pred%s' % name, ex={'parts': tuple(self.tags(v) for v in s)})
        return self.fresh(node, 'arr', t, extra='pred%s' % name)

    def m_arr(self, recv, i, o, name, args, node):
        if name == 'tolist' and o.ex.get('parts'):
            return self.lst(node, [V(x=True, t=t) for t in o.ex['parts']])
        return super().m_arr(recv, i, o, name, args, node)
