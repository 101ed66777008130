"""Scenario driver: builds abstract caller-side objects and drives public entry
points of the analysed package through the abstract interpreter."""
import ast
import sys

from .program import Program, Module, site
from .interp import Interp
from .ext import CallArgsLite as Args
from .values import (V, Heap, Obj, C, unk, vobj, vjoin, const, NONE_C, U_C, BOT, TOP, NONE, TRUE, FALSE, BOOL, UNDEF,
                     EMPTY, join_heap, Dead)

sys.setrecursionlimit(40000)


class World:
    def __init__(self, root='/repo', interp=Interp):
        self.prog = Program(root)
        self.it = interp(self.prog)
        self.it.load_all()
        self.import_events = list(self.it.events)
        self.mod = Module('driver', '<driver>', '<driver>', None, '')
        self._nodes = {}
        self.seen = set()
        self.n_scen = 0
        self.n_calls = 0
        self.n_events = 0

    def node(self, label):
        n = self._nodes.get(label)
        if n is None:
            n = ast.Name(id=label, ctx=ast.Load())
            self.prog._n += 1
            n.nid = self.prog._n
            n.mod = self.mod
            n.qual = label
            n.parent = None
            n.lineno = 0
            self._nodes[label] = n
        return n

    # ------------------------------------------------------------ scenario
    def begin(self):
        it = self.it
        it.h = Heap()
        it.events = []
        it._evkeys = set()
        it.handlers = [[]]
        it.stack = []
        it.ctx = it.oid('drv')
        it.loop = ()
        it.par = ()
        it.withs = []
        it.total_steps += it.steps
        it.steps = 0
        it.calls_seen = 0
        it.branches_seen = 0
        it.modcls_reset() if hasattr(it, 'modcls_reset') else None
        self.n_scen += 1

    def phase(self, p):
        self.it.phase = p
        self.it.handlers = [[]]
        if self.it.h is not None:
            self.it.reset_ghost()

    def obj(self, kind, label, root, tags=EMPTY, **kw):
        i = self.it.oid('drvobj', label)
        self.it.h[i] = Obj(kind, root=root, born='caller', tags=frozenset(tags), **kw)
        return vobj(i)

    def names(self, label, root, role, kind='list'):
        """Column names handed over by the caller, as a list."""
        t = frozenset([('col', role)])
        if kind == 'str':
            return V(c=frozenset([('?', 'str', None)]), t=t)
        return self.obj('list', label, root, t, elem=V(c=frozenset([('?', 'str', None)]), t=t), items=None)

    def cls(self, dotted):
        """Public class or function reached by import path."""
        mod, _, name = dotted.rpartition('.')
        v = self.it.module_attr(mod, name)
        return v

    def clsinfo(self, dotted):
        v = self.cls(dotted)
        if v is None:
            return None
        for i, o in self.it.objs(v):
            if o.kind == 'class':
                return o.cls
        return None

    def call(self, fv, label, /, *pos, **kw):
        """Call from the driver; returns (value or None, heap-alive)."""
        self.n_calls += 1
        try:
            r = self.it.call(fv, Args(pos, kw), self.node(label))
            return r
        except Dead:
            return None

    def new(self, dotted, label, /, **kw):
        return self.call(self.cls(dotted), label, **kw)

    def meth(self, objv, name, label, /, *pos, **kw):
        self.n_calls += 1
        try:
            return self.it.call_method(objv, name, Args(pos, kw), self.node(label))
        except Dead:
            return None

    def snap(self):
        it = self.it
        return Heap(it.h)

    def restore(self, h):
        self.it.h = Heap(h)
        self.it.stack = []
        self.it.loop = ()
        self.it.ctx = self.it.oid('drv')
        self.it.withs = []

    def events(self, *kinds):
        return [e for e in self.it.events if e.kind in kinds]
