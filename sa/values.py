"""Abstract values and abstract heap cells."""

EMPTY = frozenset()


class Dead(Exception):
    """The abstract state is unreachable."""


class V:
    """Abstract value: may-set of heap objects, may-set of constants,
    an "anything else (fresh, untracked)" bit, and provenance tags.

    Constants are (kind, value) pairs:
      ('c', v)   the Python constant v (type-qualified: see const())
      ('?', t)   an unknown value of builtin type t
      ('U', 0)   possibly undefined (only inside attribute maps)
    """
    __slots__ = ('o', 'c', 'x', 't', '_h')

    def __init__(self, o=EMPTY, c=EMPTY, x=False, t=EMPTY):
        self.o = o
        self.c = c
        self.x = x
        self.t = t
        self._h = None

    def __eq__(self, other):
        return (self is other or (type(other) is V and
                self.x == other.x and self.o == other.o and self.c == other.c and self.t == other.t))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.o, self.c, self.x, self.t))
        return self._h

    def __repr__(self):
        p = []
        if self.o:
            p.append('o' + str(sorted(self.o)))
        if self.c:
            p.append('c' + str(sorted(map(str, self.c))))
        if self.x:
            p.append('*')
        if self.t:
            p.append('t' + str(sorted(map(str, self.t))))
        return 'V(' + ' '.join(p) + ')'

    @property
    def bot(self):
        return not (self.o or self.c or self.x)

    def join(self, b):
        if self is b or b is BOT:
            return self
        if self is BOT:
            return b
        o = self.o | b.o
        c = self.c | b.c
        t = self.t | b.t
        x = self.x or b.x
        if len(c) > 16:
            x = True
            c = frozenset(e for e in c if e[0] in 'U' or e == NONE_C)
        if o == self.o and c == self.c and t == self.t and x == self.x:
            return self
        return V(o, c, x, t)

    def with_tags(self, t):
        if t <= self.t:
            return self
        return V(self.o, self.c, self.x, self.t | t)

    def only_tags(self, t):
        return V(self.o, self.c, self.x, t)

    def defined(self):
        if U_C in self.c:
            return V(self.o, self.c - {U_C}, self.x, self.t)
        return self


def const(v):
    return ('c', type(v).__name__, v)


NONE_C = const(None)
U_C = ('U', '', 0)
BOT = V()
TOP = V(x=True)
NONE = V(c=frozenset([NONE_C]))
TRUE = V(c=frozenset([const(True)]))
FALSE = V(c=frozenset([const(False)]))
BOOL = V(c=frozenset([const(True), const(False)]))
UNDEF = V(c=frozenset([U_C]))


def C(v):
    return V(c=frozenset([const(v)]))


def unk(t):
    return V(c=frozenset([('?', t, None)]))


def vobj(*ids):
    return V(o=frozenset(ids))


def vjoin(vs):
    r = BOT
    for v in vs:
        r = r.join(v)
    return r


class Obj:
    """Immutable heap cell (copy on write)."""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'elem', 'bases', 'root', 'born', 'tags', 'ex')

    def __init__(self, kind, cls=None, attrs=None, items=None, elem=BOT, bases=EMPTY,
                 root='fresh', born='', tags=EMPTY, ex=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.elem = elem
        self.bases = bases
        self.root = root
        self.born = born
        self.tags = tags
        self.ex = ex if ex is not None else {}

    def w(self, **kw):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, kw[s] if s in kw else getattr(self, s))
        return o

    def __repr__(self):
        return f'<{self.kind} {self.cls if not hasattr(self.cls, "name") else self.cls.name} root={self.root}>'


def _join_map(a, b):
    if a is b:
        return a
    r = dict(a)
    for k, v in b.items():
        if k in r:
            u = r[k]
            if u is not v:
                r[k] = u.join(v)
        else:
            r[k] = v.join(UNDEF)
    for k in a:
        if k not in b:
            r[k] = a[k].join(UNDEF)
    return r


def join_obj(a, b):
    if a is b:
        return a
    attrs = _join_map(a.attrs, b.attrs)
    if a.items is None or b.items is None:
        items = None
        elem = a.elem.join(b.elem)
        for s in (a.items, b.items):
            if isinstance(s, tuple):
                for v in s:
                    elem = elem.join(v)
            elif isinstance(s, dict):
                for v in s.values():
                    elem = elem.join(v)
    elif isinstance(a.items, dict) and isinstance(b.items, dict):
        items = _join_map(a.items, b.items)
        elem = a.elem.join(b.elem)
    elif isinstance(a.items, tuple) and isinstance(b.items, tuple) and len(a.items) == len(b.items):
        items = tuple(x.join(y) for x, y in zip(a.items, b.items))
        elem = a.elem.join(b.elem)
    else:
        items = None
        elem = a.elem.join(b.elem)
        for s in (a.items, b.items):
            for v in (s.values() if isinstance(s, dict) else s):
                elem = elem.join(v)
    if a.ex is b.ex:
        ex = a.ex
    else:
        ex = {}
        for k in list(a.ex) + [k for k in b.ex if k not in a.ex]:
            va, vb = a.ex.get(k), b.ex.get(k)
            if va == vb:
                ex[k] = va
            elif k == 'wp':
                m = {}
                for n in list(va or {}) + [n for n in (vb or {}) if n not in (va or {})]:
                    m[n] = (va or {}).get(n, EMPTY) | (vb or {}).get(n, EMPTY)
                ex[k] = m
            elif isinstance(va, frozenset) and isinstance(vb, frozenset):
                ex[k] = va | vb
            elif isinstance(va, V) or isinstance(vb, V):
                ex[k] = (va or BOT).join(vb or BOT)
            elif va is None or vb is None:
                if k in SET_EX:
                    ex[k] = va if vb is None else vb
                else:
                    ex[k] = None
            else:
                ex[k] = None
    return Obj(a.kind, a.cls, attrs, items, elem, a.bases | b.bases,
               a.root if a.root == b.root else min(a.root, b.root), a.born,
               a.tags | b.tags, ex)


SET_EX = {'korder', 'fit'}


def obj_eq(a, b):
    if a is b:
        return True
    return (a.kind == b.kind and a.attrs == b.attrs and a.items == b.items and a.elem == b.elem
            and a.bases == b.bases and a.tags == b.tags and a.ex == b.ex)


class _Log:
    """One write to a heap; the chain of writes tells which cells two heaps can differ in."""
    __slots__ = ('up', 'key', 'depth')

    def __init__(self, up, key, depth):
        self.up = up
        self.key = key
        self.depth = depth


class Heap:
    """Object id -> Obj.  Copying is cheap and remembers the common origin."""
    __slots__ = ('d', 'log', 'get')

    def __init__(self, src=None):
        if src is None:
            self.d = {}
            self.log = _Log(None, None, 0)
        else:
            self.d = src.d.copy()
            self.log = src.log
        self.get = self.d.get

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v
        self.log = _Log(self.log, k, self.log.depth + 1)

    def __contains__(self, k):
        return k in self.d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()

    def pop(self, k, *x):
        self.log = _Log(self.log, k, self.log.depth + 1)
        return self.d.pop(k, *x)


def diff_keys(a, b):
    """Cells in which the two heaps may differ."""
    x, y = a.log, b.log
    ks = set()
    n = 0
    limit = len(a) + len(b)
    while x is not y:
        if x.depth >= y.depth:
            if x.up is None:
                return a.keys() | b.keys()
            ks.add(x.key)
            x = x.up
        else:
            ks.add(y.key)
            y = y.up
        n += 1
        if n > limit:
            return a.keys() | b.keys()
    return ks


def heap_eq(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    for k in diff_keys(a, b):
        v = a.get(k)
        u = b.get(k)
        if v is u:
            continue
        if u is None or v is None or not obj_eq(u, v):
            return False
    return True


def join_heap(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = Heap(a)
    for k in diff_keys(a, b):
        v = b.get(k)
        if v is None:
            continue
        u = a.get(k)
        if u is None:
            r[k] = v
        elif u is not v:
            r[k] = join_obj(u, v)
    return r
