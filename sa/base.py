"""Shared machinery of the property checkers: findings, counts, verdicts."""
from collections import Counter

from .program import site


class Broken(Exception):
    """The analysis lost its anchor; neither pass nor violation."""


def place(node):
    if node is None:
        return ''
    s = site(node)
    return f'{s[0]}:{s[2]} in {s[1]}: {s[3][:160]}'


class Finding:
    def __init__(self, key, rule, msg, node=None, where=None):
        self.key = key
        self.rule = rule
        self.msg = msg
        if where is None:
            where = place(node)
        self.where = where or ''
        self.n = 1


class Checker:
    """One property.  Subclasses consume driven calls (`on`) and decide in `finish`."""
    id = None
    groups = ()
    unfitted = refit = queries = False
    cross = False
    ops = False
    needs_fit = True
    seeds = False
    interp = None           # interpreter class, if not the plain one
    rule = ''
    floors = {}
    tier = 'quick'
    driven = ()
    missing = ()
    dead_ctor = 0
    recs = 0

    def __init__(self, world):
        self.w = world
        self.it = world.it
        self.findings = {}
        self.counts = Counter()
        self.examples = []

    def report(self, key, msg, node=None, rule=None, where=None):
        f = self.findings.get(key)
        if f is None:
            self.findings[key] = Finding(key, rule or self.rule, msg, node, where)
        else:
            f.n += 1

    def on(self, rec):
        raise NotImplementedError

    def groups_for(self, tier):
        return self.groups

    def wants(self, phase):
        return {'unfitted': self.unfitted, 'fit2': self.refit, 'query': self.queries}[phase]

    def explain(self):
        return ' '.join((self.__doc__ or self.rule).split())

    def assumptions(self):
        return ['library calls behave as modelled in sa/ext.py', 'a call the analysis cannot resolve has no effect on '
                'caller-owned objects', 'driven entry points and option values are those of sa/specs.py']

    def start(self):
        pass

    # accumulators a subclass fills in `on`: dict -> set or list
    acc = ()

    def pack(self):
        return self.findings, self.counts, self.examples, {a: getattr(self, a) for a in self.acc}

    def merge(self, packed):
        fs, counts, ex, acc = packed
        for k, f in fs.items():
            if k in self.findings:
                self.findings[k].n += f.n
            else:
                self.findings[k] = f
        self.counts.update(counts)
        self.examples += ex
        for a, d in acc.items():
            mine = getattr(self, a)
            for k, v in d.items():
                if isinstance(v, set):
                    mine.setdefault(k, set()).update(v)
                elif isinstance(v, list):
                    mine.setdefault(k, []).extend(v)
                else:
                    mine.setdefault(k, v)

    def finish(self):
        pass


def arg_of(root):
    """'arg:<phase>:<param>' -> (method, param)"""
    _, rest = root.split(':', 1)
    ph, _, p = rest.rpartition(':')
    ph = ph.rsplit(':', 1)[-1]
    return ('__init__' if ph == 'ctor' else 'fit' if ph in ('fit1', 'fit2') else ph), p
