"""Properties decided over the construct / fit / query / refit life cycle."""
import ast

from ..base import Checker, arg_of, place
from ..specs import BY_CLS
from ..values import NONE_C, U_C


def fitname(rec):
    return rec.method


class CallerData(Checker):
    id = 'C01'
    floors = {'write effects examined': 3000}
    rule = 'no write effect reaches an object handed over by the caller'
    refit = queries = ops = True

    def on(self, rec):
        for e in rec.events:
            if e.kind in ('mutate', 'attr_write', 'attr_del'):
                self.counts['write effects examined'] += 1
                o = e.d.get('obj')
                root = e.d.get('root') or (o.root if o is not None else '')
                if not root.startswith('arg:') or o.kind == 'model':
                    continue
                if e.kind == 'mutate' and 'default inserted' in (e.d.get('how') or ''):
                    # looking a missing key up in a defaultdict stores an equal default
                    continue
                meth, p = arg_of(root)
                meth = rec.spec.get('fit_name', 'fit') if meth == 'fit' else meth
                how = e.d.get('how') or f".{e.d.get('name')} = ..."
                self.report(f"{rec.spec['name']}.{meth}:{p}",
                            f"the caller's {p!r} passed to {rec.spec['name']}.{meth} is modified ({how}) "
                            f"during {rec.phase} [{rec.label}]", e.node)


class CallerModels(Checker):
    id = 'C02'
    floors = {'write effects examined': 3000, 'learner trainings examined': 600}
    rule = 'no training or parameter change reaches a learner object handed over by the caller'
    refit = queries = ops = True

    def on(self, rec):
        if rec.spec.get('composite'):
            # a chain of transformers trains its steps in place, like sklearn's own Pipeline
            return
        for e in rec.events:
            if e.kind in ('mutate', 'attr_write', 'attr_write_any', 'attr_del', 'fit'):
                self.counts['write effects examined'] += 1
                o = e.d.get('obj')
                if o is None or o.kind != 'model':
                    continue
                if e.kind == 'fit':
                    self.counts['learner trainings examined'] += 1
                if not o.root.startswith('arg:'):
                    continue
                meth, p = arg_of(o.root)
                how = e.d.get('how') or e.d.get('name')
                self.report(f"{rec.spec['name']}.{meth}:{p}",
                            f"the learner passed as {p!r} to {rec.spec['name']}.{meth} is itself trained or altered "
                            f"({how}) during {rec.phase} [{rec.label}]", e.node)


class Refit(Checker):
    """A second fit, with the same or with other fit options than the first, is driven on the fitted object; every
    attribute carries the phase that wrote it."""
    id = 'C03'
    floors = {'attribute reads in a second fit examined': 1500, 'attributes examined after a second fit': 1500,
              'attribute reads in queries after a second fit examined': 1500}
    rule = 'nothing left over from an earlier fit is read by a later fit or by the queries after it'
    refit = cross = True

    def on(self, rec):
        n = rec.spec['name']
        if rec.opts.get('warm_start') is True or 'warm_start' in ' '.join(map(str, rec.extra)):
            # continuing from the earlier fit is what warm_start asks for
            return
        if rec.phase in ('fit2', 'fit2x') or rec.phase.startswith('after2:'):
            what = 'attribute reads in a second fit examined' if rec.phase[0] == 'f' else \
                'attribute reads in queries after a second fit examined'
            for e in rec.events:
                if e.kind in ('attr_read', 'hasattr'):
                    self.counts[what] += 1
                    if e.d['wp'] == frozenset(['fit1']):
                        self.report(f"{n}:{e.d['name']}",
                                    (f"a second {n}.{rec.method}" if rec.phase[0] == 'f' else
                                     f"{n}.{rec.method} after a second fit") +
                                    f" reads attribute {e.d['name']!r}, which only the first fit wrote [{rec.label}]",
                                    e.node)
        if rec.phase != 'fit2' or rec.after is None:
            return
        for i in rec.inst.o:
            o = rec.after.get(i)
            if o is None or o.kind != 'inst':
                continue
            for a, wp in (o.ex.get('wp') or {}).items():
                self.counts['attributes examined after a second fit'] += 1
                if 'fit1' in wp and 'fit2' not in wp and o.attrs.get(a) is not None:
                    self.report(f"{n}:{a}", f"attribute {a!r} still holds what the first {n}.{rec.method} stored after a "
                                f"second one with the same options [{rec.label}]",
                                where=f'{n} instance after second fit')


class QueryPure(Checker):
    id = 'C04'
    floors = {'attribute reads in queries': 8000}
    rule = 'no query of a fitted object writes state that a query reads'
    queries = True
    acc = ('writes', 'reads')

    def __init__(self, w):
        super().__init__(w)
        self.writes = {}
        self.reads = {}

    def on(self, rec):
        if not rec.phase.startswith('query:'):
            return
        n = rec.spec['name']
        for e in rec.events:
            if e.kind in ('attr_read', 'hasattr', 'attr_missing', 'attr_maybe'):
                self.counts['attribute reads in queries'] += 1
                wp = e.d.get('wp') or frozenset()
                if e.kind != 'attr_read' or wp - {rec.phase}:
                    self.reads.setdefault(n, set()).add(e.d['name'])
            elif e.kind in ('attr_write', 'attr_del', 'mutate', 'attr_write_any', 'fit'):
                self.counts['write effects in queries'] += 1
                o = e.d.get('obj')
                if o is None or o.root.startswith('arg:query') or o.born == rec.phase:
                    continue
                if e.kind == 'mutate' and 'default inserted' in e.d['how']:
                    # looking a missing key up in a defaultdict stores an equal default
                    continue
                if (rec.spec['family'] == 'api' and o.kind == 'inst'
                        and any(getattr(c, 'name', '') in BY_CLS or getattr(c, 'name', '') == 'BaseEstModel'
                                for c in o.cls.mro)
                        and o.cls.name != rec.spec['cls'].rpartition('.')[2]):
                    # state of an estimator inside: decided where that estimator is driven on its own
                    continue
                if e.kind in ('attr_write', 'attr_del'):
                    self.writes.setdefault((n, rec.method, e.d['name']), (rec.label, place(e.node)))
                else:
                    how = e.d.get('how') or e.d.get('name') or '?'
                    what = self.holder(rec, e.d.get('oid'))
                    if what is None:
                        continue
                    self.report(f"{n}.{rec.method}:{what}",
                                f"{n}.{rec.method} modifies ({how}) the fitted object's {what} [{rec.label}]", e.node)

    def holder(self, rec, oid):
        """Attribute of the driven instance through which the written cell is reached."""
        h = rec.before
        for i in rec.inst.o:
            o = h.get(i)
            if o is None:
                continue
            if oid == i:
                return 'state'
            for a in sorted(o.attrs):
                if self.reaches(h, o.attrs[a], oid):
                    return a
        o = h.get(oid)
        return None

    def reaches(self, h, v, oid):
        seen = set()
        st = list(v.o)
        while st:
            i = st.pop()
            if i == oid:
                return True
            if i in seen:
                continue
            seen.add(i)
            o = h.get(i)
            if o is None or o.kind in ('class', 'module', 'func', 'ext'):
                continue
            st.extend(o.bases)
            st.extend(o.elem.o)
            for x in o.attrs.values():
                st.extend(x.o)
            if isinstance(o.items, tuple):
                for x in o.items:
                    st.extend(x.o)
            elif isinstance(o.items, dict):
                for x in o.items.values():
                    st.extend(x.o)
        return False

    def finish(self):
        for (n, m, a), (lab, where) in sorted(self.writes.items()):
            if a in self.reads.get(n, ()):
                self.report(f'{n}.{m}:{a}', f'{n}.{m} overwrites attribute {a!r} of the fitted object, and queries read '
                            f'that attribute [{lab}]', where=where)


class Unfitted(Checker):
    id = 'C05'
    floors = {'unfitted queries driven': 300}
    rule = 'no path of a query on a never-fitted object reaches a normal return'
    unfitted = True
    needs_fit = False
    other = frozenset(['causal_graph'])     # shows what was identified, estimates nothing

    def on(self, rec):
        if not rec.phase.startswith('unfitted:') or rec.method in self.other:
            return
        self.counts['unfitted queries driven'] += 1
        if rec.ret is not None:
            self.report(f"{rec.spec['name']}.{rec.method}",
                        f"{rec.spec['name']}.{rec.method} can return normally although fit was never called "
                        f"[{rec.label}]", self.last_node(rec))

    def last_node(self, rec):
        for e in reversed(rec.events):
            return e.node
        return None


class Chains(Checker):
    id = 'C06'
    floors = {'fit calls driven': 100, 'queries driven': 600}
    rule = 'every normal return of fit is the fitted object; every normal return of a query carries a value'
    queries = True
    noresult = frozenset(['plot'])
    acc = ('alive',)
    INTERNAL = ('bind_error', 'attr_missing', 'none_attr', 'unbound')

    def __init__(self, w):
        super().__init__(w)
        self.alive = {}

    def on(self, rec):
        n = rec.spec['name']
        if rec.phase == 'ctor':
            return
        key = f'{n}.{rec.method}'
        if rec.phase == 'fit1':
            self.counts['fit calls driven'] += 1
            self.note(key, rec)
            if rec.method == 'fit' and rec.ret is not None and (rec.ret.c or rec.ret.x or rec.ret.o != rec.inst.o):
                self.report(key, f'{key} can return something other than the fitted object '
                            f'({"None" if NONE_C in rec.ret.c else "another value"}) [{rec.label}]', where=self.where(rec))
        elif rec.phase.startswith('query:') and rec.method not in self.noresult:
            self.counts['queries driven'] += 1
            self.note(key, rec)
            if rec.ret is not None and (NONE_C in rec.ret.c):
                self.report(key, f'{key} can return None instead of a result [{rec.label}]', where=self.where(rec))

    def note(self, key, rec):
        if self.refused(rec):
            self.counts['documented refusals'] += 1
            return
        ev = [e for e in rec.events if e.kind in self.INTERNAL + ('raise',)]
        self.alive.setdefault(key, []).append((
            rec.returned, self.declined(rec), tuple((o, str(v)) for o, v in rec.opts.items()), tuple(rec.extra),
            rec.label, place(ev[-1].node) if ev and not rec.returned else '',
            not rec.returned and (not ev or ev[-1].kind != 'raise')))

    def where(self, rec):
        ci = self.w.clsinfo(rec.spec['cls'])
        c, f = ci.find(rec.method)
        for i, o in self.it.objs(f):
            nd = o.ex.get('node')
            if nd is not None and hasattr(nd, 'mod'):
                return f'{nd.mod.rel}:{nd.lineno} in {rec.method}'
        return ''

    def finish(self):
        for key, l in sorted(self.alive.items()):
            self.counts['option combinations examined'] += len(l)
            if all(dec for _, dec, *_ in l):
                self.counts['operations declared unsupported'] += 1
                continue
            plain = [x for x in l if not x[3]]
            if not any(x[0] for x in plain):
                self.report(key, f'{key} cannot complete with any of its {len(plain)} driven option combinations',
                            where=plain[0][5] if plain else '')
                continue
            vals = {}
            for x in l:
                for o in x[2]:
                    vals.setdefault(o, []).append(x)
            for (o, v), xs in sorted(vals.items()):
                self.counts['option values examined'] += 1
                if not any(x[0] for x in xs):
                    self.report(f'{key}:{o}', f'{key} cannot complete with {o}={v} in any of its {len(xs)} driven '
                                f'combinations', where=xs[0][5])
            for ok, dec, opts, extra, lab, where, internal in l:
                if not ok and not dec and internal:
                    self.report(f'{key}', f'{key} fails with an internal error instead of a result or a refusal '
                                f'[{lab}]', where=where)

    @staticmethod
    def refused(rec):
        """The call ends in the explicit refusal that the documentation announces for this option value."""
        rs = [e for e in rec.events if e.kind in Chains.INTERNAL + ('raise',)]
        return (not rec.returned and bool(rs) and rs[-1].kind == 'raise'
                and any((rec.method, o, str(v)) in rec.spec.get('refuses', ()) for o, v in rec.opts.items()))

    @staticmethod
    def declined(rec):
        """The call ends in a NotImplementedError: the class says it does not offer the operation."""
        rs = [e for e in rec.events if e.kind == 'raise']
        return not rec.returned and bool(rs) and 'NotImplemented' in ast.unparse(rs[-1].node)
