"""Hash order: no answer depends on the order in which a set enumerates its elements."""
from ..base import Checker
from ..hashord import HashOrder, hord


class Hashed(Checker):
    """Elements met by enumerating a set built in the package are followed into sequences, choices and draws; what a
    public call returns or the fitted object keeps must not contain such an order or choice."""
    id = 'C12'
    floors = {'results examined': 300}
    rule = 'no returned or stored sequence, and no choice or random draw, follows the order of a set'
    queries = ops = True
    interp = HashOrder

    def walk(self, v, path, depth, seen):
        it = self.w.it
        for t in hord(v.t):
            yield path or 'value', t
        for i in sorted(v.o):
            if i in seen:
                continue
            seen.add(i)
            o = it.get(i)
            if o.root != 'fresh' or depth <= 0:
                continue
            if o.kind in ('list', 'tuple', 'iter'):
                for e in (o.items or ()) + ((o.elem,) if not o.elem.bot else ()):
                    yield from self.walk(e, path + '[]', depth - 1, seen)
            elif o.kind == 'dict':
                for e in list((o.items or {}).values()) + ([o.elem] if not o.elem.bot else []):
                    yield from self.walk(e, path + '[]', depth - 1, seen)
            elif o.kind in ('arr', 'frame', 'any'):
                for t in hord(o.tags):
                    yield path or 'value', t

    def on(self, rec):
        it = self.w.it
        for e in rec.events:
            if e.kind == 'hdraw':
                fn = getattr(e.node, 'qual', '')
                self.report(f'{fn}:{e.d["what"]}:draw', f'{e.d["what"]} in {fn} draws random numbers in a loop over a set, so which '
                            f'element gets which number depends on the hash seed [{rec.label}]', e.node)
        old, it.h = it.h, rec.after
        try:
            if it.h is None:
                return
            if rec.ret is not None:
                self.counts['results examined'] += 1
                for p, t in self.walk(rec.ret, '', 4, set()):
                    self.report(f'{rec.entry}:{t[2]}', f'the result of {rec.entry} depends on the order in which a set built in {t[2]} '
                                f'({t[1]}) enumerates its elements [{rec.label}]', where=f'{t[1]} in {t[2]}')
            if rec.inst is not None and rec.phase in ('fit1', 'ctor'):
                for i in rec.inst.o:
                    for a, v in (it.get(i).attrs or {}).items():
                        self.counts['stored attributes examined'] += 1
                        for p, t in self.walk(v, '', 4, set()):
                            self.report(f"{rec.spec['name']}.{a}:{t[2]}", f'{rec.entry} stores in {a!r} an order or choice that '
                                        f'depends on how a set built in {t[2]} ({t[1]}) enumerates its elements [{rec.label}]',
                                        where=f'{t[1]} in {t[2]}')
        finally:
            it.h = old
