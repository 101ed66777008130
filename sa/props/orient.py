"""Orientation of effects: the outcome at treat minus the outcome at control."""
from ..base import Checker
from ..polar import OUT, Polar, polarity

BY = {1: 'added', -1: 'subtracted'}


class Orient(Checker):
    """Every value returned for levels the caller named is followed back to those levels, with the sign each enters
    with; predictions take the level their model was trained for or is asked for."""
    id = 'C10'
    floors = {'effects examined': 60, 'calls naming levels examined': 100}
    rule = 'in every effect the named treat level is added and the named control level subtracted'
    queries = True
    interp = Polar

    def on(self, rec):
        for e in rec.events:
            if e.kind == 'levels':
                self.counts['calls naming levels examined'] += 1
                q = f"{e.d['fn'].mod.name}.{e.d['fn'].myqual}"
                for k, bad in (('treat', 'C'), ('control', 'T')):
                    if bad in e.d[k]:
                        self.report(f'{q}:{k}:passed', f'{q} is given the level named as '
                                    f"{'control' if bad == 'C' else 'treat'} for its {k} during {rec.phase} "
                                    f'of {rec.entry} [{rec.label}]', e.node)
        if rec.spec.get('calls_only'):
            return
        if not rec.phase.startswith('query:') or rec.ret is None:
            return
        want = {k: v for k, v in (('T', 'treat'), ('C', 'control'))
                if rec.opts.get(v) is not None or rec.opts.get('treat+control') is not None}
        if not want:
            return
        self.w.it.h, old = rec.after, self.w.it.h
        t = self.w.it.tags(rec.ret, 6)
        self.w.it.h = old
        p = polarity(t)
        self.counts['effects examined'] += 1
        for k, v in want.items():
            good = 1 if k == 'T' else -1
            s = p.get(k, set())
            if not s:
                self.report(f'{rec.entry}:{v}:unused', f'the effect returned by {rec.entry} does not depend on the {v} level '
                            f'that was given [{rec.label}]', where=rec.entry)
            elif -good in s:
                how = 'only' if len(s) == 1 else 'also'
                self.report(f'{rec.entry}:{v}:sign', f'in the effect returned by {rec.entry}, the outcome at the {v} level is '
                            f'{how} {BY[-good]} [{rec.label}]', where=rec.entry)
