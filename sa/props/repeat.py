"""Randomness: every draw is seeded from the random state that was given."""
import ast

from ..base import Checker
from ..program import site


class Repeatable(Checker):
    """Every random draw reached from a call that was given a random state (or a seed) is followed back to the seeding
    of its generator; process-wide generators are tracked by a ghost state that every seeding call sets."""
    id = 'C09'
    floors = {'calls with a random state examined': 2000, 'random draws examined': 400}
    rule = 'no draw comes from a generator that was not seeded since the call began, or that parallel workers share'
    queries = True
    ops = True
    seeds = True

    def finish(self):
        for e in self.w.import_events:
            if e.kind == 'seeding' or e.kind == 'draw' and e.d['gen'] != 'own':
                s = site(e.node)
                self.report(f'import:{s[0]}:{e.d["what"]}', f'importing {s[0]} itself uses the process-wide random generator '
                            f'({e.d["what"]})', e.node)
        for m in self.w.prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                of = ast.unparse(f.value).split('.')[-1] if isinstance(f, ast.Attribute) else ''
                if name in ('manual_seed', 'set_random_state', 'set_random_seed', 'set_rng_seed') or (
                        name == 'seed' and of in ('random',)):
                    self.counts['calls that seed process-wide generators'] += 1
                    a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
                    if isinstance(a, ast.Constant) and a.value is not None:
                        self.report(f'{m.name}.{n.qual}:literal seed', f'{n.qual} seeds a process-wide generator with a '
                                    f'number of its own, whatever the caller set', n)

    def on(self, rec):
        if not rec.seeded:
            return
        self.counts['calls with a random state examined'] += 1
        for e in rec.events:
            if e.kind != 'draw':
                continue
            self.counts['random draws examined'] += 1
            fn = e.node.qual if hasattr(e.node, 'qual') else ''
            if 'open' in e.d['state']:
                self.report(f"{rec.entry}:{fn}:{e.d['what']}",
                            f"{rec.entry} was given a random state, but {e.d['what']} in {fn} draws from a generator that "
                            f"is not seeded from it during {rec.phase} [{rec.label}]", e.node)
            elif 'const' in e.d['state']:
                self.report(f"{rec.entry}:{fn}:{e.d['what']}:fixed",
                            f"{rec.entry} was given a random state, but {e.d['what']} in {fn} draws from a generator with "
                            f"a fixed seed during {rec.phase} [{rec.label}]", e.node)
            elif e.d['shared']:
                self.report(f"{rec.entry}:{fn}:{e.d['what']}:shared",
                            f"{rec.entry}: {e.d['what']} in {fn} draws inside a parallel job from a generator shared with "
                            f"the other jobs, so the numbers depend on the schedule [{rec.label}]", e.node)
