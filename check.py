#!/usr/bin/env python3
"""Decide one property of the analysed repository from its current source.

    check.py <property-id> [--tier quick|thorough] [--root /repo]

exit 0: holds on everything analysed; 1: VIOLATION; 2: the analysis itself could not decide.
"""
import argparse
import json
import os
import sys
import time
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.base import Broken                     # noqa: E402
from sa import known                           # noqa: E402


def analyse(pid, tier, root):
    from sa.registry import CHECKS
    from sa.groups import GROUPS
    from sa.run import drive
    from sa.world import World
    from sa.interp import Budget, Interp
    w = World(root, CHECKS[pid].interp or Interp)
    w.it.STRICT = False
    c = CHECKS[pid](w)
    c.tier = tier
    try:
        c.start()
        specs = [s for g in c.groups_for(tier) for s in GROUPS[g]]
        tot = drive(w, c, specs, tier)
        c.driven = [s['name'] for s in specs]
        c.missing = sorted(tot['missing'])
        c.dead_ctor = tot['dead']
        c.recs = tot['recs']
        w.it.total_steps += tot['steps']
        w.it.funcs_seen |= tot['funcs']
        w.it.internal += tot['internal']
        c.finish()
    except Budget as e:
        raise Broken(f'analysis budget exhausted: {e}')
    if w.prog.parse_errors:
        raise Broken(f'unparsable modules: {w.prog.parse_errors}')
    for name, least in c.floors.items():
        if c.counts[name] < least:
            raise Broken(f'only {c.counts[name]} {name}, at least {least} expected: the analysis lost its anchor')
    return w, c


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--root', default='/repo')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    try:
        w, c = analyse(pid, a.tier, a.root)
    except Broken as e:
        print(f'ERROR property={pid}: {e}')
        return 2
    listed = known.load(pid)
    new = [f for k, f in sorted(c.findings.items()) if k not in listed]
    old = [f for k, f in sorted(c.findings.items()) if k in listed]
    it = w.it
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=dict(
        explanation=c.explain(),
        rule=c.rule,
        modules_parsed=len(w.prog.modules),
        entry_classes_driven=sorted(set(c.driven)),
        calls_driven=c.recs,
        functions_analysed=len(it.funcs_seen),
        abstract_steps=it.total_steps + it.steps,
        obligations={k: v for k, v in sorted(c.counts.items())},
        unresolved=dict(engine_fallbacks=len(it.internal),
                        public_methods_missing=sorted(set(c.missing)), constructors_not_completing=c.dead_ctor),
        samples=c.examples[:12],
        known_findings=[f.key for f in old],
    ), assumptions=c.assumptions(), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print(f'{pid}: {c.recs} calls driven, {len(it.funcs_seen)} functions analysed; '
          + ', '.join(f'{v} {k}' for k, v in sorted(c.counts.items())))
    for f in old:
        print(f'KNOWN-FINDING: property={pid} {f.key}: {listed[f.key]}')
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write(f'rule: {f.rule}\nconstruct: {f.key}\nwhat: {f.msg}\nwhere: {f.where}\n'
                         f'occurrences: {f.n}\n\n')
        for f in new:
            print(f'  [{f.key}] {f.msg}\n      at {f.where}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
