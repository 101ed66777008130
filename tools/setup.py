#!/usr/bin/env python3
"""Nothing to build: the analyser is plain Python. Confirms that it imports and can parse the repository."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.program import Program      # noqa: E402
from sa.registry import CHECKS      # noqa: E402

p = Program('/repo')
print(f'{len(p.modules)} modules, {len(CHECKS)} checks')
sys.exit(0 if p.modules and CHECKS else 2)
