#!/usr/bin/env python3
"""Regenerates nsa/layouts.json: the object representations found on the current tree (used only when a change makes the
set-up functions misbehave so that they cannot be found again)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from nsa import runner
from nsa.engine import Engine
from nsa.hooks import Hooks

out = {}
for fam in ('vec', 'list', 'set', 'sp'):
    path, err = runner.compile_unit(fam, 'n')
    m, sp, lay, why, eng = runner.module(fam, 'n', path)
    out[sp.LAYKEY] = sp.lay_save(lay, lambda: Engine(m, Hooks(), 2))
with open(os.path.join(ROOT, 'nsa', 'layouts.json'), 'w') as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write('\n')
