#!/usr/bin/env python3
"""Regenerate sa/specs/saved.json: which attributes each class keeps, and how (part of the specification of C18; reviewed by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.program import Program
from sa.report import Ctx
from sa.rules import c18
ctx = Ctx('C18', 'quick', Program('/repo'))
out = {}
for c in c18.saveables(ctx.prog):
    g = c18.construction(ctx, c)
    if g:
        out[c.name] = {k: v for k, v in sorted(g[2].items()) if v}
json.dump(out, open(os.path.join(HERE, 'sa', 'specs', 'saved.json'), 'w'), indent=0, sort_keys=True)
