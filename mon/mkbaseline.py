"""Regenerates baseline_constants.json (developer tool, not part of checks)."""
import json, os
from . import gen, rt
s, i = gen.harvest(rt.REPO)
with open(os.path.join(gen.HERE, 'baseline_constants.json'), 'w') as f:
    json.dump(dict(strs=dict(sorted(s.items())), ints=dict(sorted(i.items()))), f, indent=0)
