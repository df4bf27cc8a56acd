"""Writes kv/defaults.json: the documented default of every field and the skeleton of every new document.

Run once against the reviewed tree (the values were compared with the docstrings and with what KiCad itself writes); the check reads the file,
it never regenerates it.
"""
import dataclasses
import inspect
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('KV_SRC', '/repo/src'))
sys.dont_write_bytecode = True
from kv import checks, model, util   # noqa


class R:
    import random
    rng = random.Random(0)


out = {'order': {n: [f.name for f in dataclasses.fields(s.pyclass) if f.init] for n, s in sorted(model.SPECS.items())}, 'objects': {n: checks.plain(s.pyclass()) for n, s in sorted(model.SPECS.items())}, 'new': {}}
checks.create(R)
for n in sorted(checks.CREATE):
    out['new'][n] = checks.plain(checks.CREATE[n]())
out['calls'] = {}
for n in util.ALL:
    sig = inspect.signature(model.SPECS[n].pyclass.to_sexpr).parameters
    out['calls'][n] = {k: sig[k].default for k in ('indent', 'newline') if k in sig}
with open(os.path.join(ROOT, 'kv', 'defaults.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write('\n')
