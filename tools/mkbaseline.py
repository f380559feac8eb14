#!/usr/bin/env python3
"""Record the names of data members and parameters the rules use, so that a renamed private member or parameter is
recognised by its type and position (engine/baseline.json).  Run only when the rules themselves are revised."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'engine'))
import ir
ir.BASELINE = None
p = ir.Program(None)
out = {'fields': {}, 'params': {}}
for r in p.records.values():
    if r.get('file', '').startswith('cartographer/') or r['sqn'].split('::')[0] in ('io', 'common', 'mapping', 'sensor', 'transform', 'metrics'):
        if r['fields']:
            out['fields'].setdefault(r['sqn'], [[f['n'], ir.tkey(r['T'][f['t']])] for f in r['fields']])
for f in p.funcs.values():
    if f.get('body') and f.get('file', '').startswith('cartographer/') and f['params']:
        k = ir.fkey(f)
        out['params'].setdefault(k, [x.get('n') or '' for x in f['params']])
json.dump(out, open(os.path.join(V, 'engine', 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(out['fields']), len(out['params']))
