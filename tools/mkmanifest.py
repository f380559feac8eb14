#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.py and tools/not_applicable.json (development aid, not a check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
checks = []
for f in sorted(glob.glob(V + '/checks/p[0-9]*.py')):
    src = open(f).read()
    m = re.search(r"main\('(P\d+)', *check, *'([^']+)'", src)
    rel = os.path.relpath(f, V)
    checks.append({
        'property': m.group(1), 'quick_cmd': 'python3 %s quick' % rel, 'thorough_cmd': 'python3 %s thorough' % rel,
        'technique': 'static analysis: ' + m.group(2), 'level': 'other',
        'level_note': 'Sound for the rules it states over every path of the analysed functions, modulo the abstraction: '
        'opaque third-party calls, loops summarised once, no aliasing between distinct parameters. Decided from the '
        'type-checked AST of the current tree; nothing is executed.'})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/frontend.py --setup', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
