#!/usr/bin/env python3
"""Engine self-test: python3 tools/selftest.py"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V, V + '/lib']
from vlib import *
b = Build(['selftest.c'])
jobs = [dict(id=f + str(j), fn=f, params=[], data=[], tmo=120, join=j) for f in ('h_misc', 'h_libc', 'h_bad_oob', 'h_bad_uninit', 'h_bad_assert', 'h_bad_leak') for j in (0, 1)]
res = b.run(jobs)
ok = True
for j in jobs:
    r = res[j['id']]
    v = r.get('violations', [])
    good = r['status'] == 'done' and not r.get('incomplete') and bool(v) == j['fn'].startswith('h_bad')
    for s in r.get('samples', []) if not v else []:
        rc, out, err = b.replay(j, s['syms'], s['allocs'])
        obs = [[int(x), int(y)] for x, y in re.findall(r'OBS (-?\d+) (-?\d+)', out)]
        good &= rc == 0 and obs == s['obs']
    for x in v:
        if 'uninit' not in x['msg']:
            good &= confirm(x, *b.replay(j, x['syms'], x['allocs']))[0]
    print(j['id'], 'ok' if good else 'FAIL %s %s' % (r['status'], r.get('why')), len(r.get('samples', [])), [x['kind'] for x in v])
    ok &= good
sys.exit(not ok)
