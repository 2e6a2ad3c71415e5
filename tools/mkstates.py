"""Regenerates spec/states.json: every reachable encoder and decoder state (found natively by tools/states.c and tools/dstates.c) with a shortest
text leading to it, and a small subset in which every value of every part of the state occurs.  usage: mkstates.py REPO (built)"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import encs
from concurrent.futures import ThreadPoolExecutor
repo = sys.argv[1]
PARTS = {  # how the encodings divide their state word
    'ISO2022JP2': [(0, 8), (8, 8), (16, 8)], 'ISO2022CN': [(0, 8), (8, 8), (16, 8)], 'ISO2022CNEXT': [(0, 8), (8, 8), (16, 8), (24, 8)],
    'ISO2022KR': [(0, 8), (8, 8)], 'ISO2022JP3': [(0, 3), (19, 3)]}
BIG = ('UTF7', 'EUCJISX0213', 'SHIFTJISX0213', 'WINDOWS1255', 'WINDOWS1258', 'TCVN')


def cover(e, l):
    if e in BIG or e not in PARTS:
        return [s for _, s in l] if len(l) <= 6 else []
    want, r = set(), []
    val = lambda st: {(p, st >> p[0] & ((1 << p[1]) - 1)) for p in PARTS[e]}
    for st, _ in l:
        want |= val(st)
    while want:
        st, s = max(l, key=lambda x: (len(val(x[0]) & want), -len(x[1])))
        want -= val(st)
        r.append(s)
    return r


out = {}
with tempfile.TemporaryDirectory() as d:
    for kind, src, depth in (('enc', 'states', 5), ('dec', 'dstates', 6)):
        subprocess.check_call(['gcc', '-w', '-O2', '-I%s/_build/include' % repo, '-I%s/lib' % repo, '%s/tools/%s.c' % (V, src), '%s/_build/libcppp-reiconv.a' % repo, '-lstdc++', '-o', d + '/' + src])
        def f(e):
            return e, subprocess.run([d + '/' + src, e, str(depth), 'v'], stdout=subprocess.PIPE, text=True).stdout.splitlines()[1:]
        for e, ls in ThreadPoolExecutor(8).map(f, encs.NAMES):
            l = []
            for x in ls:
                a, _, b = x.partition(':')
                l.append((int(a.split(',')[0], 16), b''.join(int(y, 16).to_bytes(4, 'little') for y in b.split()).hex() if kind == 'enc' else b.strip()))
            if len(l) > 1:
                out.setdefault(kind, {})[e] = dict(all=[s for _, s in l if s], cover=[s for s in cover(e, l) if s])
json.dump(out, open(V + '/spec/states.json', 'w'), indent=0)
for k in out:
    print(k, {e: (len(x['all']), len(x['cover'])) for e, x in out[k].items()})
