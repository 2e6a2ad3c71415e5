from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    n = 1 if q else 2
    c = Check('C17', ['index.cpp'], 'every way to name an encoding leads to the same converter', cxx=True,
              bounds='every pair of index constants of both headers; every registered name, alias and codepage of all %d encodings; descriptors opened through each of them compared with the one opened by index on every %d-byte text and every character of the %s' % (len(NAMES), n, 'basic plane' if q else 'four ranges of 32-bit values'),
              assumptions=['the registered names, constants and codepages are the frozen list spec/names.json'])
    by = {e['index']: e for e in DB['encodings']}
    consts = [e['index'] for e in DB['encodings']] + [a for a, _ in DB['index_aliases']]
    al = dict(map(tuple, DB['index_aliases']))
    for a, b in parts(0, len(consts) - 1, 8):
        c.job('pair/%d' % a, 'h_pair', [a, b])
    for k, name in enumerate(consts):
        e = by[al.get(name, name)]
        nd = b''.join(x.encode() + b'\0' for x in e['names'])
        cd = b''.join(int(p).to_bytes(4, 'little') for p, i in DB['codepages'].items() if i == e['i'])
        tot = len(e['names']) + len(cd) // 4
        for part in range(tot if not q else 1 if tot < 4 else 2):
            for lo, hi in (RANGES[:1] if q else RANGES):
                c.job('ways/%s/%d/%x' % (name, part, lo), 'h_ways', [k, n, part, (tot if not q else 1 if tot < 4 else 2), lo, hi], [nd, cd])
    return c.finish(reach_any=(1, 2))
