#!/usr/bin/env python3
"""Freezes the mapping tables into spec/tables.zip after comparing them with the published tables in /repo/tests/data.
Not run by the checks."""
import array, os, re, subprocess, sys, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from encs import *
import tables
V = os.path.dirname(SPEC)
DATA = '/repo/tests/data'
subprocess.check_call(['gcc', '-O2', '-w', '-I/repo/_build/include', V + '/tools/dump_tables.c', '/repo/_build/libcppp-reiconv.a', '-lstdc++', '-o', '/tmp/dump_tables'])
specs = list(tables.dec_tables(True)) + list(tables.enc_tables())
inp = ''
for s in specs:
    if s[0] == 'D':
        inp += 'D %s %s %s 0\n' % (s[1], s[3].hex() or '-', s[4].hex() or '-')
    else:
        inp += 'E %s %s %s %d\n' % (s[1], s[3].hex() or '-', 'x' if s[5] else '-', s[4])
out = subprocess.run(['/tmp/dump_tables'], input=inp.encode(), stdout=subprocess.PIPE, check=True).stdout
os.unlink('/tmp/dump_tables')
z = zipfile.ZipFile(os.path.join(SPEC, 'tables.zip'), 'w', zipfile.ZIP_DEFLATED, compresslevel=9)
pos = 0
dec, enc = {}, {}
for s in specs:
    n = 8 * 256 + 8 * 65536 if s[0] == 'D' else 8 * 65536
    b = out[pos:pos + n]
    pos += n
    zi = zipfile.ZipInfo(tables.member(s), (2024, 1, 1, 0, 0, 0))
    zi.compress_type = zipfile.ZIP_DEFLATED
    z.writestr(zi, b)
    if s[0] == 'D' and not s[3]:
        A1 = array.array('I', b[:1024]); B1 = array.array('I', b[1024:2048]); A2 = array.array('I', b[2048:2048 + 262144]); B2 = array.array('I', b[2048 + 262144:])
        d = dec.setdefault(s[1], {})
        for v in range(256):
            if 0 < A1[v] < 0x80000000:
                d[s[4] + bytes([v])] = (A1[v] - 1,) + ((B1[v],) if B1[v] else ())
        for v in range(65536):
            if 0 < A2[v] < 0x80000000 and A1[v >> 8] in (0, 0x80000000):
                d[s[4] + bytes([v >> 8, v & 255])] = (A2[v] - 1,) + ((B2[v],) if B2[v] else ())
    elif s[0] == 'E' and s[5]:
        E = array.array('Q', b)
        d = enc.setdefault(s[1], {})
        for v in range(65536):
            if E[v]:
                k = E[v] >> 32
                d[s[4] + v] = (E[v] & 0xffffffff).to_bytes(4, 'big')[4 - k:]
assert pos == len(out)
z.close()


def load(f):
    r = set()
    for l in open(f):
        m = re.match(r'0x([0-9A-Fa-f]+)\s+((?:0x[0-9A-Fa-f]+\s*)+)', l)
        if m:
            r.add((bytes.fromhex(m.group(1)), tuple(int(x, 16) for x in m.group(2).split())))
    return r


norm = lambda s: re.sub('[-_]', '', s).upper()
alias = {n: e['names'][0] for e in DB['encodings'] for n in e['names']}
done = set()
for f in sorted(os.listdir(DATA)):
    m = re.match(r'(.*?)(-BMP)?\.TXT$', f)
    if not m or 'IRREV' in f:
        continue
    n = norm(m.group(1))
    n = {'BIG5HKSCS1999': 'BIG5HKSCS:1999', 'BIG5HKSCS2001': 'BIG5HKSCS:2001', 'BIG5HKSCS2004': 'BIG5HKSCS:2004', 'BIG5HKSCS2008': 'BIG5HKSCS', 'GB180302005': 'GB18030:2005', 'GB180302022': 'GB18030'}.get(n, n)
    e = alias.get(n)
    if e not in dec:
        print('no dump for', f, n, e)
        continue
    done.add(e)
    t = load(os.path.join(DATA, f))
    irf = os.path.join(DATA, m.group(1) + '.IRREVERSIBLE.TXT')
    ir = load(irf) if os.path.exists(irf) else set()
    if m.group(2):
        D = {(k, v) for k, v in dec[e].items() if all(c < 0x10000 for c in v)}
        En = {(b, (c,)) for c, b in enc[e].items() if c < 0x10000}
    else:
        D = set(dec[e].items())
        En = {(b, (c,)) for c, b in enc[e].items()}
    print(f, e, 'decode: only here %d, only table %d' % (len(D - t), len(t - D)), 'encode: only here %d, only table %d' % (len(En - (t ^ ir)), len({x for x in t ^ ir if len(x[1]) == 1} - En)), sorted(D ^ t)[:4] if D ^ t else '')
print('without published table:', sorted(set(dec) - done))
