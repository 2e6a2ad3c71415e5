"""The encodings of the library (frozen list in spec/names.json) and the starting states from which converters are explored."""
import json, os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
DB = json.load(open(os.path.join(SPEC, 'names.json')))
NAMES = [e['names'][0] for e in DB['encodings']]
INTERNAL = 'UCS-4-INTERNAL'
ONEWAY = json.load(open(os.path.join(SPEC, 'oneway.json')))
E = b'\x1b'


def w(*cps):
    return b''.join(c.to_bytes(4, 'little') for c in cps)


# Byte prefixes that put a decoder into its non-initial states.
DEC_STATES = {
    'UCS2': [b'\xfe\xff', b'\xff\xfe'], 'UTF16': [b'\xfe\xff', b'\xff\xfe'],
    'UCS4': [b'\0\0\xfe\xff', b'\xff\xfe\0\0'], 'UTF32': [b'\0\0\xfe\xff', b'\xff\xfe\0\0'],
    'UTF7': [b'+', b'+AG', b'+AGE', b'+AGEAY', b'+2AD'],
    'ISO2022JP': [E + b'(J', E + b'$B'], 'ISO2022JP1': [E + b'(J', E + b'$B', E + b'$(D'],
    'ISO2022JP2': [E + b'(J', E + b'$B', E + b'$(D', E + b'$A', E + b'$(C', E + b'.A', E + b'.F', E + b'$B' + E + b'.F'],
    'ISO2022JPMS': [E + b'(J', E + b'(I', E + b'$B', E + b'$(D', E + b'$(?'],
    'ISO2022JP3': [E + b'(J', E + b'(I', E + b'$B', E + b'$(O', E + b'$(P', E + b'$(O\x24\x2b'],
    'ISO2022CN': [E + b'$)A', E + b'$)G', E + b'$)A\x0e', E + b'$)G\x0e', E + b'$*H', E + b'$)A' + E + b'$*H\x0e'],
    'ISO2022CNEXT': [E + b'$)A\x0e', E + b'$)G\x0e', E + b'$)E\x0e', E + b'$*H', E + b'$+I', E + b'$+M', E + b'$)A' + E + b'$*H' + E + b'$+J\x0e'],
    'HZ': [b'~{'], 'ISO2022KR': [E + b'$)C', E + b'$)C\x0e'],
    'BIG5HKSCS:1999': [b'\x88\x66'], 'BIG5HKSCS:2001': [b'\x88\x66'], 'BIG5HKSCS:2004': [b'\x88\x66'], 'BIG5HKSCS': [b'\x88\x66'],
    'EUCJISX0213': [b'\xa4\xab', b'\xab\xc4'], 'SHIFTJISX0213': [b'\x82\xa9', b'\x86\x63'],
    'WINDOWS1255': [b'\xe1', b'\xf9', b'\xf9\xcc'], 'WINDOWS1258': [b'A', b'o'], 'TCVN': [b'A', b'o'],
}
# Code point prefixes that put an encoder into its non-initial states.
ENC_STATES = {
    'UCS2': [w(0x41)], 'UTF16': [w(0x41)], 'UCS4': [w(0x41)], 'UTF32': [w(0x41)],
    'UTF7': [w(0xe9), w(0xe9, 0xe9), w(0xe9, 0xe9, 0xe9)],
    'ISO2022JP': [w(0xa5), w(0x4e00)], 'ISO2022JP1': [w(0xa5), w(0x4e00), w(0x4e02)],
    'ISO2022JP2': [w(0xa5), w(0x4e00), w(0x4e02), w(0x4f60), w(0xac00), w(0xe0), w(0x3b1, 0x41), w(0x4e00, 0x3a3), w(0xe0, 0x4e00)],
    'ISO2022JPMS': [w(0xa5), w(0xff71), w(0x4e00), w(0x4e02)],
    'ISO2022JP3': [w(0xa5), w(0xff71), w(0x4e00), w(0x304b), w(0x2000b), w(0x4e02)],
    'ISO2022CN': [w(0x4e00), w(0x4e48), w(0x4e28), w(0x4e00, 0x41)], 'ISO2022CNEXT': [w(0x4e00), w(0x4e48), w(0x4e28), w(0x4e00, 0x41)],
    'HZ': [w(0x4e00)], 'ISO2022KR': [w(0x41), w(0xac00)],
    'BIG5HKSCS:1999': [w(0xca)], 'BIG5HKSCS:2001': [w(0xca)], 'BIG5HKSCS:2004': [w(0xca)], 'BIG5HKSCS': [w(0xca)],
    'EUCJISX0213': [w(0x304b), w(0x2e9)], 'SHIFTJISX0213': [w(0x304b), w(0x2e9)],
}
TABLE_STATES = {k: {e: list(l) for e, l in d.items()} for k, d in (('enc', ENC_STATES), ('dec', DEC_STATES))}
# Every reachable state (thorough), or a subset in which every value of every part of the state occurs (quick): spec/states.json, from tools/mkstates.py.
for _k, _d in (('enc', ENC_STATES), ('dec', DEC_STATES)):
    for _e, _l in json.load(open(os.path.join(SPEC, 'states.json')))[_k].items():
        _h, _t = _d.setdefault(_e, []), TABLE_STATES[_k].setdefault(_e, [])
        _t += [p for p in map(bytes.fromhex, _l['cover']) if p not in _t]
        _h += [p for p in map(bytes.fromhex, _l['all' if os.environ.get('VERIF_TIER') == 'thorough' else 'cover']) if p not in _h]
STATEFUL = sorted(set(DEC_STATES) | set(ENC_STATES))


def states(kind, n):
    return [b''] + (DEC_STATES if kind == 'dec' else ENC_STATES).get(n, [])


def table_states(kind, n):
    """the states for which there are reference tables: the same in both tiers"""
    return [b''] + TABLE_STATES[kind].get(n, [])


def parts(lo, hi, k):
    """split [lo,hi] in k ranges"""
    s = (hi - lo + 1) / k
    r = [lo + int(i * s) for i in range(k)] + [hi + 1]
    return [(a, b - 1) for a, b in zip(r, r[1:]) if a < b]


# Code point ranges; small enough (64 K) for the engine to keep single-character expressions as tables, except the last.
RANGES = [(0, 0xffff), (0x10000, 0x1ffff), (0x20000, 0x2ffff), (0x30000, 0xffffffff)]
URANGES = [(0, 0xffff), (0x10000, 0x1ffff), (0x20000, 0x2ffff), (0x30000, 0x10ffff)]
# Decoders that look at two characters at once, or have costly tables.
COMPOSING = ['WINDOWS1255', 'WINDOWS1258', 'TCVN']
SLOWDEC = COMPOSING + ['SHIFTJISX0213', 'GB18030', 'GB18030:2005']
PENDING_DEC = COMPOSING + ['BIG5HKSCS:1999', 'BIG5HKSCS:2001', 'BIG5HKSCS:2004', 'BIG5HKSCS', 'EUCJISX0213', 'SHIFTJISX0213', 'ISO2022JP3']


def dec_specs(n, slow_n=None):
    """(tag, encoding, prefix, number of symbolic bytes) for every decoder and starting state"""
    for e in NAMES:
        for i, p in enumerate(states('dec', e)):
            yield '%s/s%d' % (e, i), e, p, (slow_n or n - 1) if e in SLOWDEC else n


def enc_specs(ranges=RANGES):
    """(tag, encoding, prefix, lo, hi) for every encoder, starting state and code point range"""
    for e in NAMES:
        for i, p in enumerate(states('enc', e)):
            for lo, hi in ranges:
                if e == 'UTF7' and hi > 0x10ffff:
                    yield '%s/s%d/%x' % (e, i, 0x110000), e, p, 0x110000, hi
                    hi = 0x10ffff
                if e in ('UTF7', 'GB18030', 'GB18030:2005') and lo == 0x30000:
                    for k in range(0x30000, 0x110000, 0x20000):
                        yield '%s/s%d/%x' % (e, i, k), e, p, k, min(k + 0x1ffff, 0x10ffff)
                    if hi > 0x10ffff:
                        yield '%s/s%d/%x' % (e, i, 0x110000), e, p, 0x110000, hi
                    continue
                yield '%s/s%d/%x' % (e, i, lo), e, p, lo, hi


def name_list(lo=0, hi=99):
    """the frozen names of lo to hi characters in the form harness/names.c reads: length, index, bytes"""
    seen, r = set(), b''
    for e in DB['encodings']:
        for n in e['names']:
            if n not in seen and lo <= len(n) <= hi:
                seen.add(n)
                r += bytes([len(n)]) + e['i'].to_bytes(2, 'little') + n.encode()
    return r


def codepage_list():
    return b''.join(int(k).to_bytes(4, 'little') + v.to_bytes(4, 'little') for k, v in sorted(DB['codepages'].items(), key=lambda x: int(x[0])))


ALLNAMES = sorted({n for e in DB['encodings'] for n in e['names']})
