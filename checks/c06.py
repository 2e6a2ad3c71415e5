from vlib import *
from encs import *


def split(e, lo, hi):
    """ranges that keep single queries small; the quick tier leaves out planes 3 to 15 of UTF-7"""
    if e == 'UTF7' and lo >= 0x30000:
        return [q for k in range(lo, hi, 0x10000) if k == 0x100000 or TIER != 'quick' for q in parts(k, k + 0xffff, 8)]
    if e == 'GB18030:2005' and lo == 0:
        return parts(lo, 0xdfff, 14) + parts(0xe000, 0xefff, 4) + [(0xf000, 0xffff)]
    if e == 'WINDOWS1258' and lo == 0:
        return parts(lo, hi, 16)
    return [(lo, hi)]


def main():
    c = Check('C06', ['core.c'], 'what is encoded decodes back to the same characters',
              bounds='every Unicode code point as one character after every listed encoder state (a fixed prefix of 0 to 3 characters), encoded, flushed and decoded in one call each; thorough: two arbitrary characters of the basic plane for the stateful encodings',
              assumptions=['documented one-way mappings are listed in spec/oneway.json (byte order marks, escape and shift characters, compatibility fallbacks of the published tables)',
                           'WINDOWS-1258, TCVN and WINDOWS-1255 compose characters while decoding, so only single characters are compared there'])
    for tag, e, p, lo0, hi0 in enc_specs(URANGES):
        ow = ONEWAY.get(e, [])
        for lo, hi in split(e, lo0, hi0):
            x = w(*[k for k in ow if lo <= k <= hi])
            c.job(tag if lo == lo0 else '%s+%x' % (tag, lo), 'h_roundtrip', [2, 1, 0, lo, hi, 0, 0, 0, 0, 0, 0, 0x10ffff], [e, p, x], join=1)
    if TIER != 'quick':
        for e in ENC_STATES:
            if e in ('UTF7',):
                continue
            for lo, hi in parts(0, 0xffff, 16):
                c.job('two/%s/%x' % (e, lo), 'h_roundtrip', [2, 2, 0, lo, hi, 0, 0, 0, 0, 0, 0, 0xffff], [e, b'', w(*ONEWAY.get(e, []))], join=0)
    return c.finish(reach_any=(1, 2))
