from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    c = Check('C16', ['cxx.cpp'], 'the C++ interface converts like the C interface or throws', cxx=True,
              bounds='texts of a prefix leading to each listed decoder state and %d arbitrary bytes to UTF-8, and one arbitrary 32-bit character to each stateful encoding (%s), with and without discarding, every allocation failing or not; names: every registered alias template with a window of %d arbitrary bytes for short names, as const char * and std::string; every int as a codepage'
                     % (1 if q else 2, 'basic plane' if q else 'all ranges', 2), assumptions=['the C interface itself is decided by the other properties'])
    for tag, e, p, k in dec_specs(1 if q else 2, 1):
        if q and e not in STATEFUL and e not in ('USASCII', 'UTF8', 'UTF16LE', 'GBK', 'WINDOWS1252', 'EUCJP', 'JAVA', 'KOI8R'):
            continue
        for fl in (0, 1):
            for fail in (0, 1):
                c.job('dec/%s/%d%d' % (tag, fl, fail), 'h_cxxconv', [0, k, 0, 255, fl, fail], [e, 'UTF8', p, b''], join=0)
                c.job('decasc/%s/%d%d' % (tag, fl, fail), 'h_cxxconv', [0, k, 0, 255, fl, fail], [e, 'USASCII', p, b''], join=0)
    for tag, e, p, lo, hi in enc_specs():
        if (lo == 0 or not q) and e in STATEFUL:
            for fl in (0, 1):
                c.job('enc/%s/%d' % (tag, fl), 'h_cxxconv', [1, 1, lo, hi, fl, 0], [INTERNAL, e, p, b''], join=1)
                c.job('encf/%s/%d' % (tag, fl), 'h_cxxconv', [1, 1, lo, hi, fl, 1], [INTERNAL, e, p, b''], join=1)
    for n in (0, 14, 15, 16, 17, 30, 31, 32, 4094, 4095, 4096, 4097):
        for fail in (0, 1):
            c.job('long/%d/%d' % (n, fail), 'h_cxxconv', [0, 1, 0, 255, 0, fail], ['UTF8', 'ISO2022JP', b'x' * n, b''], join=0, max_steps=100000000)
            c.job('longl1/%d/%d' % (n, fail), 'h_cxxconv', [0, 1, 0, 255, 0, fail], ['ISO88591', 'UTF8', b'x' * n, b''], join=0, max_steps=100000000)
    for n in ('', 'x', 'xx', 'UTF-8', 'utf_16le', 'Shift_JIS', 'CP1252', 'ISO-8859-15', 'nonsense', 'A' * 70, '\xe9' * 3, 'UTF-8//IGNORE'):
        for how in (0, 1):
            c.job('name/%s/%d' % (n, how), 'h_cxxname', [2, how], [n.encode('latin1')])
    for a, b in ((0, 0x7fff), (0x8000, 0xffff), (0x10000, 0x7fffffff), (0x80000000, 0xffffffff)):
        c.job('cp/%x' % a, 'h_cxxcp', [a, b], [])
    return c.finish(reach_any=(1, 2, 3, 5, 6, 7, 8))
