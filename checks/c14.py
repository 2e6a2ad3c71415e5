from vlib import *
from encs import *
WIDE = {'UCS2': b'\0A\0!', 'UCS2BE': b'\0A\0!', 'UCS2LE': b'A\0!\0', 'UTF16': b'\0A\0!', 'UTF16BE': b'\0A\0!', 'UTF16LE': b'A\0!\0', 'UCS2INTERNAL': b'A\0!\0', 'UCS2SWAPPED': b'\0A\0!',
        'UCS4': b'\0\0\0A', 'UCS4BE': b'\0\0\0A', 'UCS4LE': b'A\0\0\0', 'UTF32': b'\0\0\0A', 'UTF32BE': b'\0\0\0A', 'UTF32LE': b'A\0\0\0', 'UCS4INTERNAL': b'A\0\0\0', 'UCS4SWAPPED': b'\0\0\0A'}


def main():
    q = TIER == 'quick'
    c = Check('C14', ['whole.c'], 'whole-string conversion equals stepwise conversion',
              bounds='texts of a prefix leading to each listed state followed by %d arbitrary bytes (to UTF-8) or by one arbitrary 32-bit character (from UCS-4), with and without discarding; each of size, exact, larger, up to 8 smaller buffers, allocating and reallocating conversion, followed by a second operation on the same descriptor; '
                     'results of 4090 to 4100 bytes for %s' % (2 if q else 3, 'eight pairs' if q else 'fourteen pairs'),
              assumptions=['the byte order learned from a mark is kept over the reset between calls (C04)'])
    for tag, e, p, k in dec_specs(2 if q else 3, 1 if q else 2):
        k = max(k, 2) if e in WIDE else k
        bo = int(e in ('UCS2', 'UTF16', 'UCS4', 'UTF32'))
        y = WIDE.get(e, b'A!')
        for op, op2 in ((9, 1), (0, 4), (4, 0)) if e in STATEFUL or not q else ((9, 1),):
            c.job('dec/%s/%d%d' % (tag, op, op2), 'h_whole', [0, k, op, op2, 0, 255, 0, 64, bo], [e, 'UTF8', p, b'', y], join=0)
        if e in STATEFUL or not q:
            c.job('decd/%s' % tag, 'h_whole', [0, k, 9, 4, 0, 255, 1, 64, bo], [e, 'UTF8', p, b'', y], join=0)
    for tag, e, p, lo, hi in enc_specs():
        if e in STATEFUL or (lo == 0 and (not q or e in ('USASCII', 'ISO88591', 'UHC', 'GBK', 'EUCTW', 'KOI8R'))):
            c.job('enc/%s' % tag, 'h_whole', [1, 1, 9, 1, lo, hi, 0, 64], [INTERNAL, e, p, b'', w(0x21)], join=1)
            if not q or lo == 0 and p == b'':
                c.job('encd/%s' % tag, 'h_whole', [1, 1, 9, 4, lo, hi, 1, 64], [INTERNAL, e, p, b'', w(0x21)], join=1)
    for n in range(4090, 4100):
        for e, t, u in [('USASCII', 'USASCII', b'x'), ('UTF8', 'UTF7', b'x'), ('UTF8', 'ISO2022JP', b'x'), ('WINDOWS1258', 'UTF8', b'x'), ('UTF8', 'UTF16', b'x'), ('UTF8', 'UTF16LE', b'x'), ('ISO88591', 'UTF8', b'x'), ('UTF8', 'ISO2022KR', b'x')] + \
                ([] if q else [('EUCJISX0213', 'UTF8', b'x'), ('UTF8', 'HZ', b'x'), ('UTF8', 'ISO2022CN', b'x'), ('UTF16', 'UTF8', b'\0x'), ('UTF8', 'SHIFTJISX0213', b'x'), ('UTF8', 'UTF32', b'x')]):
            per = {'UTF16': 2, 'UTF16LE': 2, 'UTF32': 4}.get(t, 1)
            if n % per or (q and n % 2):
                continue
            for m in ((1,) if q else (1, 2)):
                c.job('long/%s/%s/%d/%d' % (e, t, n, m), 'h_whole', [0, m, 4, 0, 0, 255, 0, 4200], [e, t, u * (n // per), b'', b'A!'], join=0, max_steps=100000000)
    return c.finish(reach_any=(1, 2))
