from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    c = Check('C15', ['alloc.c'], 'running out of memory is reported and leaks nothing',
              bounds='every malloc, calloc and realloc inside the call succeeding or failing (all combinations); opening by name, index, codepage and with suffix, every encoding on either side; allocating conversion with and without a block of the caller (1, 5 and 40 bytes) of a prefix to every listed state and %s; '
                     'stepwise conversion of %d arbitrary bytes or one arbitrary character in every listed state' % ('one arbitrary byte or character' if q else 'two arbitrary bytes or one character', 1 if q else 2),
              assumptions=['the C++ interface under allocation failure is decided by C16'])
    for e in NAMES:
        c.job('open/from/%s' % e, 'h_openfail', [3, 0, 0, 0], [e, 'UTF8'])
        c.job('open/to/%s' % e, 'h_openfail', [3, 0, 0, 1], ['UTF8', e])
        c.job('open/name/%s' % e, 'h_openfail', [1, 0, 0, 1], [e, 'USASCII'])
        c.job('open/suffix/%s' % e, 'h_openfail', [0, 0, 0, 0], [e, e + '//IGNORE'])
    for cp in sorted(map(int, DB['codepages'])):
        c.job('open/cp/%d' % cp, 'h_openfail', [2, cp, 65001, 0], [])
    for tag, e, p, k in dec_specs(1 if q else 2, 1):
        c.job('noalloc/%s' % tag, 'h_noalloc', [0, k, 0, 255, 1 if q else 0], [e, 'UTF8', p], join=0)
        for own in (0, 5) if q else (0, 1, 5, 40):
            if not q or e in STATEFUL or e in ('USASCII', 'UTF8', 'GBK', 'WINDOWS1252'):
                c.job('conv/%s/%d' % (tag, own), 'h_convfail', [0, k, 0, 255, 0, own], [e, 'UTF8', p], join=0)
                c.job('convd/%s/%d' % (tag, own), 'h_convfail', [0, k, 0, 255, 1, own], [e, 'USASCII', p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        if lo == 0 or not q:
            c.job('noallocenc/%s' % tag, 'h_noalloc', [1, 1, lo, hi, 0], [INTERNAL, e, p], join=1)
            if e in STATEFUL or not q:
                for own in (0, 40):
                    c.job('convenc/%s/%d' % (tag, own), 'h_convfail', [1, 1, lo, hi, 0, own], [INTERNAL, e, p], join=1)
    return c.finish(reach_any=(1, 2, 3, 5, 6, 7))
