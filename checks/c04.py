from vlib import *
from encs import *
BOMDEC = ('UCS2', 'UCS4', 'UTF16', 'UTF32')


def main():
    q = TIER == 'quick'
    c = Check('C04', ['core.c'], 'flush and reset return a descriptor to its initial state',
              bounds='histories: a listed state, then one arbitrary byte or character (stateful encodings), then a plain reset or a flush with ample space, then every string of 2 bytes (thorough 3) or every 32-bit word, then another flush, compared with a new descriptor; '
                     'concatenation: one character of the basic plane, flush, one character of the basic plane, the second part decoded on its own',
              assumptions=['a byte order learned from a byte order mark survives a reset (documented in tests/test-bom-state.cpp)'])
    for how in (0, 1):
        h = 'rf'[how]
        for e in NAMES:
            sd = states('dec', e)
            for i, p in enumerate(sd):
                if e in BOMDEC and i == 2:
                    # little-endian mark: the byte order is kept, so compare with a descriptor that has seen the same mark
                    c.job('decle/%s/%s' % (e, h), 'h_resetle', [0, 4, how, 0, 255], [e, INTERNAL, p], join=0)
                    continue
                n = 4 if e in ('UCS4', 'UTF32') else 2 if q or e in SLOWDEC else 3
                for npre in ((0, 1) if len(sd) > 1 and e not in BOMDEC else (0,)):
                    k = n if npre == 0 or not (q or e in SLOWDEC) else 1
                    c.job('dec/%s/s%d/%s%d' % (e, i, h, npre), 'h_reset', [0, k, how, 0, 255, 0, npre, 0, 255], [e, INTERNAL, p], join=0)
            se = states('enc', e)
            for i, p in enumerate(se):
                for lo, hi in RANGES:
                    if lo > 0xffff and q and len(se) == 1:
                        continue
                    if e == 'UTF7' and lo >= 0x10000:
                        hi = lo + 0xfff
                    c.job('enc/%s/s%d/%s/%x' % (e, i, h, lo), 'h_reset', [1, 1, how, 0, 0, 0, 0, lo, hi], [INTERNAL, e, p], join=1)
    for e in DEC_STATES:  # towards a target with a state of its own
        for i, p in enumerate(states('dec', e)):
            if e not in BOMDEC:
                for to in ('ISO2022JP',) if q else ('ISO2022JP', 'UTF16', 'HZ', 'EUCJISX0213'):
                    for how in (0, 1):
                        c.job('stateful/%s/s%d/%s/%s' % (e, i, to, 'rf'[how]), 'h_reset', [0, 1 if q else 2, how, 0, 255, 0, 0, 0, 255], [e, to, p], join=0)
    for e in PENDING_DEC:
        for i, p in enumerate(states('dec', e)):
            for how in (0, 1):
                c.job('pair/%s/s%d/%s' % (e, i, 'rf'[how]), 'h_reset', [0, 1, how, 0, 255, 0, 1 if not q else 0, 0, 255], [e, 'UTF8', p], join=0)
    for e in ENC_STATES:
        if e in BOMDEC:
            continue
        for i, p in enumerate(states('enc', e)):
            c.job('cat/%s/s%d' % (e, i), 'h_concat', [2, 0, 1, 0, 0xffff, 0, 0xffff], [e, p, w(*ONEWAY.get(e, []))], join=1)
            if not q:
                for lo, hi in parts(0, 0xffff, 16):
                    c.job('cat2/%s/s%d/%x' % (e, i, lo), 'h_concat', [2, 1, 1, lo, hi, 0, 0xffff], [e, p, w(*ONEWAY.get(e, []))], join=0)
    return c.finish(reach_any=(1,))
