from vlib import *
from encs import *
UNIT = {'UCS4': 4, 'UTF32': 4, 'UCS2': 2, 'UTF16': 2}
NEXT = {'JISX0208': 0x3042, 'GB231280': 0x3042, 'KSC5601': 0x3042, 'JISX0212': 0x4e02}  # no ASCII there


def main():
    q = TIER == 'quick'
    c = Check('C08', ['core.c'], 'discarding skips exactly the malformed input',
              bounds='decoders: every string of 3 bytes (2 for the slowest; 8 for the four-byte forms, 6 for the two-byte forms), thorough 4/3, in one call from every listed state; encoders: every 32-bit value followed by a letter, from every listed state',
              assumptions=['reference: the same converter without discarding, stepped over one unit at each EILSEQ', 'target UCS-4-INTERNAL for decoders, source UCS-4-INTERNAL for encoders; other pairs are covered by C21'])
    for tag, e, p, k in dec_specs(3 if q else 4):
        u = UNIT.get(e[:4], UNIT.get(e[:5], 1))
        c.job('dec/' + tag, 'h_discard', [0, {4: 8, 2: 6, 1: k}[u], u, 0, 255], [e, p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        c.job('enc/' + tag, 'h_discardenc', [1, 1, 4, lo, hi, NEXT.get(e, 0x61)], [e, p])
    return c.finish(reach_any=(1, 2, 3, 4, 5))
