from vlib import *
from encs import *


def main():
    c = Check('C02', ['core.c'], 'running out of output space loses and repeats nothing',
              bounds='first call with every output capacity 0..12 (decoders) / 0..9 (encoders), second call with ample space, then a flush with every capacity 0..8 followed by one with ample space (stateful encodings); '
                     'decoders: every string of 3 bytes (2 for the slowest), thorough 4/3; encoders: every 32-bit input word, thorough also two characters of the basic plane; from every listed state')
    n = 3 if TIER == 'quick' else 4
    for tag, e, p, k in dec_specs(n):
        fl = 8 if e in DEC_STATES else 99
        c.job('dec/' + tag, 'h_resume', [0, k, 4 * k, 0, 255, 0, fl], [e, INTERNAL, p], join=0)
    for e in PENDING_DEC:
        for i, p in enumerate(states('dec', e)):
            c.job('pair/%s/s%d' % (e, i), 'h_resume', [0, 1, 4, 0, 255, 0, 4], [e, 'UTF8', p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        fl = 8 if e in ENC_STATES else 99
        c.job('enc/' + tag, 'h_resume', [1, 1, 9, lo, hi, 0, fl], [INTERNAL, e, p], join=1)
    return c.finish(reach_any=(1, 2, 3))
