from vlib import *
from encs import *


def main():
    c = Check('C03', ['core.c'], 'splitting the input anywhere does not change the result',
              bounds='every split point of every string of 3 bytes (2 for the slowest decoders; thorough 4/3; 6 for UCS-2 and UTF-16, 4-5 for UTF-8 and EUC-TW, 8 for UCS-4 and UTF-32 with byte order marks), and of every 32-bit input word for the encoders, with ample output space, followed by a flush for stateful encodings; both conversion flags in thorough; from every listed state')
    n = 3 if TIER == 'quick' else 4
    for fl in (0, 1):
        for tag, e, p, k in dec_specs(n):
            k = 6 if e in ('UCS2', 'UTF16') else 5 if e == 'UTF8' else 4 if e in ('EUCTW', 'UTF16BE', 'UTF16LE') else 8 if e in ('UCS4', 'UTF32') else k  # a byte order mark, then part of a unit
            c.job('dec/%s/f%d' % (tag, fl), 'h_split', [0, k, int(e in DEC_STATES), 0, 255, fl], [e, INTERNAL, p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        c.job('enc/' + tag, 'h_split', [1, 1, int(e in ENC_STATES), lo, hi, 0], [INTERNAL, e, p], join=1)
    return c.finish(reach_any=(1, 2, 3))
