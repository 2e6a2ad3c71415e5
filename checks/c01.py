from vlib import *
from encs import *


def main():
    c = Check('C01', ['core.c'], 'conversion calls stay inside their buffers and account exactly',
              bounds='one conversion call and one flush call per history, from every listed decoder/encoder state; decoders: every string of 3 bytes (2 for the slowest), thorough 4/3; '
                     'encoders: every 32-bit value as input word; output capacity symbolic 0..16 (decoders), 0..12 (encoders), 0..8 for the flush; both conversion flags',
              assumptions=['counterpart side is UCS-4-INTERNAL; decoders with a pending character are also run against US-ASCII, UTF-8, ISO-8859-1, UTF-16 and themselves'])
    n = 3 if TIER == 'quick' else 4
    for tag, e, p, k in dec_specs(n):
        c.job('dec/' + tag, 'h_safe', [0, k, 4 * k + 4, 0, 255, 8], [e, INTERNAL, p])
    for e in PENDING_DEC + ['UTF7']:
        for t in ('USASCII', 'UTF8', 'ISO88591', 'UTF16', e):
            for i, p in enumerate(states('dec', e)):
                c.job('pair/%s/%s/s%d' % (e, t, i), 'h_safe', [0, 1 if TIER == 'quick' else 2, 8, 0, 255, 6], [e, t, p])
    for tag, e, p, lo, hi in enc_specs():
        c.job('enc/' + tag, 'h_safe', [1, 1, 12, lo, hi, 8], [INTERNAL, e, p])
    return c.finish(reach_any=(1, 2, 3, 4, 5))
