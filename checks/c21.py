from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    T = ['ISO2022JP2'] if q else ['UTF8', 'USASCII', 'ISO2022JP2', 'UTF16', 'GB18030', 'UTF7', 'WINDOWS1258', 'EUCTW']
    c = Check('C21', ['pair.c'], 'a conversion between any two encodings is the one through Unicode',
              bounds='every ordered pair of the %d encodings on every 1-byte text, with and without discarding; from each listed decoder state with %s arbitrary bytes to %s; final flush included' % (len(NAMES), '2 (1 for the slow composing decoders)', ', '.join(T) + (' (multi-byte and stateful decoders)' if q else ' and to the encoding itself')),
              assumptions=['the stages X to UCS-4 and UCS-4 to Y are decided by the other properties', 'output room is ample (short buffers: C02)'])
    for e in NAMES:
        for fl in (0, 1):
            c.job('all/%s/%d' % (e, fl), 'h_pair', [1, 0, 255, fl, 1, 1, len(NAMES) - 1], [e, e, b''])
    for tag, e, p, k in dec_specs(2, 1):
        if q and e not in STATEFUL:
            continue
        for fl in (0, 1):
            for t in dict.fromkeys(T + ([] if q else [e])):
                c.job('to/%s/%s/%d' % (tag, t, fl), 'h_pair', [k, 0, 255, fl], [e, t, p])
    return c.finish(reach_any=(1, 2, 3))
