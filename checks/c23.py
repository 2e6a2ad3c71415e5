from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    c = Check('C23', ['forms.c'], 'the result of a conversion depends on the input alone',
              bounds='%d arbitrary bytes (1 less for the slowest decoders) or one arbitrary 32-bit character from every listed state, and a flush, run twice: with aligned buffers, zeroed output and errno 0, and at odd addresses with nine arbitrary bytes in the output buffer and an arbitrary errno; heap memory of both descriptors is arbitrary' % (2 if q else 3),
              assumptions=['locale and environment are not read: an external call would make the job undecided'])
    for tag, e, p, k in dec_specs(2 if q else 3):
        if e.startswith(('UCS4', 'UTF32')):
            k = 4
        c.job('dec/' + tag, 'h_pure', [0, k, 0, 255, 0], [e, INTERNAL, p], join=0)
        if e in STATEFUL or not q:
            c.job('decu/' + tag, 'h_pure', [0, 1 if q else 2, 0, 255, 1], [e, 'UTF8', p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        if lo == 0 or e in STATEFUL or not q:
            c.job('enc/' + tag, 'h_pure', [1, 1, lo, hi, 0], [INTERNAL, e, p], join=1)
    return c.finish(reach_any=(1, 2))
