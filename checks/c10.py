from vlib import *
from encs import *
# interleavings of the five steps of two histories (open, convert, convert the rest, flush, close)
SCHED = ['ababababab', 'abaabbabab', 'aababbabab', 'aaabbabbab', 'bbabababaa', 'aabbbbbaaa']


def main():
    q = TIER == 'quick'
    sch = SCHED if q else sorted({''.join('b' if i in c else 'a' for i in range(10)) for c in __import__('itertools').combinations(range(10), 5)})
    c = Check('C10', ['core.c'], 'descriptors are independent of each other',
              bounds='two histories of five steps (open with a listed state, convert, convert the rest, flush, close), %d interleavings of their calls; decoders: 2 arbitrary bytes against 1 arbitrary byte; encoders: one arbitrary character of the basic plane each; '
                     'both descriptors of the same encoding, in the same or another state; every write of the library to global data is tracked' % len(sch),
              assumptions=['schedules are interleavings of whole calls; that no call writes outside its descriptor and buffers (also checked) makes concurrent calls equivalent to one of them'])
    sd = ''.join(sch)
    for e in NAMES:
        st = states('dec', e)
        for i, p in enumerate(st):
            p2 = st[(i + 1) % len(st)]
            n = 2
            m = 1 if e not in ('UCS4', 'UTF32') else 2
            c.job('dec/%s/s%d' % (e, i), 'h_indep', [0, n, m, 0, 255, 0, 255, len(sch)], [e, INTERNAL, p, e, INTERNAL, p2, sd], join=1)
        st = states('enc', e)
        for i, p in enumerate(st):
            p2 = st[(i + 1) % len(st)]
            c.job('enc/%s/s%d' % (e, i), 'h_indep', [1, 1, 1, 0, 0xffff, 0, 0xffff, len(sch)], [INTERNAL, e, p, INTERNAL, e, p2, sd], join=1)
    return c.finish(reach_any=(1,))
