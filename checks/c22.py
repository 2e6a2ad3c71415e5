from vlib import *
from encs import *
FORMS = {0: 'reset', 1: 'reset', 2: 'reset', 3: 'reset', 4: 'flush', 5: 'flush', 6: 'flush', 7: 'empty', 8: 'empty'}


def main():
    q = TIER == 'quick'
    c = Check('C22', ['forms.c'], 'all forms of an iconv call mean the same',
              bounds='four forms of a reset, three of a flush and two of an empty call against the canonical form, in every listed decoder and encoder state (stateless encodings: at the start%s), followed by one arbitrary byte or 16-bit character (BIG5-HKSCS: 12-bit)%s and a flush; '
                     'iconv.h: one arbitrary byte or 16-bit character, every encoding on either side' % ('; one form of each kind in all states, all forms in two states of each encoding' if q else '', '' if q else ', also after one arbitrary byte'),
              assumptions=['the effect of the canonical forms is decided by C04'])
    for e in NAMES:
        for i, p in enumerate(states('dec', e)):
            k = 1 if e in STATEFUL else 0
            for f in FORMS if i < 2 and e in STATEFUL or not q else (1, 4, 7):
                c.job('dec/%s/s%d/%d' % (e, i, f), 'h_forms', [0, 0, f, 0, 255, 0, 0, 255], [e, INTERNAL, p], join=0)
                if k and not q:
                    c.job('dec1/%s/s%d/%d' % (e, i, f), 'h_forms', [0, 1, f, 0, 255, 0, 0, 255], [e, INTERNAL, p], join=0)
        for i, p in enumerate(states('enc', e)):
            if len(states('enc', e)) > 1 or not q:
                for f in FORMS if i == 1 or not q else (1, 4, 7):
                    c.job('enc/%s/s%d/%d' % (e, i, f), 'h_forms', [1, 0, f, 0, 0xffff, 0, 0, 0xfff if q and e.startswith('BIG5') else 0xffff], [INTERNAL, e, p], join=1)
        c.job('iconvh/from/%s' % e, 'h_iconvh', [0, 1, 0, 255], [e, 'UTF-8'], join=0)
        c.job('iconvh/to/%s' % e, 'h_iconvh', [1, 1, 0, 0xffff], [INTERNAL, e], join=1)
    return c.finish(reach_any=(1, 2, 3, 4))
