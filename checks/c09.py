from vlib import *
from encs import *
NEXT = {'JISX0208': 0x3042, 'GB231280': 0x3042, 'KSC5601': 0x3042, 'JISX0212': 0x4e02}  # no ASCII there


def main():
    q = TIER == 'quick'
    c = Check('C09', ['core.c', 'pair.c'], 'unrepresentable characters are never silently altered',
              bounds='every 32-bit value as a character followed by a fixed one, after every listed encoder state, ample output; failed calls are repeated once: every string of 2 bytes (thorough 3) from every listed decoder state to US-ASCII, every 32-bit word with 0 to 64 bytes of room',
              assumptions=['which characters a target lacks is what a discarding descriptor drops; that this agrees with the published tables is decided by C07'])
    for tag, e, p, lo, hi in enc_specs():
        c.job('enc/' + tag, 'h_unenc', [1, 1, 4, lo, hi, NEXT.get(e, 0x61)], [e, p])
    for tag, e, p, k in dec_specs(3 if not q else 2, 2):
        if e in ('UCS4', 'UTF32', 'UCS4BE', 'UTF32BE', 'UCS4LE', 'UTF32LE', 'UCS4INTERNAL', 'UCS4SWAPPED'):
            k = 4
        c.job('retry/' + tag, 'h_retry', [0, k, 16, 0, 255], [e, 'USASCII', p], join=0)
        if not q:
            c.job('retry1/' + tag, 'h_retry', [0, k, 1, 0, 255], [e, 'UTF8', p], join=0)
    for tag, e, p, lo, hi in enc_specs():
        if e in ENC_STATES or not q:
            for cap in (0, 2, 5):
                c.job('retryenc/%s/%d' % (tag, cap), 'h_retry', [1, 1, cap, lo, hi], [INTERNAL, e, p])
    for tag, e, p, lo, hi in enc_specs():  # a loss is counted whatever the room: every capacity against an ample one
        if not q or '/s0/' in tag + '/':
            c.job('room/' + tag, 'h_room', [1, 1, 5, lo, hi], [INTERNAL, e, p])
    for e in PENDING_DEC if q else NAMES:
        for i, p in enumerate(states('dec', e)):
            for to in ('ISO88591', 'UCS2BE', 'ISO2022JP') if q else ('USASCII', 'ISO88591', 'UCS2BE', 'ISO2022JP', 'GBK', 'JISX0208'):
                for fl in (0, 1):
                    c.job('count/%s/s%d/%s/%d' % (e, i, to, fl), 'h_pair', [1 if q or e in SLOWDEC else 2, 0, 255, fl, 0, 0, 0, 1], [e, to, p])
    return c.finish(reach_any=(1, 2, 3, 4, 5, 6))
