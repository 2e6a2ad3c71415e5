from vlib import *
from encs import *
RAW = ('UCS4', 'UCS4BE', 'UCS4LE', 'UCS4INTERNAL', 'UCS4SWAPPED')
EXTRA = {'JAVA': [b'\\', b'\\u', b'\\ud8', b'\\ud83d\\u', b'\\ud83d\\udc'], 'C99': [b'\\', b'\\u', b'\\ud8', b'\\U0000', b'\\U0010ff', b'\\U0000d8'],
         'UTF7': [b'+2', b'+2D', b'+2D3', b'+2D3c', b'+2//'], 'UTF16BE': [b'\xd8\0'], 'UTF16LE': [b'\0\xd8'], 'UTF16': [b'\xd8\0', b'\xff\xfe\0\xd8'], 'EUCTW': [b'\x8e', b'\x8e\xa2'], 'EUCJP': [b'\x8f'], 'GB18030': [b'\x81\x30', b'\x90\x30', b'\xe3\x32'], 'GB18030:2005': [b'\x81\x30', b'\x90\x30', b'\xe3\x32']}


def main():
    q = TIER == 'quick'
    c = Check('C19', ['stream.c'], 'decoders only ever produce Unicode characters',
              bounds='%d arbitrary bytes (UTF-8, UTF-16 and UTF-32: 4) after a prefix leading to each listed decoder state, and inside the escapes of JAVA, C99 and UTF-7; %s' % (3 if q else 4, 'to UCS-4, without discarding' if q else 'to UCS-4 with and without discarding, and to UTF-8, UTF-16BE and UTF-32BE'),
              assumptions=['UCS-4 in its raw forms carries any 32-bit number and C99 \\U any number: exempt from the range'])
    for e in NAMES:
        st = states('dec', e) + EXTRA.get(e, [])
        for i, p in enumerate(st):
            k = 4 if e.startswith(('UTF32', 'UCS4', 'UTF8', 'UTF16')) else 3 if q else 4
            if e in SLOWDEC and not e.startswith('GB'):
                k = min(k, 2 if q else 3)
            lim, sur = (0xffffffff, 1) if e in RAW else (0xffffffff, 0) if e == 'C99' else (0x10ffff, 0)
            for fl in (0,) if q else (0, 1):
                c.job('dec/%s/s%d/%d' % (e, i, fl), 'h_scalar', [0, k, 0, 255, lim, sur, fl], [e, p], join=0)
            if e not in RAW and e != 'C99':
                for t, b in (('UTF8', 8), ('UTF16BE', 16), ('UTF32BE', 32)):
                    if not q or (e in STATEFUL or e in EXTRA) and t == 'UTF8' and e not in SLOWDEC:
                        c.job('out/%s/s%d/%s' % (e, i, t), 'h_wellformed', [0, min(k, 2) if q else min(k, 3), 0, 255, b, 1], [e, p, t], join=0)
    return c.finish(reach_any=(1, 2, 3))
