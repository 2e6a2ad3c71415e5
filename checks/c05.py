from vlib import *
from encs import *
KINDS = 'UTF8 UTF16BE UTF16LE UTF16 UTF32BE UTF32LE UTF32 UCS2BE UCS2LE UCS2 UCS4BE UCS4LE UCS4 C99 JAVA UTF7'.split()
# on this little-endian machine
SAME = {'UCS2INTERNAL': 'UCS2LE', 'UCS2SWAPPED': 'UCS2BE', 'UCS4INTERNAL': 'UCS4LE', 'UCS4SWAPPED': 'UCS4BE'}


def main():
    q = TIER == 'quick'
    c = Check('C05', ['unicode.c'], 'Unicode encodings follow their definitions exactly',
              bounds='decoders: every byte string of length 1 to 4 (fixed formats; 6 or 8 after a byte order mark for UTF-16/UTF-32), every escape of C99 (\\\\uXXXX, \\\\UXXXXXXXX) and JAVA (single and pair) with all bytes after the introducer arbitrary, '
                     'UTF-7: every string of up to 4 bytes (thorough 5) from each listed state and every base64 run of one or two units; encoders: every 32-bit word at the start and after other characters',
              assumptions=['reference definitions in harness/unicode.c', 'documented deviations accepted: marks are honoured everywhere in the stream, + followed by a non-base64 character is tolerated in UTF-7, \\\\U beyond 10FFFF is passed through by C99'])
    dec = lambda tag, k, n, x, p=b'', head=b'', tail=b'', lo=0, hi=255, l2=0, h2=0, **kw: c.job('dec/' + tag, 'h_udec', [KINDS.index(k), n, 0, lo, hi, 0, 0, 0, 0, 0, l2, h2], [x, p, head, tail], **kw)
    for x in KINDS + list(SAME):
        k = SAME.get(x, x)
        if k in ('C99', 'JAVA', 'UTF7'):
            continue
        for i, p in enumerate(states('dec', x)):
            for n in ((1, 2, 3, 4, 5, 6) if k == 'UTF8' else (1, 2, 3, 4, 6) if '16' in k or 'UCS2' in k else (3, 4, 8)):
                dec('%s/s%d/%d' % (x, i, n), k, n, x, p, join=0)
        for i, p in enumerate(states('enc', x)):
            for lo, hi in RANGES:
                c.job('enc/%s/s%d/%x' % (x, i, lo), 'h_uenc', [KINDS.index(k), 0, 0, lo, hi], [x, p], join=0)
    for n in (1, 2, 3):
        dec('C99/%d' % n, 'C99', n, 'C99', join=0)
        dec('JAVA/%d' % n, 'JAVA', n, 'JAVA', join=0)
    dec('C99/u4', 'C99', 4, 'C99', head=b'\\u', join=0)
    dec('C99/u3', 'C99', 3, 'C99', head=b'\\u', join=0)
    for i in range(8):
        # three arbitrary bytes at each position of the escape
        s = list(b'0001F60A')
        dec('C99/U@%d' % i, 'C99', min(3, 8 - i), 'C99', head=b'\\U' + bytes(s[:i]), tail=bytes(s[i + 3:]), join=0)
    dec('JAVA/u4', 'JAVA', 4, 'JAVA', head=b'\\u', join=0)
    dec('JAVA/u3', 'JAVA', 3, 'JAVA', head=b'\\u', join=0)
    dec('JAVA/pair', 'JAVA', 4, 'JAVA', head=b'\\uD83D\\u', join=0)
    dec('JAVA/pair3', 'JAVA', 3, 'JAVA', head=b'\\uD83D\\u', join=0)
    dec('JAVA/pairmid', 'JAVA', 2, 'JAVA', head=b'\\uDBFF', tail=b'dfff', join=0)
    dec('JAVA/high', 'JAVA', 4, 'JAVA', head=b'\\u', tail=b'\\uDE0A', join=0)
    n = 4 if q else 5
    for i, p in enumerate(states('dec', 'UTF7')):
        for k in range(1, n + 1):
            dec('UTF7/s%d/%d' % (i, k), 'UTF7', k, 'UTF7', p, join=0)
    for a, (lo, hi) in enumerate([(65, 90), (97, 122), (48, 57), (43, 43), (47, 47)]):
        # one high surrogate unit, then four arbitrary bytes of the low one
        dec('UTF7/pair/%d' % a, 'UTF7', 3, 'UTF7', head=b'+2D', tail=b'3g-', lo=lo, hi=hi, l2=43, h2=122, join=0)
        dec('UTF7/pairlow/%d' % a, 'UTF7', 3, 'UTF7', head=b'+2D3', tail=b'-', lo=lo, hi=hi, l2=43, h2=122, join=0)
    for x in ('C99', 'JAVA', 'UTF7'):
        for i, p in enumerate(states('enc', x)):
            for lo, hi in [(0, 0x7f), (0x80, 0xffff), (0x10000, 0x1ffff), (0x20000, 0x2ffff), (0x30000, 0x7ffff), (0x80000, 0x10ffff), (0x110000, 0xffffffff)]:
                c.job('enc/%s/s%d/%x' % (x, i, lo), 'h_uencfree', [KINDS.index(x), 0, 0, lo, hi], [x, p], join=1 if x != 'UTF7' else 0)
    return c.finish(reach_any=(1, 2, 3))
