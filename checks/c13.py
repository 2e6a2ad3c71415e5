from vlib import *
from encs import *
PROBE = b'a\xff\xfeb\xc3\xa9c'


def main():
    q = TIER == 'quick'
    c = Check('C13', ['names.c'], 'opening by name honours both names, //IGNORE and errors',
              bounds='pairs of strings that agree with a template (names, aliases, suffixes //IGNORE, //TRANSLIT and their combinations, other slashes, strings of up to %d bytes) except in a window of %d arbitrary bytes at any position of either one, and every string of up to %d bytes; '
                     'each opened descriptor converts a probe with malformed bytes and is compared with the descriptors opened by index with and without discarding' % (70 if q else 300, 2 if q else 3, 2 if q else 3),
              assumptions=['//IGNORE in the middle of any other suffix chain than //IGNORE//TRANSLIT of the target may or may not count; at the end it must, and without it nothing may be discarded', 'a suffix with bytes above 0x7f, or a string of more than 57 bytes without - and _, may be rejected'])
    nl = name_list(1, 12) + name_list(39)
    w = 2 if q else 3
    T = ['UTF-8', 'UTF-8//IGNORE', 'utf-8//ignore', 'ISO-8859-1//TRANSLIT//IGNORE', 'ASCII//IGNORE//TRANSLIT', 'UTF-16LE//IGNORE', 'ascii/', 'ascii//', 'l1//TRANSLIT', '//IGNORE', '/', '', 'UCS4//IGNORE//', 'UTF-8/IGNORE', 'UTF-8//IGNOR', '-U_T-F8//IGNORE', 'A' * 62, 'UTF-8//' + 'X' * 50, 'UTF-8//' + 'X' * 60 + '//IGNORE', '-' * 60 + 'ASCII//IGNORE', 'EUC-JP//iGNORE', 'EXTENDED_UNIX_CODE_PACKED_FORMAT_FOR_JAPANESE//TRANSLIT//IGNORE']
    if not q:
        T += ['B' * n for n in (63, 64, 65, 127, 128, 129, 300)] + ['UTF-8//' + 'Y' * 290]
    for t in T:
        for side in (0, 1):
            for other in ('UTF-8', 'ASCII', 'ASCII//IGNORE', 'nonsense'):
                c.job('open/%s/%d/%s' % (t, side, other), 'h_openname', [w, side, 1, 255], [nl] + ([t, other] if side == 0 else [other, t]) + [PROBE])
                if other == 'nonsense':
                    break
            c.job('none/%s/%d' % (t, side), 'h_openname', [w, side, 1, 255], [nl] + ([t, 'nonsense'] if side == 0 else ['nonsense', t]) + [PROBE])
    for side in (0, 1):
        c.job('free/2/%d' % side, 'h_openname', [2, side, 1, 255], [nl] + (['xx', 'UTF-8'] if side == 0 else ['UTF-8', 'xx']) + [PROBE])
        for lo, hi in parts(1, 255, 255) if not q else []:
            c.job('free/3/%d/%d' % (side, lo), 'h_openname', [3, side, lo, hi], [nl] + (['xxx', 'UTF-8'] if side == 0 else ['UTF-8', 'xxx']) + [PROBE])
    for t in ('UTF-8', 'ISO-8859-1', 'koi8-r', 'ASCII//IGNORE', 'x', '', 'SHIFT_JIS', 'Z' * 70):
        for side in (0, 1):
            for other in ('UTF-8', 'L1', 'nonsense'):
                c.job('byname/%s/%d/%s' % (t, side, other), 'h_openfrom', [w, side, 1, 255], [nl] + ([t, other] if side == 0 else [other, t]) + [PROBE])
    return c.finish(reach_any=(1, 2, 3))
