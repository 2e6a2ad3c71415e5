from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    c = Check('C11', ['names.c'], 'names are looked up by their canonical spelling, safely',
              bounds='every string of up to %d bytes; every string that agrees with one of the %d registered names except in a window of %s adjacent bytes, or after inserting one byte anywhere; strings of 38 to %d bytes with two arbitrary bytes anywhere; canonicalization of every string of up to %d bytes'
                     % (3 if q else 4, len(ALLNAMES), '1 (names of up to 6 bytes: 2)' if q else '3', 70 if q else 300, 5 if q else 7),
              assumptions=['the registered names are the frozen list spec/names.json; strings further from every name than the stated windows and longer than the fully arbitrary ones are outside the bounds'])
    nls = [name_list(n - 3, n) for n in range(60)]
    def nl(n):  # windows of at most 3 bytes and '-' templates: the names a string of n bytes can spell
        return nls[n] if n < 60 else name_list(n - 3, n)

    for n in (0, 1, 2):
        c.job('free/%d' % n, 'h_lookup', [n, 1, 255, 0], [name_list(0, n), b'x' * n])
    for lo, hi in parts(1, 255, 255):
        c.job('free/3/%d' % lo, 'h_lookup', [3, lo, hi, 0], [name_list(0, 3), b'xxx'])
    if not q:
        for lo, hi in parts(1, 255, 255):
            c.job('free/4/%d' % lo, 'h_lookup', [4, lo, hi, 0], [name_list(0, 4), b'xxxx'], tmo=3000)
    for n in ALLNAMES:
        c.job('near/%s' % n, 'h_lookup', [3 if not q else 2 if len(n) <= 6 else 1, 1, 255, 0], [nl(len(n)), n])
        c.job('ins/%s' % n, 'h_lookup', [1, 1, 255, 1], [nl(len(n) + 1), n])
    for n in (38, 39, 40, 41, 54, 55, 56, 63, 64, 65, 70) + (() if q else (127, 128, 129, 255, 256, 257, 300)):
        for x in (b'A', b'-', b'\xe9'):
            c.job('long/%d/%s' % (n, x.hex()), 'h_lookup', [2, 1, 255, 0], [name_list(0, n), x * n])
    c.job('long/pad', 'h_lookup', [2, 1, 255, 0], [name_list(0, 65), b'-' * 60 + b'UTF-8'])
    for n in range(6 if q else 8):
        c.job('canon/%d' % n, 'h_canon', [n, 1, 255])
    return c.finish(reach_any=(1, 2, 3))
