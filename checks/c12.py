from vlib import *
from encs import *


def main():
    q = TIER == 'quick'
    c = Check('C12', ['names.c'], 'codepage lookup answers every integer',
              bounds='every int for the lookup; opening: every int against a known, an unknown, a negative and a huge number on either side, with both flags, and for known pairs a probe conversion compared with the same pair opened by index',
              assumptions=['the registered codepages are the frozen list spec/names.json'])
    cl = codepage_list()
    for a, b in ((0, 420), (421, 856), (857, 875), (876, 1025), (1026, 1145), (1146, 1200), (1201, 1256), (1257, 9999), (10000, 10020), (10021, 0x7fff), (0x8000, 0xffff), (0x10000, 0x7fffffff), (0x80000000, 0xffffffff)):
        c.job('lookup/%x' % a, 'h_codepage', [a, b], [cl])
        for other in (65001, 1252, 1, 0xffffffff, 0x7fffffff):
            for side in (0, 1):
                c.job('open/%x/%x/%d' % (a, other, side), 'h_opencp', [a, b, other, side], [cl, b'a\x80b'])
    return c.finish(reach_any=(1, 2, 3))
