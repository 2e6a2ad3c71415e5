from vlib import *
from encs import *
SHIFT = ['ISO2022JP', 'ISO2022JP1', 'ISO2022JP2', 'ISO2022JPMS', 'ISO2022JP3', 'ISO2022CN', 'ISO2022CNEXT', 'ISO2022KR', 'HZ', 'UTF7']
CTRL = [x for x in range(1, 32) if x not in (0x0e, 0x0f, 0x1b)] + [0x7f]
SO, ESC = b'\x0e', b'\x1b'
# prefixes that announce charsets, up to and including a line end; what a new decoder sees instead
DECLINE = [('ISO2022CN', ESC + b'$)A' + ESC + b'$*H\n', b'\n'), ('ISO2022CN', ESC + b'$)G\x0e!!\x0f\n', b'\n'), ('ISO2022CN', ESC + b'$)A\r', b'\n'),
           ('ISO2022CNEXT', ESC + b'$)E' + ESC + b'$*H' + ESC + b'$+I\n', b'\n'), ('ISO2022CNEXT', ESC + b'$)A\x0e!!\x0f\n', b'\n'),
           ('ISO2022JP2', ESC + b'.A\n', b'\n'), ('ISO2022JP2', ESC + b'.F' + ESC + b'Na\r', b'\n')]


def main():
    q = TIER == 'quick'
    c = Check('C18', ['stream.c'], 'seven-bit and shift encodings keep their line and shift discipline',
              bounds='every listed encoder state, %s arbitrary 32-bit characters, then each of %d control characters and a letter; after a line feed (and a carriage return: those with announcements per line) one arbitrary character; decoders of ISO-2022-CN, -CN-EXT and -JP-2: %d arbitrary bytes after a line end' % ('0 and 1' if q else '0, 1 and 2', len(CTRL), 4 if q else 5),
              assumptions=['that what is emitted decodes to the same characters is decided by C06, that flushed text is self-contained by C04'])
    for e in SHIFT:
        for i, p in enumerate(states('enc', e)):
            for ctl in CTRL if e != 'UTF7' else (9, 10, 13):
                c.job('ctrl/%s/s%d/%x' % (e, i, ctl), 'h_line', [0, 0, 0, 0, ctl], [e, p])
            for lo, hi in RANGES:
                for ctl in (0x0a, 0x0d) if not q or e in ('ISO2022CN', 'ISO2022CNEXT', 'ISO2022JP2') else (0x0a,):
                    c.job('line/%s/s%d/%x/%x' % (e, i, lo, ctl), 'h_line', [0, 1, lo, hi, ctl], [e, p], join=1)
                if not q:
                    c.job('line2/%s/s%d/%x' % (e, i, lo), 'h_line', [0, 2, lo, hi, 0x0a, 0, 0, 0, 0, 0, 0, 0xffff], [e, p], join=1, tmo=3000)
                for ctl in (0x0a, 0x0d) if not q or e in ('ISO2022CN', 'ISO2022CNEXT', 'ISO2022JP2', 'ISO2022KR') else (0x0a,):
                    c.job('newline/%s/s%d/%x/%x' % (e, i, lo, ctl), 'h_newline', [0, 1, lo, hi, ctl], [e, p], join=1)
    for k, (e, a, b) in enumerate(DECLINE):
        c.job('decline/%s/%d' % (e, k), 'h_decline', [0, 4 if q else 5, 0, 255], [e, a, b], join=0)
    return c.finish(reach_any=(1, 2, 3, 4))
