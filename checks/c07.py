from vlib import *
from encs import *
import array, tables, zipfile


def main():
    c = Check('C07', ['tables.c'], 'charset mappings agree with the published tables',
              bounds='every byte string of 1 and 2 bytes (after each lead sequence of the three- and four-byte forms) in every listed decoder state; every Unicode code point in every listed encoder state; '
                     'the four-byte forms of GB18030 by table for the lead bytes 81-84 and by the linear formula for the others',
              assumptions=['spec/tables.zip is the reference; it was compared with, and is equal to, every published table in tests/data; the few encodings without one there (ISO-2022 family, HZ, IBM943, JIS and KSC sets) are frozen from the pinned tree',
                           'for the shift encodings the encoder is only compared on which characters it accepts; the bytes are decided by C06 (they decode back) and the decoder tables here'])
    z = zipfile.ZipFile(os.path.join(SPEC, 'tables.zip'))
    td = os.path.join(c.b.dir, 't')
    os.makedirs(td)

    def table(s):
        m = tables.member(s)
        b = z.read(m)
        p = os.path.join(td, m.replace('/', '_').replace(':', '.'))
        open(p, 'wb').write(b)
        return b, DataFile(p)
    for s in tables.dec_tables():
        _, e, i, p, head = s
        b, f = table(s)
        A1 = array.array('I', b[:1024])
        kind = (1 if e in COMPOSING else 0) | (2 if e in tables.SHIFT and not (e == 'ISO2022JP3' and p) else 0) | (4 if p and e in PENDING_DEC else 0)
        tag = '%s/s%d/%s' % (e, i, head.hex() or '-')
        c.job('dec1/' + tag, 'h_tdec', [1, kind, 0, 255], [e, p, head, f], join=1)
        if kind & 3 or any(a == 0x80000000 for a in A1):
            c.job('dec2/' + tag, 'h_tdec', [2, kind, 0, 255], [e, p, head, f], join=1)
    have = {}
    for s in tables.enc_tables():
        _, e, i, p, lo, exact = s
        have.setdefault((e, i), set()).add(lo)
        b, f = table(s)
        c.job('enc/%s/s%d/%x' % (e, i, lo), 'h_tenc', [int(exact), lo, lo + 0xffff, 1], [e, p, b'', f], join=1)
    for (e, i), los in have.items():
        p = table_states('enc', e)[i]
        for lo, hi in [(0x10000, 0x1ffff), (0x20000, 0x2ffff), (0x30000, 0xffffffff)]:
            if lo not in los and not e.startswith('GB18030'):
                c.job('enc/%s/s%d/%x' % (e, i, lo), 'h_tenc', [0, lo, hi, 0], [e, p], join=1)
    for e in ('GB18030', 'GB18030:2005'):
        for lo, hi in [(0x85, 0x8f)] + [(k, k + 7) for k in range(0x90, 0xe0, 8)] + [(0xe0, 0xe2), (0xe3, 0xe3), (0xe4, 0xff)]:
            c.job('gb4/%s/%x' % (e, lo), 'h_gb4', [lo, hi], [e], join=1)
        for lo in list(range(0x10000, 0x110000, 0x10000)) + [0x110000]:
            c.job('gb4enc/%s/%x' % (e, lo), 'h_gb4enc', [lo, lo + 0xffff if lo < 0x110000 else 0xffffffff], [e], join=1)
    return c.finish(reach_any=(1, 2, 3, 4, 5, 6, 7))
