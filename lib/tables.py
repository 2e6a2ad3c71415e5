"""Which mapping tables exist (spec/tables.zip) and how they are named."""
from encs import *
UNICODE = {'UTF8', 'UCS2', 'UCS2BE', 'UCS2LE', 'UCS4', 'UCS4BE', 'UCS4LE', 'UTF16', 'UTF16BE', 'UTF16LE', 'UTF32', 'UTF32BE', 'UTF32LE', 'UTF7', 'UCS2INTERNAL', 'UCS2SWAPPED', 'UCS4INTERNAL', 'UCS4SWAPPED', 'C99', 'JAVA'}
CHARSETS = [e for e in NAMES if e not in UNICODE]
SHIFT = [e for e in CHARSETS if e.startswith('ISO2022') or e == 'HZ']
# first bytes of the sequences that are longer than two bytes
HEADS = {'EUCJP': [b'\x8f'], 'EUCJISX0213': [b'\x8f'], 'EUCTW': [bytes([0x8e, k]) for k in range(0xa1, 0xb1)], 'DECHANYU': [b'\xc2\xcb']}
QUICK_GB = [bytes([a, b]) for a in (0x81, 0x82, 0x83, 0x84) for b in range(0x30, 0x3a)] + [b'\x90\x30', b'\x90\x31', b'\xe3\x32', b'\xfe\x39']
HEADS['GB18030'] = HEADS['GB18030:2005'] = QUICK_GB
HEADS['ISO2022CN'] = []


def dec_tables(every=False):
    """('D', encoding, state number, prefix, head)"""
    for e in CHARSETS:
        for i, p in enumerate(table_states('dec', e)):
            yield ('D', e, i, p, b'')
            if i == 0:
                for h in HEADS.get(e, []):
                    yield ('D', e, i, p, h)
            if e in ('ISO2022CN', 'ISO2022CNEXT') and b'$*H' in p or e == 'ISO2022CNEXT' and b'$+' in p:
                for ss in ((E + b'N',) if e == 'ISO2022CN' else (E + b'N', E + b'O')):
                    yield ('D', e, i, p, ss)
            if e == 'ISO2022JP2' and E + b'.' in p:
                yield ('D', e, i, p, E + b'N')


def enc_tables():
    """('E', encoding, state number, prefix, lo, exact bytes?)"""
    for e in CHARSETS:
        if e in SHIFT:
            for i, p in enumerate(table_states('enc', e)):
                yield ('E', e, i, p, 0, False)
                if e in ('ISO2022JP3', 'ISO2022CN', 'ISO2022CNEXT'):
                    yield ('E', e, i, p, 0x20000, False)
        else:
            yield ('E', e, 0, b'', 0, True)
            if e in ('EUCTW', 'EUCJISX0213', 'SHIFTJISX0213', 'GB18030', 'GB18030:2005', 'BIG52003') or e.startswith('BIG5HKSCS') or e == 'DECHANYU':
                yield ('E', e, 0, b'', 0x20000, True)


def member(s):
    return '%s/%s/%d/%s' % (s[0], s[1], s[2], s[4].hex() if s[0] == 'D' else '%x' % s[4])
