#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOOP = {'name': 'conversion loop and reset loop', 'where': 'lib/loop_unicode.h: unicode_loop_convert, unicode_loop_reset'}
CONV = {'name': 'per-encoding decoders and encoders', 'where': 'lib/converters/*.h'}
ALLIN = 'every input byte string and every input character sequence, for every encoding, every output buffer size and every reachable converter state'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = state
    P.append(d)


p('C01', 'Conversion stays inside its buffers and accounts for every byte',
  'For any input bytes, any output buffer size (including 0) and any descriptor state, a conversion or flush call never reads outside the given input, never writes outside the given output and never aborts the program. '
  'It advances the input and output pointers exactly by as much as it decrements the counts, consumes all input when it reports success, and otherwise fails with EILSEQ, EINVAL or E2BIG leaving the offending input unconsumed. '
  'Closing the descriptor frees everything it allocated.',
  ['inputs', 'histories'], ALLIN,
  'The tests convert whole files with large buffers; tight output buffers at every character, truncated input at every byte and the flush of every state are never tried.',
  ['lib/loop_unicode.h', 'lib/iconv.c', 'lib/converters/'], [LOOP, CONV], ['reiconv_iconv', 'reiconv_handle_close'],
  [{'name': 'decoder and encoder state', 'meaning': 'shift state, pending character, byte order', 'where': 'lib/encoding.h: struct conv_struct'}])
p('C02', 'Running out of output space loses and repeats nothing',
  'When a conversion or flush call stops because the output buffer is full, calling it again with the remaining input and more space gives, concatenated, exactly the bytes, the errors and the consumed input of one call with ample space. '
  'A buffer that can hold the whole result is never reported as too small for a single character.',
  ['inputs', 'histories'], 'every input, every point at which the output buffer can become full, every encoding and starting state, including the flush',
  'The tests use output buffers that always suffice, so no resumption happens at all except at one fixed size.',
  ['lib/loop_unicode.h', 'lib/converters/'], [LOOP, CONV], ['reiconv_iconv'])
p('C03', 'Splitting the input anywhere does not change the result',
  'Feeding a text to a descriptor in two pieces, cut at any byte, gives the same output bytes, the same error and the same total input consumed as feeding it in one piece, provided the unconsumed rest of the first piece is put in front of the second. '
  'A cut inside a character makes the first call report an incomplete sequence (EINVAL), not an invalid one.',
  ['inputs', 'histories'], 'every text, every cut position, every encoding, every starting state, with and without discarding',
  'The tests read each file with one fixed buffer size, so a multi-byte character or escape sequence is rarely cut and never at each of its bytes.',
  ['lib/loop_unicode.h', 'lib/converters/'], [LOOP, CONV], ['reiconv_iconv'])
p('C04', 'Flush and reset return a descriptor to its initial state',
  'After a flush (or a plain reset without output buffer) a descriptor converts every following text exactly like a newly opened one, except that a byte order learned from a byte order mark is kept. '
  'A plain reset writes nothing and returns 0; text encoded after a flush is valid and complete on its own.',
  ['inputs', 'histories'], 'every text before and after the flush, every encoding and every state in which the flush happens',
  'The tests never reuse a descriptor after a flush, except for the byte-order test with four fixed inputs.',
  ['lib/loop_unicode.h', 'lib/converters/'], [LOOP, {'name': 'encoder reset and decoder flush functions', 'where': 'lib/converters/*.h: *_reset, *_flushwc'}], ['reiconv_iconv'])
p('C05', 'Unicode encodings follow their definitions exactly',
  'UTF-8, UTF-16, UTF-32, UCS-2 and UCS-4 (each with its BE, LE, internal and swapped forms), UTF-7, C99 and JAVA decode and encode every code point exactly as their definitions say, including byte order marks, surrogate pairs and shortest form. '
  'Overlong, surrogate, out-of-range and truncated sequences are rejected with EILSEQ or EINVAL and never decoded to a character.',
  ['inputs', 'histories'], 'every code point and every byte sequence up to the longest character, at the start of the text and after a byte order mark',
  'The tests compare UTF-8 with one sample table and the others with one snippet each; malformed sequences, other planes and the byte-order forms are barely touched.',
  ['lib/converters/utf8.h', 'lib/converters/utf16.h', 'lib/converters/utf32.h', 'lib/converters/ucs2.h', 'lib/converters/ucs4.h', 'lib/converters/utf7.h', 'lib/converters/c99.h', 'lib/converters/java.h'],
  [{'name': 'Unicode converters', 'where': 'lib/converters/utf*.h, ucs*.h, c99.h, java.h'}], ['reiconv_iconv'])
p('C06', 'What is encoded decodes back to the same characters',
  'For every encoding and every character it can represent, encoding the character and flushing produces bytes that the same encoding decodes completely, without error, to exactly that character, also when it follows other characters. '
  'The only exceptions are the documented one-way mappings of the published tables.',
  ['inputs', 'histories'], 'every Unicode character, every encoding, every encoder state that preceding characters can cause',
  'The tests check the tables of listed encodings in isolation; no test encodes and decodes after other characters, and about forty encodings have no test at all.',
  ['lib/converters/'], [CONV], ['reiconv_iconv'])
p('C07', 'Charset mappings agree with the published tables',
  'Each charset converter decodes every byte sequence to the character its published table assigns, rejects every sequence the table does not assign, and encodes every character to the bytes the table assigns (or refuses it when there are none). '
  'This includes the IBM and EBCDIC code pages.',
  ['inputs'], 'every byte sequence of one to four bytes and every Unicode character, for each charset with a published table',
  'The test suite covers most ASCII-based tables one by one but no IBM or EBCDIC code page, and only through one call per character.',
  ['lib/converters/', 'lib/all_encodings.h', 'lib/encodings.h.snippet'], [CONV, {'name': 'encoding registry', 'where': 'lib/encodings.h.snippet'}], ['reiconv_iconv'])
p('C08', 'Discarding skips exactly the malformed input',
  'With discarding enabled a conversion never reports EILSEQ: it skips an invalid input unit (one byte; two or four for UCS-2/UTF-16 and UCS-4/UTF-32) or a character the target lacks, and converts everything else as without discarding. '
  'Input that converts without loss gives identical output with and without discarding, and an incomplete sequence at the end is still reported.',
  ['inputs', 'histories'], 'every byte string, every encoding and starting state',
  'One test tries a handful of fixed malformed strings.',
  ['lib/loop_unicode.h'], [LOOP], ['reiconv_iconv', 'reiconv_open'])
p('C09', 'Unrepresentable characters are never silently altered',
  'A character the target cannot represent is replaced by U+FFFD and counted in the return value if the target has U+FFFD, and otherwise makes the call fail with EILSEQ at that character, with everything before it converted and nothing written for it. '
  'Only Unicode tag characters (U+E0000 to U+E007F) may be dropped silently; a return value of 0 means that nothing was lost.',
  ['inputs', 'histories'], 'every Unicode character, every target encoding, every encoder state, every buffer size',
  'The tests only look at characters that are in the tables, never at what happens to the others in a stream.',
  ['lib/loop_unicode.h', 'lib/converters/'], [LOOP, CONV], ['reiconv_iconv'])
p('C10', 'Descriptors are independent of each other',
  'Interleaving calls on two descriptors in any order gives on each exactly what it gives alone; conversion keeps no state outside the descriptor and never modifies global data. '
  'So different descriptors may be used concurrently.',
  ['inputs', 'histories', 'schedules'], 'every pair of inputs, every interleaving of calls, every encoding and state',
  'Every test uses one descriptor at a time in one thread.',
  ['lib/iconv.c', 'lib/loop_unicode.h', 'lib/converters/'], [{'name': 'all state lives in the descriptor', 'where': 'lib/encoding.h: struct conv_struct'}], ['reiconv_iconv', 'reiconv_open_from_index'])
p('C11', 'Names are looked up by their canonical spelling, safely',
  'Looking up any NUL-terminated string returns the encoding whose name or alias equals it after upper-casing ASCII letters and removing every - and _, and -1 for every other string, however long and whatever bytes it contains. '
  'Canonicalization writes exactly that upper-cased, stripped, NUL-terminated string, returns its length, and touches nothing beyond it.',
  ['inputs'], 'every byte string as a name',
  'The tests look up a few correct names; unknown, overlong, non-ASCII and near-miss names are not tried.',
  ['lib/iconv.c', 'lib/generated/aliases.h', 'lib/encodings.h.snippet'], [{'name': 'canonicalization and perfect hash', 'where': 'lib/iconv.c: reiconv_name_canonicalize, reiconv_lookup_from_name; lib/generated/aliases.h: aliases_lookup'}], ['reiconv_lookup_from_name', 'reiconv_name_canonicalize'])
p('C12', 'Codepage lookup answers every integer',
  'For every int, looking up a codepage returns the encoding registered for that number (the same one as the name CP or IBM with that number where one exists) and -1 for every other number, negative and huge ones included. '
  'Opening by codepage fails with EINVAL exactly when one of the two numbers is unknown.',
  ['inputs'], 'every int, alone and as a pair',
  'No test looks up a codepage number outside the registered ones.',
  ['lib/iconv.c', 'lib/codepage_to_ei.h', 'lib/encodings.h.snippet'], [{'name': 'codepage table', 'where': 'lib/codepage_to_ei.h'}], ['reiconv_lookup_from_codepage', 'reiconv_open_from_codepage'])
p('C13', 'Opening by name honours both names, //IGNORE and errors',
  'Opening with (tocode, fromcode) converts from the encoding named fromcode to the one named tocode, the names ending at the first slash, and discards malformed input exactly when //IGNORE (in any case) is appended, on the target also when //TRANSLIT follows. '
  'It fails with EINVAL, without reading or writing out of bounds, for every pair of strings in which a name is unknown.',
  ['inputs'], 'every pair of strings as names, every suffix',
  'The tests open a few correct names with one fixed suffix.',
  ['lib/iconv.c'], [{'name': 'suffix parser', 'where': 'lib/iconv.c: reiconv_open'}], ['reiconv_open', 'reiconv_open_from_name'])
p('C14', 'Whole-string conversion equals stepwise conversion',
  'For every input, the size calculation, the fixed-buffer conversion and the allocating conversion agree with converting and flushing step by step: the announced size is exactly the number of bytes produced, a buffer of that size suffices, a smaller one is refused, bytes beyond the result stay untouched, and invalid or truncated input is an error. '
  'Whether they succeed or fail, they leave the descriptor in its initial state, and the result is never a dangling or unowned block.',
  ['inputs', 'histories'], 'every input, every output size, every encoding, results below and above the internal buffer size',
  'No test calls these functions at all.',
  ['lib/iconv.c'], [{'name': 'whole-string helpers', 'where': 'lib/iconv.c: reiconv_result_size, reiconv_convert_static_size, reiconv_convert'}], ['reiconv_result_size', 'reiconv_convert_static_size', 'reiconv_convert'])
p('C15', 'Running out of memory is reported and leaks nothing',
  'If an allocation fails anywhere, opening a descriptor fails with ENOMEM and converting to an allocated result returns -1 with ENOMEM; there is no crash, no leak, no write, and a buffer supplied by the caller stays valid and owned by the caller. '
  'Conversion itself never allocates.',
  ['fault_sequences', 'inputs'], 'every allocation of every call failing or succeeding, every input',
  'No test makes an allocation fail.',
  ['lib/iconv.c', 'lib/reiconv.cpp'], [{'name': 'allocation checks', 'where': 'lib/iconv.c: reiconv_open_from_index, reiconv_convert'}], ['reiconv_open', 'reiconv_convert'])
p('C16', 'The C++ interface converts like the C interface or throws',
  'reiconv::convert returns exactly the bytes the C interface produces and throws std::system_error for input that cannot be converted, releasing its descriptor in every case; with discarding it returns what discarding produces. '
  'Constructing an encoding from a name, std::string or codepage gives the same encoding as the C lookup and throws std::invalid_argument when there is none.',
  ['inputs', 'fault_sequences'], 'every input string, encoding pair of the bound, flag, name and codepage',
  'The C++ test converts a few valid strings.',
  ['lib/reiconv.cpp', 'include/cppp/reiconv.hpp.in'], [{'name': 'C++ wrapper', 'where': 'lib/reiconv.cpp'}], ['reiconv::convert', 'reiconv::Encoding'])
p('C17', 'Every way to name an encoding leads to the same converter',
  'For every encoding the index constants of the C and the C++ header, every registered name and alias and every registered codepage resolve to one and the same index, and a descriptor opened through any of them behaves identically. '
  'Different encodings never share an index.',
  ['configurations', 'inputs'], 'every encoding, alias, constant and codepage; every input within the bound',
  'The tests use one name per encoding and no index constants.',
  ['lib/encodings.h.snippet', 'lib/generated/indexes.h.shippet', 'lib/generated/indexes.hpp.shippet', 'lib/generated/aliases.h', 'include/cppp/encodings/'], [{'name': 'generated index and alias tables', 'where': 'lib/generated/'}], ['reiconv_open_from_index', 'reiconv_open_from_name', 'reiconv_open_from_codepage'])
p('C18', 'Seven-bit and shift encodings keep their line and shift discipline',
  'The ISO-2022 family, HZ and UTF-7 only ever emit bytes below 0x80, announce every charset before its first use, and are back in ASCII after a flush and, where their RFC demands it, at the end of every line. '
  'A control character (in UTF-7 only tab, CR and LF) is encoded as itself in every state and leaves the encoder in ASCII; after a newline every charset is announced again, and the decoders of ISO-2022-CN, -CN-EXT and -JP-2 forget announcements there.',
  ['inputs', 'histories'], 'every character in every encoder state',
  'The tests convert one snippet per encoding, which passes through few of the state transitions.',
  ['lib/converters/iso2022_*.h', 'lib/converters/hz.h', 'lib/converters/utf7.h'], [{'name': 'shift state machines', 'where': 'lib/converters/iso2022_*.h'}], ['reiconv_iconv'])
p('C19', 'Decoders only ever produce Unicode characters',
  'Whatever bytes a decoder is given, in any state, each character it produces is a Unicode scalar value: at most U+10FFFF and not a surrogate (the raw UCS-4 forms and the \\U escape of C99, whose range is wider, excepted). '
  'Hence no byte string in any encoding can make an encoder emit ill-formed Unicode text.',
  ['inputs', 'histories'], 'every byte string, every decoder and state',
  'The tests only feed bytes that are in the tables, plus single invalid sequences.',
  ['lib/converters/'], [CONV], ['reiconv_iconv'])
p('C20', 'The locale charset name is one the library can open',
  'The name returned for the current locale is a static, non-empty string naming the encoding of that locale.',
  ['configurations'], 'every locale and platform', 'No test calls it; the code is not even compiled without the cppp-platform library.',
  ['lib/locale_charset.c', 'lib/locale_charset.cpp'], [{'name': 'locale lookup', 'where': 'lib/locale_charset.c'}], ['locale_charset'])
p('C21', 'Any two encodings convert as through Unicode',
  'For every ordered pair of encodings X and Y a descriptor can be opened, and converting text from X to Y, including the final flush, gives exactly the bytes, the consumed input and the error that decoding X to Unicode and encoding the characters to Y gives, with and without discarding. '
  'No pair of encodings is special.',
  ['configurations', 'inputs'], 'every ordered pair of the 198 encodings, every input within the bound, both flags',
  'The tests convert each encoding to and from UTF-8 only.',
  ['lib/iconv.c', 'lib/loop_unicode.h', 'lib/converters/'], [LOOP, CONV], ['reiconv_open_from_index', 'reiconv_iconv'])
p('C22', 'All forms of an iconv call mean the same',
  'In every state, a call whose input is NULL or points to NULL is a flush, or a plain reset when the output is NULL or points to NULL as well, with the same effect in every form and the null pointers and their counts untouched. A call with an empty input returns 0, writes nothing and changes nothing. '
  'iconv_open, iconv and iconv_close of iconv.h, in the POSIX argument order, do what the functions of the library do.',
  ['inputs', 'histories', 'configurations'], 'every form of the call, every encoding and state, every text afterwards',
  'The tests only use the one form with null pointers everywhere, and never iconv.h.',
  ['lib/iconv.c', 'lib/loop_unicode.h', 'include/iconv.h.in'], [{'name': 'dispatch between conversion, flush and reset', 'where': 'lib/iconv.c: reiconv_iconv; lib/loop_unicode.h: unicode_loop_reset'}, {'name': 'compatibility header', 'where': 'include/iconv.h.in'}], ['reiconv_iconv', 'iconv_open', 'iconv', 'iconv_close'])
p('C23', 'The result of a conversion depends on the input alone',
  'The outcome and the output of every conversion and flush depend only on the encodings, the flags and the calls made on the descriptor: not on what the output buffer or freshly allocated memory contained, nor on the alignment of the buffers, nor on errno.',
  ['inputs', 'histories', 'configurations'], 'every input, every previous content of the output buffer and of heap memory, aligned and unaligned buffers, every encoding and state',
  'Every test starts from zeroed, aligned buffers in a new process.',
  ['lib/loop_unicode.h', 'lib/iconv.c', 'lib/converters/'], [LOOP, CONV], ['reiconv_iconv', 'reiconv_open_from_index'])
NA = {'C20': 'lib/locale_charset.c needs the headers of cppp-platform, which are neither in the repository nor installed, so it is not part of the build here; on this platform it is a single nl_langinfo call, whose result is decided by the C library and the environment, not by code that could be encoded.'}

if __name__ == '__main__':
    claimed = [x['id'] for x in P if os.path.exists(os.path.join(V, 'checks', x['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py setup',
             checks=[dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
                          technique='symbolic execution of the LLVM bitcode of the library, path conditions and assertions decided by z3',
                          level='model_checking',
                          level_note='Every value of the symbolic inputs within the stated bounds is covered by solver verdicts over the compiled code of the current tree; counterexamples are replayed on an AddressSanitizer build before being reported. '
                                     'Trusts clang -O0 bitcode, the executor in engine/ (validated on every run by replaying solver-chosen paths natively) and z3. Nothing is claimed outside the bounds.') for i in claimed],
             not_applicable=[dict(property=x['id'], reason=NA.get(x['id'], 'no check built yet')) for x in P if x['id'] not in claimed],
             notes='Known findings and repaired defects: known-findings.txt. Design, bounds and seeded-bug results: DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print('claimed', claimed)
