#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the texts below (committed output)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def p(id, title, statement, over, quant, why, files, mech, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if note is not None:
        CH.append((id, note))


CH = []

p('C01', 'Binary integers and floats are read exactly',
  'Every fixed-width read (signed and unsigned 8 to 64 bits, 32- and 64-bit floats) returns exactly the little-endian value stored at the requested position, and a compressed integer is either the signed prefix byte itself or, when the prefix is -128, the full-width value behind it. A read succeeds exactly when all its bytes lie inside the data and otherwise returns an error, never a panic. Cursor reads advance the cursor by exactly the bytes consumed, and the owned reader, the slice reader and the free functions agree.',
  ['inputs'], 'all buffer contents and lengths, all positions including those at and beyond the end, all widths and both signs',
  'Unit tests read a handful of fixed values at fixed in-range positions; sign extension, the -128 escape and every truncation point need all byte values and all positions.',
  ['src/reader.rs'], [('bounds-checked reads', 'src/reader.rs: Reader impls'), ('compressed integers', 'src/reader.rs: read_wz_int, read_wz_int64')],
  'Symbolic execution of the real reader code over all contents of buffers up to 10 bytes and all 64-bit positions.', ['read results', 'cursor position'])

p('C02', 'Stored strings decode to exactly the text they encode',
  'Decoding a stored string takes kind and length from its prefix, removes the key stream and the running positional mask from every character, and yields exactly the resulting text (UTF-8 or UTF-16LE, invalid sequences replaced), with the cursor left right behind the string; PKG2 directory names use their own key and no mask. Reading directly, at an offset, lazily (location first, text later), from either reader, through the key-less free functions or through a string block (inline or by displacement) all give the same text. A string whose length is negative or whose bytes are not all present gives an error, never a panic.',
  ['inputs'], 'all string bodies, key streams, lengths, prefix forms, block tags and displacements, including malformed ones',
  'Tests decode a few constant strings with constant keys; the mask wrap-around, the long forms, invalid text, negative lengths and displacements are reached by values the tests never use.',
  ['src/reader.rs', 'src/property/string.rs'], [('raw character decoding', 'src/reader.rs: resolve_ascii_raw, resolve_unicode_raw, resolve_pkg2_dir_raw'), ('string location', 'src/reader.rs: read_wz_string_meta, read_wz_string_block'), ('free functions', 'src/reader.rs')],
  'Symbolic execution over arbitrary bodies and key streams (300 characters raw, 3 characters through text conversion) and all prefixes.', ['decoded text', 'cursor'])

p('C03', 'A created string reads back as the same text',
  'A string value created from any text, with any initialisation vector or in the PKG2 directory form, reads back as exactly that text, and its declared kind is empty, single-byte or wide according to the text. Encrypting a text through a reader and decoding the bytes through a reader with the same key returns the text unchanged.',
  ['inputs'], 'all texts over all Unicode scalar values, all supported kinds and keys',
  'Tests use a few short constants, none outside the basic multilingual plane.',
  ['src/property/string.rs', 'src/reader.rs'], [('creation', 'src/property/string.rs: WzString::from_str, from_str_pkg2_dir, encrypt_str')],
  'Symbolic execution over every string of up to 3 characters (every scalar value) and ASCII strings of 130 and 300 characters.', ['WzString::get_string', 'WzBaseReader::encrypt_str'])

p('C04', 'Key streams depend only on the key, never on how they are requested',
  'The stream of an initialisation vector is the chained AES-256-ECB encryption of the repeated vector under the game key, the same whatever the order and size of earlier requests, and it is replaced completely when the vector is changed; the all-zero vector leaves data unchanged. A PKG2 stream is the 8-byte sequence of overlapping 16-bit windows of its 64-bit key, repeated. Decryption XORs data with the stream and therefore undoes itself; shared decryptors carry the vector they were asked for.',
  ['inputs', 'histories'], 'all initialisation vectors and AES keys, all PKG2 keys, all data, all growth histories',
  'Tests check lengths of the generated stream for one vector and round trips of one constant; they never compare the stream with AES nor vary vector, key or request history.',
  ['src/util/string_decryptor/ecb_decryptor.rs', 'src/util/string_decryptor/pkg2_decryptor.rs', 'src/util/string_decryptor/mod.rs', 'src/util/maple_crypto_constants.rs'],
  [('ECB chain growth', 'ecb_decryptor.rs: ensure_key_size'), ('window keys', 'pkg2_decryptor.rs: calculate_keys'), ('shared decryptors', 'string_decryptor/mod.rs: StringDecryptor')],
  'Symbolic execution, AES included, with iv and AES key as free variables for the first 4096 bytes; growth over boundary sizes.', ['Decryptor trait', 'GLOBAL_STRING_DECRYPTOR'])

exec(open(os.path.join(HERE, 'gen_more.py')).read()) if os.path.exists(os.path.join(HERE, 'gen_more.py')) else None


def write():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                          evidence_file='evidence/%s.json' % i, technique='symbolic execution of the LLVM IR of /repo + SMT (z3, cvc5), counterexamples replayed natively',
                          level='model_checking', level_note=n + ' Bounded: see the bounds and assumptions in the evidence file; trusts rustc/LLVM, the IR semantics of the engine (cross-checked by native replay of sampled paths) and the SMT solvers.') for i, n in CH],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes='No hooks: harnesses use the public API only. The encoding is regenerated from /repo on every run (build_ir.sh).')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


write()
