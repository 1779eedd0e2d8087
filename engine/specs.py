COMMON = [
    'the LLVM IR of /repo (release, LTO, overflow checks on, panic = report) is what is executed; rustc, LLVM and the engine\'s IR semantics are trusted, the latter cross-checked by replaying sampled paths on a native build',
    'heap allocation never fails below 4 GB; rayon is replaced by a sequential stub in the symbolic build; threads are not explored',
]
PROPS = {}


def prop(id, outside, *hs, **kw):
    PROPS[id] = dict(harnesses=list(hs), outside=outside, **kw)


def h(name, bound, cases=((),), covers=(1,), thorough=(), **opts):
    return dict(name=name, bound=bound, cases=[tuple(c) for c in cases], covers=list(covers), thorough=[tuple(c) for c in thorough], opts=opts)


prop('C01', 'buffers longer than 10 bytes; cursor positions above 2^62',
     h('h_c01_at', 'buffers of 0..10 arbitrary bytes, any 64-bit position, the ten fixed-width reads of the owned reader, the slice reader and the free functions',
       [(k, r) for k in range(10) for r in range(3) if not (r == 2 and k > 7)], (1, 2)),
     h('h_c01_cursor', 'buffers of 0..10 arbitrary bytes, any cursor position below 2^62, two reads in a row', [(k,) for k in range(10)], (1, 2)),
     h('h_c01_wzint', 'buffers of 0..10 arbitrary bytes, cursor 0..11, compressed 32-bit and 64-bit integers', [(0,), (1,), (2,)], (1, 2)),
     h('h_c01_pos', 'any two 32-bit cursor positions'))

prop('C02', 'arbitrary (non-UTF-8-clean) text longer than 3 characters; string bodies longer than 22000 characters; the AES key stream itself (C04)',
     h('h_c02_raw', 'arbitrary bodies of 0..300 (one case 22000) characters under an arbitrary key stream, every stored kind, both readers',
       [(k, n, o) for k in range(3) for n, o in [(0, 0), (1, 1), (2, 3), (90, 0), (300, 2)]] + [(1, 22000, 0)], thorough=[(2, 22000, 1), (0, 22000, 0)]),
     h('h_c02_text', 'arbitrary bodies of 0..3 characters, short and long length form, every reading path',
       [(k, n, l) for k in range(2) for n in range(3) for l in range(2)] + [(0, 3, 0), (1, 3, 0)], thorough=[(0, 4, 0), (1, 4, 1), (0, 3, 1), (1, 3, 1)]),
     h('h_c02_prefix', 'every prefix byte, every 32-bit explicit length, truncated and complete bodies of readable text', [(0,), (1,)], (1, 2)),
     h('h_c02_block', 'every block tag, every 32-bit displacement (landing on a stored string, or outside the data), three bases', [(0,), (1,), (2,)], (1, 2)),
     h('h_c02_free', 'arbitrary bodies of 0..2 characters, complete or cut short, both length forms, inline and displaced blocks',
       [(k, n, c, l) for k in range(2) for n in (1, 2) for c in (0, 1) for l in (0, 1) if not (k == 0 and n == 2 and c == 0 and l == 1)], (1, 2)),
     h('h_c02_pkg2dir', 'every 8-bit and the boundary 16-bit length prefixes, arbitrary text up to 3 units', [(0,), (1,)], (1, 2)))

prop('C03', 'texts longer than 3 arbitrary (or 300 ASCII) characters; ivs other than the four named',
     h('h_c03_create', 'all strings of 0..3 characters by UTF-8 width class (every scalar value), four ivs and the PKG2 directory form',
       [(i, a, b, 0) for i in (0, 1, 4) for a in range(5) for b in range(5) if not (a == 0 and b)] + [(2, 1, 3, 0), (3, 4, 1, 0), (0, 3, 3, 3), (0, 1, 4, 1), (4, 4, 4, 4)],
       thorough=[(i, a, b, c) for i in range(5) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]),
     h('h_c03_encrypt', 'all strings of 0..3 characters by UTF-8 width class, each stored kind',
       [(0, 0, 0, 0, t) for t in range(3)] + [(0, a, b, 0, t) for t in range(3) for a in range(1, 5) for b in range(1, 5)] + [(0, 3, 2, 1, t) for t in range(3)]),
     h('h_c03_long', 'ASCII strings of 130 and 300 characters', [(i, n) for i in (0, 1, 2, 4) for n in (130, 300)]))

prop('C04', 'request sizes other than the listed ones (0, 1, 17, 4095, 4096, 4097 in any two steps); the AES block function itself, which oracle and implementation share',
     h('h_c04_iv', 'every non-zero iv, the default and every explicit AES key: all 4096 bytes of the first batch', [(0, 256), (1, 256)]),
     h('h_c04_grow', 'two growth steps over the boundary sizes, arbitrary data', [(i, a, b) for i in (0,) for a in range(6) for b in range(6)] + [(1, 1, 5), (2, 4, 5), (3, 5, 1)]),
     h('h_c04_at', 'growing accessor at boundary indices', [(0,), (15,), (4095,), (4096,), (8191,), (8192,)]),
     h('h_c04_zero', 'arbitrary 40-byte data under the zero iv'),
     h('h_c04_set_iv', 'every pair of named ivs, stream used or not before', [(o, n, k) for o in range(3) for n in range(3) for k in (0, 20, 4100)]),
     h('h_c04_pkg2', 'every 64-bit key and previous key, arbitrary data of 0..40 bytes', [(n,) for n in (0, 1, 7, 8, 9, 20, 40)]),
     h('h_c04_pkg2_keys', 'every pair of 32-bit and of 64-bit hashes'),
     h('h_c04_shared', 'every iv and every named version'))

_K = range(23)
prop('C05', 'images other than the listed ones with more than one corrupted window; nesting deep enough to exhaust the stack; contents of pictures (C12)',
     h('h_c05_cut', 'every image of the 23 value kinds (contents symbolic) cut at every point', [(k, 0, 0) for k in _K] + [(k, s, m) for k in (12, 14, 15, 16, 20) for s, m in ((0, 1), (1, 0), (3, 0))], (1, 2, 3)),
     h('h_c05_window', 'every image of the 23 value kinds with any byte changed to anything, strings inline or by displacement; whole parse and direct access',
       [(k, 0, 1, 0, 300, 0) for k in _K] + [(k, 1, 1, 0, 300, 0) for k in (3, 9, 12, 14, 16, 20)] + [(k, s, 1, 0, 300, 1) for k in (12, 14, 20) for s in (0, 1)] + [(k, 0, 2, 0, 300, 0) for k in (1, 9)], (1, 2, 3),
       thorough=[(k, 0, 2, 0, 300, 0) for k in _K] + [(k, 0, 1, 0, 300, m) for k in _K for m in (0, 1)] + [(k, 1, 1, 0, 300, 0) for k in _K] + [(k, 1, 4, 0, 300, 0) for k in (3, 9, 12, 18)], fork_reads=True),
     h('h_c05_small', 'any short image under any of the special names, any place, any declared size', [(0, 4, 0), (0, 10, 9), (0, 5, 5), (1, 3, 0), (2, 3, 0)], (1, 2), thorough=[(0, 6, 0), (0, 12, 9), (0, 6, 5), (1, 5, 0), (2, 3, 0)], fork_reads=True))

prop('C06', 'headers longer than 68+88 bytes of other content (only the listed lengths); the copyright text between the fields is not interpreted',
     h('h_c06_ident', 'every buffer of the listed lengths with a PKG1, PKG2 or no ident, fully symbolic sizes, starts and version words', [(1, 26), (2, 26), (1, 20), (2, 20)], (1, 2),
       thorough=[(1, 40), (2, 40), (1, 26), (2, 26), (1, 20), (2, 20), (1, 18), (2, 16)]),
     h('h_c06_ident', 'the same, too short to be a header', [(0, 8), (1, 14), (0, 3), (0, 0)], (2,)),
     h('h_c06_random', 'every buffer of the listed lengths without ident: 32-bit and 64-bit random header forms and neither', [(68,), (75,), (150,), (156,)], (1, 2)))

prop('C07', 'nothing within the 32-bit (hash: 64-bit) domain of the formulas',
     h('h_c07_offset', 'all header sizes, header hashes, file hashes, positions and stored offsets', [(v,) for v in range(5)]),
     h('h_c07_count', 'all header hashes, file hashes and stored counts', covers=(1, 2)))

prop('C08', 'versions outside 0..2000 except the sampled windows up to 2^31',
     h('h_c08_hash', 'versions 0..1999 and windows at every digit count, any 32-bit stored check value', [(i, 250) for i in range(0, 2000, 250)] + [(9990, 20), (99990, 20), (999990, 20), (9999990, 20), (999999990, 20), (2147483640, 7)]),
     h('h_c08_search', 'any stored check byte, ranges of up to 2000 versions', [(0, 300), (300, 300), (0, 2000), (9990, 30), (5, 1), (5, 0)]))

_T = [(1, 0)] + [((i * 0x9E3779B1) & 0xFFFFFFFF, (i * 0x85EBCA6B) & 0xFFFFFFE0 | i) for i in range(32)]
_U = [((i * 0x9E3779B1) & 0xFFFFFFF0 | a, (i * 0x85EBCA6B) & 0xFFFFFFF0 | b) for i, (a, b) in enumerate([(0, 0), (0, 15), (15, 15), (1, 15), (15, 1), (8, 8), (3, 4), (7, 8), (5, 12), (12, 13)])]
prop('C09', 'completeness for header hash pairs other than the listed ones; the enumeration of 2^32 candidates in generations 4 and 5 (their acceptance test is covered)',
     h('h_c09_verify', 'all hashes and targets of the six generations', [(g,) for g in range(1, 7)]),
     h('h_c09_complete', 'listed header hashes (all rotation amounts), all 2^32 targets', [(2, a, b) for a, b in _T] + [(3, a, b) for a, b in _U] + [(2, 0, 0), (2, 77, 32), (3, 0, 16), (2, 0xFFFFFFFF, 0xFFFFFFFF), (3, 0xFFFFFFFF, 15)],
       thorough=[(2, a, b) for a, b in _T] + [(3, a * 77 & 0xFFFFFFF0 | s, b * 31 & 0xFFFFFFF0 | t) for a, b in _U for s in (0, 5, 15) for t in range(0, 16, 3)] + [(2, 0, 0), (2, 77, 32), (3, 0, 16), (2, 0xFFFFFFFF, 0xFFFFFFFF), (3, 0xFFFFFFFF, 15)]),
     h('h_c09_profiles', 'every profile, all 64-bit hashes'))

_S = [(1, 1), (3, 2), (7, 3), (33, 9), (64, 4), (2, 0), (0, 3)]
prop('C10', 'sizes other than the listed ones; RGB565_517 sizes that are not multiples of 16; compressed deflate blocks (flate2/miniz, trusted)',
     h('h_c10_raw', 'every pixel byte, the listed sizes, formats BGRA4444, BGRA8888, ARGB1555, RGB565, R16, RGBA1010102', [(f, w, k) for f in (1, 2, 257, 513, 769, 2562) for w, k in _S],
       thorough=[(f, w, k) for f in (1, 2, 257, 513, 769, 2562) for w, k in _S + [(100, 37), (37, 100), (256, 16), (5, 300)]]),
     h('h_c10_raw', 'every pixel byte, RGB565_517', [(517, 16, 16), (517, 32, 16), (517, 16, 48), (517, 48, 32), (517, 0, 0)]))
_B = [(4, 4), (8, 4), (4, 8), (8, 8), (5, 3), (1, 1), (6, 6), (10, 7), (3, 9), (13, 5)]
prop('C11', 'sizes other than the listed ones; two symbolic blocks at once; BC7 modes other than 6 (block decoder of texture2ddecoder, trusted)',
     h('h_c11_dxt', 'every content of each single block, DXT3, DXT3 small and DXT5, the listed sizes',
       [(1026, w, k, ((w + 3) // 4) * ((k + 3) // 4) - 1) for w, k in _B] + [(1026, 8, 8, 0), (1026, 10, 7, 2), (3, 4, 4, 0), (3, 5, 6, 3), (3, 1, 1, 0), (2050, 4, 4, 0), (2050, 8, 8, 2), (2050, 10, 7, 5), (2050, 3, 9, 1), (2050, 1, 1, 0), (2050, 13, 5, 3)],
       thorough=[(f, w, k, b) for f in (1026, 2050, 3) for w, k in _B for b in range(((w + 3) // 4) * ((k + 3) // 4))]),
     h('h_c11_bc7', 'every mode 6 block: all endpoints, all indices', [(w, k, b, s) for w, k in [(4, 4), (8, 4), (5, 6), (9, 9), (1, 3)] for b in sorted({0, ((w + 3) // 4) * ((k + 3) // 4) - 1}) for s in (0, 1)]))
prop('C12', 'malformed streams longer than 7 bytes; more than 3 encrypted blocks; the inflate implementation (the symbolic build uses miniz, the native one zlib-ng)',
     h('h_c12_data', 'every pixel byte, four zlib headers and four block-chained encrypted layouts', [(f, n) for f in range(8) for n in (1, 2, 9)]),
     h('h_c12_short', 'widths 0..255 and boundary values to 2^32-1, heights and data sizes listed', [(2, 1, 7), (1, 3, 9), (1026, 4, 31), (2050, 5, 47), (3, 1, 15), (4098, 9, 16), (517, 16, 4), (517, 300, 0), (513, 7, 0), (257, 1, 40), (769, 2, 11), (2562, 65536, 40), (2, 4294967295, 8), (1, 4294967293, 8)]),
     h('h_c12_total', 'any position, length and header over any buffer of up to 7 bytes', [(n,) for n in (5, 6, 7)], (1, 2) if False else (2,), thorough=[(n,) for n in (5, 6, 7, 8)]),
     h('h_c12_format', 'every pair of 32-bit format number and 8-bit addend that is not supported'))

prop('C13', 'lists of more than four entries and nesting deeper than four; strings longer than 2 arbitrary characters (C02); pictures (C10-C12)',
     h('h_c13_value', 'every value kind (all contents) between two others, strings inline, displaced, long-form, encrypted, with unused bytes at the end of blocks', [(k, b, s) for k in _K for b, s in ((0, 0), (3, 1), (3, 10), (7, 15), (3, 16), (0, 27))]),
     h('h_c13_tree', 'every pair of value kinds next to each other, in a list and one level deeper', [(k, s) for k in _K for s in (0, 5)]))
prop('C14', 'paths through duplicate names',
     h('h_c14_paths', 'all paths of a three-level tree of every pair of value kinds (all contents), and paths that do not exist', [(k, s) for k in _K for s in (0, 1, 10, 27)]))
_P = (0, 1, 2, 3, 4, 5, 6)
prop('C15', 'trees other than the four listed shapes; name texts (C02); the search over all 2^32 hashes of 32-bit PKG2 files (their hash comes from a remembered profile); directories with more than three entries',
     h('h_c15_dir', 'seven package layouts, four trees, name forms, several content starts, every header and file hash (PKG1: in the two smaller trees, otherwise three hashes), checksum, image content and first character of each name',
       [(k, s, y, f, i) for k in _P[2:] for s in range(3) for y, f, i in ((0, 60, 4), (9, 17, 4), (1, 100, 1))]
       + [(k, s, y, f, 4 if s < 1 or s == 1 and y < 2 else i) for k in (0, 1) for s in range(4) for y, f, i in ((0, 60, 0), (9, 17, 1), (1, 100, 2), (2, 60, 0), (4, 60, 1), (7, 60, 2), (15, 60, 0))]),
     h('h_c15_file', 'whole packages: versions found by search or given, remembered and computed hashes, every checksum and image content',
       [(k, s, y, 60, v, g) for k, v in ((0, 1), (0, 95), (0, 113), (0, 176), (0, 1999), (1, 770), (1, 777), (1, 780)) for s, y in ((2, 0), (3, 6)) for g in (0, 1)] + [(k, s, y, 60, i, 0) for k in range(2, 7) for s, y in ((1, 0), (2, 9)) for i in range(3)]))
prop('C16', 'several corrupted bytes at once; nesting deep enough to exhaust the stack',
     h('h_c16_verify', 'every stored position and size of one entry (image or directory), seven package layouts, three hashes', [(k, d, i) for k in _P for d in (0, 1) for i in ((0,) if k < 2 else range(3))], (1, 2)),
     h('h_c16_window', 'packages with any byte changed to anything', [(k, 1, 0, 300) for k in _P] + [(0, 3, 0, 300)], (1, 2), thorough=[(k, s, 0, 600) for k in _P for s in (1, 2)] + [(0, 3, 0, 300), (1, 3, 0, 300)], fork_reads=True, conc_limit=700),
     h('h_c16_cut', 'packages cut at every point', [(k, s) for k in _P for s in (1, 2)], (2,), conc_limit=700))

prop('C17', 'trees other than the six listed shapes (up to seven nodes); name and path lengths other than the listed ones; non-ASCII names; cyclic trees',
     h('h_c17_lookup', 'every ASCII path of the listed lengths from every node, every ASCII name (without slash) of the listed lengths', [(0, 1, 3), (0, 12, 5), (1, 1, 5), (5, 210, 4), (2, 20, 2), (3, 1, 6), (4, 1, 0), (4, 2, 2), (0, 3, 7), (2, 1, 0), (5, 1, 11)], (1, 2) if False else (2,),
       thorough=[(s, l, n) for s in range(6) for l in (1, 12, 201, 3) for n in range(12)]),
     h('h_c17_paths', 'all names of the listed lengths, every node of the tree', [(s, l) for s in range(6) for l in (1, 12, 210, 31)], (2,)),
     h('h_c17_merge', 'all names of the listed lengths, every way the names of the two trees coincide', [(a, b, l, m) for a in range(6) for b in range(6) for l, m in ((1, 1), (12, 21))],
       thorough=[(a, b, l, m) for a in range(6) for b in range(6) for l, m in ((1, 1), (12, 21), (210, 12), (2, 2))]))
_I = [(0, 17), (5, 7), (5, 71), (5, 189), (0, 7), (1, 197), (3, 9), (2, 7)]
prop('C18', 'trees and names other than the listed ones; .ms images',
     h('h_c18_image', 'every path of up to four node names, names with .img anywhere in them', [(s, l, 0, n) for s, l in _I for n in ((1, 2, 3) if s in (0, 3) else (1, 2, 3, 4))], (2,)),
     h('h_c18_image', 'every ASCII path of the listed lengths', [(s, 1, n, 0) for s in (0, 1, 3, 5) for n in (1, 3, 6)] + [(5, 7, 12, 0)], (2,), thorough=[(s, l, n, 0) for s in (0, 1, 3, 5) for l in (1, 12, 7) for n in range(1, 14)]),
     h('h_c18_node', 'every pair of value kinds (all contents) in an image two levels down, before and after parsing it', [(k, i % 3) for i, k in enumerate(_K)]))
prop('C19', 'UOLs that lead to or through other UOLs; links out of the image while it is being parsed; text other than ASCII; other trees',
     h('h_c19_uol', 'every ASCII UOL text of the listed lengths at four places of an image, resolved by parsing', [(n, i) for i in range(4) for n in (0, 1, 3, 4, 6)], (2,), thorough=[(n, i) for i in range(4) for n in range(10)]),
     h('h_c19_tree', 'every ASCII UOL text of the listed lengths at every node of a tree, resolved on its own and as text', [(0, 1, 4), (5, 12, 5), (4, 1, 3), (1, 1, 6), (3, 1, 5), (2, 2, 4)], (2,), thorough=[(s, l, n) for s in range(6) for l in (1, 12) for n in range(8)]),
     h('h_c19_image', 'every ASCII text of the listed lengths in two _inlinks and two _outlinks between six nodes', [(a, b) for a in (1, 3, 9) for b in (1, 3, 12)] + [(10, 10)], (1, 2)))
prop('C20', 'more steps than listed (thorough: one more); trees other than three; images other than with one value; .ms files',
     h('h_c20_history', 'every sequence of the listed number of parse, unparse and walk (with and without parsing) operations on any node', [(k, 1, 3) for k in _P] + [(k, 2, 2) for k in (0, 2, 5)] + [(1, 3, 3)], (1, 2),
       thorough=[(k, 1, 4) for k in _P] + [(k, 2, 3) for k in _P] + [(1, 3, 4)]))
_C21i = [(k, n, 0) for k in (0, 1) for n in (0, 1, 5)] + [(k, n, s) for k, s in ((2, 0), (3, 2)) for n in (0, 1, 2, 3)]
prop('C21', 'texts of other lengths; headers of sounds longer than listed; contents of sounds beyond the listed lengths',
     h('h_c21_kind', 'all header contents, sizes and durations, for the listed header lengths', [(n,) for n in (0, 0x45, 0x46, 0x47, 0x52)], (1,)),
     h('h_c21_sound', 'all headers and contents, each kind of sound', [(k, n, s) for k in (0, 1, 2) for n, s in ((0, 0), (1, 3), (17, 1))], (1,)),
     h('h_c21_raw', 'all contents', [(n, s) for n in (0, 1, 9) for s in (0, 3)], (1,)),
     h('h_c21_image', 'text images and lua images, all contents', _C21i, (1,), thorough=[(2, 4, 1), (3, 4, 0)]),
     h('h_c21_lua', 'all texts of up to 3 (thorough: 4) free bytes behind a fixed beginning that ends before, at and behind the tested first 64 bytes, each key',
       [(f, 2, k, s) for k, s in ((0, 0), (1, 3), (2, 1)) for f in (0, 61, 62, 63, 64, 70)] + [(0, 3, 1, 0), (62, 3, 0, 0), (61, 3, 2, 0)], (1,),
       thorough=[(f, 4, k, 0) for k in (0, 1, 2) for f in (0, 60, 61, 62, 63)]))
_J = [k for k in range(23) if not 18 <= k <= 21]
prop('C22', 'images of other shapes; NaN and infinite floats in full JSON (JSON has none); the text form of JSON (serde_json)',
     h('h_c22_simple', 'images holding every pair of value kinds with all contents, strings of 2 characters', [(k,) for k in range(23)], (1,)),
     h('h_c22_full', 'images holding every value kind that has full JSON at three places, all contents', [(k, p) for k in _J for p in (0, 1, 2)], (1,)),
     h('h_c22_file', 'all file data, path of 3 characters', [()], (1,)))
_V = (0, 1)
prop('C24', 'opening the file itself (MsFile::from_file: memory map, first format before second); keys from other names and salts than listed; the v1 image key of names that are not ASCII',
     h('h_c24_snow', 'all data of up to 40 words in any two pieces, listed keys', [(n, k) for n in (1, 16, 17, 40) for k in range(4)], (1,)),
     h('h_c24_header', 'all random bytes, counts and unused bytes, for listed names and salts', [(v, n, s) for v in _V for n, s in ((0, 1), (1, 0), (2, 2), (3, 3))], (1,), thorough=[(v, n, s) for v in _V for n in range(4) for s in range(4)]),
     h('h_c24_file', 'all contents of up to 6 entries, listed names', [(v, n, s, k) for v in _V for n, s, k in ((0, 1, 0), (0, 1, 2), (1, 0, 4), (2, 2, 1), (3, 3, 3))], (1,), thorough=[(v, n, s, 4) for v in _V for n in range(4) for s in range(4)]),
     h('h_c24_image', 'contents of images around the first 1024 bytes, listed sizes, salts and keys', [(v, s, n, k, a, b) for v in _V for s, n, k, a, b in ((0, 0, 0, 20, 32), (1, 1, 1, 1100, 2048), (2, 2, 1, 1024, 1024), (3, 0, 1, 3, 1027))] + [(1, 1, 3, 0, 60, 64)], (1,)),
     h('h_c24_parse', 'any value in an image, from the file to the node', [(v, n, s, e) for v in _V for n, s, e in ((0, 1, 0), (1, 0, 1), (3, 2, 2))] + [(1, 0, 1, 3)], (1,)))
prop('C25', 'files damaged at several places at once; random bytes other than a fixed pattern',
     h('h_c25_header', 'headers cut off at every byte, every length of the salt, all encrypted headers, every version byte', [(v, n, s, k) for v in _V for n, s in ((0, 1), (1, 0)) for k in (0, 1)] + [(v, n, s, 2) for v in _V for n, s in ((0, 1), (3, 2))] + [(1, 0, 1, 3), (1, 1, 0, 3)], (1,), conc_limit=1500),
     h('h_c25_other', 'files of the second format with any first byte', [(0, 1), (1, 0), (2, 2), (3, 3)], (1,)),
     h('h_c25_entries', 'every length of a name, number of entries, place and size; cut off at every third byte', [(v, k) for v in _V for k in (0, 1, 3)] + [(v, 4) for v in _V] + [(v, 2) for v in _V], (), conc_limit=1500))

prop('C26', 'keys other than the three named ones and one more; names of more than three characters; 64-bit packages (their keys depend on their headers)',
     h('h_c26_img', 'images that begin with "Property" stored in any form under four keys, as they are and with any of their bytes changed to anything', [(0, k, f) for k in range(4) for f in range(4)] + [(1, k, k) for k in range(4)], (1, 2), thorough=[(1, k, f) for k in range(4) for f in range(4)]),
     h('h_c26_img', 'images with any contents, up to 3 (thorough: 5) bytes', [(2, n) for n in range(4)], (2,), thorough=[(2, 4), (2, 5)]),
     h('h_c26_file', 'packages with any bytes behind the header', [(k, 60, n) for k in (1, 2) for n in (0, 1, 2, 3, 4)] + [(1, 17, 4), (2, 16, 4), (0, 0, 3)], (1, 2), thorough=[(1, 60, 5), (2, 60, 5), (0, 0, 4)]),
     h('h_c26_name', 'first entries named anything of one character (thorough: up to 3) in any form under any of five keys, here or elsewhere', [(1, 60, f, 1) for f in range(8)] + [(2, 60, f, 1) for f in (0, 3)] + [(0, 0, 6, 1)], (1, 2), thorough=[(k, 60, f, n) for k in (0, 1, 2) for f in range(8) for n in (0, 1, 2)] + [(1, 17, 0, 3)]),
     h('h_c26_pkg2', 'second-format directories of two entries, one byte behind the first name anything, or cut off behind it', [(f, i) for f in (0, 1) for i in (0, 1, 2, 3, 4, 5, 7, 9, 11, 12)], (1, 2), thorough=[(f, i) for f in (0, 1) for i in range(20)]))
prop('C23', 'the distance of vectors (square roots of symbolic floats cannot be encoded); sums and differences that do not fit into 32 bits; names of other lengths',
     h('h_c23_cast', 'every kind of node, all values', [(k,) for k in range(23)], (1,)),
     h('h_c23_name', 'all ASCII names of the listed lengths, with and without a tail of wider characters', [(a, b, w) for w in (0, 1) for a, b in ((0, 0), (1, 1), (3, 3), (7, 7), (8, 8), (9, 9), (16, 16), (17, 17), (2, 3), (0, 1))], (1, 2), thorough=[(a, b, w) for w in (0, 1) for a in range(20) for b in (a, a + 1)]),
     h('h_c23_vector', 'all vectors', [()], (1,)),
     h('h_c23_header', 'every byte', [()], (1, 2)))

prop('C27', 'names of files that are not UTF-8; what the disk does while a file is mapped; PKG2 files whose hash has to be searched (the profile is one of the remembered ones)',
     h('h_c27_wz', 'packages of every format, under every known key and one that has to be given, with all contents of their images; the version or key unknown, given, or given wrongly', [(k, i, p, g) for k in (0, 1) for i in (0, 1, 2) for p, g in ((0, 0), (1, 1), (2, 2), (3, 3), (0, 4))] + [(0, 3, 1, 3)] + [(2, i, p, g) for i in (0, 1, 2) for p, g in ((1, 0), (0, 1), (1, 2), (0, 3), (1, 4))] + [(k, 2, p, g) for k in (3, 4, 5, 6) for p, g in ((0, 0), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4))], (1,)),
     h('h_c27_img', 'images under four keys, with all contents of three values; the version or key unknown, given, or given wrongly', [(k, g) for k in range(4) for g in range(5)], (1, 2)),
     h('h_c27_ms', 'files of both formats, all contents of a value', [(v, e) for v in (0, 1) for e in (0, 1)], (1,)),
     h('h_c27_bad', 'files missing, unreadable, empty or a directory; files of any contents of up to 8 bytes, also behind a package header', [(0, n, k) for n, k in ((0, 9), (4, 9), (1, 1), (2, 1), (3, 1), (3, 2), (8, 2), (9, 2))] + [(1, n, 9) for n in (0, 1, 2, 3)] + [(2, n, 9) for n in (0, 4, 8)], (1, 2)))
prop('C28', 'installations of other shapes than listed; the same name as a folder and as a file; numbered files holding the same names; names that are not UTF-8',
     h('h_c28_layout', 'installations laid out flat, in folders, with numbered files and nested folders among unrelated ones, in several orders of listing, named by absolute or relative paths, with all contents of their images', [(l, k, 0, 0) for l in (0, 1, 2) for k in (0, 1, 2)] + [(l, 2, k, 0) for l in (0, 1, 2) for k in (1, 2, 3, 4, 5, 6)] + [(l, 2, 0, 0) for l in (3, 4, 5, 6)] + [(0, 2, 0, 1), (1, 1, 0, 1), (2, 0, 0, 1)], (1,), thorough=[(l, 2, k, 1) for l in (0, 1, 2) for k in range(7)]),
     h('h_c28_bad', 'any one file of an installation missing, unreadable, empty, a directory, any five bytes, or cut off anywhere', [(i, w) for i in range(5) for w in range(6)], (1, 2)))
