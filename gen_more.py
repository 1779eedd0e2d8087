p('C06', 'The package header is recognised and read exactly',
  'Given the first bytes of a package, the header reader determines the package kind (PKG1, PKG2, or the ident-less 32-bit and 64-bit forms whose fields are scattered over the random prefix and whose length field must equal the content length), and returns exactly the stored content size, content start, directory start, encrypted version and header hashes. A PKG1 header has no encrypted version when the version word is missing, above 255, or is the 0x80 that belongs to an entry count; then the directory starts right at the content start. Anything else is an error, never a panic, and readers built on such data expose an empty header.',
  ['inputs'], 'all header bytes, including arbitrary content starts, truncated fields and every version word',
  'Tests build one well-formed header each; the header-less forms, content starts pointing anywhere and the version heuristics depend on all values of several fields at once.',
  ['src/header.rs', 'src/reader.rs'], [('ident and fields', 'src/header.rs: read_from_buf'), ('version word heuristic', 'src/header.rs: check_64bit_client')],
  'Symbolic execution over all bytes of buffers of 0 to 156 bytes.', ['WzHeader', 'reader.header'])
p('C07', 'Stored offsets decode to the positions the format defines',
  'For each of the five offset schemes the stored 32-bit value of an entry decodes to exactly the position given by the published formula over the entry position, header size, header hash and file hash (32-bit wrapping arithmetic throughout), so the decoded position always fits 32 bits and two different stored values at the same place never decode to the same position. The encrypted 64-bit entry count decodes by its formula and is rejected when it is not a non-negative 31-bit number.',
  ['inputs'], 'all header sizes, hashes, entry positions and stored values',
  'Tests check a constant or two per scheme; sign extension, rotation amounts and carries differ across the 128-bit input space.',
  ['src/util/offset.rs'], [('five schemes', 'src/util/offset.rs')],
  'Symbolic execution over all values of all inputs, no bound.', ['OffsetCalculator', 'EntryCountCalculator'])
p('C08', 'The PKG1 version search offers exactly the matching versions',
  'The hash of a version number is the published polynomial over its decimal digits (32-bit wrapping), the check value its folded complement. Walking a version range visits every version in it exactly once, in order, then ends; a version yields its hash exactly when the stored check value equals the version itself or the folded value, or is the 770 that stands for a file without one, and 0 otherwise.',
  ['inputs'], 'all versions and all stored check values',
  'Tests look at six versions with one check value; a search that skips or mis-hashes one version number leaves those passing.',
  ['src/util/version/pkg1.rs'], [('hash and search', 'src/util/version/pkg1.rs: VersionGen')],
  'Symbolic execution, any stored value, versions 0 to 1999 plus windows at larger digit counts.', ['VersionGen iterator'])
p('C09', 'The PKG2 version search finds every acceptable hash and nothing else',
  'For each PKG2 generation the acceptance test is exactly the published relation between the two header hashes and the file hash, and the profile of each version uses the acceptance test, offset scheme and hash search of its generation. The search of a generation yields every hash its acceptance test accepts and nothing it rejects, and the combined search yields those of all its generations; a remembered profile is accepted again exactly when its hash still fits.',
  ['inputs'], 'all header hash pairs and all candidate hashes',
  'Tests run the search for one pair of header hashes and only check that what it yields is acceptable, never that nothing is missed.',
  ['src/util/version/pkg2.rs', 'src/util/profile.rs'], [('bitwise search', 'src/util/version/pkg2.rs: backtrack'), ('profiles', 'src/util/profile.rs: get_all_pkg2_profiles')],
  'Acceptance for all values; completeness for all 2^32 candidates per listed header hash pair (every rotation amount).', ['VersionGenerator', 'Pkg2Profile'])
p('C10', 'Uncompressed picture formats decode to the exact pixels',
  'Extracting a picture yields an image of exactly the declared width and height in which every pixel has exactly the channel values stored for it: BGRA4444, BGRA8888, ARGB1555, RGB565, R16 and RGBA1010102 take pixel (x, y) from position x + y*width with the format\'s channel order and bit replication, and RGB565_517 repeats each stored colour over its 16x16 square.',
  ['inputs'], 'all pixel data, all listed sizes',
  'Tests convert five or six colours of two formats; no test extracts a picture with symbolic or even random pixels, and swapped channels, dropped bits or row errors depend on every value and position.',
  ['src/property/png.rs', 'src/util/color.rs'], [('pixel conversion', 'src/property/png.rs: get_image_from_*'), ('colour expansion', 'src/util/color.rs')],
  'Symbolic execution of extract_png with every pixel byte symbolic, sizes up to 64x9 (517: 48x32).', ['WzPng::extract_png'])
p('C11', 'Block-compressed pictures decode to the exact pixels',
  'A DXT3 or DXT5 picture of any size decodes to the declared size with every pixel equal to what the block holding it defines (colour table of the two stored colours in four- or three-colour mode, 4-bit or interpolated alpha, index of that pixel); blocks reaching over the right or lower edge are cut there. A BC7 picture of any size places every decoded pixel with its channels in the right order.',
  ['inputs'], 'all block contents, all sizes including those that are not multiples of 4',
  'No test decodes a block-compressed picture at all; sizes that are not multiples of four and the rounding of interpolated values need systematic coverage.',
  ['src/property/png.rs'], [('DXT', 'src/property/png.rs: get_image_from_dxt3, get_image_from_dxt5'), ('BC7', 'src/property/png.rs: get_image_from_bc7')],
  'Symbolic execution, one fully symbolic block at a time at the corners of pictures of ten sizes.', ['WzPng::extract_png'])
p('C12', 'Picture data is unpacked exactly, and malformed data is an error',
  'Picture data behind any of the four zlib headers, or cut into length-prefixed blocks each decrypted from the start of the key stream, unpacks to the same bytes. A picture whose data is missing, out of the file, shorter than its declared size needs, of an unsupported format or of an absurd size gives an error, never a panic or a picture with invented pixels.',
  ['inputs', 'fault_sequences'], 'all headers, positions, lengths, sizes and formats, truncation at every point',
  'Tests never extract malformed pictures; the error paths depend on combinations of header, position, length and size no test uses.',
  ['src/property/png.rs'], [('unpacking', 'src/property/png.rs: get_raw_data'), ('size check', 'src/property/png.rs: get_buff_size, extract_png')],
  'Symbolic execution over all data bytes, positions and lengths of small buffers; widths 0 to 255 and boundary values.', ['WzPng::extract_png'])

p('C05', 'Malformed image data is reported as an error',
  'Parsing an image, whole or by direct access, from truncated or corrupted data returns either nodes or an error, never a panic, and everything that was returned can then be read out (strings, sounds, raw data, videos, lua, pictures) without a panic. No declared count or size is trusted beyond the data that is there.',
  ['inputs', 'fault_sequences'], 'truncation at every point, every change of any byte (quick) or of up to four adjacent bytes (thorough), all image kinds, any declared size',
  'Tests only parse well-formed images; each corrupted byte selects a different combination of counts, sizes, tags and displacements.',
  ['src/util/parse_property.rs', 'src/wz_image.rs'], [('property parsing', 'src/util/parse_property.rs: parse_property_list, parse_more'), ('image kinds', 'src/wz_image.rs: resolve_children')],
  'Symbolic execution: the changed bytes and all contents are symbolic, one path per place of the change.', ['WzImage::resolve_children', 'WzImage::at_path'])
p('C13', 'Parsing an image yields exactly the stored tree',
  'Parsing an image yields exactly the stored property tree: every entry in order with its name, its kind and its exact value (null, 16-, 32- and 64-bit integers, floats, strings, vectors, sub properties, canvases with and without children, convexes, sounds, UOLs, raw data, videos), children attached to the right parent with a working parent link, and every UOL of the tree listed. Blocks are left at their declared end whatever their content, an unknown kind of block becomes a null entry, and strings may be stored in place or by displacement.',
  ['inputs'], 'all contents of every value kind, all neighbours, string forms and image positions',
  'No test parses an image at all.',
  ['src/util/parse_property.rs', 'src/wz_image.rs'], [('value kinds', 'src/util/parse_property.rs: parse_property_node'), ('blocks', 'src/util/parse_property.rs: parse_more')],
  'Symbolic execution of images written by an independent encoder, contents symbolic.', ['WzImage::resolve_children'])
p('C14', 'Direct access to a path gives the node a full parse gives',
  'Reading a single node by path directly from an unparsed image gives the same node, value and subtree as parsing the whole image and walking the path, through sub properties as well as canvases, convexes and raw data; a path of which any component does not exist is an error, whatever else the image holds.',
  ['inputs'], 'all trees within the bounds, all their paths, paths missing at any component',
  'No test uses direct access on image data.',
  ['src/util/parse_property.rs', 'src/wz_image.rs'], [('path walk', 'src/util/parse_property.rs: get_node'), ('entry', 'src/wz_image.rs: at_path')],
  'Symbolic execution over three-level trees of every pair of value kinds with symbolic contents.', ['WzImage::at_path'])
p('C15', 'A package parses into exactly its stored directory tree',
  'Parsing a package yields exactly its stored tree: every image and directory with its name, kind, position and size, under the right parent with a working parent link, and every image then parses to its stored content. This holds for PKG1 with and without a version word, for names stored elsewhere and for unknown entries in between, and for the PKG2 layouts with separate offset tables, encrypted first names and encrypted counts. The version (or file hash) is found by search when it is not given, and the version, hash and path are recorded in the file node.',
  ['inputs'], 'all package layouts, trees, name forms, content starts, versions within the bounds, all checksums and image contents',
  'No test parses a package at all (the fixtures are not there).',
  ['src/directory.rs', 'src/file.rs'], [('entry tables', 'src/directory.rs: resolve_entry_pkg1, resolve_entry_pkg2, resolve_entry_pkg2_v64'), ('version search', 'src/file.rs: parse_pkg1, parse_pkg2')],
  'Symbolic execution of packages written by an independent encoder; checksums and image contents symbolic.', ['WzNode::parse', 'WzDirectory::resolve_children', 'WzFile::parse'])
p('C16', 'A package directory that does not fit is rejected',
  'A directory entry is accepted exactly when its decoded position and size lie within the file and an image or directory can be there (a known image header byte; a readable entry count, not negative where it is stored plainly). Parsing a truncated or corrupted package gives nodes or an error, never a panic, endless recursion or trust in a size beyond the file, and whatever was returned can be parsed further without a panic.',
  ['inputs', 'fault_sequences'], 'every stored position and size; every single corrupted byte; truncation at every point',
  'No test parses a malformed package; the verdict depends on the decoded position, the size and the byte found there at once.',
  ['src/directory.rs', 'src/file.rs'], [('verdict', 'src/directory.rs: WzDirectoryEntry::verify, calculate_offset_and_verify')],
  'Symbolic execution over all 32-bit stored positions and sizes, and over every value of each byte of small packages.', ['WzDirectory::calculate_offset_and_verify', 'WzNode::parse'])
p('C17', 'Nodes are found by exactly their paths, and paths lead back',
  'at, at_path, at_relative and at_path_relative return exactly the node that the names of the path (and ".." for the parent) lead to, and nothing for any other path. The full path, the path from the root and the path from the image of a node are the names on the way joined by slashes, and looking the latter two up from the root or image gives that same node; the image, Base file or any other filtered ancestor is the nearest one. Moving the children of one node into another merges same-named subtrees, keeps every other node of both, loses none, and leaves correct parent links.',
  ['inputs'], 'all names and paths within the lengths, all trees of six shapes',
  'Tests look up a handful of literal paths in one tree.',
  ['src/node.rs', 'src/util/node_util.rs'], [('lookup', 'src/node.rs: at_path, at_path_relative'), ('paths', 'src/node.rs: get_full_path, get_path_from_root, get_path_from_image'), ('merge', 'src/node.rs: transfer_childs')],
  'Symbolic execution with all characters of names and paths symbolic, against a walk over an independent table of the tree.', ['WzNode::at_path', 'WzNode::at_path_relative', 'WzNode::transfer_childs', 'WzNode::get_full_path'])
p('C18', 'A node is found without parsing exactly where parsing would put it',
  'get_image_node_from_path returns the first image on the way and exactly the rest of the path, whatever the names look like (with .img in the middle, at the end or not at all), and nothing when no image lies on the way or nothing follows it. get_node_without_parse then gives the node that parsing the image and walking the path would give, leaves the image unparsed, and gives the existing node once the image is parsed.',
  ['inputs'], 'all paths over the node names, all short ASCII paths, all value kinds',
  'Tests try one path with one .img name.',
  ['src/util/node_util.rs', 'src/wz_image.rs'], [('split', 'src/util/node_util.rs: get_image_node_from_path'), ('lookup', 'src/util/node_util.rs: get_node_without_parse')],
  'Symbolic execution against a component walk over an independent table of the tree.', ['get_image_node_from_path', 'get_node_without_parse'])
p('C19', 'Links lead to exactly their target',
  'Parsing an image replaces each UOL by the node its path, starting next to the UOL, leads to; a UOL that leads nowhere stays as it was, and no other node changes. resolve_uol does the same for a single UOL anywhere in a tree, and get_resolved_uol_path gives the same path as text. get_image follows _inlink from the image and then _outlink from Base, over any number of links, to the picture of the target; without a target it is the picture of the node itself, and links in a circle or to something that is not a picture are an error, not an endless loop.',
  ['inputs'], 'all link texts within the lengths at all places of the trees',
  'Tests resolve one link of each kind.',
  ['src/util/node_util.rs', 'src/node.rs', 'src/property/png.rs'], [('UOL', 'src/util/node_util.rs: resolve_uol, get_resolved_uol_path'), ('picture links', 'src/property/png.rs: get_image; src/util/node_util.rs: resolve_inlink, resolve_outlink')],
  'Symbolic execution with every character of the link texts symbolic.', ['resolve_uol', 'get_resolved_uol_path', 'get_image', 'WzNode::parse'])
p('C20', 'Parsing, unparsing and walking in any order leave the same tree',
  'After any sequence of parsing, unparsing and walking operations on nodes of a package, every node that is parsed has exactly its stored children and every node that is not has none; unparsing and parsing again restores a node, parsing twice changes nothing, and a walk visits every node below exactly once and, when it parses, leaves only the images unparsed.',
  ['inputs', 'histories'], 'all sequences of three (thorough: four) operations on all nodes',
  'No test unparses anything or parses anything twice.',
  ['src/node.rs', 'src/util/walk.rs', 'src/directory.rs'], [('state', 'src/node.rs: parse, unparse'), ('walk', 'src/util/walk.rs: walk_node')],
  'Symbolic execution, the operation and the node of every step chosen by the solver, against a model of which nodes are filled.', ['WzNode::parse', 'WzNode::unparse', 'walk_node'])
p('C21', 'Sounds, raw data, videos and texts are read out as stored',
  'The buffer of a sound is its stored data, for a WAV sound behind a 44-byte RIFF header with the stored format and the exact sizes; the kind of a sound follows exactly from its header, and write_to writes exactly the buffer. Raw data, videos and text images give exactly their bytes. A lua text is decoded with the first of the three keys under which its first 64 bytes can be the beginning of a UTF-8 text, to exactly the characters stored, and is an error if none fits.',
  ['inputs'], 'all headers, contents and texts of the listed lengths and start positions',
  'Tests check one stored WAV header and one lua text; the key guess depends on where characters fall around byte 64.',
  ['src/property/sound.rs', 'src/property/lua.rs', 'src/property/raw_data.rs', 'src/property/video.rs', 'src/wz_image.rs'], [('WAV header', 'src/property/sound.rs: get_wav_header'), ('key of a lua text', 'src/property/lua.rs: extract_lua')],
  'Symbolic execution with all data bytes symbolic, against an independent UTF-8 check and key streams.', ['WzSound::get_buffer', 'get_sound_type_from_header', 'WzLua::extract_lua', 'WzImage::resolve_children'])
p('C22', 'JSON shows exactly the tree, and full JSON leads back to it',
  'to_simple_json gives for every node exactly the names and values below it: numbers, strings, vectors, the size of a picture, length and kind of a sound, null for what has no value (empty nodes, raw data, videos, floats that are not finite), and never fails. Deserializing the full JSON of an image, directory or file gives nodes of the same names, kinds, values and structure.',
  ['inputs'], 'all contents of images over all pairs of value kinds',
  'Tests serialize one constant per kind and compare two literal trees.',
  ['src/node.rs', 'src/object.rs', 'src/property/mod.rs'], [('simple', 'src/node.rs: to_simple_json; src/property/mod.rs: From<WzValue> for Value'), ('full', 'serde attributes of src/object.rs, src/node.rs and src/property')],
  'Symbolic execution of serialization and deserialization with all values symbolic (floats as bit patterns, conversions encoded exactly).', ['WzNode::to_simple_json', 'Serialize/Deserialize for WzNode'])
p('C24', 'Images of .ms files are decrypted to exactly what was stored',
  'For both .ms formats, reading back a file gives the stored salt, hash, counts and places from any file name, random bytes and salt, every entry with exactly its stored fields, name, key and place, and each image decrypted to exactly the stored bytes, of which only the stated size is kept; parsing the entries and an image gives the nodes and values stored. SNOW 2.0 decryption gives the same whatever pieces the data comes in.',
  ['inputs'], 'all random bytes, entry fields and image contents, for listed names, salts and keys',
  'There is no test of .ms files beyond their JSON form.',
  ['src/ms/file.rs', 'src/ms/header.rs', 'src/ms/ms_image.rs', 'src/ms/snow2_decryptor.rs', 'src/ms/snow2_reader.rs', 'src/ms/chacha20_reader.rs'], [('header', 'src/ms/header.rs: from_ms_file, from_ms_file_v2'), ('entries', 'src/ms/file.rs: parse_v1, parse_v2'), ('images', 'src/ms/ms_image.rs: to_wz_image')],
  'Symbolic execution of the decryption of files made by an independent writer (own SNOW 2.0, ChaCha20 and key derivation) with symbolic contents.', ['MsHeader::from_ms_file', 'MsFile::parse', 'MsImage::to_wz_image', 'Snow2Decryptor'])
p('C25', 'A damaged .ms file is an error, not a panic',
  'Reading the header of a cut off or corrupted .ms file, or of a file of the other format, gives an error, or exactly the header where all of it is there and its hash fits (first format); no stored number of entries, name length, place or size, and no truncation of the entries, makes parsing or decrypting an image panic, or allocate beyond the size of the file.',
  ['inputs', 'fault_sequences'], 'every salt length, encrypted header, entry count, name length, place and size; truncation at every point',
  'There is no test of a malformed .ms file.',
  ['src/ms/file.rs', 'src/ms/header.rs', 'src/ms/ms_image.rs', 'src/ms/snow2_reader.rs', 'src/ms/chacha20_reader.rs'], [('header', 'src/ms/header.rs: from_ms_file, from_ms_file_v2'), ('entries', 'src/ms/file.rs: parse_v1, parse_v2')],
  'Symbolic execution over every value of each damaged field.', ['MsHeader::from_ms_file', 'MsFile::parse', 'MsImage::to_wz_image'])

p('C26', 'The key of a file is recognised exactly when it fits',
  'verify_iv_from_wz_img is true exactly if the first text of the image is "Property" under that key, and guess_iv_from_wz_img returns the first of the three known keys for which it is (an image written with one of them is always recognised). verify_iv_from_wz_file succeeds exactly if the name of the first entry, wherever it is stored, is text under the key, verify_decryptor_from_wz_file exactly if it is ASCII text and, in PKG2 packages, is followed by the rest of a directory; guess_iv_from_wz_file and guess_decryptor_from_wz_file return the first known key that fits (the latter also tries the names of KMST 1198 directories), or none. No file makes them panic.',
  ['inputs'], 'all contents of images and packages of the listed lengths, all first names of the listed lengths',
  'Tests guess the key of three complete files; a guess depends on every byte of the first name and its form.',
  ['src/util/version/mod.rs', 'src/util/string_decryptor/mod.rs'], [('images', 'src/util/version/mod.rs: verify_iv_from_wz_img, guess_iv_from_wz_img'), ('packages', 'src/util/version/mod.rs: verify_iv_from_wz_file; src/util/string_decryptor/mod.rs: guess_decryptor_from_wz_file')],
  'Symbolic execution against an independent reader of the first entry with its own UTF-8 and UTF-16 checks.', ['guess_iv_from_wz_img', 'guess_iv_from_wz_file', 'guess_decryptor_from_wz_file', 'verify_decryptor_from_wz_file'])
p('C23', 'A node is exactly what it was made of',
  'A node made of a value, property, image, directory or file answers to exactly the casts of its kind (a UOL also to that of a string) and gives back exactly the value; every number of a picture format or image header stands for its listed kind and all others for none. Names are equal, and hash like their texts, exactly if their texts are equal, so that a child is found under exactly its name. Sums and differences of vectors are those of their parts.',
  ['inputs'], 'all values of every kind of node, all ASCII names of up to 17 (thorough: 20) characters',
  'Tests cast one node of each kind.',
  ['src/node_cast.rs', 'src/object.rs', 'src/node_name.rs', 'src/property/vector.rs', 'src/property/png.rs', 'src/wz_image.rs'], [('casts', 'src/node_cast.rs'), ('conversions', 'src/object.rs: From for WzObjectType'), ('names', 'src/node_name.rs')],
  'Symbolic execution of every cast on every kind of node with all values symbolic.', ['WzNodeCast', 'WzObjectType::from', 'WzNodeName', 'Vector2D'])

p('C27', 'Opening a file gives exactly what is stored in it',
  'Opening a .wz, .img or .ms file gives a node of the right name below the given parent, over all of the bytes of the file, under the key that is given if it fits, otherwise under the known one that does; parsing it gives the directories, images and values stored, whichever package format it is of. An image whose given version or key does not fit is refused with the wrong version, one of no known key with the failure to guess it. A file that is missing, unreadable, empty, a directory or arbitrary bytes is an error, never a panic, and no file stays open.',
  ['inputs', 'fault_sequences'], 'all contents of images in files of every format and key; all contents of short files',
  'Tests open three sample files of their author; the format, key and version of a file are guessed from its contents.',
  ['src/node.rs', 'src/file.rs', 'src/wz_image.rs', 'src/ms/file.rs', 'src/util/string_decryptor/mod.rs'], [('packages', 'src/node.rs: from_wz_file_full; src/file.rs: from_file, parse'), ('images', 'src/wz_image.rs: from_file'), ('.ms', 'src/ms/file.rs: from_file')],
  'Symbolic execution down to the system calls, which a file system in memory answers, on files made by independent writers with symbolic contents.', ['WzNode::from_wz_file_full', 'WzNode::from_img_file', 'WzNode::from_img_file_with_iv', 'WzNode::from_ms_file'])
p('C28', 'resolve_base puts an installation together completely',
  'resolve_base gives a tree in which every package found for an entry of Base.wz (beside it, or in a folder of that name, recursively) takes the place of that entry with exactly its contents, the entries of its numbered files are merged into it, every node has the right name and parent, entries without a package stay as listed, and nothing unlisted appears, whatever the order in which the directories list their files. A missing, unreadable or damaged package is an io::Error, except that a numbered file that cannot be parsed is left out; it never panics, and no file stays open.',
  ['inputs', 'fault_sequences', 'configurations'], 'all contents of images; orders of the directory listings; cuts of any file at every byte',
  'There is no test of resolve_base: it needs a whole installation.',
  ['src/util/resolver.rs', 'src/node.rs', 'src/file.rs'], [('base', 'src/util/resolver.rs: resolve_base'), ('folders', 'src/util/resolver.rs: resolve_root_wz_file_dir_full, get_root_wz_file_path')],
  'Symbolic execution down to the system calls, which a file system in memory answers, against an independent description of the installation.', ['resolve_base', 'resolve_root_wz_file_dir'])
