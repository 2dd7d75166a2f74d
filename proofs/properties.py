p('G01', 'GUIDs keep their value between stored bytes and text',
  'Every 16-byte GUID is shown as exactly one 36-character text, in the 1C and in the Microsoft digit order, and the 1C text (or the 32-digit form) in either letter case reads back to the same 16 bytes. A text of any other length is refused and changes nothing. Equality, order and emptiness of GUIDs are those of the 16 stored bytes.',
  ['inputs'], 'all 2^128 GUIDs, all hexadecimal texts of 36 and 32 characters, all other lengths',
  'the tests convert one GUID; a wrong digit position or a mishandled digit can hide in the other 2^128 values',
  ['BinaryGuid.cpp', 'Common.cpp'], [('text form', 'BinaryGuid::as_1C, as_MS, format_guid'), ('parsing', 'BinaryGuid::BinaryGuid(string), from_hex_digit'), ('comparison', 'BinaryGuid::operator==, >, is_empty')])
p('N01', 'Numeric field values keep their value between stored digits and text',
  'The stored packed-decimal form of a number field of any declared length and precision is shown as the number it encodes: its sign, its integer digits without leading zeros, and its fraction without trailing zeros. A decimal text that fits the field is stored as exactly those digits in exactly the bytes of the field, and bytes to text to bytes is the identity on values.',
  ['inputs', 'configurations'], 'every digit string of every number field of declared length up to 32 and every precision',
  'tests convert three literals in one field; widths odd/even, signs, zeros and digit positions are unexplored',
  ['BinaryDecimalNumber.cpp', 'FieldType.cpp'], [('digits', 'BinaryDecimalNumber'), ('field', 'NumericFieldType')])
p('D01', 'Dates keep their value between the 7 stored bytes and text',
  'Every stored date of 14 decimal digits is shown as "dd.mm.yyyy hh:mm:ss" and as "yyyymmddhhmmss" with each digit in its place, its parts are the numbers those digits spell, and each text reads back to the same 7 bytes.',
  ['inputs'], 'all 10^14 digit strings',
  'the tests convert one date; swapped or truncated fields show up only for particular values',
  ['BinaryDecimalNumber.cpp', 'Common.cpp', 'FieldType.cpp'], [('date', 'BinaryDecimalDate'), ('helpers', 'date_to_string, string_to_date, date_to_string1C, string1C_to_date'), ('field', 'DatetimeFieldType')])
p('F01', 'Every field type occupies exactly its declared number of bytes',
  'The number of bytes a field takes in a record is fixed by its declared type, length and nullability (numbers take half a byte per digit plus a sign, text two bytes per character, long values an 8-byte reference, dates 7 bytes). Reading a stored value never looks outside those bytes and writing one never touches bytes outside them.',
  ['configurations', 'inputs'], 'all declared field types, lengths and precisions; all stored bytes',
  'tests declare a handful of fields; layout arithmetic must hold for every declaration',
  ['Field.cpp', 'FieldType.cpp', 'TableRecord.cpp'], [('sizes', 'FieldType::get_size, Field::get_size'), ('records', 'TableRecord')])
p('S01', 'Text and binary field values are decoded from exactly their stored bytes',
  'A fixed or variable length text field shows exactly the stored characters within its declared length, a binary field shows exactly its stored bytes in hexadecimal, and a logical field shows true exactly when its byte is non-zero.',
  ['inputs', 'configurations'], 'all stored bytes, all declared lengths',
  'no test decodes stored text fields; boundary lengths and unusual bytes are never sampled',
  ['FieldType.cpp', 'Field.cpp'], [('decoding', 'FieldType::get_presentation'), ('binary', 'BinaryFieldType')])
p('V01', 'Reading a stored object returns exactly its bytes in page order',
  'For every stored object of either database generation, any page size and any length, reading a range returns exactly the bytes of the pages its placement tables list, in order, and never bytes of another page or outside the object. A range that runs past the end of the object is refused or cut at the end.',
  ['inputs', 'configurations'], 'all page contents, page sizes, object lengths, offsets and lengths of a read',
  'tests hold no database with multi-page objects; page and table boundaries need sizes no fixture has',
  ['V8Object.cpp', 'Class_1CD.cpp', 'MemBlock.cpp'], [('reading', 'V8Object::get_data, get_fileblock'), ('pages', 'T_1CD::get_block')])
p('V02', 'Writing into a stored object changes exactly the written range',
  'After bytes are written into a stored object, reading the range returns them, every other byte of the object is unchanged, and no page that does not belong to the object is changed.',
  ['inputs', 'configurations'], 'all page contents, offsets and lengths of a write',
  'no test writes to a database',
  ['V8Object.cpp', 'Class_1CD.cpp'], [('writing', 'V8Object::set_data'), ('pages', 'T_1CD::get_block_for_write')])
p('V03', 'Growing or shrinking a stored object keeps the data that remains',
  'Changing the length of a stored object keeps every byte below the smaller of the two lengths, takes only pages that were free, and gives back exactly the pages no longer needed, so no page ever belongs to two objects.',
  ['inputs', 'histories'], 'all old and new lengths, all allocation states',
  'no test changes the size of an object; allocation-table boundaries lie at megabytes',
  ['V8Object.cpp', 'Class_1CD.cpp'], [('resizing', 'V8Object::set_len'), ('free pages', 'set_block_as_free, get_free_block')])
p('C01', 'Only existing pages are read, each from its place in the file',
  'A page is served only if its number is below the number of pages of the file; its contents are exactly the bytes of the file at page number times page size, or the newest contents written to it in this session. A number at or beyond the end is refused.',
  ['inputs', 'histories'], 'all page numbers, page sizes, file lengths and access histories',
  'tests open at most one small file',
  ['MemBlock.cpp', 'Class_1CD.cpp'], [('cache', 'MemBlock'), ('bounds', 'T_1CD::get_block')])
p('C02', 'A file that is not a supported database is refused when opened',
  'A database opens only if its signature, format version, page size and recorded length are consistent with the file; any other file is reported as an error and not interpreted further.',
  ['inputs'], 'all header bytes and file lengths',
  'tests contain no damaged headers',
  ['Class_1CD.cpp', 'db_ver.h'], [('opening', 'T_1CD::open')])
p('W01', 'A database opened read-only is never modified',
  'Whatever reading, exporting or checking is done on a database opened for reading, no byte of its file changes.',
  ['histories'], 'all sequences of read operations',
  'no test compares the file before and after',
  ['Class_1CD.cpp', 'MemBlock.cpp'], [('opening', 'T_1CD::open'), ('writing back', 'MemBlock::write')])
p('B01', 'A long field value is read whole and in order',
  'A long text, image or unlimited string of any length is returned as exactly the concatenation of its stored chunks in chain order, with exactly the recorded length; a chain that leaves the store is reported rather than followed, and one longer than recorded is left there, never written beyond the given memory.',
  ['inputs'], 'all chain shapes, chunk lengths and recorded lengths',
  'no test has a stored long value',
  ['Table.cpp', 'V8Object.cpp'], [('chunks', 'Table::readBlob, V8Object::readBlob')])
p('I01', 'Index leaf pages unpack to the entries that were packed',
  'Packing a sorted set of index entries into a leaf page and unpacking it gives back the same record numbers and keys in the same order, whatever the key length, common prefixes and record numbers, and packing reports when they do not fit.',
  ['inputs'], 'all key lengths, entry counts, keys and record numbers',
  'no test touches index pages; prefix compression and bit widths have many boundary cases',
  ['Index.cpp'], [('packing', 'Index::pack_leafpage'), ('unpacking', 'Index::unpack_leafpage')])
p('I02', 'Walking an index visits every record once in key order',
  'Enumerating a table through an index yields each indexed record number exactly once, in ascending key order, for every tree height and fill.',
  ['inputs', 'histories'], 'all index trees',
  'no test has an index of more than one page',
  ['Index.cpp'], [('walk', 'Index::create_recordsindex, dumprecursive')])
p('E01', 'Base64 encoding is reversible for every byte sequence',
  'Encoding any sequence of bytes as base64 gives the standard text for it with correct padding, and decoding the text of any byte sequence gives back exactly those bytes, whatever the length and line breaks.',
  ['inputs'], 'all byte sequences of all lengths',
  'no test covers base64',
  ['Base64.cpp'], [('coding', 'base64_encode, base64_decode')])
p('Z01', 'Packing and unpacking data is lossless for every size',
  'Data packed with the raw deflate format and unpacked again is the same bytes, for every size including empty data and exact multiples of the working buffer; each call hands the compressor every input byte exactly once and ends the packed stream.',
  ['inputs'], 'all data of all sizes',
  'no test packs data whose size is a multiple of the buffer',
  ['UZLib.cpp'], [('packing', 'ZDeflateStream'), ('unpacking', 'ZInflateStream')])
p('H01', 'Container block headers keep their three numbers and fixed layout',
  'A container block header is exactly 31 bytes: line break, three 8-digit hexadecimal numbers each followed by a space, line break; writing any data length, page length and next address and reading the header back gives the same numbers.',
  ['inputs'], 'all triples of 32-bit numbers that the format can carry',
  'one test writes a header of zeros',
  ['cfapi/APIcfBase.cpp'], [('header', 'stBlockHeader')])
p('H02', 'A file inside a container is read as the concatenation of its blocks',
  'Reading a file in a container returns exactly the recorded number of bytes taken from its blocks in chain order, and the directory lists exactly the files whose entries are present.',
  ['inputs'], 'all container layouts',
  'tests hold no multi-block container',
  ['cfapi/V8Catalog.cpp', 'cfapi/V8File.cpp'], [('reading', 'V8Catalog::read_block, read_datablock')])
p('P01', 'Bracketed text parses to a tree that prints back to the same values',
  'Every well-formed bracketed text parses into a tree whose leaves have exactly the written values and kinds, and printing the tree and parsing it again gives an equal tree; unbalanced or malformed text is reported.',
  ['inputs', 'programs'], 'all nested texts and all value strings, including quotes and line breaks',
  'one example text is parsed',
  ['Parse_tree.cpp'], [('parsing', 'parse_1Ctext, parse_1Cstream'), ('printing', 'outtext')])
p('U01', 'Text survives conversion between UTF-8 and UTF-16 unchanged',
  'Converting any valid UTF-8 text to UTF-16 code units and back gives the same text, every Unicode character is encoded in its standard form, and the byte-order mark of a buffer is recognised exactly when it is present.',
  ['inputs'], 'all Unicode scalar values and all texts',
  'tests convert one ASCII string',
  ['SystemClasses/String.cpp', 'SystemClasses/System.SysUtils.cpp'], [('conversion', 'TEncoding classes'), ('utf8', 'utf8 library')])
p('U02', 'Case conversion changes only letters and never the length of text',
  'Upper and lower casing map each Latin and Russian letter to its counterpart and leave every other character unchanged, for every text, and comparing ignoring case is equality of the cased texts.',
  ['inputs'], 'all texts',
  'tests cover the alphabet once, never mixed texts or other characters',
  ['SystemClasses/String.cpp'], [('casing', 'UpperCase, LowerCase, EqualIC')])
p('M01', 'Memory streams behave as a growable file',
  'After any sequence of writes, reads, seeks and size changes a memory stream holds exactly the bytes a file would: a read returns the bytes last written at that position and never more than remain, a write extends the stream, and the position moves by exactly the bytes transferred.',
  ['histories', 'inputs'], 'all operation sequences, positions and sizes',
  'tests make a few small writes',
  ['SystemClasses/TMemoryStream.cpp', 'SystemClasses/TStream.cpp'], [('stream', 'TMemoryStream::Read, Write, Seek, SetSize'), ('copying', 'TStream::CopyFrom')],
  [('contents', 'bytes of the stream'), ('position', 'where the next transfer happens'), ('size', 'number of bytes')])
p('T01', 'Container timestamps convert to the same moment and back',
  'A container timestamp (ten-thousandths of a second) and the system file time it is converted to denote the same moment to the second, and converting back loses nothing but the sub-second part.',
  ['inputs'], 'all timestamps',
  'no test converts timestamps',
  ['cfapi/V8Time.cpp', 'SystemClasses/System.cpp'], [('conversion', 'V8timeToFileTime, FileTimeToV8time')])
p('X01', 'Text exported to XML has every special character escaped',
  'In text exported as XML every &, <, >, apostrophe and quotation mark, at every position and however many there are, is replaced by its entity, and every other byte is copied unchanged.',
  ['inputs'], 'all texts',
  'one replacement is tested on one occurrence',
  ['Common.cpp', 'SystemClasses/System.SysUtils.cpp'], [('escaping', 'toXML'), ('replacing', 'StringReplace')])
p('X02', 'Bytes are shown in hexadecimal and read back exactly',
  'Every buffer of bytes is shown as exactly two lower-case hexadecimal digits per byte in order, every pair of hexadecimal digits in either case reads as its byte, any other pair is refused, and reversing byte order twice is the identity.',
  ['inputs'], 'all byte strings and all character pairs',
  'tests check a few digits',
  ['Common.cpp'], [('hex', 'hexstring, two_hex_digits_to_byte, from_hex_digit, reverse_byte_order')])
p('A01', 'Command lines are parsed into exactly the options and values given',
  'Every command-line word is either a known option, in which case exactly its declared number of following words become its values, or is reported as unknown; nothing is skipped, reordered or invented, for any words.',
  ['inputs'], 'all argument lists',
  'the command-line parser has no tests',
  ['src/ctool1cd/ParseCommandLine.cpp'], [('parsing', 'CommandParse')])
p('K01', 'Iterating a table visits exactly the records that are not removed',
  'Going through a table record by record yields each record that is not marked removed exactly once, in storage order and with its stored bytes, and none that is marked removed; the list of the records of a table holds exactly those.',
  ['inputs', 'histories'], 'all tables and all patterns of removed records',
  'no test iterates a table with removed records',
  ['TableIterator.cpp', 'Table.cpp'], [('iteration', 'TableIterator'), ('record', 'Table::get_record, TableRecord'), ('list', 'Table::fill_records_index')])
p('Q01', 'Exporting a table to a file and importing it back restores it',
  'The four-file binary copy of a table holds its data, long values, index and description exactly, and importing it gives a table with the same records.',
  ['inputs', 'histories'], 'all tables',
  'no test exports a table',
  ['Table.cpp'], [('export', 'Table::export_table'), ('import', 'Table::import_table')])
p('L01', 'Every packed depot file is found by its key and only by its key',
  'Looking up an object in the depot pack files returns exactly the entry stored under its 20-byte key, wherever the entry lies among the sorted index, and nothing for a key that is not stored.',
  ['inputs'], 'all pack indexes and all keys',
  'no test opens a depot',
  ['PackDirectory.cpp', 'Packdata.cpp'], [('lookup', 'Packdata::get_datahash, PackDirectory')])
p('J01', 'Checksums equal the standard CRC-32 of the data',
  'The checksum computed for any data equals the standard CRC-32 of its bytes, whatever the length.',
  ['inputs'], 'all byte strings',
  'no test computes a checksum',
  ['CRC32.cpp'], [('crc', '_crc32')])
