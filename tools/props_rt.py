p('P01', 'Bit-stream writes append exactly the requested bits and read back unchanged',
  'At every bit offset, each bit-stream append operation adds exactly the bits it was asked to add, moves the cursor by exactly that many bits and leaves every bit already written as it was, whatever the buffer held before. '
  'Reading the stream back with the matching operations yields the same values and the same cursor positions, including when the data ends exactly at the end of the buffer. '
  'An append of a block of octets that does not fit the buffer is refused without a write outside it.',
  ['inputs', 'histories'], 'all sequences of bit-stream writes and reads (bits, octets, partial octets, runs, octet arrays, bit arrays, negated forms), all start alignments, all buffer contents and exact-size buffers',
  SUITES + ', so few combinations of alignment, operation order and stale buffer contents are ever seen.',
  [ENC], [('BitStream_Append* / BitStream_Read* families', ENC), ('masks and cursor arithmetic', ENC)], TV, NOTE,
  state=[('BitStream', 'buffer, byte cursor, bit cursor, size', 'asn1crt/asn1crt_encoding.h')], observe=['buffer contents, cursor and return value after every call'])
p('P02', 'uPER whole numbers have exactly the X.691 bits and decode to the same value',
  'For every 64-bit signed or unsigned value within its bounds, the constrained, semi-constrained and unconstrained whole-number encoders produce exactly the bits X.691 (unaligned) prescribes, and decoding those bits returns the value and consumes exactly those bits. '
  'A decoded constrained number is always inside its bounds: an encoding that denotes a value outside them is refused.',
  ['inputs'], 'all 64-bit values and bounds, signed and unsigned, all alignments, all decoder widths',
  SUITES + '; range widths, octet-length boundaries and sign boundaries of 64-bit arithmetic are practically unsampled.',
  [ENC], [('BitStream_EncodeConstraint*/SemiConstraint*/UnConstraintWholeNumber', ENC), ('GetNumberOfBitsForNonNegativeInteger, GetLengthInBytesOf*', ENC)], TV, NOTE)
p('P03', 'uPER REAL round-trips every IEEE-754 double exactly',
  'For every double, infinities, NaN, minus zero and subnormals included, the REAL encoder emits a well-formed X.690 8.5 binary encoding that denotes exactly that number, and the decoder turns it back into the identical double. '
  'The decoder also accepts other valid binary forms (base 2, 8 or 16, scaling factor, exponents of one to three octets, padded mantissas) that denote a double exactly, with the value they denote, and refuses truncated ones.',
  ['inputs'], 'all 2^64 doubles and all encodings of the REAL contents, at all alignments',
  'The suites encode a handful of ordinary decimal constants; exponent-length, sign and special-value boundaries are not sampled.',
  [UPER], [('BitStream_EncodeReal / DecodeReal', UPER), ('CalculateMantissaAndExponent, GetDoubleByMantissaAndExp', UPER)], TV, NOTE)
p('P04', 'Octet and bit strings of every size take the X.691 form and round-trip',
  'Octet strings and bit strings of every length admitted by their size bounds are encoded as X.691 prescribes: no length field when the size is fixed, a constrained length below 65536, and 16K-fragmentation above, including lengths that are exact multiples of 16K. '
  'Decoding returns the same contents and length and consumes exactly the encoding; a length above the maximum, a truncated body or an invalid fragment header is refused without writing outside the destination.',
  ['inputs'], 'all lengths 0..200K, all size bounds, all alignments, all truncations',
  'Fragmentation boundaries (16K multiples, 1..4 units) need large values no committed suite contains.',
  [UPER, ENC], [('BitStream_EncodeOctetString*, BitStream_EncodeBitString*, fragmentation loops', UPER)], TV, NOTE)
p('P05', 'Object identifiers encode as X.690/X.691 sub-identifiers and round-trip',
  'Every object identifier or relative object identifier with 64-bit arcs (up to 20 of them, valid root arcs) is encoded as a length followed by base-128 sub-identifiers exactly as X.690 8.19 prescribes, and decoding returns the same arcs and consumes exactly the encoding. '
  'Truncated input and identifiers with more arcs than the type can hold are refused.',
  ['inputs'], 'all arc sequences with 64-bit arcs, all truncations',
  'The suites contain one or two short identifiers with small arcs.',
  [UPER], [('BitStream_Encode/DecodeObjectIdentifier, RelativeOID', UPER)], TV, NOTE)
p('P06', 'ACN integer encodings have exactly the documented bits and round-trip',
  'Each ACN integer encoding (positive integer and twos complement in constant, big/little endian 16/32/64 and variable-length form; BCD and ASCII in constant, variable-length and null-terminated form) writes exactly the documented bits for every value it can hold, and its decoder returns the value and consumes exactly those bits. '
  'Malformed text forms (a non-digit or a wrong sign character) and truncated input are refused, never answered with an abort.',
  ['inputs'], 'all 64-bit values, all field sizes, all alignments, all terminators, all decoder widths that can hold the value',
  SUITES + '; most size and endianness variants are used by no stable suite.',
  [ACN], [('Acn_Enc_Int_* / Acn_Dec_Int_*', ACN)], TV, NOTE)
p('P07', 'ACN strings, booleans, patterns, alignment and IEEE floats encode as documented',
  'The ACN string forms (fixed, null-terminated with one- or multi-octet terminators, external and internal length determinants, character-index and 7-bit forms), boolean and null bit patterns, alignment to octet/word/dword, IEEE-754 single and double in both byte orders and null-terminated bit strings write exactly the documented bits, and decoding them returns the same value at the same position. '
  'A string whose terminator does not come within its maximum size, a character index outside the alphabet, and truncated input are refused without writing outside the destination.',
  ['inputs', 'histories'], 'all contents and lengths, all alphabets, terminators, patterns and alignments, followed and preceded by other fields',
  SUITES + '; terminators, pattern lengths and alignment positions are nearly unsampled.',
  [ACN, ENC], [('Acn_Enc_String_* / Acn_Dec_String_*', ACN), ('Acn_AlignTo*', ACN), ('BitStream_*BitPattern*, bits_nullterminated', ENC)], TV, NOTE)
p('P08', 'Deferred determinants patch exactly their own bits, and shared ones must agree',
  'A determinant reserved before its value is known occupies exactly its field, and patching it later replaces exactly those bits with the encoding of the value, leaving every other bit and the cursor unchanged. '
  'When several fields share one determinant, a second patch with an equal value succeeds and changes nothing, and one with a different value is refused with the documented error code and changes nothing.',
  ['inputs', 'histories'], 'all determinant kinds and widths, all positions and interleavings of reservations, other writes and patches',
  'No stable suite links the deferred-patching functions at all.',
  [ACN, 'asn1crt/asn1crt_encoding_acn.h'], [('Acn_InitDet_* / Acn_PatchDet_*', ACN), ('AcnInsertedFieldRef', 'asn1crt/asn1crt_encoding_acn.h')], TV, NOTE,
  state=[('AcnInsertedFieldRef', 'position, is_set, value of a reserved determinant', 'asn1crt/asn1crt_encoding_acn.h')])
p('P09', 'Decoders survive any input: no stray access, abort, hang or false success',
  'Whatever octets they are given - random, truncated at any octet, or corrupted encodings - the run-time decoding primitives return in bounded time without reading outside the input or writing outside the destination, with or without assertions compiled in. '
  'They report success only if the complete field was present, and then move the cursor to its end and return the value the format defines for those bits.',
  ['inputs', 'fault_sequences'], 'all inputs, truncations and corruptions, for every decoding primitive and sequences of them',
  'The suites only ever decode what the same library encoded a moment earlier.',
  [ENC, UPER, ACN], [('BITSTREAM_CAN_READ checks and return codes of the decoders', ENC)],
  'TLA+ wire-format specification; TLC validates decoder histories on mutated/truncated inputs under AddressSanitizer', NOTE)
p('P10', 'Streaming mode produces and accepts the same bits as whole-buffer mode',
  'With streaming support compiled in, a sequence of encoding calls through a small reused buffer delivers to the consumer, chunk by chunk, exactly the bits that whole-buffer encoding would produce, and decoding calls that refill the buffer chunk by chunk return the same values. '
  'This holds for every chunk size and every position of a field relative to the chunk boundaries (alignment to 16/32 bits needs a chunk size that is a multiple of it; pattern look-ahead and null-terminated bit strings are not covered).',
  ['histories', 'configurations'], 'all chunk sizes, all operation sequences, all field positions relative to chunk ends',
  'No stable suite is built with streaming enabled.',
  [ENC, UPER, ACN], [('bitstream_push_data_if_required, bitstream_fetch_data_if_required', ENC)], TV, NOTE)
