PUSC = 'PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/'
p('P28', 'PUS-C packet checksums and length fields are exactly those of ECSS-E-70-41C',
  'For every octet sequence, Crc_calculate and Crc_update (from any earlier value, so also piecewise) give the cyclic redundancy code of Annex B.1 and IsoChecksum_calculate the ISO checksum of Annex B.2. '
  'PacketErrorControl_update writes exactly that checksum of all preceding octets into the last two octets of the packet, PacketLength_update writes the number of octets behind the primary header less one into octets 5 and 6, and neither changes anything else; '
  'the validate functions accept exactly the packets whose field is the one update would write (so every single-bit error is noticed, and with the CRC every double-bit error of a short packet), leave the packet alone, and refuse messages that are too short or too long with the documented error codes; error code pointers may be NULL.',
  ['inputs', 'histories'], 'all octet sequences (of all lengths), initial values, packet lengths and limits, error patterns',
  'The unit tests use the four examples of the standard and packets of at most ten octets; table entries, block boundaries, residues 0/255 and lengths above 255 are not reached.',
  [PUSC + f for f in ('Crc.c', 'IsoChecksum.c', 'PacketErrorControl.c', 'PacketLength.c', 'UInt16Coder.c')],
  [('CRC table and step', PUSC + 'Crc.c'), ('Fletcher sums and block reduction', PUSC + 'IsoChecksum.c'), ('field placement', PUSC + 'PacketErrorControl.c'), ('length limits', PUSC + 'PacketLength.c')],
  'TLA+ model of packets (Pusc.tla), properties checked exhaustively for short packets by TLC (PuscModel.tla); TLC judges calls recorded from the real wrappers (PuscTrace.tla)',
  'TLC model-checks the life of short packets (fill, damage, validate) on the specification, and judges every recorded call of the real code. Trusted: TLC, harness/pusc (its BasicTypes.h stands in for the generated one), gcc. Inputs sampled, table entries exhausted.')

ADA = 'ADA_RTL2/src/'
p('P13', 'The Ada run-time library encodes and decodes exactly the defined bits',
  'Called within the contracts of its package specifications, the Ada run-time library (bit streams; uPER integers, REAL, strings, fragmentation, object identifiers; the ACN integer, BCD, ASCII, REAL, boolean, null and string codecs; deferred determinants; comparison and validity helpers) writes exactly the bits the encoding rules define at the cursor and nothing else, '
  'reads back every value it wrote, decodes every octet sequence to the value it denotes or refuses it, moves the cursor by exactly the size of the field, patches deferred determinants only where they lie and reports conflicting consumers, and never raises an exception or violates a contract of its own.',
  ['inputs', 'histories'], 'all values, bit positions, buffer contents, histories of calls within the contracts, arbitrary octets given to decoders',
  'No test executes the Ada library here: the build only compiles it.',
  [ADA + f for f in ('adaasn1rtl.adb', 'adaasn1rtl-encoding.adb', 'adaasn1rtl-encoding-uper.adb', 'adaasn1rtl-encoding-acn.adb')],
  [('bit streams', ADA + 'adaasn1rtl-encoding.adb'), ('uPER primitives', ADA + 'adaasn1rtl-encoding-uper.adb'), ('ACN primitives', ADA + 'adaasn1rtl-encoding-acn.adb')],
  'TLA+ specification of the primitives (Prim.tla, shared with the C library); TLC judges histories recorded from the real Ada library (RtTrace.tla)',
  'Histories, boundary sweeps, arbitrary input and fragmented strings are replayed in the real library built with all contracts and run-time checks on; TLC judges every recorded call. Trusted: TLC, harness/rt_ada, GNAT. Values sampled beyond the swept boundaries; calls outside the contracts (truncated buffers, single precision infinities, widths of 64 bits written bit by bit) not made.')

CRT = 'asn1crt/'
p('P11', 'The BER run-time functions write X.690 encodings and read exactly those',
  'The BER functions of the C run-time library (asn1crt_encoding_ber.c) write for every tag and every value of INTEGER, BOOLEAN, REAL, NULL, IA5String, BIT STRING, OCTET STRING and lengths the octets that X.690 prescribes (minimal integers, definite lengths, tags as given) and refuse, with an error code and without touching anything behind the buffer, what does not fit. '
  'The decoders give back what was encoded, take every octet sequence that X.690 gives a meaning within the limits of the caller to that meaning (long-form lengths included), refuse all others with an error code, read nothing behind the data, write nothing behind the target, and consume exactly one field.',
  ['inputs'], 'all values, tags, limits, buffer sizes, arbitrary and damaged octet sequences',
  'No test calls the BER functions.',
  [CRT + 'asn1crt_encoding_ber.c', CRT + 'asn1crt_encoding_ber.h'],
  [('tags and lengths', CRT + 'asn1crt_encoding_ber.c'), ('contents', CRT + 'asn1crt_encoding_ber.c')],
  'TLA+ specification of X.690 fields (Ber.tla); TLC judges calls recorded from the real library (BerTrace.tla)',
  'Calls with boundary, random and damaged inputs run under AddressSanitizer in exactly sized buffers; TLC judges each. Trusted: TLC, harness/bytes/ber.c, gcc. Inputs sampled.')
p('P12', 'The XER run-time functions write X.693 documents and read exactly those',
  'The XER functions of the C run-time library (asn1crt_encoding_xer.c) write for every tag, indentation and value the element X.693 prescribes, escaped where XML requires it, and refuse with an error code what does not fit into the buffer. '
  'The decoders give back what was encoded, also with comments, processing instructions, white space and attributes in every place where XML permits them, take other spellings of the same value to the same value, refuse elements of another name, malformed or over-long content with an error code, read nothing behind the text and write nothing behind the target, and consume exactly one element. LoadXmlFile reduces a file to the text the decoders read.',
  ['inputs'], 'all values, names, attributes, buffer sizes, layouts, arbitrary and damaged texts',
  'No test calls the XER functions.',
  [CRT + 'asn1crt_encoding_xer.c', CRT + 'asn1crt_encoding_xer.h'],
  [('tokenizer', CRT + 'asn1crt_encoding_xer.c'), ('elements and contents', CRT + 'asn1crt_encoding_xer.c')],
  'TLA+ grammar of XER elements (Xer.tla); TLC judges calls recorded from the real library (XerTrace.tla)',
  'Calls with boundary, random, re-laid-out and damaged texts run under AddressSanitizer in exactly sized buffers; TLC reads each text with the grammar and judges the call. Trusted: TLC, harness/bytes/xer.c, gcc. Inputs sampled.')
