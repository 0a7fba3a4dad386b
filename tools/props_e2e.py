TVE = 'TLA+ specification of ASN.1 types and uPER/ACN (Asn1.tla); TLC judges what generated code did (E2eTrace.tla)'
NOTEE = ('Each recorded action of code generated by the compiler built from the working tree is judged by TLC against the specification. '
         'Trusted: TLC, the per-schema drivers generated by lib/asn.py and harness/e2e.h, gcc, .NET. Schemas: a catalogue of shapes plus random ones; values sampled, small types exhausted.')
SUITE2 = 'The committed suites contain fixed generated code for one grammar; the code generator itself is not run by any stable test'
GEN = ['BackendAst/DAstUPer.fs', 'StgC/uper_c.stg', 'asn1crt/asn1crt_encoding.c']
p('P20', 'Generated uPER codecs write exactly the X.691 bits and read them back',
  'For every supported schema and every value of its types, the generated C encoder accepts the value and writes exactly the unaligned-PER encoding X.691 prescribes (a REAL: one of the valid binary forms of its value), '
  'and the generated decoder, given those bits, accepts them, consumes exactly them and delivers the same value, with the declared value in components that are absent and have a DEFAULT. '
  'Given any other octets, the decoder either delivers the value they encode or refuses; it refuses truncated encodings and encodings of values outside the type, and never accesses memory outside its input and output.',
  ['inputs'], 'all schemas in the supported subset (integers, REAL, enumerations, strings, OIDs, SEQUENCE/SET/CHOICE/SEQUENCE OF, optional and default components, nested and referenced types, constraints), all values, all inputs',
  SUITE2 + '; whether generated code is right for another schema or value cannot be settled by it.',
  GEN, [('uPER code generation', 'BackendAst/DAstUPer.fs'), ('uPER C templates', 'StgC/uper_c.stg'), ('effective constraints and field widths', 'FrontEndAst/uPER.fs'), ('run-time primitives', 'asn1crt/asn1crt_encoding_uper.c')], TVE, NOTEE)
p('P21', 'Generated ACN codecs write exactly the bits the ACN description says',
  'For every supported schema and ACN description and every value of its types, the generated C encoder accepts the value and writes exactly the bits the description prescribes: the encodings, sizes, endianness, alignment and mapping of the leaf types, '
  'true/false values, patterns and terminators, inserted fields with the lengths, choice determinants and presence flags that belong to the value (also through parameters, references into other structures and several users of one field), present-when conditions and the order of fields. '
  'The generated decoder, given those bits, accepts them, consumes exactly them and delivers the same value. '
  'Given any other octets, the decoder either delivers the value they encode or refuses; it refuses truncated input, lengths outside the size of the type, missing terminators, unknown determinants and values outside the encoding, and never accesses memory outside its input and output. '
  'A value whose inserted fields cannot be made consistent is refused by the encoder.',
  ['inputs'], 'all schemas in the supported subset with all ACN properties the compiler accepts for them, all values, all inputs',
  SUITE2 + '; each combination of ACN properties generates other code, and each value takes another path through it.',
  ['BackendAst/DAstACN.fs', 'StgC/acn_c.stg', 'asn1crt/asn1crt_encoding_acn.c'], [('ACN code generation', 'BackendAst/Acn/AcnPrimitives.fs'), ('inserted fields and their updates', 'BackendAst/DAstACN.fs'), ('ACN C templates', 'StgC/acn_c.stg'), ('determinants and references', 'FrontEndAst/CheckLongReferences.fs'), ('run-time primitives', 'asn1crt/asn1crt_encoding_acn.c')], TVE.replace('Asn1.tla', 'Asn1.tla, Acn.tla'), NOTEE)
p('P22', 'Generated IsConstraintValid accepts exactly the values of the type',
  'For every supported schema, the generated validation function of a type answers TRUE for precisely the values that satisfy all constraints that apply to it (value and range, SIZE, permitted alphabet, unions, intersections, EXCEPT, inner WITH COMPONENT(S), constraints of referenced and enclosed types) '
  'and reports a nonzero error code otherwise; an encoder asked to check constraints refuses exactly the other values, with a nonzero error code.',
  ['inputs'], 'all constraint expressions on all constrainable types and all values the C types can hold',
  SUITE2 + ' and tests only valid values.',
  ['BackendAst/DastValidate2.fs', 'StgC/isvalid_c.stg'], [('constraint code generation', 'BackendAst/DastValidate2.fs'), ('constraint templates', 'StgC/isvalid_c.stg'), ('constraint folding', 'FrontEndAst/Asn1Fold.fs')], TVE, NOTEE)
p('P23', 'Announced maximum encoding sizes are never exceeded',
  'For every type of a supported schema, the REQUIRED_BITS_FOR_ENCODING and REQUIRED_BYTES_FOR_ENCODING constants (uPER and ACN) are at least as large as the longest encoding of any value of the type and agree with each other, so a buffer of that size suffices for every value.',
  ['inputs'], 'all supported schemas, all values, in particular those with the longest encodings',
  SUITE2 + '; the bound must cover the worst value, which tests do not construct.',
  ['FrontEndAst/uPER.fs', 'FrontEndAst/AcnEncodingClasses.fs'], [('uPER size computation', 'FrontEndAst/uPER.fs'), ('ACN size computation', 'FrontEndAst/AcnEncodingClasses.fs')], TVE, NOTEE)
p('P24', 'Generated Equal and Initialize agree with the value model',
  'For every type of a supported schema, the generated Equal function answers TRUE for two structures that hold the same value and FALSE for two that differ, whatever their unused parts hold, in both argument orders (REAL: equal values compare equal, values that differ by more than one part in ten thousand compare different). '
  'The generated Initialize function produces a value of the type, whatever the memory held before.',
  ['inputs'], 'all supported schemas, all pairs of values, all contents of unused memory',
  SUITE2 + ' and compares a value only with its decoded copy.',
  ['BackendAst/DAstEqual.fs', 'BackendAst/DAstInitialize.fs'], [('equality generation', 'BackendAst/DAstEqual.fs'), ('equality templates', 'StgC/equal_c.stg'), ('initialisation', 'BackendAst/DAstInitialize.fs'), ('initialisation templates', 'StgC/init_c.stg')], TVE, NOTEE)

p('P14', 'Generated XER codecs write documents of the type and read them back',
  'For every supported schema and every value of its types, the generated C XER encoder accepts the value and writes a document that X.693 (basic XER) gives the meaning of this value, and the generated decoder reads it back, consuming exactly the document. '
  'Given any other text, the decoder delivers the value the text denotes or refuses it; it refuses texts that are not documents of the type (missing or unknown components, alternatives and items, wrong names, too many elements, malformed contents), reports an error code, and never accesses memory outside its input and output.',
  ['inputs'], 'all schemas in the supported subset (as P20, without time types and strings of wide alphabets), all values, all texts',
  'No stable test runs XER code.',
  GEN[:1] + ['BackendAst/DAstXer.fs', 'StgC/xer_c.stg', 'asn1crt/asn1crt_encoding_xer.c'], [('XER code generation', 'BackendAst/DAstXer.fs'), ('XER C templates', 'StgC/xer_c.stg'), ('run-time functions', 'asn1crt/asn1crt_encoding_xer.c')],
  'TLA+ grammar of XER documents by type (XerE2eTrace.tla on Xer.tla and Asn1.tla); TLC reads each text recorded from generated code and judges the codec', NOTEE)

p('P26', 'Generated Ada codecs are exact and exchange data with the C ones',
  'For every supported schema (ASN.1, and ACN specification), the generated Ada compiles, and its uPER and ACN decoders, given any octets, return the value the octets denote, with exactly the bits of the encoding consumed, or report failure if they are not an encoding of a value of the type; no exception leaves them. '
  'A decoded value satisfies the generated validity function, is encoded again by both generated encoders to exactly the encodings the specification gives it (the same octets generated C code produces and accepts), and is compared rightly by the generated equality function; initial values are valid values.',
  ['inputs'], 'all schemas in the supported subset of Ada, all octet strings up to the size of the buffer of the type, all values reachable by decoding',
  'No stable test compiles or runs generated Ada code.',
  GEN[:1] + ['StgAda/uper_a.stg', 'StgAda/acn_a.stg', 'StgAda/LangGeneric_a.fs', 'ADA_RTL2/src'], [('Ada templates', 'StgAda/uper_a.stg'), ('Ada ACN templates', 'StgAda/acn_a.stg'), ('validity', 'StgAda/isvalid_a.stg'), ('equality', 'StgAda/equal_a.stg'), ('run-time library', 'ADA_RTL2/src/adaasn1rtl-encoding-acn.adb')],
  'TLA+ trace specification AdaTrace.tla on the uPER and ACN semantics of Asn1.tla/Acn.tla: TLC computes the value each octet string denotes and judges what the generated Ada made of it; the octets come from generated C encoders and alterations of them', NOTEE)
p('P25', 'Encodings do not depend on word size or options that shape the code',
  'Encodings are the same whatever the machine words and the shape of the generated code: the run-time library built with WORD_SIZE=4 and/or FP_WORD_SIZE=4 writes and reads the same bits as with 8 for every value those words can hold, '
  'and the C code generated with -wordSize 4, -fpWordSize 4, -slim, -eee, -ig, -es or -renamePolicy compiles, encodes every value of the types to the bits X.691 and the ACN specification prescribe, decodes them, and delivers what an input denotes or refuses it; a number that does not fit the integer of the generated type is refused, not cut short.',
  ['inputs'], 'all schemas in the supported subset that fit the words, all values that do, all inputs',
  'The stable tests build with 8-octet words and run code generated with default options.',
  GEN + ['asn1crt/asn1crt_encoding_acn.c'], [('integer and real classes', 'FrontEndAst/AcnCreateFromAntlr.fs'), ('C types and names', 'StgC/LangGeneric_c.fs'), ('word-size dependent code', 'asn1crt/asn1crt_encoding.c'), ('narrow decoders', 'asn1crt/asn1crt_encoding_acn.c')],
  'the TLA+ machine RtTrace.tla judges library traces recorded with each word size; E2eTrace.tla (uPER and ACN semantics) judges the code generated with each option, on the same schemas', NOTEE)
