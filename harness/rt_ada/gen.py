#!/usr/bin/env python3
"""writes rtada.adb: head.adb plus the dispatch on operation names"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
out = []


def emit(s):
    out.append(s)


def chain(name, sig, cases, tail='raise Bad_Script;'):
    emit('   procedure %s (op : String) is\n   begin\n' % name)
    first = True
    for k, body in cases:
        ks = k if isinstance(k, tuple) else (k,)
        emit('      %s %s then\n' % ('if' if first else 'elsif', ' or else '.join('op = "%s"' % x for x in ks)))
        emit('         declare\n' + ''.join('            %s\n' % l for l in body[0]) + '         begin\n' +
             ''.join('            %s\n' % l for l in body[1]) + '         end;\n')
        first = False
    emit('      else\n         %s\n      end if;\n   end %s;\n' % (tail, name))


C = lambda n, ty, ex: '%s : constant %s := %s;' % (n, ty, ex)
V = lambda n, ty: '%s : %s;' % (n, ty)
U64, I64, INT, OB = 'Unsigned_64', 'Integer_64', 'Integer', 'OctetBuffer'
DH = [C('d', OB, 'H'), C('dn', 'Natural', 'HL')]


def sel(n, pairs):
    return ['if %s = %d then %s;' % (n, pairs[0][0], pairs[0][1])] + ['elsif %s = %d then %s;' % (n, a, b) for a, b in pairs[1:]] + ['else raise Bad_Script; end if;']


enc = [
    ('bit', ([C('n', INT, 'I')], ['BitStream_AppendBit (bs.all, BIT (n));'])),
    ('byte', ([C('n', INT, 'I'), C('g', INT, 'I')], ['BitStream_AppendByte (bs.all, Asn1Byte (n), g = 1);'])),
    ('byte0', ([C('n', INT, 'I')], ['BitStream_AppendByte (bs.all, Asn1Byte (n), False);'])),
    ('pbyte', ([C('v', INT, 'I'), C('n', INT, 'I'), C('g', INT, 'I')], ['BitStream_AppendPartialByte (bs.all, Asn1Byte (v), n, g = 1);'])),
    ('zeros', ([C('n', INT, 'I'), 'z : constant BitArray (1 .. n) := (others => 0);'], ['BitStream_AppendBitArray (bs.all, z, n);'])),
    ('ones', ([C('n', INT, 'I'), 'z : constant BitArray (1 .. n) := (others => 1);'], ['BitStream_AppendBitArray (bs.all, z, n);'])),
    (('bytes', 'oct'), (DH, ['BitStream_EncodeOctetString_no_length (bs.all, d, dn);'])),
    ('bits', (DH + [C('n', INT, 'I')], ['BitStream_AppendBits (bs.all, d, n);'])),
    ('barr', (DH + [C('n', INT, 'I')], ['BitStream_AppendBitArray (bs.all, Bits (d, n), n);'])),
    ('ptrue', (DH + [C('n', INT, 'I'), C('b', INT, 'I')], ['Acn_Enc_Boolean_true_pattern (bs.all, b = 1, Bits (d, n));'])),
    ('pfalse', (DH + [C('n', INT, 'I'), C('b', INT, 'I')], ['Acn_Enc_Boolean_false_pattern (bs.all, b = 1, Bits (d, n));'])),
    ('ptf', (DH + [C('d2', OB, 'H'), C('n', INT, 'I'), C('b', INT, 'I')], ['Acn_Enc_Boolean_true_false_pattern (bs.all, b = 1, Bits (d, n), Bits (d2, n));'])),
    ('pnull', (DH + [C('n', INT, 'I'), C('b', INT, 'I')], ['if b = 1 then Acn_Enc_NullType_pattern (bs.all, 0, Bits (d, n)); else Acn_Enc_NullType_pattern2 (bs.all, Bits (d, n)); end if;'])),
    ('nonneg', ([C('v', U64, 'U')], ['BitStream_Encode_Non_Negative_Integer (bs.all, v, BitLen (v));'])),
    ('cint', ([C('v', I64, 'I64'), C('lo', I64, 'I64'), C('hi', I64, 'I64')], ['UPER_Enc_ConstraintWholeNumber (bs.all, v, lo, BitLen (To_U (hi) - To_U (lo)));'])),
    ('cuint', ([C('v', U64, 'U'), C('lo', U64, 'U'), C('hi', U64, 'U')], ['UPER_Enc_ConstraintPosWholeNumber (bs.all, v, lo, BitLen (hi - lo));'])),
    ('scint', ([C('v', I64, 'I64'), C('lo', I64, 'I64')], ['UPER_Enc_SemiConstraintWholeNumber (bs.all, v, lo);'])),
    ('scuint', ([C('v', U64, 'U'), C('lo', U64, 'U')], ['UPER_Enc_SemiConstraintPosWholeNumber (bs.all, v, lo);'])),
    ('bool', ([C('n', INT, 'I')], ['UPER_Enc_Boolean (bs.all, n = 1);'])),
    ('null', ([C('n', INT, 'I')], ['Acn_Enc_NullType (bs.all, Asn1NullType (0)); BitStream_AppendBit (bs.all, BIT (n));'])),
    ('ucint', ([C('v', I64, 'I64')], ['UPER_Enc_UnConstraintWholeNumber (bs.all, v);'])),
    ('real', ([C('v', U64, 'U')], ['UPER_Enc_Real (bs.all, Dbl (v));'])),
    ('octstr', (DH + [C('lo', INT, 'I'), C('hi', INT, 'I')], ['BitStream_EncodeOctetString (bs.all, d, dn, LenBits (lo, hi), lo, hi);'])),
    ('bitstr', (DH + [C('n', INT, 'I'), C('lo', INT, 'I'), C('hi', INT, 'I')], ['BitStream_EncodeBitString (bs.all, d, n, LenBits (lo, hi), lo, hi);'])),
    ('oid', ([C('x', 'Asn1ObjectIdentifier', 'Oida')], ['ObjectIdentifier_uper_encode (bs.all, x);'])),
    ('roid', ([C('x', 'Asn1ObjectIdentifier', 'Oida')], ['RelativeOID_uper_encode (bs.all, x);'])),
    ('align', ([C('n', INT, 'I')], ['Skip_To (n);'])),
    ('apos', ([C('v', U64, 'U'), C('n', INT, 'I')], ['Acn_Enc_Int_PositiveInteger_ConstSize (bs.all, v, n);'])),
    ('aposbe', ([C('v', U64, 'U'), C('n', INT, 'I')], sel('n', [(8, 'Acn_Enc_Int_PositiveInteger_ConstSize_8 (bs.all, v)')] + [(k, 'Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_%d (bs.all, v)' % k) for k in (16, 32, 64)]))),
    ('aposle', ([C('v', U64, 'U'), C('n', INT, 'I')], sel('n', [(k, 'Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_%d (bs.all, v)' % k) for k in (16, 32, 64)]))),
    ('aposvar', ([C('v', U64, 'U')], ['Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded (bs.all, v);'])),
    ('atwo', ([C('v', I64, 'I64'), C('n', INT, 'I')], ['Acn_Enc_Int_TwosComplement_ConstSize (bs.all, v, n);'])),
    ('atwobe', ([C('v', I64, 'I64'), C('n', INT, 'I')], sel('n', [(8, 'Acn_Enc_Int_TwosComplement_ConstSize_8 (bs.all, v)')] + [(k, 'Acn_Enc_Int_TwosComplement_ConstSize_big_endian_%d (bs.all, v)' % k) for k in (16, 32, 64)]))),
    ('atwole', ([C('v', I64, 'I64'), C('n', INT, 'I')], sel('n', [(k, 'Acn_Enc_Int_TwosComplement_ConstSize_little_endian_%d (bs.all, v)' % k) for k in (16, 32, 64)]))),
    ('atwovar', ([C('v', I64, 'I64')], ['Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded (bs.all, v);'])),
    ('abcd', ([C('v', U64, 'U'), C('n', INT, 'I')], ['Acn_Enc_Int_BCD_ConstSize (bs.all, v, n);'])),
    ('abcdnul', ([C('v', U64, 'U')], ['Acn_Enc_Int_BCD_VarSize_NullTerminated (bs.all, v);'])),
    ('auasc', ([C('v', U64, 'U'), C('n', INT, 'I')], ['Acn_Enc_UInt_ASCII_ConstSize (bs.all, v, n);'])),
    ('asasc', ([C('v', I64, 'I64'), C('n', INT, 'I')], ['Acn_Enc_Int_ASCII_ConstSize (bs.all, v, n);'])),
    ('auascvar', ([C('v', U64, 'U')], ['Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded (bs.all, v);'])),
    ('asascvar', ([C('v', I64, 'I64')], ['Acn_Enc_Int_ASCII_VarSize_LengthEmbedded (bs.all, v);'])),
    ('auascnul', ([C('v', U64, 'U')] + DH, ['Acn_Enc_UInt_ASCII_VarSize_NullTerminated (bs.all, v, d);'])),
    ('asascnul', ([C('v', I64, 'I64')] + DH, ['Acn_Enc_Int_ASCII_VarSize_NullTerminated (bs.all, v, d);'])),
    ('strfix', (DH, ['Acn_Enc_String_Ascii_FixSize (bs.all, Str (d, dn, dn));'])),
    ('strnul', (DH + [C('mx', INT, 'I'), C('n', INT, 'I')], ['Acn_Enc_String_Ascii_Null_Terminated (bs.all, OctetBuffer\'(1 => Asn1Byte (n)), Str (d, dn, mx));'])),
    ('strnulm', (DH + [C('mx', INT, 'I'), C('d2', OB, 'H')], ['Acn_Enc_String_Ascii_Null_Terminated (bs.all, d2, Str (d, dn, mx));'])),
    ('strext', (DH + [C('mx', INT, 'I')], ['Acn_Enc_String_Ascii_External_Field_Determinant (bs.all, Str (d, dn, mx));'])),
    ('strint', (DH + [C('lo', INT, 'I'), C('mx', INT, 'I')], ['Acn_Enc_String_Ascii_Internal_Field_Determinant (bs.all, Asn1Int (lo), LenBits (lo, mx), Str (d, dn, mx));'])),
    ('idxfix', (DH + [C('d2', OB, 'H'), C('cn', INT, 'HL')], ['Acn_Enc_String_CharIndex_External_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Str (d, dn, dn));'])),
    ('idxext', (DH + [C('mx', INT, 'I'), C('d2', OB, 'H'), C('cn', INT, 'HL')], ['Acn_Enc_String_CharIndex_External_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Str (d, dn, mx));'])),
    ('idxint', (DH + [C('lo', INT, 'I'), C('mx', INT, 'I'), C('d2', OB, 'H'), C('cn', INT, 'HL')], ['Acn_Enc_String_CharIndex_Internal_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Asn1Int (lo), LenBits (lo, mx), Str (d, dn, mx));'])),
    ('ia5ext', (DH + [C('mx', INT, 'I')], ['Acn_Enc_String_CharIndex_External_Field_Determinant (bs.all, Ascii, 7, Str (d, dn, mx));'])),
    ('ia5int', (DH + [C('lo', INT, 'I'), C('mx', INT, 'I')], ['Acn_Enc_String_CharIndex_Internal_Field_Determinant (bs.all, Ascii, 7, Asn1Int (lo), LenBits (lo, mx), Str (d, dn, mx));'])),
]
F32 = 'Asn1Real (Flt (Shift_Left (Unsigned_32 (d (1)), 24) or Shift_Left (Unsigned_32 (d (2)), 16) or Shift_Left (Unsigned_32 (d (3)), 8) or Unsigned_32 (d (4))))'
for en in ('be', 'le'):
    full = {'be': 'big', 'le': 'little'}[en]
    enc.append(('f32' + en, ([C('d', OB, 'H')], ['Acn_Enc_Real_IEEE754_32_%s_endian (bs.all, %s);' % (full, F32)])))
    enc.append(('f64' + en, ([C('d', OB, 'H'), 'w : Unsigned_64 := 0;'], ['for x of d loop w := w * 256 + Unsigned_64 (x); end loop;', 'Acn_Enc_Real_IEEE754_64_%s_endian (bs.all, Dbl (w));' % full])))


# ---------------------------------------------------------------- decoders
def top(ty, cap):
    """the largest acceptable value: the contracts of the decimal decoders limit it"""
    return "%s (Unsigned_64'Min (Unsigned_64 (%s'Last), Cap (%s)))" % (ty, ty, cap) if cap else "%s'Last" % ty


def narrow(fn, signed, extra='', widths=(8, 16, 32), wide=True, rng=True, fnw=None, cap=None):
    """calls of the decoder variants selected by nw"""
    r = []
    out = 'I' if signed else 'U'
    for w in widths:
        ty = ('Integer_%d' if signed else 'Unsigned_%d') % w
        nm = '%s%s%d' % (fn, 'Int' if signed else 'UInt', w)
        a = (', %s\'First, %s' % (ty, top(ty, cap)) if rng else '') + extra
        r.append('%s nw = %d then\n               declare v : %s; begin %s (bs.all, v%s, res); Got; %s; end;' % ('if' if not r else 'elsif', w, ty, nm, a, 'VS (Integer_64 (v))' if signed else 'VU (Unsigned_64 (v))'))
    ty = I64 if signed else U64
    a = (', %s\'First, %s' % (ty, top(ty, cap)) if rng else '') + extra
    body = 'declare v : %s; begin %s (bs.all, v%s, res); Got; %s; end;' % (ty, fnw or fn, a, 'VS (v)' if signed else 'VU (v)')
    if r:
        r.append('else\n               %s\n            end if;' % body)
    else:
        r.append(body)
    return r


def endian(base, signed, sizes, full):
    r = []
    for k in sizes:
        nm = base + ('_8' if k == 8 else '_%s_endian_%d' % (full, k))
        ws = {8: (8,), 16: (8, 16), 32: (8, 16, 32), 64: (8, 16, 32)}[k]
        r.append('%s n = %d then' % ('if' if not r else 'elsif', k))
        r += ['   ' + x for x in narrow(nm, signed, widths=ws)]
    r.append('else raise Bad_Script; end if;')
    return r


N, NW = C('n', INT, 'I'), C('nw', INT, 'I')
CS = [C('d2', OB, 'H'), C('cn', INT, 'HL')]
SV = 's : String (1 .. mx + 1) := (others => NUL);'
DONE = ['Got;', 'if ok then StrV (s); end if;']


def cnum(signed, narrowfn, widefn):
    """constrained whole numbers: narrow variants take bounds of their own type; success is a Boolean"""
    r = []
    for w in (8, 16, 32):
        ty = ('Integer_%d' if signed else 'Unsigned_%d') % w
        conv = '%s (lo), %s (hi)' % (ty, ty)
        r.append('%s nw = %d then' % ('if' if not r else 'elsif', w))
        r.append('   declare v : %s; begin %s%s%d (bs.all, v, %s, nb, ok); %s; end;' % (ty, narrowfn, 'Int' if signed else 'UInt', w, conv, 'VS (Integer_64 (v))' if signed else 'VU (Unsigned_64 (v))'))
    r += ['else', '   declare v : %s; begin %s (bs.all, v, lo, hi, nb, ok); %s; end;' % (I64 if signed else U64, widefn, 'VS (v)' if signed else 'VU (v)'), 'end if;']
    return r


dec = [
    ('bit', (['v : BIT;'], ['BitStream_ReadBit (bs.all, v, ok); if ok then Num ("v", Integer (v)); end if;'])),
    (('byte', 'byte0'), (['v : Asn1Byte;'], ['BitStream_DecodeByte (bs.all, v, ok); if ok then Num ("v", Integer (v)); end if;'])),
    ('pbyte', ([N, 'v : Asn1Byte;'], ['BitStream_ReadPartialByte (bs.all, v, n); Num ("v", Integer (v));'])),
    ('peek', ([], ['Num ("v", Integer (BitStream_PeekPartialByte (bs.all, 0, 1)));'])),
    (('bytes', 'oct'), ([N, 'r : OctetBuffer (1 .. (if n = 0 then 1 else n)) := (others => 16#5A#);'], ['BitStream_DecodeOctetString_no_length (bs.all, r, n, ok); if ok then Bytes ("v", r, n); end if;'])),
    ('bits', ([N, 'r : OctetBuffer (1 .. (n + 7) / 8) := (others => 16#A5#);'], ['BitStream_ReadBits (bs.all, r, n, ok); if ok then Bytes ("v", r, (n + 7) / 8); end if;'])),
    ('barr', ([N, 'r : BitArray (1 .. n) := (others => 1);'], ['BitStream_ReadBitArray (bs.all, r, n, ok); if ok then BitV (r, n, (n + 7) / 8); end if;'])),
    ('nonneg', ([N, V('v', U64)], ['BitStream_Decode_Non_Negative_Integer (bs.all, v, n, ok); VU (v);'])),
    ('cint', ([C('lo', I64, 'I64'), C('hi', I64, 'I64'), NW, C('nb', INT, 'BitLen (To_U (hi) - To_U (lo))')], cnum(True, 'UPER_Dec_ConstraintWholeNumber', 'UPER_Dec_ConstraintWholeNumber'))),
    ('cuint', ([C('lo', U64, 'U'), C('hi', U64, 'U'), NW, C('nb', INT, 'BitLen (hi - lo)')], cnum(False, 'UPER_Dec_ConstraintPosWholeNumber', 'UPER_Dec_ConstraintPosWholeNumber'))),
    ('scint', ([C('lo', I64, 'I64'), V('v', I64)], ['UPER_Dec_SemiConstraintWholeNumber (bs.all, v, lo, ok); VS (v);'])),
    ('scuint', ([C('lo', U64, 'U'), V('v', U64)], ['UPER_Dec_SemiConstraintPosWholeNumber (bs.all, v, lo, ok); VU (v);'])),
    ('bool', (['v : Asn1Boolean; n : Integer;'], ['UPER_Dec_Boolean (bs.all, v, ok); n := (if v then 1 else 0); if ok then Num ("v", n); end if;'])),
    ('null', (['v : BIT; z : Asn1NullType;'], ['Acn_Dec_NullType (bs.all, z, res); Got; if ok then BitStream_ReadBit (bs.all, v, ok); end if; if ok then Num ("v", Integer (v)); end if;'])),
    ('ucmax', ([V('v', I64), C('m', I64, 'I64')], ['UPER_Dec_UnConstraintWholeNumberMax (bs.all, v, m, ok); if ok or else v = m then VS (v); else raise Bad_Script; end if;'])),
    ('ucint', ([V('v', I64)], ['UPER_Dec_UnConstraintWholeNumber (bs.all, v, ok); VS (v);'])),
    ('real', ([NW, 'v : Long_Float; f : Float;'], ['if nw = 32 then UPER_Dec_Real_fp32 (bs.all, f, res); Got; if ok then Word ("v", UnDbl (Long_Float (f))); end if;',
                                                   'else UPER_Dec_Real (bs.all, v, res); Got; if ok then Word ("v", UnDbl (v)); end if; end if;'])),
    ('octstr', ([C('lo', INT, 'I'), C('hi', INT, 'I'), 'r : OctetBuffer (1 .. (if hi = 0 then 1 else hi)) := (others => 16#5A#); c : Integer;'],
                ['BitStream_DecodeOctetString (bs.all, r, c, LenBits (lo, hi), lo, hi, ok); if ok then Num ("c", c); Bytes ("v", r, c); end if;'])),
    ('bitstr', ([C('lo', INT, 'I'), C('hi', INT, 'I'), 'r : OctetBuffer (1 .. (if hi = 0 then 1 else (hi + 7) / 8)) := (others => 16#5A#); c : Integer;'],
                ['BitStream_DecodeBitString (bs.all, r, c, LenBits (lo, hi), lo, hi, ok); if ok then Num ("c", c); Bytes ("v", r, (c + 7) / 8); end if;'])),
    ('oid', (['x : Asn1ObjectIdentifier;'], ['ObjectIdentifier_uper_decode (bs.all, x, res); Got; Oidv (x);'])),
    ('roid', (['x : Asn1ObjectIdentifier;'], ['RelativeOID_uper_decode (bs.all, x, res); Got; Oidv (x);'])),
    ('align', ([N], ['Skip_To (n);'])),
    ('apos', ([N, NW], narrow('Acn_Dec_Int_PositiveInteger_ConstSize', False, ', n'))),
    ('aposbe', ([N, NW], endian('Acn_Dec_Int_PositiveInteger_ConstSize', False, (8, 16, 32, 64), 'big'))),
    ('aposle', ([N, NW], endian('Acn_Dec_Int_PositiveInteger_ConstSize', False, (16, 32, 64), 'little'))),
    ('aposvar', ([V('v', U64)], ['Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded (bs.all, v, 0, res); Got; VU (v);'])),
    ('atwo', ([N, NW], narrow('Acn_Dec_Int_TwosComplement_ConstSize', True, ', n'))),
    ('atwobe', ([N, NW], endian('Acn_Dec_Int_TwosComplement_ConstSize', True, (8, 16, 32, 64), 'big'))),
    ('atwole', ([N, NW], endian('Acn_Dec_Int_TwosComplement_ConstSize', True, (16, 32, 64), 'little'))),
    ('atwovar', ([V('v', I64)], ['Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded (bs.all, v, res); Got; VS (v);'])),
    ('abcd', ([N, NW], narrow('Acn_Dec_Int_BCD_ConstSize', False, ', n', cap='n'))),
    ('abcdnul', ([NW], narrow('Acn_Dec_Int_BCD_VarSize_NullTerminated', False, cap='19'))),
    ('auasc', ([N, NW], narrow('Acn_Dec_UInt_ASCII_ConstSize', False, ', n', cap='19'))),
    ('asasc', ([N, NW], narrow('Acn_Dec_Int_ASCII_ConstSize', True, ', n'))),
    ('auascnul', (DH + [NW], narrow('Acn_Dec_UInt_ASCII_VarSize_NullTerminated', False, ', d', rng=False))),
    ('asascnul', (DH + [NW], narrow('Acn_Dec_Int_ASCII_VarSize_NullTerminated', True, ', d', rng=False))),
    ('strfix', ([C('mx', INT, 'I'), SV], ['Acn_Dec_String_Ascii_FixSize (bs.all, s, res);'] + DONE)),
    ('strnul', ([C('mx', INT, 'I'), N, SV], ['Acn_Dec_String_Ascii_Null_Terminated (bs.all, OctetBuffer\'(1 => Asn1Byte (n)), s, res);'] + DONE)),
    ('strnulm', ([C('mx', INT, 'I'), C('d2', OB, 'H'), SV], ['Acn_Dec_String_Ascii_Null_Terminated (bs.all, d2, s, res);'] + DONE)),
    ('strext', ([C('mx', INT, 'I'), N, SV], ['Acn_Dec_String_Ascii_External_Field_Determinant (bs.all, Asn1Int (n), s, res);'] + DONE)),
    ('strint', ([C('lo', INT, 'I'), C('mx', INT, 'I'), SV], ['Acn_Dec_String_Ascii_Internal_Field_Determinant (bs.all, Asn1Int (lo), Asn1Int (mx), LenBits (lo, mx), s, res);'] + DONE)),
    ('idxfix', ([C('mx', INT, 'I')] + CS + [SV], ['Acn_Dec_String_CharIndex_External_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Asn1Int (mx), s, res);'] + DONE)),
    ('idxext', ([C('mx', INT, 'I'), N] + CS + [SV], ['Acn_Dec_String_CharIndex_External_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Asn1Int (n), s, res);'] + DONE)),
    ('idxint', ([C('lo', INT, 'I'), C('mx', INT, 'I')] + CS + [SV], ['Acn_Dec_String_CharIndex_Internal_Field_Determinant (bs.all, Chars (d2, cn), BitLen (Unsigned_64 (cn - 1)), Asn1Int (lo), Asn1Int (mx), LenBits (lo, mx), s, res);'] + DONE)),
    ('ia5ext', ([C('mx', INT, 'I'), N, SV], ['Acn_Dec_String_CharIndex_External_Field_Determinant (bs.all, Ascii, 7, Asn1Int (n), s, res);'] + DONE)),
    ('ia5int', ([C('lo', INT, 'I'), C('mx', INT, 'I'), SV], ['Acn_Dec_String_CharIndex_Internal_Field_Determinant (bs.all, Ascii, 7, Asn1Int (lo), Asn1Int (mx), LenBits (lo, mx), s, res);'] + DONE)),
    ('pat', (DH + [N, 'v : Boolean;'], ['Acn_Dec_Boolean_true_pattern (bs.all, v, Bits (d, n), res); Got; if ok then Bool ("v", v); end if;'])),
    ('patf', (DH + [N, 'v : Boolean;'], ['Acn_Dec_Boolean_false_pattern (bs.all, v, Bits (d, n), res); Got; if ok then Bool ("v", not v); end if;'])),
    ('patn', (DH + [N, C('k', INT, 'I'), 'z : Asn1NullType;'], ['if k = 1 then Acn_Dec_NullType_pattern (bs.all, z, Bits (d, n), res); else Acn_Dec_NullType_pattern2 (bs.all, Bits (d, n), res); end if;', 'Bool ("v", res.Success);'])),
    ('patign', ([N], ['BitStream_SkipBits (bs.all, n); Bool ("v", True);'])),
    ('tf', (DH + [C('d2', OB, 'H'), N, 'v : Boolean;'], ['Acn_Dec_Boolean_true_false_pattern (bs.all, v, Bits (d, n), Bits (d2, n), res); Got; if ok then Bool ("v", v); end if;'])),
    ('chkpat', (DH + [N], ['if BitStream_bitPatternMatches (bs.all, d, n) then Num ("v", 2); bs.Current_Bit_Pos := bs.Current_Bit_Pos + n; else Num ("v", 1); end if;'])),
    ('bitsnul', (DH + [N, C('mx', INT, 'I'), 'r : BitArray (1 .. mx) := (others => 1); c : Natural;'],
                 ['BitStream_ReadBits_nullterminated (bs.all, r, c, d, n, ok); if ok then Num ("c", c); BitV (r, c, (c + 7) / 8); end if;'])),
]
for en in ('be', 'le'):
    full = {'be': 'big', 'le': 'little'}[en]
    dec.append(('f32' + en, ([NW, 'v : Long_Float; f : Float; w : Unsigned_32; b : OctetBuffer (1 .. 4);'],
                             ['if nw = 32 then Acn_Dec_Real_IEEE754_32_%s_endian_fp32 (bs.all, f, res); else Acn_Dec_Real_IEEE754_32_%s_endian (bs.all, v, res); f := Float (v); end if;' % (full, full),
                              'Got;', 'if ok then w := UnFlt (f); for k in 1 .. 4 loop b (k) := Asn1Byte (Shift_Right (w, 32 - 8 * k) and 255); end loop; Bytes ("v", b, 4); end if;'])))
    dec.append(('f64' + en, (['v : Long_Float;'], ['Acn_Dec_Real_IEEE754_64_%s_endian (bs.all, v, res); Got; if ok then Word ("v", UnDbl (v)); end if;' % full])))

DETS = 'U8 U16_BE U32_BE U64_BE U16_LE U32_LE U64_LE I8 I16_BE I32_BE I64_BE BOOL1'.split()
ini = [(k, ([], ['Acn_InitDet_%s (bs.all, dets (ndets));' % k])) for k in DETS] + [
    ('ConstSize', ([N], ['Acn_InitDet_ConstSize (bs.all, dets (ndets), n);'])),
    ('TwosComplement_ConstSize', ([N], ['Acn_InitDet_TwosComplement_ConstSize (bs.all, dets (ndets), n);'])),
    ('IA5', ([N], ['Acn_InitDet_IA5String_FixSize (bs.all, dets (ndets), n);']))]
pat = [(k, ([C('j', INT, 'I'), C('v', U64, 'U')], ['Acn_PatchDet_%s (v, bs.all, dets (j), res);' % k])) for k in DETS] + [
    ('ConstSize', ([C('j', INT, 'I'), N, C('v', U64, 'U')], ['Acn_PatchDet_ConstSize (v, bs.all, dets (j), n, res);'])),
    ('TwosComplement_ConstSize', ([C('j', INT, 'I'), N, C('v', U64, 'U')], ['Acn_PatchDet_TwosComplement_ConstSize (v, bs.all, dets (j), n, res);'])),
    ('IA5', ([C('j', INT, 'I'), N] + DH, ['Acn_PatchDet_IA5String_FixSize (Str (d, dn, n), bs.all, n, dets (j), res);']))]
OID = [C('x', 'Asn1ObjectIdentifier', 'Oida')]
fn = [
    ('lenu', ([C('v', U64, 'U')], ['Num ("r", Integer (GetBytes (v)));'])),
    ('lens', ([C('v', I64, 'I64')], ['Num ("r", Integer (GetLengthInBytesOfSInt (v)));'])),
    ('int2uint', ([C('v', I64, 'I64')], ['Word ("r", To_UInt (v));'])),
    ('uint2int', ([C('v', U64, 'U'), N], ['Word ("r", To_U (To_Int_n (v, 8 * n)));'])),
    ('octeq', (DH + [C('e', OB, 'H'), C('en', INT, 'HL')], ['Bool ("r", OctetString_equal (dn, en, d, e));'])),
    ('biteq', (DH + [C('e', OB, 'H'), N, C('m', INT, 'I')], ['Bool ("r", BitString_equal (n, m, Bits (d, (if dn = 0 then 8 else 8 * dn)), Bits (e, (if HL = 0 then 8 else 8 * HL))));'])),
    ('oideq', (OID + [C('y', 'Asn1ObjectIdentifier', 'Oida')], ['Bool ("r", ObjectIdentifier_equal (x, y));'])),
    ('oidvalid', (OID, ['Bool ("r", ObjectIdentifier_isValid (x));'])),
    ('roidvalid', (OID, ['Bool ("r", RelativeOID_isValid (x));'])),
    ('milenc', ([C('v', I64, 'I64')], ['Word ("r", To_U (milbus_encode (v)));'])),
    ('mildec', ([C('v', I64, 'I64')], ['Word ("r", To_U (milbus_decode (v)));'])),
]

emit(open(os.path.join(HERE, 'head.adb')).read())
chain('Enc', '', enc)
chain('Dec', '', dec)
chain('Ini', '', ini)
chain('Pat', '', pat)
chain('Fn', '', fn)
emit('''
   p0, p1 : Natural;
begin
   if Ada.Command_Line.Argument_Count > 0 then PAD := Integer'Value (Ada.Command_Line.Argument (1)); end if;
   while not End_Of_File loop
      Free (line);
      line := new String'(Get_Line);
      lp := 1;
      o := Null_Unbounded_String;
      res := (True, 0);
      ok := True;
      dummy := alarm (5);
      declare
         k : constant Character := line (1);
      begin
         lp := 2;
         case k is
            when 'E' => Open (I); ndets := 0; P ("{}");
            when 'D' =>
               declare d : constant OctetBuffer := H; begin
                  Open (HL);
                  for j in 1 .. HL loop bs.Buffer (j) := d (j); end loop;
               end;
               P ("{}");
            when 'e' | 'i' =>
               p0 := bs.Current_Bit_Pos;
               declare op : constant String := T; begin
                  if k = 'e' then Enc (op); else ndets := ndets + 1; Ini (op); end if;
               end;
               p1 := bs.Current_Bit_Pos;
               P ("{""ok"":true"); Num ("p", p1); Arr ("reg", p0 / 8, (p1 + 7) / 8); P ("}");
            when 'd' => P ("{""k"":""dec"""); Dec (T); Bool ("ok", ok); Num ("p", bs.Current_Bit_Pos); P ("}");
            when 'p' => Pat (T); P ("{""k"":""patch"""); Bool ("ok", res.Success); Num ("p", bs.Current_Bit_Pos);
               Num ("err", res.ErrorCode); Arr ("all", 0, (bs.Current_Bit_Pos + 7) / 8); P ("}");
            when 'r' | 'x' =>
               P ("{""x"":0"); Num ("p", bs.Current_Bit_Pos); Arr ("all", 0, (bs.Current_Bit_Pos + 7) / 8); P ("}");
               if k = 'r' then bs.Current_Bit_Pos := 0; end if;
            when 'f' => P ("{""k"":""fn"""); Fn (T); P ("}");
            when others => raise Bad_Script;
         end case;
      end;
      dummy := alarm (0);
      Put_Line (To_String (o));
      Flush;
   end loop;
exception
   when Bad_Script => Put_Line (Standard_Error, "bad script line " & line.all); Ada.Command_Line.Set_Exit_Status (97);
   when e : others => Put_Line (Standard_Error, Ada.Exceptions.Exception_Information (e)); Ada.Command_Line.Set_Exit_Status (99);
end rtada;
''')
open(sys.argv[1], 'w').write(''.join(out))
