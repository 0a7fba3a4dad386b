/* Replays scripted calls on one bit stream of the real run-time library and
   prints what happened, one JSON object per call (see spec/RtTrace.tla). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "asn1crt.h"
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"

static char *tok_s; static char line[4000000];
static char *T(void) { char *t = strtok_r(NULL, " \n", &tok_s); if (!t) { fprintf(stderr, "missing token\n"); exit(97);} return t; }
static uint64_t U(void) { return strtoull(T(), NULL, 16); }
static int I(void) { return atoi(T()); }
/* an exactly sized heap copy, so that the address sanitiser sees over-reads */
static int hl;
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static byte *H(void) { char *t = T(); if (*t == '-') { hl = 0; return malloc(1); }
  hl = (int)strlen(t) / 2; byte *b = malloc(hl ? hl : 1);
  for (int i = 0; i < hl; i++) b[i] = (byte)(hexv(t[2*i]) * 16 + hexv(t[2*i+1])); return b; }
static char *S(void) { byte *b = H(); char *s = malloc(hl + 1); memcpy(s, b, hl); s[hl] = 0; free(b); return s; }

static BitStream bs; static byte *buf; static long cap; static int decoding;
/* what has left a streaming buffer / what is still to come into it */
static byte *out; static long outn, outcap; static const byte *src; static long srcn, srcpos, chunks;
static long base;      /* bytes before the start of the current buffer */
#ifdef ASN1SCC_STREAMING
void pushData(BitStream *p, void *prm) { (void)prm; memcpy(out + outn, p->buf, p->currentByte); outn += p->currentByte; base += p->currentByte; }
void fetchData(BitStream *p, void *prm) { (void)prm; long n = srcn - srcpos < p->count ? srcn - srcpos : p->count;
  base += p->count; memset(p->buf, 0, p->count); memcpy(p->buf, src + srcpos, n); srcpos += n; 
  (void)n; }
#endif
static long pos(void) { return (base + bs.currentByte) * 8 + bs.currentBit; }
static byte at(long i) { return i < outn ? out[i] : buf[i - outn]; }
static void arr(const char *k, long from, long to) { printf(",\"%s\":[", k); for (long i = from; i < to; i++) printf("%s%d", i > from ? "," : "", at(i)); printf("]"); }
static void bytes(const char *k, const byte *b, long n) { printf(",\"%s\":[", k); for (long i = 0; i < n; i++) printf("%s%d", i ? "," : "", b[i]); printf("]"); }
static void word(const char *k, uint64_t v) { printf(",\"%s\":[", k); for (int i = 7; i >= 0; i--) printf("%d%s", (int)((v >> (8*i)) & 255), i ? "," : "]"); }
static void num(const char *k, long v) { printf(",\"%s\":%ld", k, v); }
static void boolean(const char *k, int v) { printf(",\"%s\":%s", k, v ? "true" : "false"); }
static void oidv(const char *k, Asn1ObjectIdentifier *o) { printf(",\"%s\":[", k);
  for (int i = 0; i < o->nCount; i++) { printf("%s[", i ? "," : ""); for (int j = 7; j >= 0; j--) printf("%d%s", (int)(((uint64_t)o->values[i] >> (8*j)) & 255), j ? "," : "]"); } printf("]"); }
static Asn1ObjectIdentifier oida(void) { Asn1ObjectIdentifier o; ObjectIdentifier_Init(&o); o.nCount = I(); for (int i = 0; i < o.nCount; i++) o.values[i] = (asn1SccUint)U(); return o; }
static double dbl(uint64_t w) { double d; memcpy(&d, &w, 8); return d; }
static uint64_t undbl(double d) { uint64_t w; memcpy(&w, &d, 8); return w; }
static char curop[32];
static void on_alarm(int s) { (void)s; const char m[] = "HANG\n"; ssize_t r = write(1, m, 5); (void)r; _exit(98); }

#define IS(x) (!strcmp(op, x))
#define UP(name) else if (IS(#name)) 

static flag enc(const char *op) {
  flag ok = TRUE; int n, mn, mx; uint64_t a, b, c; byte *d, *d2; char *s;
  if (IS("bit")) { n = I(); if (n == 0 && I()) BitStream_AppendBitZero(&bs); else if (n == 1 && I()) BitStream_AppendBitOne(&bs); else BitStream_AppendBit(&bs, (flag)n); }
  else if (IS("byte")) { n = I(); BitStream_AppendByte(&bs, (byte)n, (flag)I()); }
  else if (IS("byte0")) ok = BitStream_AppendByte0(&bs, (byte)I());
  else if (IS("pbyte")) { mn = I(); n = I(); BitStream_AppendPartialByte(&bs, (byte)mn, (byte)n, (flag)I()); }
  else if (IS("zeros")) BitStream_AppendNBitZero(&bs, I());
  else if (IS("ones")) BitStream_AppendNBitOne(&bs, I());
  else if (IS("bytes")) { d = H(); ok = BitStream_AppendByteArray(&bs, d, hl); free(d); }
  else if (IS("oct")) { d = H(); ok = BitStream_EncodeOctetString_no_length(&bs, d, hl); free(d); }
  else if (IS("bits")) { d = H(); BitStream_AppendBits(&bs, d, I()); free(d); }
  else if (IS("nonneg")) BitStream_EncodeNonNegativeInteger(&bs, (asn1SccUint)U());
  else if (IS("nonnegneg")) { a = U(); BitStream_EncodeNonNegativeIntegerNeg(&bs, (asn1SccUint)a, (flag)I()); }
  else if (IS("cint")) { a = U(); b = U(); c = U(); BitStream_EncodeConstraintWholeNumber(&bs, (asn1SccSint)a, (asn1SccSint)b, (asn1SccSint)c); }
  else if (IS("cuint")) { a = U(); b = U(); c = U(); BitStream_EncodeConstraintPosWholeNumber(&bs, (asn1SccUint)a, (asn1SccUint)b, (asn1SccUint)c); }
  else if (IS("scint")) { a = U(); b = U(); BitStream_EncodeSemiConstraintWholeNumber(&bs, (asn1SccSint)a, (asn1SccSint)b); }
  else if (IS("scuint")) { a = U(); b = U(); BitStream_EncodeSemiConstraintPosWholeNumber(&bs, (asn1SccUint)a, (asn1SccUint)b); }
  else if (IS("ucint")) BitStream_EncodeUnConstraintWholeNumber(&bs, (asn1SccSint)U());
  else if (IS("real")) BitStream_EncodeReal(&bs, (asn1Real)dbl(U()));
  else if (IS("octstr")) { d = H(); n = hl; mn = I(); mx = I(); ok = BitStream_EncodeOctetString(&bs, d, n, mn, mx); free(d); }
  else if (IS("octfrag")) { d = H(); ok = BitStream_EncodeOctetString_fragmentation(&bs, d, hl); free(d); }
  else if (IS("bitstr")) { d = H(); n = I(); mn = I(); mx = I(); ok = BitStream_EncodeBitString(&bs, d, n, mn, mx); free(d); }
  else if (IS("oid")) { Asn1ObjectIdentifier o = oida(); ObjectIdentifier_uper_encode(&bs, &o); }
  else if (IS("roid")) { Asn1ObjectIdentifier o = oida(); RelativeOID_uper_encode(&bs, &o); }
  else if (IS("align")) { n = I(); if (n == 8) Acn_AlignToNextByte(&bs, TRUE); else if (n == 16) Acn_AlignToNextWord(&bs, TRUE); else Acn_AlignToNextDWord(&bs, TRUE); }
  else if (IS("apos")) { a = U(); Acn_Enc_Int_PositiveInteger_ConstSize(&bs, (asn1SccUint)a, I()); }
  else if (IS("alen")) { a = U(); Acn_Enc_Length(&bs, (asn1SccUint)a, I()); }
  else if (IS("aposbe")) { a = U(); n = I(); if (n == 8) Acn_Enc_Int_PositiveInteger_ConstSize_8(&bs, a); else if (n == 16) Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(&bs, a);
     else if (n == 32) Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(&bs, a); else Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(&bs, a); }
  else if (IS("aposle")) { a = U(); n = I(); if (n == 16) Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(&bs, a);
     else if (n == 32) Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(&bs, a); else Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(&bs, a); }
  else if (IS("aposvar")) Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded(&bs, (asn1SccUint)U());
  else if (IS("atwo")) { a = U(); Acn_Enc_Int_TwosComplement_ConstSize(&bs, (asn1SccSint)a, I()); }
  else if (IS("atwobe")) { asn1SccSint v = (asn1SccSint)U(); n = I(); if (n == 8) Acn_Enc_Int_TwosComplement_ConstSize_8(&bs, v); else if (n == 16) Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(&bs, v);
     else if (n == 32) Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(&bs, v); else Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(&bs, v); }
  else if (IS("atwole")) { asn1SccSint v = (asn1SccSint)U(); n = I(); if (n == 16) Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(&bs, v);
     else if (n == 32) Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(&bs, v); else Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(&bs, v); }
  else if (IS("atwovar")) Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded(&bs, (asn1SccSint)U());
  else if (IS("abcd")) { a = U(); Acn_Enc_Int_BCD_ConstSize(&bs, (asn1SccUint)a, I()); }
  else if (IS("abcdvar")) Acn_Enc_Int_BCD_VarSize_LengthEmbedded(&bs, (asn1SccUint)U());
  else if (IS("abcdnul")) Acn_Enc_Int_BCD_VarSize_NullTerminated(&bs, (asn1SccUint)U());
  else if (IS("auasc")) { a = U(); Acn_Enc_UInt_ASCII_ConstSize(&bs, (asn1SccUint)a, I()); }
  else if (IS("asasc")) { a = U(); Acn_Enc_SInt_ASCII_ConstSize(&bs, (asn1SccSint)a, I()); }
  else if (IS("auascvar")) Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded(&bs, (asn1SccUint)U());
  else if (IS("asascvar")) Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(&bs, (asn1SccSint)U());
  else if (IS("auascnul")) { a = U(); d = H(); Acn_Enc_UInt_ASCII_VarSize_NullTerminated(&bs, (asn1SccUint)a, d, hl); free(d); }
  else if (IS("asascnul")) { a = U(); d = H(); Acn_Enc_SInt_ASCII_VarSize_NullTerminated(&bs, (asn1SccSint)a, d, hl); free(d); }
  else if (IS("strfix")) { s = S(); Acn_Enc_String_Ascii_FixSize(&bs, hl, s); free(s); }
  else if (IS("strnul")) { s = S(); mx = I(); n = I(); Acn_Enc_String_Ascii_Null_Terminated(&bs, mx, (char)n, s); free(s); }
  else if (IS("strnulm")) { s = S(); mx = I(); d2 = H(); Acn_Enc_String_Ascii_Null_Terminated_mult(&bs, mx, d2, hl, s); free(s); free(d2); }
  else if (IS("strext")) { s = S(); mx = I(); Acn_Enc_String_Ascii_External_Field_Determinant(&bs, mx, s); free(s); }
  else if (IS("strint")) { s = S(); mn = I(); mx = I(); Acn_Enc_String_Ascii_Internal_Field_Determinant(&bs, mx, mn, s); free(s); }
  else if (IS("idxfix")) { s = S(); n = hl; d2 = H(); Acn_Enc_String_CharIndex_FixSize(&bs, n, d2, hl, s); free(s); free(d2); }
  else if (IS("idxext")) { s = S(); mx = I(); d2 = H(); Acn_Enc_String_CharIndex_External_Field_Determinant(&bs, mx, d2, hl, s); free(s); free(d2); }
  else if (IS("idxint")) { s = S(); mn = I(); mx = I(); d2 = H(); Acn_Enc_String_CharIndex_Internal_Field_Determinant(&bs, mx, d2, hl, mn, s); free(s); free(d2); }
  else if (IS("ia5ext")) { s = S(); mx = I(); Acn_Enc_IA5String_CharIndex_External_Field_Determinant(&bs, mx, s); free(s); }
  else if (IS("ia5int")) { s = S(); mn = I(); mx = I(); Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(&bs, mx, mn, s); free(s); }
  else if (IS("f32be") || IS("f32le")) { d = H(); uint32_t w = ((uint32_t)d[0] << 24) | (d[1] << 16) | (d[2] << 8) | d[3]; float f; memcpy(&f, &w, 4); free(d);
     if (IS("f32be")) Acn_Enc_Real_IEEE754_32_big_endian(&bs, (asn1Real)f); else Acn_Enc_Real_IEEE754_32_little_endian(&bs, (asn1Real)f); }
  else if (IS("f64be") || IS("f64le")) { d = H(); uint64_t w = 0; for (n = 0; n < 8; n++) w = w << 8 | d[n]; free(d);
     if (IS("f64be")) Acn_Enc_Real_IEEE754_64_big_endian(&bs, (asn1Real)dbl(w)); else Acn_Enc_Real_IEEE754_64_little_endian(&bs, (asn1Real)dbl(w)); }
  else { fprintf(stderr, "unknown enc op %s\n", op); exit(97); }
  return ok;
}

static char vbuf_dummy;
#define WORDV(call) do { asn1SccUint v_ = 0; ok = call; if (ok) word("v", (uint64_t)v_); } while (0)
#define SWORDV(call) do { asn1SccSint v_ = 0; ok = call; if (ok) word("v", (uint64_t)(int64_t)v_); } while (0)
#define TV(type, call) do { type v_ = 0; ok = call; if (ok) word("v", (uint64_t)(int64_t)v_); } while (0)
#define UTV(type, call) do { type v_ = 0; ok = call; if (ok) word("v", (uint64_t)v_); } while (0)
/* narrow(8/16/32) variants of a decoder, and the full-width one */
#define NU(f, ...) do { if (nw == 8) UTV(uint8_t, f##UInt8(&bs, &v_ __VA_ARGS__)); else if (nw == 16) UTV(uint16_t, f##UInt16(&bs, &v_ __VA_ARGS__)); else if (nw == 32) UTV(uint32_t, f##UInt32(&bs, &v_ __VA_ARGS__)); else WORDV(f(&bs, &v_ __VA_ARGS__)); } while (0)
#define NS(f, ...) do { if (nw == 8) TV(int8_t, f##Int8(&bs, &v_ __VA_ARGS__)); else if (nw == 16) TV(int16_t, f##Int16(&bs, &v_ __VA_ARGS__)); else if (nw == 32) TV(int32_t, f##Int32(&bs, &v_ __VA_ARGS__)); else SWORDV(f(&bs, &v_ __VA_ARGS__)); } while (0)
#define COMMA ,

static flag dec(const char *op) {
  flag ok = TRUE; int n, mn, mx, cnt; uint64_t a, b; byte *d, *d2, *r; char *s; byte bv; flag fv; int nw;
  if (IS("bit")) { ok = BitStream_ReadBit(&bs, &fv); if (ok) num("v", fv ? 1 : 0); }
  else if (IS("peek")) { num("v", BitStream_PeekBit(&bs) ? 1 : 0); }
  else if (IS("byte") || IS("byte0")) { ok = BitStream_ReadByte(&bs, &bv); if (ok) num("v", bv); }
  else if (IS("pbyte")) { n = I(); ok = BitStream_ReadPartialByte(&bs, &bv, (byte)n); if (ok) num("v", bv); }
  else if (IS("bytes")) { n = I(); r = malloc(n ? n : 1); ok = BitStream_ReadByteArray(&bs, r, n); if (ok) bytes("v", r, n); free(r); }
  else if (IS("oct")) { n = I(); r = malloc(n ? n : 1); ok = BitStream_DecodeOctetString_no_length(&bs, r, n); if (ok) bytes("v", r, n); free(r); }
  else if (IS("bits")) { n = I(); r = malloc(n ? (n+7)/8 : 1); ok = BitStream_ReadBits(&bs, r, n); if (ok) bytes("v", r, (n+7)/8); free(r); }
  else if (IS("nonneg")) { n = I(); WORDV(BitStream_DecodeNonNegativeInteger(&bs, &v_, n)); }
  else if (IS("cint")) { a = U(); b = U(); nw = I();
     if (nw == 8) TV(int8_t, BitStream_DecodeConstraintWholeNumberInt8(&bs, &v_, (int8_t)a, (int8_t)b));
     else if (nw == 16) TV(int16_t, BitStream_DecodeConstraintWholeNumberInt16(&bs, &v_, (int16_t)a, (int16_t)b));
     else if (nw == 32) TV(int32_t, BitStream_DecodeConstraintWholeNumberInt32(&bs, &v_, (int32_t)a, (int32_t)b));
     else SWORDV(BitStream_DecodeConstraintWholeNumber(&bs, &v_, (asn1SccSint)a, (asn1SccSint)b)); }
  else if (IS("cuint")) { a = U(); b = U(); nw = I();
     if (nw == 8) UTV(uint8_t, BitStream_DecodeConstraintPosWholeNumberUInt8(&bs, &v_, (uint8_t)a, (uint8_t)b));
     else if (nw == 16) UTV(uint16_t, BitStream_DecodeConstraintPosWholeNumberUInt16(&bs, &v_, (uint16_t)a, (uint16_t)b));
     else if (nw == 32) UTV(uint32_t, BitStream_DecodeConstraintPosWholeNumberUInt32(&bs, &v_, (uint32_t)a, (uint32_t)b));
     else WORDV(BitStream_DecodeConstraintPosWholeNumber(&bs, &v_, (asn1SccUint)a, (asn1SccUint)b)); }
  else if (IS("scint")) { a = U(); SWORDV(BitStream_DecodeSemiConstraintWholeNumber(&bs, &v_, (asn1SccSint)a)); }
  else if (IS("scuint")) { a = U(); WORDV(BitStream_DecodeSemiConstraintPosWholeNumber(&bs, &v_, (asn1SccUint)a)); }
  else if (IS("ucint")) { SWORDV(BitStream_DecodeUnConstraintWholeNumber(&bs, &v_)); }
  else if (IS("real")) { nw = I(); if (nw == 32) { float f = 0; ok = BitStream_DecodeReal_fp32(&bs, &f); if (ok) word("v", undbl((double)f)); }
     else { asn1Real v; ok = BitStream_DecodeReal(&bs, &v); if (ok) word("v", undbl((double)v)); } }
  else if (IS("octstr")) { mn = I(); mx = I(); r = malloc(mx ? mx : 1); cnt = 0; ok = BitStream_DecodeOctetString(&bs, r, &cnt, mn, mx);
     if (ok) { num("c", cnt); bytes("v", r, cnt); } free(r); }
  else if (IS("octfrag")) { mx = I(); r = malloc(mx ? mx : 1); cnt = 0; ok = BitStream_DecodeOctetString_fragmentation(&bs, r, &cnt, mx); if (ok) { num("c", cnt); bytes("v", r, cnt); } free(r); }
  else if (IS("bitstr")) { mn = I(); mx = I(); r = malloc(mx ? (mx+7)/8 : 1); cnt = 0; ok = BitStream_DecodeBitString(&bs, r, &cnt, mn, mx); if (ok) { num("c", cnt); bytes("v", r, (cnt+7)/8); } free(r); }
  else if (IS("oid")) { Asn1ObjectIdentifier o; ok = ObjectIdentifier_uper_decode(&bs, &o); if (ok) oidv("v", &o); }
  else if (IS("roid")) { Asn1ObjectIdentifier o; ok = RelativeOID_uper_decode(&bs, &o); if (ok) oidv("v", &o); }
  else if (IS("align")) { n = I(); if (n == 8) Acn_AlignToNextByte(&bs, FALSE); else if (n == 16) Acn_AlignToNextWord(&bs, FALSE); else Acn_AlignToNextDWord(&bs, FALSE); }
  else if (IS("apos")) { n = I(); nw = I(); NU(Acn_Dec_Int_PositiveInteger_ConstSize, COMMA n); }
  else if (IS("alen")) { n = I(); WORDV(Acn_Dec_Length(&bs, &v_, n)); }
  else if (IS("aposbe")) { n = I(); nw = I();
     if (n == 8) { if (nw == 8) UTV(uint8_t, Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(&bs, &v_)); else WORDV(Acn_Dec_Int_PositiveInteger_ConstSize_8(&bs, &v_)); }
     else if (n == 16) { if (nw == 8) UTV(uint8_t, Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(&bs, &v_)); else if (nw == 16) UTV(uint16_t, Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(&bs, &v_)); else WORDV(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(&bs, &v_)); }
     else if (n == 32) NU(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32, );
     else NU(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64, ); }
  else if (IS("aposle")) { n = I(); nw = I();
     if (n == 16) { if (nw == 8) UTV(uint8_t, Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(&bs, &v_)); else if (nw == 16) UTV(uint16_t, Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(&bs, &v_)); else WORDV(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(&bs, &v_)); }
     else if (n == 32) NU(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32, );
     else NU(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64, ); }
  else if (IS("aposvar")) { nw = I(); NU(Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded, ); }
  else if (IS("atwo")) { n = I(); nw = I(); NS(Acn_Dec_Int_TwosComplement_ConstSize, COMMA n); }
  else if (IS("atwobe")) { n = I(); nw = I();
     if (n == 8) { if (nw == 8) TV(int8_t, Acn_Dec_Int_TwosComplement_ConstSize_8Int8(&bs, &v_)); else SWORDV(Acn_Dec_Int_TwosComplement_ConstSize_8(&bs, &v_)); }
     else if (n == 16) { if (nw == 8) TV(int8_t, Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(&bs, &v_)); else if (nw == 16) TV(int16_t, Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(&bs, &v_)); else SWORDV(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(&bs, &v_)); }
     else if (n == 32) NS(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32, );
     else NS(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64, ); }
  else if (IS("atwole")) { n = I(); nw = I();
     if (n == 16) { if (nw == 8) TV(int8_t, Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(&bs, &v_)); else if (nw == 16) TV(int16_t, Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(&bs, &v_)); else SWORDV(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(&bs, &v_)); }
     else if (n == 32) NS(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32, );
     else NS(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64, ); }
  else if (IS("atwovar")) { nw = I(); NS(Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded, ); }
  else if (IS("abcd")) { n = I(); nw = I(); NU(Acn_Dec_Int_BCD_ConstSize, COMMA n); }
  else if (IS("abcdvar")) { nw = I(); NU(Acn_Dec_Int_BCD_VarSize_LengthEmbedded, ); }
  else if (IS("abcdnul")) { nw = I(); NU(Acn_Dec_Int_BCD_VarSize_NullTerminated, ); }
  else if (IS("auasc")) { n = I(); nw = I(); NU(Acn_Dec_UInt_ASCII_ConstSize, COMMA n); }
  else if (IS("asasc")) { n = I(); nw = I(); NS(Acn_Dec_SInt_ASCII_ConstSize, COMMA n); }
  else if (IS("auascvar")) { nw = I(); NU(Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded, ); }
  else if (IS("asascvar")) { nw = I(); NS(Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded, ); }
  else if (IS("auascnul")) { d = H(); n = hl; nw = I(); NU(Acn_Dec_UInt_ASCII_VarSize_NullTerminated, COMMA d COMMA n); free(d); }
  else if (IS("asascnul")) { d = H(); n = hl; nw = I(); NS(Acn_Dec_SInt_ASCII_VarSize_NullTerminated, COMMA d COMMA n); free(d); }
  else if (IS("strfix")) { mx = I(); s = malloc(mx+1); ok = Acn_Dec_String_Ascii_FixSize(&bs, mx, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("strnul")) { mx = I(); n = I(); s = malloc(mx+1); ok = Acn_Dec_String_Ascii_Null_Terminated(&bs, mx, (char)n, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("strnulm")) { mx = I(); d2 = H(); s = malloc(mx+1); ok = Acn_Dec_String_Ascii_Null_Terminated_mult(&bs, mx, d2, hl, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); free(d2); }
  else if (IS("strext")) { mx = I(); n = I(); s = malloc(mx+1); ok = Acn_Dec_String_Ascii_External_Field_Determinant(&bs, mx, n, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("strint")) { mn = I(); mx = I(); s = malloc(mx+1); ok = Acn_Dec_String_Ascii_Internal_Field_Determinant(&bs, mx, mn, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("idxfix")) { mx = I(); d2 = H(); s = malloc(mx+1); ok = Acn_Dec_String_CharIndex_FixSize(&bs, mx, d2, hl, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); free(d2); }
  else if (IS("idxext")) { mx = I(); n = I(); d2 = H(); s = malloc(mx+1); ok = Acn_Dec_String_CharIndex_External_Field_Determinant(&bs, mx, d2, hl, n, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); free(d2); }
  else if (IS("idxint")) { mn = I(); mx = I(); d2 = H(); s = malloc(mx+1); ok = Acn_Dec_String_CharIndex_Internal_Field_Determinant(&bs, mx, d2, hl, mn, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); free(d2); }
  else if (IS("ia5ext")) { mx = I(); n = I(); s = malloc(mx+1); ok = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(&bs, mx, n, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("ia5int")) { mn = I(); mx = I(); s = malloc(mx+1); ok = Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(&bs, mx, mn, s); if (ok) bytes("v", (byte*)s, mx+1); free(s); }
  else if (IS("f32be") || IS("f32le")) { nw = I(); float f; asn1Real x; 
     if (nw == 32) { ok = IS("f32be") ? Acn_Dec_Real_IEEE754_32_big_endian_fp32(&bs, &f) : Acn_Dec_Real_IEEE754_32_little_endian_fp32(&bs, &f); }
     else { ok = IS("f32be") ? Acn_Dec_Real_IEEE754_32_big_endian(&bs, &x) : Acn_Dec_Real_IEEE754_32_little_endian(&bs, &x); f = (float)x; }
     if (ok) { uint32_t w; memcpy(&w, &f, 4); byte o[4] = {(byte)(w>>24), (byte)(w>>16), (byte)(w>>8), (byte)w}; bytes("v", o, 4); } }
  else if (IS("f64be") || IS("f64le")) { asn1Real x; ok = IS("f64be") ? Acn_Dec_Real_IEEE754_64_big_endian(&bs, &x) : Acn_Dec_Real_IEEE754_64_little_endian(&bs, &x); if (ok) word("v", undbl((double)x)); }
  else if (IS("pat")) { d = H(); n = I(); ok = BitStream_ReadBitPattern(&bs, d, n, &fv); if (ok) boolean("v", fv); free(d); }
  else if (IS("patign")) { n = I(); ok = BitStream_ReadBitPattern_ignore_value(&bs, n); if (ok) boolean("v", 1); }
  else if (IS("tf")) { d = H(); d2 = H(); n = I(); ok = BitStream_DecodeTrueFalseBoolean(&bs, d, d2, n, &fv); if (ok) boolean("v", fv); free(d); free(d2); }
  else if (IS("chkpat")) { d = H(); n = I(); num("v", BitStream_checkBitPatternPresent(&bs, d, n)); free(d); }
  else if (IS("bitsnul")) { d = H(); n = I(); mx = I(); r = malloc(mx ? (mx+7)/8 : 1); cnt = 0; ok = BitStream_ReadBits_nullterminated(&bs, d, n, r, mx, &cnt); if (ok) { num("c", cnt); bytes("v", r, (cnt+7)/8); } free(d); free(r); }
  else { fprintf(stderr, "unknown dec op %s\n", op); exit(97); }
  return ok;
}

static AcnInsertedFieldRef dets[64]; static int ndets;
#define DETS(X) X(U8) X(U16_BE) X(U32_BE) X(U64_BE) X(U16_LE) X(U32_LE) X(U64_LE) X(I8) X(I16_BE) X(I32_BE) X(I64_BE) X(BOOL1)
static void init_det(const char *op) {
  AcnInsertedFieldRef *r = &dets[ndets++]; memset(r, 0x5a, sizeof *r); int n;
#define X(N) if (IS(#N)) { Acn_InitDet_##N(&bs, r); return; }
  DETS(X)
#undef X
  n = I();
  if (IS("ConstSize")) Acn_InitDet_ConstSize(&bs, n, r);
  else if (IS("TwosComplement_ConstSize")) Acn_InitDet_TwosComplement_ConstSize(&bs, n, r);
  else if (IS("IA5")) Acn_InitDet_IA5String_FixSize(&bs, n, r);
  else exit(97);
}
static flag patch_det(const char *op, int *err) {
  AcnInsertedFieldRef *r = &dets[I() - 1]; int n; flag ok;
#define X(N) if (IS(#N)) return Acn_PatchDet_##N((asn1SccUint)U(), &bs, r, err);
  DETS(X)
#undef X
  n = I();
  if (IS("IA5")) { char *s = S(); ok = Acn_PatchDet_IA5String_FixSize(s, &bs, n, r, err); free(s); return ok; }
  asn1SccUint v = (asn1SccUint)U();
  if (IS("ConstSize")) return Acn_PatchDet_ConstSize(v, &bs, n, r, err);
  return Acn_PatchDet_TwosComplement_ConstSize(v, &bs, n, r, err);
}

static void fn(const char *op) {
  uint64_t a; int n, m; byte *d, *d2;
  if (IS("nbits")) num("r", GetNumberOfBitsForNonNegativeInteger((asn1SccUint)U()));
  else if (IS("lenu")) num("r", GetLengthInBytesOfUInt(U()));
  else if (IS("lens")) num("r", GetLengthInBytesOfSInt((asn1SccSint)U()));
  else if (IS("int2uint")) word("r", int2uint((asn1SccSint)U()));
  else if (IS("uint2int")) { a = U(); n = I(); word("r", (uint64_t)(int64_t)uint2int((asn1SccUint)a, n)); }
  else if (IS("octeq")) { d = H(); n = hl; d2 = H(); boolean("r", OctetString_equal(n, hl, d, d2)); free(d); free(d2); }
  else if (IS("biteq")) { d = H(); d2 = H(); n = I(); m = I(); boolean("r", BitString_equal(n, m, d, d2)); free(d); free(d2); }
  else if (IS("oideq")) { Asn1ObjectIdentifier x = oida(), y = oida(); boolean("r", ObjectIdentifier_equal(&x, &y)); }
  else if (IS("oidvalid")) { Asn1ObjectIdentifier x = oida(); boolean("r", ObjectIdentifier_isValid(&x)); }
  else if (IS("roidvalid")) { Asn1ObjectIdentifier x = oida(); boolean("r", RelativeOID_isValid(&x)); }
  else if (IS("bsearch")) { int c = I(); asn1SccSint *v = malloc(sizeof(*v) * (c ? c : 1)); for (n = 0; n < c; n++) v[n] = (asn1SccSint)U(); a = U();
     int x = binarySearch(v, c, (asn1SccSint)a), y = linearSearch(v, c, (asn1SccSint)a); num("r", x == y ? x : -99); free(v); }
  else if (IS("milenc")) word("r", (uint64_t)(int64_t)milbus_encode((asn1SccSint)U()));
  else if (IS("mildec")) word("r", (uint64_t)(int64_t)milbus_decode((asn1SccSint)U()));
  else exit(97);
}

static void fresh(void) { free(buf); free(out); buf = NULL; out = NULL; outn = 0; base = 0; ndets = 0; srcpos = 0; }
int main(void) {
  signal(SIGALRM, on_alarm); setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  src = NULL; (void)vbuf_dummy; (void)chunks; (void)curop;
  while (fgets(line, sizeof line, stdin)) {
    char *k = strtok_r(line, " \n", &tok_s); if (!k) continue;
    alarm(5);
    if (*k == 'E') { /* E cap fill [chunk] */
      fresh(); decoding = 0; cap = I(); int fill = I(); int chunk = I(); out = malloc(cap + 4096); outcap = cap + 4096;
      long bsz = cap;
#ifdef ASN1SCC_STREAMING
      bsz = chunk;
#endif
      (void)chunk;
      buf = malloc(bsz ? bsz : 1); memset(buf, fill < 0 ? 0xCC : fill, bsz);
      if (fill < 0) BitStream_Init2(&bs, buf, bsz, out, NULL); else BitStream_AttachBuffer2(&bs, buf, bsz, out, NULL);
      printf("{}\n");
    } else if (*k == 'D') { /* D hex [chunk] */
      fresh(); decoding = 1; byte *d = H(); long n = hl; int chunk = I(); cap = n;
#ifdef ASN1SCC_STREAMING
      static byte *keep; free(keep); keep = d; src = d; srcn = n; long bsz = chunk; buf = malloc(bsz); memset(buf, 0, bsz);
      srcpos = n < bsz ? n : bsz; memcpy(buf, src, srcpos); BitStream_AttachBuffer2(&bs, buf, bsz, NULL, &bs);
#else
      (void)chunk; buf = d; BitStream_AttachBuffer(&bs, buf, n);
#endif
      printf("{}\n");
    } else if (*k == 'e') { char *op = T(); long p0 = pos(); flag ok = enc(op); long p1 = pos();
      printf("{\"ok\":%s,\"p\":%ld", ok ? "true" : "false", p1); arr("reg", p0 / 8, (p1 + 7) / 8); printf("}\n");
    } else if (*k == 'd') { char *op = T(); printf("{\"k\":\"dec\""); flag ok = dec(op); printf(",\"ok\":%s,\"p\":%ld}\n", ok ? "true" : "false", pos());
    } else if (*k == 'i') { char *op = T(); long p0 = pos(); init_det(op); long p1 = pos(); printf("{\"ok\":true,\"p\":%ld", p1); arr("reg", p0 / 8, (p1 + 7) / 8); printf("}\n");
    } else if (*k == 'p') { char *op = T(); int err = 0; flag ok = patch_det(op, &err); printf("{\"ok\":%s,\"p\":%ld,\"err\":%d", ok ? "true" : "false", pos(), err); arr("all", 0, (pos() + 7) / 8); printf("}\n");
    } else if (*k == 'r' || *k == 'x') { long n = (pos() + 7) / 8; printf("{\"p\":%ld", pos()); arr("all", 0, n); printf("}\n");
      if (*k == 'r') { byte *c = malloc(n ? n : 1); for (long i = 0; i < n; i++) c[i] = at(i); 
        int chunk = I(); fresh(); decoding = 1; cap = n;
#ifdef ASN1SCC_STREAMING
        static byte *keep2; free(keep2); keep2 = c; src = c; srcn = n; buf = malloc(chunk); memset(buf, 0, chunk); srcpos = n < chunk ? n : chunk; memcpy(buf, src, srcpos);
        BitStream_AttachBuffer2(&bs, buf, chunk, NULL, &bs);
#else
        (void)chunk; buf = c; BitStream_AttachBuffer(&bs, buf, n);
#endif
      }
    } else if (*k == 'f') { char *op = T(); printf("{\"k\":\"fn\""); fn(op); printf("}\n"); }
    else { fprintf(stderr, "bad line\n"); return 97; }
    alarm(0); fflush(stdout);
  }
  fresh(); return 0;
}
