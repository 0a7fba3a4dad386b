/* Drives the BER run-time functions; one command per line, one answer per line.
   E cap | D hex            open an encoder with room for cap octets / a decoder on these octets
   e OP tag args | d OP tag args      answers: ok err cur value-or-written-octets
   len, lens, lene, null, bool v, int v, real hex64, str n hex, oct n hex, bits n hex
   d str max | d oct max | d bits max | d look tag | d eoc (look ahead) | d eoc2 (consume)              */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include "asn1crt_encoding_ber.h"
static char line[1 << 20];
static byte* hex(const char* s, size_t* n)
{
  size_t l = strcspn(s, " \n"), i;
  if (*s == '-') l = 0;
  byte* p = malloc(l / 2 ? l / 2 : 1);
  for (i = 0; i < l / 2; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (byte)v; }
  *n = l / 2;
  return p;
}
static void show(const byte* p, size_t n) { size_t i; printf(" "); if (!n) printf("-"); for (i = 0; i < n; i++) printf("%02x", p[i]); }
int main(void)
{
  ByteStream s; byte* buf = NULL;
  memset(&s, 0, sizeof s);
  while (fgets(line, sizeof line, stdin)) {
    char* w[8]; int k = 0; char* q = strtok(line, " \n");
    while (q && k < 8) { w[k++] = q; q = strtok(NULL, " \n"); }
    if (*w[0] == 'E') { long c = atol(w[1]); free(buf); buf = malloc(c ? c : 1); memset(buf, 0xEE, c ? c : 1); ByteStream_Init(&s, buf, c); printf("1"); }
    else if (*w[0] == 'D') { size_t n; free(buf); buf = hex(w[1], &n); ByteStream_AttachBuffer(&s, buf, (long)n); printf("1"); }
    else {
      BerTag t = strtoull(w[2], NULL, 16); int err = 0; flag r = 0; long c0 = s.currentByte; const char* o = w[1]; size_t n = 0; byte* p = NULL;
      if (*w[0] == 'e') {
        if (!strcmp(o, "tag")) r = BerEncodeTag(&s, t, &err);
        else if (!strcmp(o, "lens")) r = BerEncodeLengthStart(&s, &err);
        else if (!strcmp(o, "lene")) r = BerEncodeLengthEnd(&s, &err);
        else if (!strcmp(o, "null")) r = BerEncodeNull(&s, t, &err);
        else if (!strcmp(o, "bool")) r = BerEncodeBoolean(&s, t, (flag)atoi(w[3]), &err);
        else if (!strcmp(o, "int")) r = BerEncodeInteger(&s, t, (asn1SccSint)strtoull(w[3], NULL, 16), &err);
        else if (!strcmp(o, "real")) { uint64_t u = strtoull(w[3], NULL, 16); double d; memcpy(&d, &u, 8); r = BerEncodeReal(&s, t, d, &err); }
        else { p = hex(w[4], &n); int l = atoi(w[3]);
          if (!strcmp(o, "str")) r = BerEncodeIA5String(&s, t, (char*)p, l, &err);
          else if (!strcmp(o, "oct")) r = BerEncodeOctetString(&s, t, p, l, &err);
          else r = BerEncodeBitString(&s, t, p, l, &err); }
        printf("%d %d %ld", r != 0, err, s.currentByte);
        if (s.currentByte < c0 || s.currentByte > s.count) printf(" -"); else show(s.buf, s.currentByte);
      } else {
        if (!strcmp(o, "tag")) { r = BerDecodeTag(&s, t, &err); printf("%d %d %ld -", r != 0, err, s.currentByte); }
        else if (!strcmp(o, "look")) { r = NextTagMatches(&s, t); printf("%d %d %ld -", r != 0, 1, s.currentByte); }
        else if (!strcmp(o, "eoc")) { r = LA_Next_Two_Bytes_00(&s); printf("%d %d %ld -", r != 0, 1, s.currentByte); }
        else if (!strcmp(o, "eoc2")) { r = BerDecodeTwoZeroes(&s, &err); printf("%d %d %ld -", r != 0, err, s.currentByte); }
        else if (!strcmp(o, "len")) { int v = 0; r = BerDecodeLength(&s, &v, &err); printf("%d %d %ld %d", r != 0, err, s.currentByte, v); }
        else if (!strcmp(o, "null")) { r = BerDecodeNull(&s, t, &err); printf("%d %d %ld -", r != 0, err, s.currentByte); }
        else if (!strcmp(o, "bool")) { flag v = 0; r = BerDecodeBoolean(&s, t, &v, &err); printf("%d %d %ld %d", r != 0, err, s.currentByte, v != 0); }
        else if (!strcmp(o, "int")) { asn1SccSint v = 0; r = BerDecodeInteger(&s, t, &v, &err); printf("%d %d %ld %016" PRIx64, r != 0, err, s.currentByte, (uint64_t)v); }
        else if (!strcmp(o, "real")) { double v = 0; uint64_t u; r = BerDecodeReal(&s, t, &v, &err); memcpy(&u, &v, 8); printf("%d %d %ld %016" PRIx64, r != 0, err, s.currentByte, u); }
        else { int m = atoi(w[3]), c = -7, b = !strcmp(o, "bits") ? (m + 7) / 8 : m; p = malloc(b ? b : 1); memset(p, 0xEE, b ? b : 1);
          int nul = k > 4;
          if (!strcmp(o, "str")) r = BerDecodeIA5String(&s, t, (char*)p, m, &err);
          else if (!strcmp(o, "oct")) r = BerDecodeOctetString(&s, t, p, nul ? NULL : &c, m, &err);
          else r = BerDecodeBitString(&s, t, p, nul ? NULL : &c, m, &err);
          printf("%d %d %ld %d", r != 0, err, s.currentByte, c); show(p, b); }
      }
      free(p);
    }
    printf("\n");
    fflush(stdout);
  }
  return 0;
}
