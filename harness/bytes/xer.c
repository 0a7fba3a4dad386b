/* Drives the XER run-time functions; one command per line, one answer per line.
   E cap ws | D hex                 open an encoder with room for cap octets / a decoder on this text
   e OP tag level args              answer: ok err cur written-octets
   d OP tag args                    answer: ok err cur value
   tag "-" is the empty tag                                                             */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include "asn1crt_encoding_xer.h"
static char line[1 << 20];
static byte* hex(const char* s, size_t* n)
{
  size_t l = strcspn(s, " \n"), i;
  if (*s == '-') l = 0;
  byte* p = malloc(l / 2 + 1);
  for (i = 0; i < l / 2; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (byte)v; }
  p[l / 2] = 0;
  *n = l / 2;
  return p;
}
static byte* tight(byte* p, size_t n) { byte* q = malloc(n ? n : 1); memcpy(q, p, n); free(p); return q; }
static void show(const byte* p, size_t n) { size_t i; printf(" "); if (!n) printf("-"); for (i = 0; i < n; i++) printf("%02x", p[i]); }
#define IS(x) (!strcmp(o, x))
int main(void)
{
  ByteStream s; byte* buf = NULL; int i;
  memset(&s, 0, sizeof s);
  while (fgets(line, sizeof line, stdin)) {
    static char* w[64]; int k = 0; char* q = strtok(line, " \n");
    while (q && k < 64) { w[k++] = q; q = strtok(NULL, " \n"); }
    if (*w[0] == 'E') { long c = atol(w[1]); free(buf); buf = malloc(c ? c : 1); memset(buf, 0xEE, c ? c : 1); ByteStream_Init(&s, buf, c); s.EncodeWhiteSpace = atoi(w[2]) != 0; printf("1"); }
    else if (*w[0] == 'D') { size_t n; free(buf); buf = hex(w[1], &n); buf = tight(buf, n); ByteStream_AttachBuffer(&s, buf, (long)n); printf("1"); }
    else if (*w[0] == 'L') {        /* L cap hex: the file loader */
      size_t n; byte* p = hex(w[2], &n); long c = atol(w[1]); int got = -1; char f[64]; flag r;
      FILE* fp;
      snprintf(f, sizeof f, "xer.%ld.xml", (long)getpid());
      fp = fopen(f, "w"); if (!fp) exit(97); fwrite(p, 1, n, fp); fclose(fp);
      free(buf); buf = malloc(c ? c : 1); memset(buf, 0xEE, c ? c : 1); ByteStream_Init(&s, buf, c);
      r = LoadXmlFile(f, &s, &got);
      remove(f);
      printf("%d 1 %ld", r != 0, r ? (long)s.currentByte : 0L);
      if (!r || got < 0 || got > c) printf(" -"); else show(buf, got);
      free(p);
    }
    else {
      const char *o = w[1], *t = strcmp(w[2], "-") ? w[2] : ""; int err = 0; flag r = 0; long c0 = s.currentByte; size_t n = 0; byte* p = NULL;
      if (*w[0] == 'e') {
        int lv = atoi(w[3]);
        err = 4711;
        if (IS("null")) r = Xer_EncodeNull(&s, t, 0, &err, lv);
        else if (IS("int")) r = Xer_EncodeInteger(&s, t, (asn1SccSint)strtoull(w[4], NULL, 16), &err, lv);
        else if (IS("pint")) r = Xer_EncodePosInteger(&s, t, (asn1SccUint)strtoull(w[4], NULL, 16), &err, lv);
        else if (IS("bool")) r = Xer_EncodeBoolean(&s, t, (flag)atoi(w[4]), &err, lv);
        else if (IS("enum")) r = Xer_EncodeEnumerated(&s, t, w[4], &err, lv);
        else if (IS("real")) { uint64_t u = strtoull(w[4], NULL, 16); double d; memcpy(&d, &u, 8); r = Xer_EncodeReal(&s, t, d, &err, lv); }
        else if (IS("str")) { p = hex(w[4], &n); r = Xer_EncodeString(&s, t, (char*)p, &err, lv); }
        else if (IS("oct")) { p = hex(w[5], &n); p = tight(p, n); r = Xer_EncodeOctetString(&s, t, p, atoi(w[4]), &err, lv); }
        else if (IS("bits")) { p = hex(w[5], &n); p = tight(p, n); r = Xer_EncodeBitString(&s, t, p, atoi(w[4]), &err, lv); }
        else if (IS("oid")) { Asn1ObjectIdentifier v; memset(&v, 0, sizeof v); v.nCount = atoi(w[4]); for (i = 0; i < v.nCount; i++) v.values[i] = (asn1SccUint)strtoull(w[5 + i], NULL, 16); r = Xer_EncodeObjectIdentifier(&s, t, &v, &err, lv); }
        else if (IS("start")) { static XmlAttributeArray a; memset(&a, 0, sizeof a); a.nCount = atoi(w[4]); for (i = 0; i < a.nCount; i++) { strcpy(a.attrs[i].Name, w[5 + 2 * i]); strcpy(a.attrs[i].Value, w[6 + 2 * i]); }
          r = Xer_EncodeComplexElementStart(&s, t, a.nCount || lv % 2 ? &a : NULL, &err, lv); }
        else if (IS("end")) r = Xer_EncodeComplexElementEnd(&s, t, &err, lv);
        else if (IS("comment")) { p = hex(w[4], &n); r = Xer_EncodeComment(&s, (char*)p, &err); }
        else if (IS("header")) { p = hex(w[4], &n); Xer_EncodeXmlHeader(&s, n ? (char*)p : NULL); err = 0; r = s.currentByte < s.count; if (!r) err = 1; }
        printf("%d %d %ld", r != 0, err, (long)s.currentByte);
        if (s.currentByte < c0 || s.currentByte > s.count) printf(" -"); else show(s.buf, s.currentByte);
      } else {
#define HEAD printf("%d %d %ld", r != 0, err, (long)s.currentByte)
        if (IS("null")) { NullType v = 1; r = Xer_DecodeNull(&s, t, &v, &err); HEAD; }
        else if (IS("int")) { asn1SccSint v = 0; r = Xer_DecodeInteger(&s, t, &v, &err); HEAD; printf(" %016" PRIx64, (uint64_t)v); }
        else if (IS("pint")) { asn1SccUint v = 0; r = Xer_DecodePosInteger(&s, t, &v, &err); HEAD; printf(" %016" PRIx64, (uint64_t)v); }
        else if (IS("bool")) { flag v = 0; r = Xer_DecodeBoolean(&s, t, &v, &err); HEAD; printf(" %d", v != 0); }
        else if (IS("enum")) { char* v = malloc(256); memset(v, 0, 256); r = Xer_DecodeEnumerated(&s, t, v, &err); HEAD; show((byte*)v, strlen(v)); free(v); }
        else if (IS("real")) { double v = 0; uint64_t u; r = Xer_DecodeReal(&s, t, &v, &err); memcpy(&u, &v, 8); HEAD; printf(" %016" PRIx64, u); }
        else if (IS("str")) { size_t m = (size_t)atoi(w[3]); char* v = malloc(m); memset(v, 0xEE, m); r = Xer_DecodeString(&s, t, v, m, &err); HEAD; show((byte*)v, r ? strlen(v) : 0); free(v); }
        else if (IS("oct")) { int m = atoi(w[3]), nul = atoi(w[4]), c = -7; byte* v = malloc(m ? m : 1); memset(v, 0xEE, m ? m : 1); r = Xer_DecodeOctetString(&s, t, v, m, nul ? NULL : &c, &err); HEAD; printf(" %d", c); show(v, m); free(v); }
        else if (IS("bits")) { int m = atoi(w[3]), nul = atoi(w[4]), c = -7; byte* v = malloc(m ? m : 1); memset(v, 0xEE, m ? m : 1); r = Xer_DecodeBitString(&s, t, v, m, nul ? NULL : &c, &err); HEAD; printf(" %d", c); show(v, m); free(v); }
        else if (IS("oid")) { Asn1ObjectIdentifier v; memset(&v, 0xEE, sizeof v); r = Xer_DecodeObjectIdentifier(&s, t, &v, &err); HEAD; if (r) for (i = 0; i < v.nCount; i++) printf(" %016" PRIx64, (uint64_t)v.values[i]); }
        else if (IS("start")) { static XmlAttributeArray a; int nul = atoi(w[3]); memset(&a, 0, sizeof a); r = Xer_DecodeComplexElementStart(&s, t, nul ? NULL : &a, &err); HEAD; if (r && !nul) for (i = 0; i < a.nCount; i++) printf(" %s %s", a.attrs[i].Name, a.attrs[i].Value); }
        else if (IS("end")) { r = Xer_DecodeComplexElementEnd(&s, t, &err); HEAD; }
        else if (IS("nextstart")) { r = Xer_NextStartElementIs(&s, t); err = 1; HEAD; }
        else if (IS("nextend")) { r = Xer_NextEndElementIs(&s, t); err = 1; HEAD; }
        else if (IS("nexttag")) { char v[256]; *v = 0; r = Xer_LA_NextElementTag(&s, v); err = 1; HEAD; show((byte*)v, strlen(v)); }
      }
      free(p);
    }
    printf("\n");
    fflush(stdout);
  }
  return 0;
}
