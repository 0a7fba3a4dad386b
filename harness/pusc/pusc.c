/* Drives the PUS-C wrappers; one command per line, one answer per line.
   Z - (the error codes) | K old hex | I hex | {pu,pv} kind null cap n hex | {lu,lv} max null cap byte bit hex | ue at v hex | ud at hex */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "Crc.h"
#include "IsoChecksum.h"
#include "PacketErrorControl.h"
#include "PacketLength.h"
#include "UInt16Coder.h"
#include "Errors.h"
static char line[400000];
static unsigned char* hex(const char* s, size_t* n)
{
  size_t l = strcspn(s, " \n"), i;
  if (*s == '-') l = 0;
  unsigned char* p = malloc(l / 2 ? l / 2 : 1);
  for (i = 0; i < l / 2; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (unsigned char)v; }
  *n = l / 2;
  return p;
}
static void show(const unsigned char* p, size_t n) { size_t i; printf(" "); if (!n) printf("-"); for (i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
int main(void)
{
  while (fgets(line, sizeof line, stdin)) {
    size_t n; unsigned char* p; char c[8], *w[10]; int k = 0; char* s = strtok(line, " \n");
    while (s && k < 10) { w[k++] = s; s = strtok(NULL, " \n"); }
    p = hex(w[k - 1], &n);
    strcpy(c, w[0]);
    if (*c == 'K') { if (atol(w[1]) < 0) printf("%u\n", Asn1PuscLib_Crc_calculate(p, n)); else printf("%u\n", Asn1PuscLib_Crc_update((uint16_t)atol(w[1]), p, n)); }
    else if (*c == 'Z') printf("%d %d %d %d\n", Asn1PuscLib_ErrorCodes_MessageTooShort, Asn1PuscLib_ErrorCodes_MessageTooLong, Asn1PuscLib_ErrorCodes_BadChecksum, Asn1PuscLib_ErrorCodes_BadLength);
    else if (*c == 'I') printf("%u\n", Asn1PuscLib_IsoChecksum_calculate(p, n));
    else {
      BitStream b; int err = 0, ret = 0, *pe = &err;
      memset(&b, 0, sizeof b);
      b.buf = p; b.count = (long)n;
      if (*c == 'p') {
        Asn1PuscLib_PacketErrorControl_Type t = atoi(w[1]) ? Asn1PuscLib_PacketErrorControl_Type_Crc : Asn1PuscLib_PacketErrorControl_Type_Iso;
        if (atoi(w[2])) pe = NULL;
        b.currentByte = atol(w[3]);
        ret = c[1] == 'u' ? Asn1PuscLib_PacketErrorControl_update(&b, t, pe) : Asn1PuscLib_PacketErrorControl_validate(&b, t, pe);
        printf("%d %d", ret, err); show(p, n);
      } else if (*c == 'l') {
        size_t m = strtoul(w[1], NULL, 10);
        if (atoi(w[2])) pe = NULL;
        b.currentByte = atol(w[3]); b.currentBit = atoi(w[4]);
        ret = c[1] == 'u' ? Asn1PuscLib_PacketLength_update(&b, m, pe) : Asn1PuscLib_PacketLength_validate(&b, m, pe);
        printf("%d %d", ret, err); show(p, n);
      } else if (c[1] == 'e') { Asn1PuscLib_UInt16Coder_encode(&b, atol(w[1]), (uint16_t)atol(w[2])); printf("0"); show(p, n); }
      else { printf("%u", Asn1PuscLib_UInt16Coder_decode(&b, atol(w[1]))); show(p, n); }
    }
    free(p);
    fflush(stdout);
  }
  return 0;
}
