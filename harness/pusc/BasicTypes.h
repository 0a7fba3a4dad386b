/* stands in for the generated header: a 16 bit unsigned integer in network order */
#ifndef BT_H
#define BT_H
#include <asn1crt.h>
#include <asn1crt_encoding_acn.h>
typedef asn1SccUint TPUSC_UINT16;
#define TPUSC_UINT16_REQUIRED_BYTES_FOR_ACN_ENCODING 2
static inline flag TPUSC_UINT16_ACN_Encode(const TPUSC_UINT16* v, BitStream* b, int* e, flag c)
{ (void)e; (void)c; Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(b, *v); return TRUE; }
static inline flag TPUSC_UINT16_ACN_Decode(TPUSC_UINT16* v, BitStream* b, int* e)
{ flag r = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(b, v); *e = r ? 0 : 1; return r; }
#endif
