From 74d5fd869aecd4a146674890d028a8a31350846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 01/59] fix: clear stale buffer bits in AppendNBitZero,
 AppendByteArray, AppendByte0 and alignment encoding

---
 asn1crt/asn1crt_encoding.c     | 42 +++++++++-------------------------
 asn1crt/asn1crt_encoding_acn.c | 33 ++++++++++++++------------
 2 files changed, 30 insertions(+), 45 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..4a06ea9 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -163,19 +163,15 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	int i;
+
+	/* write the zeros: in streaming mode the buffer is reused and holds old data */
+	while (nbits >= 8) {
+		BitStream_AppendByte(pBitStrm, 0, FALSE);
+		nbits -= 8;
 	}
+	for (i = 0; i<nbits; i++)
+		BitStream_AppendBitZero(pBitStrm);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
@@ -322,29 +318,13 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
     byte mask = (byte)~masksb[ncb];
     byte nmask = (byte)~mask;
     //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
+#ifndef ASN1SCC_STREAMING
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
+#endif
 
-    if (arr_len> 0) {
-        byte v = arr[0];
-        pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
-        pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
-    }
-
-    for (int i = 1; i < arr_len - 1; i++) {
+    for (int i = 0; i < arr_len; i++) {
         byte v = arr[i];
-        byte v1 = (byte)(v >> cb);
-        byte v2 = (byte)(v << ncb);
-        pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
-    }
-    if (arr_len - 1 > 0) {
-        byte v = arr[arr_len - 1];
         pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..104662e 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -17,12 +17,13 @@ void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 
 	if (pBitStrm->currentBit != 0)
 	{
-		pBitStrm->currentBit = 0;
-		pBitStrm->currentByte++;
 		if (bEncode)
-			bitstream_push_data_if_required(pBitStrm);
-		else
+			BitStream_AppendNBitZero(pBitStrm, NO_OF_BITS_IN_BYTE - pBitStrm->currentBit);
+		else {
+			pBitStrm->currentBit = 0;
+			pBitStrm->currentByte++;
 			bitstream_fetch_data_if_required(pBitStrm);
+		}
 		CHECK_BIT_STREAM(pBitStrm);
 	}
 }
@@ -34,12 +35,14 @@ void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 		& (NO_OF_BITS_IN_INT16 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
+	if (bEncode) {
+		while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT16 != 0)
+			BitStream_AppendByte0(pBitStrm, 0);
+	}
+	else {
+		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
 		bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
@@ -51,12 +54,14 @@ void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 		& (NO_OF_BITS_IN_INT32 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
+	if (bEncode) {
+		while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT32 != 0)
+			BitStream_AppendByte0(pBitStrm, 0);
+	}
+	else {
+		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
 		bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
-- 
2.43.0


From 14f446c3f58e40063e4873f3f558c6c63b4c9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 02/59] fix: bit stream byte-array reads past the end and
 streaming octet strings

---
 asn1crt/asn1crt_encoding.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 4a06ea9..0de4ee9 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -368,7 +368,6 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
 #ifndef ASN1SCC_STREAMING
@@ -377,13 +376,12 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
+		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb)
+			*wb |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 		wb++;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
@@ -1381,6 +1379,7 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				pBitStrm->count - pBitStrm->currentByte;
 
 			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			arr += currentBatch;
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1422,6 +1421,7 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 pBitStrm->count - pBitStrm->currentByte;
 
             memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            arr += currentBatch;
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From 6cd642a148b8bbe20ded0b353bf46f216f60f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 03/59] fix: BitStream_ReadBit/PeekBit/ReadPartialByte read
 past the end; ReadByte at a streaming chunk end

---
 asn1crt/asn1crt_encoding.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 0de4ee9..31b349b 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -223,8 +223,23 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 }
 
 
+/* Are there nbits more bits to read? In streaming mode only the current buffer
+   is known, the next one is fetched when it is exhausted. */
+static flag bitstream_has_bits(const BitStream* pBitStrm, int nbits)
+{
+#ifdef ASN1SCC_STREAMING
+	if (pBitStrm->fetchDataPrm != NULL)
+		return pBitStrm->currentByte < pBitStrm->count;
+#endif
+	return pBitStrm->currentByte * 8 + pBitStrm->currentBit + nbits <= pBitStrm->count * 8;
+}
+
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (!bitstream_has_bits(pBitStrm, 1)) {
+		*v = FALSE;
+		return FALSE;
+	}
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -238,6 +253,8 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
+	if (!bitstream_has_bits(pBitStrm, 1))
+		return FALSE;
 	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
@@ -343,10 +360,7 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
     int cb = pBitStrm->currentBit;			//bit position in the current byte
 
     //check if the available bytes are enough
-	int requiredBytes = (cb > 0) ? 2 : 1;
-	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
-
-	if (availableBytes < requiredBytes) {
+	if (!bitstream_has_bits(pBitStrm, 8)) {
 		return FALSE;
 	}
 
@@ -475,6 +489,11 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (!bitstream_has_bits(pBitStrm, nbits)) {
+		*v = 0;
+		return FALSE;
+	}
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
-- 
2.43.0


From d97e296a7189a55f56c6e611e163bf2762dde22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 04/59] fix: BitStream_DecodeOctetString_no_length result was
 ignored for short octet strings

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 31b349b..842b8e6 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1619,7 +1619,7 @@ flag BitStream_EncodeOctetString(BitStream* pBitStrm, const byte* arr, int nCoun
 flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
 	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
-		asn1SccSint nCountL;
+		asn1SccSint nCountL = 0;
 		if (asn1SizeMin < asn1SizeMax) {
 			ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCountL, asn1SizeMin, asn1SizeMax);
 		}
@@ -1630,7 +1630,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From 0ede79e42998186996bd98f06ab55e12b4f1067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 05/59] fix: accept empty octet and bit strings in fragmented
 decoding

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 842b8e6..7b88f1c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1579,7 +1579,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1767,7 +1767,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 7539d354eea7429a9a55f3aeb27b237298a18d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 06/59] fix: uPER REAL encoding of -0.0, subnormals and extreme
 exponents

---
 asn1crt/asn1crt_encoding.c | 45 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 7b88f1c..63a499e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1097,12 +1097,18 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (ll & ExpoBitMask)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;	/* subnormal: no implicit bit, exponent of the smallest normal */
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
 
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (ll & ExpoBitMask)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;	/* subnormal: no implicit bit, exponent of the smallest normal */
 #endif
 }
 
@@ -1111,25 +1117,20 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
+	/* scale the mantissa itself: 2^exponent alone may not be representable */
+	asn1Real ret = (asn1Real)mantissa;
 	if (mantissa == 0)
 		return 0.0;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	while (exponent > 0 && ret < INFINITY) {
+		ret = ret * 2.0;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret > 0.0) {
+		ret = ret / 2.0;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
@@ -1152,14 +1153,14 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 	if (v == 0.0)
 	{
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
+		if (signbit(v)) {
+			BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
+			BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
+		}
+		else
+			BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
-		return;
-    }
 
 	if (v == INFINITY)
 	{
-- 
2.43.0


From 6edd9e8390935e7fc318f6d91814763f65040066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 07/59] fix: uPER REAL decoding of forms the encoding does not
 support

---
 asn1crt/asn1crt_encoding.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 63a499e..5e52edd 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1232,6 +1232,10 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
+	/* decimal encodings are not supported and a special value is a single octet */
+	if ((header & 0x80) == 0 && length != 1)
+		return FALSE;
+
 	if (header == 0x40)
 	{
 		*v = INFINITY;
@@ -1254,6 +1258,9 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
         return TRUE;
     }
 
+	if ((header & 0x80) == 0)
+		return FALSE;
+
 	return DecodeRealAsBinaryEncoding(pBitStrm, length - 1, header, v);
 }
 
@@ -1263,7 +1270,6 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
 	int exponent;
 	flag expIsNegative = FALSE;
@@ -1283,11 +1289,11 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
 
-	if (expLen>length)
+	/* reserved base, exponent longer than 3 octets or no room for the mantissa */
+	if ((header & 0x30) == 0x30 || expLen > 3 || expLen >= length)
 		return FALSE;
 	expIsNegative = BitStream_PeekBit(pBitStrm);
 	exponent = expIsNegative ? 0xFFFFFFFF : 0;
@@ -1304,12 +1310,14 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		if ((N >> (WORD_SIZE * 8 - 8)) != 0)	/* mantissa larger than asn1SccUint */
+			return FALSE;
 		N = N << 8 | b;
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/*  *v = N * 2^F * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, expFactor*exponent + F);
 
 	if (sign<0)
 		*v = -(*v);
-- 
2.43.0


From 572582fe37d4823748a33373f08e8425019770f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 08/59] fix: object identifier decoding: truncated/too long
 sub-identifiers and root arc 2

---
 asn1crt/asn1crt_encoding_uper.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..c6e8f1e 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -95,10 +95,13 @@ static flag ObjectIdentifier_subidentifiers_uper_decode(BitStream* pBitStrm, asn
 
 		bLastOctet = ((curByte & 0x80) == 0);
 		curOctetValue = curByte & 0x7F;
+		if (((*siValue) >> (WORD_SIZE * 8 - 7)) != 0)	/* does not fit asn1SccUint */
+			return FALSE;
 		(*siValue) <<= 7;
 		(*siValue) |= curOctetValue;
 	}
-	return TRUE;
+	/* the contents must not end within a subidentifier */
+	return bLastOctet;
 }
 
 static flag ObjectIdentifier_uper_decode_length(BitStream* pBitStrm, asn1SccSint* totalSize) {
@@ -127,8 +130,9 @@ flag ObjectIdentifier_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVa
 	if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
 		return FALSE;
 	pVal->nCount = 2;
-	pVal->values[0] = si / 40;
-	pVal->values[1] = si % 40;
+	/* the root arcs are 0, 1 and 2; only below 2 may the second arc exceed 39 */
+	pVal->values[0] = si / 40 < 2 ? si / 40 : 2;
+	pVal->values[1] = si - 40 * pVal->values[0];
 	while (totalSize > 0 && pVal->nCount < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
 		if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
-- 
2.43.0


From a83f2f7691e5da082bc2e32f86294f72e80d72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 09/59] fix: ACN BCD integers: full 64-bit range and invalid
 digits

---
 asn1crt/asn1crt_encoding_acn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 104662e..a7a2c36 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -579,6 +579,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
+		if (digit > 9)
+			return FALSE;
 
 		ret *= 10;
 		ret += digit;
@@ -609,7 +611,8 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
+	/* decimal digits of the largest asn1SccUint */
+	if (nNibbles > (WORD_SIZE == 8 ? 20 : 10))
 		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
-- 
2.43.0


From 1a791f895ec33095c338d9e66b9cc0593cf8e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 10/59] fix: ACN ASCII integers: refuse malformed input instead
 of asserting

---
 asn1crt/asn1crt_encoding_acn.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a7a2c36..af73ef7 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -702,7 +702,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -728,7 +729,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	else if (digit == '-')
 		sign = -1;
 	else {
-		ASSERT_OR_RETURN_FALSE(0);
+		return FALSE;
 	}
 	encodedSizeInBytes--;
 
@@ -879,6 +880,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
+		if (digit < '0' || digit > '9')
+			return FALSE;
 		digit = (byte)((int)digit - '0');
 
 		ret *= 10;
@@ -899,7 +902,8 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
-- 
2.43.0


From c08c2ca53d23e317c5fb15256c29494b39497d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 11/59] fix: ACN decode-side alignment at the end of the input

---
 asn1crt/asn1crt_encoding_acn.c | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index af73ef7..cfa9b50 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -12,58 +12,65 @@ static flag RequiresReverse(void)
 
 void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
-		pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
+	/* Decoding skips the padding without looking at it. The input may end within
+	   it: whatever is read next fails then, so this is no programming error. */
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
+			pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
+	}
 
 	if (pBitStrm->currentBit != 0)
 	{
-		if (bEncode)
+		if (bEncode) {
 			BitStream_AppendNBitZero(pBitStrm, NO_OF_BITS_IN_BYTE - pBitStrm->currentBit);
+			CHECK_BIT_STREAM(pBitStrm);
+		}
 		else {
 			pBitStrm->currentBit = 0;
 			pBitStrm->currentByte++;
 			bitstream_fetch_data_if_required(pBitStrm);
 		}
-		CHECK_BIT_STREAM(pBitStrm);
 	}
 }
 
 void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT16 - 1));
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
+			(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
+			& (NO_OF_BITS_IN_INT16 - 1));
+	}
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	if (bEncode) {
 		while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT16 != 0)
 			BitStream_AppendByte0(pBitStrm, 0);
+		CHECK_BIT_STREAM(pBitStrm);
 	}
 	else {
 		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
 		bitstream_fetch_data_if_required(pBitStrm);
 	}
-
-	CHECK_BIT_STREAM(pBitStrm);
 }
 
 void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT32 - 1));
+	if (bEncode) {
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
+			(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
+			& (NO_OF_BITS_IN_INT32 - 1));
+	}
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	if (bEncode) {
 		while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT32 != 0)
 			BitStream_AppendByte0(pBitStrm, 0);
+		CHECK_BIT_STREAM(pBitStrm);
 	}
 	else {
 		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
 		bitstream_fetch_data_if_required(pBitStrm);
 	}
-
-	CHECK_BIT_STREAM(pBitStrm);
 }
 
 /*ACN Integer functions*/
-- 
2.43.0


From b564d439047d3e7c92e3ad1dd2b8221441e7c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 12/59] fix: Acn_Dec_String_Ascii_Null_Terminated_mult wrote
 one element past the string

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index cfa9b50..adcdb33 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1353,7 +1353,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From dc5e843486382e2c9057155040cedf7c86c42fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 13/59] fix: BitStream_AppendPartialByte kept the bits it must
 overwrite when crossing a byte

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5e52edd..eaf49fe 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -473,7 +473,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 8a295b5c98e9da218e0f14ee7d610b16d7c40c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 14/59] fix: references to types containing OBJECT IDENTIFIER
 or time types generated duplicate functions

---
 FrontEndAst/TypesEquivalence.fs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FrontEndAst/TypesEquivalence.fs b/FrontEndAst/TypesEquivalence.fs
index 7971302..912de10 100644
--- a/FrontEndAst/TypesEquivalence.fs
+++ b/FrontEndAst/TypesEquivalence.fs
@@ -12,6 +12,8 @@ let rec uperEquivalence (t1:Asn1Type) (t2:Asn1Type) =
     | NullType _, NullType _                -> true
     | BitString bs1, BitString bs2          -> bs1.cons = bs2.cons
     | Boolean _, Boolean _                  -> true
+    | ObjectIdentifier o1, ObjectIdentifier o2  -> o1.relativeObjectId = o2.relativeObjectId && o1.cons = o2.cons
+    | TimeType t1, TimeType t2              -> t1.timeClass = t2.timeClass && t1.cons = t2.cons
     | Enumerated e1, Enumerated e2          -> e1.items = e2.items &&  e1.cons = e2.cons
     | SequenceOf sqof1, SequenceOf sqof2    -> 
         sqof1.cons = sqof2.cons && (uperEquivalence sqof1.child sqof2.child)
-- 
2.43.0


From 2a9040f6eeb8ef32e8c0f5e7fd7ebb663d58be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 15/59] fix: uPER enumerations are indexed in the order of
 their values (X.691 14.1)

---
 BackendAst/DAstUPer.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..f74e857 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,7 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
-- 
2.43.0


From 41c7b4a29826c33f0533fa91fcc8aaa6a1572f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 16/59] fix: FROM constraints added to a string type reference
 called a function that was never generated

---
 BackendAst/DastValidate2.fs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..07dcef2 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1000,7 +1000,8 @@ let rec createReferenceTypeFunction_this_type (r:Asn1AcnAst.AstRoot) (l:Language
 
 let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.ReferenceType) (typeDefinition:TypeDefinitionOrReference) (resolvedType:Asn1Type)  (us:State)  =
     let callBaseTypeFunc = l.isvalid.call_base_type_func
-    let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType us
+    let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType {us with alphaIndex=0; alphaFuncs=[]}
+    let alphaFuncs = us.alphaFuncs
 
     let moduleName, typeDefinitionName, baseTypeDefinitionName =
         match typeDefinition with
@@ -1061,6 +1062,6 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
 
     let errorCodeComment = o.refCons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
 
-    createIsValidFunction r l t funBody  typeDefinition [] [] [] [] (Some errorCodeComment) ns
+    createIsValidFunction r l t funBody  typeDefinition alphaFuncs [] [] [] (Some errorCodeComment) ns
 
 
-- 
2.43.0


From ac35520d85c496f63196c31c453039b4e7f7448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 17/59] fix: uPER OCTET STRING decoding accepted input that
 ends inside the length

---
 StgC/uper_c.stg | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..b7ea4bf 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -517,8 +517,11 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
 *pErrCode = ret ? 0 : <sErrCode>;
-<p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+if (ret) {
+	<p><sAcc>nCount = (long)nCount;
+	ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+	*pErrCode = ret ? 0 : <sErrCode>;
+}
 >>
 
 
-- 
2.43.0


From 9ebb213845a6ccff2bd501b69f94cbaa3f66e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 18/59] fix: the base alphabet of NumericString was not
 validated

---
 BackendAst/DastValidate2.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 07dcef2..2b3189b 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -677,7 +677,11 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Acn
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
-    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
+    // X.680 41.2: a NumericString consists of digits and spaces, whether or not it has constraints of its own
+    let numericAlphabet =
+        AlphabetConstraint ("", RangeUnionConstraint ("", RangeConstraint ("", '0', '9', true, true), RangeSingleValueConstraint ("", " "), false))
+    let cons = if o.isNumeric then numericAlphabet::o.cons else o.cons
+    let fncs, ns = cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
-- 
2.43.0


From bae2226fcf7f117b43a7fe8eff747e6642c1c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 19/59] fix: BIT STRING values assigned as defaults had the
 number of octets as their length

---
 BackendAst/DAstInitialize.fs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 9095f0f..73e1a87 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -483,15 +483,15 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes =
+        let bytes, nBits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList
-            | OctetStringValue iv   -> iv
+            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, BigInteger iv.Length
+            | OctetStringValue iv   -> iv, min (8I * BigInteger iv.Length) o.maxSize.uper
             | _                     -> raise(BugErrorException "UnexpectedValue")
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger arrsBytes.Length) arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) nBits arrsBytes
 
     let anonyms =
         o.AllCons |>
-- 
2.43.0


From 76f6c693f58f3bd42dfb3c8811bce0e8db88bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 20/59] fix: fixed-size fragmented SEQUENCE OF ignored element
 errors

---
 StgC/uper_c.stg | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b7ea4bf..c762cba 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -688,7 +688,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
         *pErrCode = ret ? 0 : <sErrCodeName>;
 
 	    <else>
-	    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+	    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 		    <sInternalItem>
 	    }
 
@@ -711,7 +711,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 	    <sInternalItem>
     }
 
@@ -737,7 +737,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>)); <sBLI>++)
     {
 	    <sInternalItem>
     }
-- 
2.43.0


From adf8f5d949e7fb9fd72d5bf99d070f82f4ea84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 21/59] fix: fixed sizes that are multiples of 16K ended
 without the zero-length fragment

---
 BackendAst/DAstUPer.fs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index f74e857..ef32675 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -386,11 +386,9 @@ let handleFixedSizeFragmentation (lm:LanguageMacros) (p:CodegenScope) (codec:Com
 
     let bRemainingItemsWithinByte = r.nRemainingItemsVar <= C_127
     let parts=
-        match r.nRemainingItemsVar > 0I with
-        | true  ->
-            let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
-            parts@[part]
-        | false -> parts
+        // also when no items are left: the last fragment then has length zero (X.691 10.9.3.8.3)
+        let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
+        parts@[part]
 
     let createLv = lm.lg.uper.createLv
 
-- 
2.43.0


From fcd9ee0625070a288a46b10911fae1b7e1080b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 22/59] fix: do not redeclare the mapping functions of the
 run-time library in generated C

A field of an unsigned type with 'mapping-function milbus' gave a
declaration of milbus_encode/milbus_decode that conflicts with the one in
asn1crt_encoding_acn.h, so the documented use did not compile.
---
 BackendAst/Acn/AcnPrimitives.fs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 53c8fe4..acd1ceb 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -17,6 +17,9 @@ open AcnHelpers
 
 type AcnIntegerFuncBody = ErrorCode -> ((AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) -> NestingScope -> CodegenScope -> (AcnFuncBodyResult option)
 
+/// mapping functions that the run-time library provides
+let private runtimeMappingFunctions = ["milbus"]
+
 let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
                                      (lm:LanguageMacros)
                                      (codec:CommonTypes.Codec)
@@ -65,6 +68,7 @@ let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
     let userDefinedFunctions =
         match soMF with
         | None -> []
+        | Some s when runtimeMappingFunctions |> List.contains s -> []  // declared by the run-time library
         | Some s ->
             [UserMappingFunction (mappingFunctionDeclaration typeName s codec)]
 
@@ -149,8 +153,7 @@ let getMappingFunctionModule (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (soMapFu
         match soMapFuncName with
         | None  -> None
         | Some sMapFuncName ->
-            let knownMappingFunctions = ["milbus"]
-            match knownMappingFunctions |> Seq.exists ((=) sMapFuncName) with
+            match runtimeMappingFunctions |> Seq.exists ((=) sMapFuncName) with
             | true  -> Some (acn_a.rtlModuleName() )
             | false -> r.args.mappingFunctionsModule
 
-- 
2.43.0


From 643ef0acf80530d9f38bfdbf50335be846cf5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 23/59] fix: ACN enumerated with encode-values and negative
 values used the unsigned codec

---
 BackendAst/Acn/AcnEnum.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 0874148..64d6d03 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -32,6 +32,7 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
     let EnumeratedEncValues                 = lm.acn.EnumeratedEncValues
     let Enumerated_item                     = lm.acn.Enumerated_item
     let IntFullyConstraintPos               = lm.uper.IntFullyConstraintPos
+    let IntFullyConstraint                  = lm.uper.IntFullyConstraint
     let Enumerated_no_switch                = lm.acn.EnumeratedEncValues_no_switch
 
     let min = o.items |> List.map(fun x -> x.acnEncodeValue) |> Seq.min
@@ -64,7 +65,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                     | Some tasInfo ->
                         lm.lg.generateIntFullyConstraintRangeAssert (ToC (r.args.TypePrefix + tasInfo.tasName)) p codec
                     | None -> None
-                let funcBody = IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                let funcBody =
+                    match intTypeClass.IsPositive with
+                    | true  -> IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                    | false -> IntFullyConstraint (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName codec
                 Some({UPERFuncBodyResult.funcBody = funcBody; errCodes = [errCode]; localVariables= []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]})
             AcnPrimitives.createAcnIntegerFunctionInternal r lm codec (Concrete (min,max)) intTypeClass o.acnEncodingClass uperInt sAsn1Constraints acnMinSizeInBits acnMaxSizeInBits unitsOfMeasure typeDefinitionName (None, None)
         let funcBodyContent =
-- 
2.43.0


From 9c3f1b5f1c08d52bf9c381bf3c5ff27c67c4c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 24/59] fix: decoding a little endian IEEE754 single precision
 REAL ignored the end of the input

---
 StgC/acn_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..f24eb5e 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -344,7 +344,7 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+ret = Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
 <A(sErrCode)>
 >>
 
-- 
2.43.0


From 5efe3634fa8723df190f4748b8782a2642dc2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 25/59] fix: a missing termination pattern after the last
 possible item was not reported

---
 StgC/acn_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index f24eb5e..08f2828 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -690,10 +690,10 @@ if (ret && (<i> == <nSizeMax>) && (checkBitPatternPresentResult == 1)) {
 }
 
 
-if (ret && (checkBitPatternPresentResult == 0)) {
+if (ret && (checkBitPatternPresentResult != 2)) {
 	ret = FALSE;			/*COVERAGE_IGNORE*/
 	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
-} else if (ret && (checkBitPatternPresentResult == 2)) {
+} else if (ret) {
 	<p><sAcc>nCount = <i>;
 	ret = true;
 	*pErrCode = 0;
-- 
2.43.0


From ac374c4efaae1d3377cca95a1b9138fddf37848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 26/59] fix: a length determinant could exceed the maximum size
 of an OCTET STRING or BIT STRING

The comparison with the maximum was left out when the ASN.1 type of the
determinant does not exceed it, although its ACN encoding can carry larger
values.
---
 BackendAst/Acn/AcnOctetBitStrings.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index b6c9502..9a36603 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -52,7 +52,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                     | _ -> false
                 let detMaxOpt =
                     match tp with
-                    | Some (AcnInsertedType.AcnInteger int) ->
+                    | Some (AcnInsertedType.AcnInteger int) when int.acnEncodingClass = Integer_uPER && int.acnProperties.mappingFunction.IsNone ->
                         match int.uperRange with
                         | Concrete (_, detMax) -> Some detMax
                         | NegInf detMax        -> Some detMax
@@ -109,7 +109,7 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                 let tp = getExternalFieldType r deps t.id
                 let detMaxOpt =
                     match tp with
-                    | Some (AcnInsertedType.AcnInteger int) ->
+                    | Some (AcnInsertedType.AcnInteger int) when int.acnEncodingClass = Integer_uPER && int.acnProperties.mappingFunction.IsNone ->
                         match int.uperRange with
                         | Concrete (_, detMax) -> Some detMax
                         | NegInf detMax        -> Some detMax
-- 
2.43.0


From 9aee5f31544ef854581e48c02efce1f5b95d20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 27/59] fix: a negative length determinant was accepted

---
 BackendAst/Acn/AcnExternalField.fs   | 21 ++++++++++++++-------
 BackendAst/Acn/AcnOctetBitStrings.fs |  4 ++--
 BackendAst/Acn/AcnSequenceOf.fs      |  4 ++--
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/BackendAst/Acn/AcnExternalField.fs b/BackendAst/Acn/AcnExternalField.fs
index c25bd8e..adf619d 100644
--- a/BackendAst/Acn/AcnExternalField.fs
+++ b/BackendAst/Acn/AcnExternalField.fs
@@ -85,16 +85,16 @@ let getExternalField0Type (r: Asn1AcnAst.AstRoot)
     let lastNode = nodes |> List.rev |> List.head
     match lastNode with
     | PRM _   ->
-        let tp =
+        let rec argumentTypes (prmId:ReferenceToType) =
             deps.acnDependencies |>
-            List.choose(fun d ->
+            List.collect(fun d ->
                 match d.dependencyKind with
-                | AcnDepRefTypeArgument prm when prm.id = dependency.determinant.id ->
+                | AcnDepRefTypeArgument prm when prm.id = prmId ->
                     match d.determinant with
-                    | AcnChildDeterminant child -> Some child.Type
-                    | _ -> None
-                | _ -> None)
-        match tp with
+                    | AcnChildDeterminant child -> [child.Type]
+                    | _ -> argumentTypes d.determinant.id
+                | _ -> [])
+        match argumentTypes dependency.determinant.id with
         | tp :: _ -> Some tp
         | _ ->
             match dependency.determinant with
@@ -105,6 +105,13 @@ let getExternalField0Type (r: Asn1AcnAst.AstRoot)
         | AcnChildDeterminant child -> Some child.Type
         | _ -> None
 
+/// the smallest length to check for: none when it is zero and the determinant cannot be negative
+let getMinSizeToCheck (tp: AcnInsertedType option) (minSize: System.Numerics.BigInteger) =
+    match tp with
+    | _ when minSize > 0I                                       -> Some minSize
+    | Some (AcnInsertedType.AcnInteger int) when not int.isUnsigned -> Some minSize
+    | _                                                         -> None
+
 let getExternalFieldChoicePresentWhen (lm:LanguageMacros) (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFieldDependencies) asn1TypeIdWithDependency  relPath=
     let filterDependency (d:AcnDependency) =
         match d.dependencyKind with
diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index 9a36603..23b0cc3 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -58,7 +58,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = AcnExternalField.getMinSizeToCheck tp o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
@@ -115,7 +115,7 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = AcnExternalField.getMinSizeToCheck tp o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
diff --git a/BackendAst/Acn/AcnSequenceOf.fs b/BackendAst/Acn/AcnSequenceOf.fs
index 1f5144d..21489a7 100644
--- a/BackendAst/Acn/AcnSequenceOf.fs
+++ b/BackendAst/Acn/AcnSequenceOf.fs
@@ -144,8 +144,8 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                         let introSnap = nestingScope.nestingLevel = 0I
                         let funcBodyContent =
                             match o.isFixedSize with
-                            | true  -> oct_sqf_external_field_fix_size td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
-                            | false -> external_field td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                            | true  -> oct_sqf_external_field_fix_size td pp access (i level) internalItem.funcBody (AcnExternalField.getMinSizeToCheck tp o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                            | false -> external_field td pp access (i level) internalItem.funcBody (AcnExternalField.getMinSizeToCheck tp o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
                         Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_TerminationPattern bitPattern ->
-- 
2.43.0


From abb2257620d27f14f2706e650bb9630b6627e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 28/59] fix: strings with a length determinant above their
 maximum size were cut short instead of refused

---
 asn1crt/asn1crt_encoding_acn.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index adcdb33..ee89241 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1370,7 +1370,9 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 
 flag Acn_Dec_String_Ascii_External_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint extSizeDeterminantFld, char* strVal)
 {
-	return Acn_Dec_String_Ascii_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_Ascii_private(pBitStrm, max, extSizeDeterminantFld, strVal);
 }
 
 flag Acn_Dec_String_Ascii_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint min, char* strVal)
@@ -1412,7 +1414,9 @@ flag Acn_Dec_String_CharIndex_FixSize(BitStream* pBitStrm, asn1SccSint max, byte
 
 flag Acn_Dec_String_CharIndex_External_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, byte allowedCharSet[], int charSetSize, asn1SccSint extSizeDeterminantFld, char* strVal)
 {
-	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, allowedCharSet, charSetSize, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld, allowedCharSet, charSetSize, strVal);
 }
 
 flag Acn_Dec_String_CharIndex_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, byte allowedCharSet[], int charSetSize, asn1SccSint min, char* strVal)
@@ -1441,7 +1445,9 @@ flag Acn_Dec_IA5String_CharIndex_External_Field_Determinant(BitStream* pBitStrm,
 		0x64,0x65,0x66,0x67,0x68,0x69,0x6A,0x6B,0x6C,0x6D,
 		0x6E,0x6F,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,
 		0x78,0x79,0x7A,0x7B,0x7C,0x7D,0x7E,0x7F };
-	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld <= max ? extSizeDeterminantFld : max, allowedCharSet, 128, strVal);
+	if (extSizeDeterminantFld < 0 || extSizeDeterminantFld > max)
+		return FALSE;
+	return Acn_Dec_String_CharIndex_private(pBitStrm, max, extSizeDeterminantFld, allowedCharSet, 128, strVal);
 }
 
 flag Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(BitStream* pBitStrm, asn1SccSint max, asn1SccSint min, char* strVal)
-- 
2.43.0


From cff502c25960465e5ce5d85eb4987ff885f4452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 29/59] fix: a length determinant of a type that cannot hold
 all lengths was accepted

---
 FrontEndAst/AcnCreateFromAntlr.fs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index e3a3ba7..74a09ff 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -988,7 +988,10 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
                 AcnEncodingClasses.GetIntEncodingClass asn1.args.integerSizeInBytes acnAlignment ts.Location acnProperties uperMinSizeInBits uperMaxSizeInBits isUnsigned
 
             let checkIntHasEnoughSpace asn1Min asn1Max =
-                checkIntHasEnoughSpace acnEncodingClass acnProperties.mappingFunction.IsSome ts.Location asn1Min asn1Max
+                match acnEncodingClass, uperRange with
+                | Integer_uPER, Concrete(a,b) when acnProperties.mappingFunction.IsNone && (asn1Min < a || b < asn1Max) ->
+                    raise(SemanticError(ts.Location, (sprintf "Type %s does not allow the values from %A to %A, which are required by the field it determines" ts.Value asn1Min asn1Max)))
+                | _ -> checkIntHasEnoughSpace acnEncodingClass acnProperties.mappingFunction.IsSome ts.Location asn1Min asn1Max
 
             let  intClass = getIntEncodingClassByUperRange asn1.args uperRange
             AcnInteger ({AcnInteger.acnProperties=acnProperties; acnAlignment=acnAlignment; acnEncodingClass = acnEncodingClass;  Location = ts.Location; acnMinSizeInBits=acnMinSizeInBits; acnMaxSizeInBits = acnMaxSizeInBits;cons=cons;withcons=[];isUnsigned=isUnsigned; uperRange= uperRange; intClass=intClass; defaultValue="0"; checkIntHasEnoughSpace=checkIntHasEnoughSpace; inheritInfo=Some {InheritanceInfo.modName=md.Value; tasName=ts.Value;hasAdditionalConstraints=false;}}), us
-- 
2.43.0


From bf2f7bfa078cd03db2270d558b31381e856beafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 30/59] fix: ACN-inserted BOOLEAN fields ignored true-value and
 false-value

---
 BackendAst/Acn/AcnPrimitives.fs | 74 ++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index acd1ceb..ae14ff5 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -289,51 +289,51 @@ let nestChildItems (lm:LanguageMacros) (codec:CommonTypes.Codec) children =
     DAstUtilFunctions.nestItems lm.isvalid.JoinItems2 children
 
 
+let private booleanFuncBody (lm:LanguageMacros) (codec:CommonTypes.Codec) (acnProperties:BooleanAcnProperties) (p:CodegenScope) (errCode:ErrorCode) =
+    let Boolean         = lm.uper.Boolean
+    let acnBoolean      = lm.acn.Boolean
+    let BooleanTrueFalse = lm.acn.BooleanTrueFalse
+
+    let pvalue, ptr, resultExpr =
+        match codec, lm.lg.decodingKind with
+        | Decode, Copy ->
+            let resExpr = p.accessPath.asIdentifier
+            resExpr, resExpr, Some resExpr
+        | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
+    match acnProperties.encodingPattern with
+    | None ->
+        let pp, resultExpr = adaptArgument lm codec p
+        Boolean pp errCode.errCodeName codec, resultExpr
+    | Some (TrueValueEncoding pattern)  ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
+        let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (FalseValueEncoding pattern) ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
+        let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
+        let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
+        let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
+        let nSize = trPattern.Value.Length
+        BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+
 let createAcnBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec)  (typeId : ReferenceToType) (o:Asn1AcnAst.AcnBoolean)  (us:State)  =
     AcnPrimitiveFactory.createAcnOnlyPrimitive codec typeId us (fun errCode ->
         fun (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) ->
-            let pp, resultExpr = adaptArgument lm codec p
-            let Boolean         = lm.uper.Boolean
-            let funcBodyContent = Boolean pp errCode.errCodeName codec
+            let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties p errCode
             let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux "BOOLEAN" "BOOLEAN" None o.acnMinSizeInBits o.acnMaxSizeInBits None
             Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]; icdResult = Some icd})
 
 let createBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Boolean) (typeDefinition:TypeDefinitionOrReference) (baseTypeUperFunc : AcnFunction option) (isValidFunc: IsValidFunction option) (us:State)  =
     let funcBody (errCode:ErrorCode) (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) =
-        let Boolean         = lm.uper.Boolean
-        let acnBoolean      = lm.acn.Boolean
-        let BooleanTrueFalse = lm.acn.BooleanTrueFalse
-
-        let funcBodyContent, resultExpr=
-            let pvalue, ptr, resultExpr =
-                match codec, lm.lg.decodingKind with
-                | Decode, Copy ->
-                    let resExpr = p.accessPath.asIdentifier
-                    resExpr, resExpr, Some resExpr
-                | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
-            match o.acnProperties.encodingPattern with
-            | None ->
-                let pp, resultExpr = adaptArgument lm codec p
-                Boolean pp errCode.errCodeName codec, resultExpr
-            | Some (TrueValueEncoding pattern)  ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
-                let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (FalseValueEncoding pattern) ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
-                let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
-                let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
-                let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
-                let nSize = trPattern.Value.Length
-                BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+        let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties p errCode
         let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux (getASN1Name t) (getASN1Name t) None o.acnMinSizeInBits o.acnMaxSizeInBits t.unitsOfMeasure
         let aux = lm.lg.generateBooleanAuxiliaries r ACN t o nestingScope p.accessPath codec
         Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=aux; icdResult = Some icd}
-- 
2.43.0


From 5c30caa982b1158ee57f40551008a995c61d92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 31/59] fix: WITH COMPONENTS in a union rejected values without
 the component it constrains

---
 StgAda/isvalid_a.stg | 2 ++
 StgC/isvalid_c.stg   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index eec41b2..4354a4e 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -70,6 +70,7 @@ ret.Success := <sExp1>;
 StatementOrStatement(sStat1, sStat2) ::= <<
 <sStat1>
 if not ret.Success then
+    ret.Success := True;
     <sStat2>
 end if;
 >>
@@ -77,6 +78,7 @@ end if;
 ExpressionOrStatement(sExp1, sStat2) ::= <<
 ret := <sExp1>;
 if not ret.Success then
+    ret.Success := True;
     <sStat2>
 end if;
 >>
diff --git a/StgC/isvalid_c.stg b/StgC/isvalid_c.stg
index 5bf8a6c..db4405a 100644
--- a/StgC/isvalid_c.stg
+++ b/StgC/isvalid_c.stg
@@ -130,6 +130,7 @@ ret = <sExp1>;
 StatementOrStatement(sStat1, sStat2) ::= <<
 <sStat1>
 if (!ret) {
+    ret = TRUE;
     <sStat2>
 }
 >>
@@ -138,6 +139,7 @@ if (!ret) {
 ExpressionOrStatement(sExp1, sStat2) ::= <<
 ret = <sExp1>;
 if (!ret) {
+    ret = TRUE;
     <sStat2>
 }
 >>
-- 
2.43.0


From f4d932e549a52d0728896203704d046f24a26f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 32/59] fix: Ada run-time library refused or mangled REAL, BIT
 STRING, OBJECT IDENTIFIER and string encodings

REAL values whose base ** exponent alone is out of range, -0.0, over-long
contents and special values of more than one octet; fragmented BIT STRINGs whose
length is not a multiple of 8 or below 1; object identifiers of 128 to 255
octets; character indexes above the maximum string length; null terminated
strings without their terminator.
---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb  |  9 +++-
 ADA_RTL2/src/adaasn1rtl-encoding-acn.ads  |  3 +-
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 56 ++++++++++++++++-------
 ADA_RTL2/src/adaasn1rtl-encoding-uper.ads | 12 +++--
 ADA_RTL2/src/adaasn1rtl-encoding.ads      |  2 +-
 5 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 13d464f..9df3f7e 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2173,6 +2173,13 @@ is
          I := I + 1;
       end loop;
 
+      --  the terminator must be there, even after the longest string
+      Result.Success :=
+        null_characters =
+        tmp
+          (tmp'First ..
+               tmp'First + (null_characters'Last - null_characters'First));
+
       while I <= strVal'Last loop
          pragma Loop_Invariant (I >= strVal'First and I <= strVal'Last);
          strVal (I) := Standard.Ascii.NUL;
@@ -2393,7 +2400,7 @@ is
               bs.Current_Bit_Pos'Loop_Entry + (I - strVal'First) * nCharSize);
 
          Dec_ConstraintWholeNumberInt
-           (bs, charIndex, 0, Integer (asn1Max), nCharSize, Result.Success);
+           (bs, charIndex, 0, charSet'Length - 1, nCharSize, Result.Success);
          if Result.Success and charIndex + charSet'First <= charSet'Last then
             strVal (I) := charSet (charIndex + charSet'First);
          else
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
index 8b1ba8d..356a918 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
@@ -1424,8 +1424,7 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 -
           (strVal'Length - 1 + null_characters'Length) * 8,
-      Post => Result.Success and
-      bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
+      Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       bs.Current_Bit_Pos <=
         bs'Old.Current_Bit_Pos +
           (strVal'Length - 1 + null_characters'Length) * 8;
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 98067da..d7ae807 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -253,7 +253,11 @@ is
    is
       pragma SPARK_Mode (Off);
    begin
-      return (Asn1Real (Factor * N) * Asn1Real (base)**Exp);
+      --  base ** Exp alone may be out of range when the value is not
+      return
+        Asn1Real'Scaling
+          (Asn1Real (N) * Asn1Real (Factor),
+           Exp * (if base = 2 then 1 elsif base = 8 then 3 else 4));
    end CalcReal;
 
    procedure UPER_Dec_Real_AsBinary_aux
@@ -297,6 +301,9 @@ is
 
                Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
             end if;
+         else
+            --  mantissa larger than Asn1UInt
+            Result.Success := False;
          end if;
       end if;
    end UPER_Dec_Real_AsBinary_aux;
@@ -362,7 +369,14 @@ is
          if Length > 0 then
             BitStream_DecodeByte (bs, Header, Result.Success);
             if Result.Success then
-               if Header = 16#40# then
+               if (Header and 16#80#) = 0 and Length /= 1 then
+                  --  a special value is a single octet and decimal
+                  --  encodings are not supported
+                  Result :=
+                    ASN1_RESULT'
+                      (Success   => False,
+                       ErrorCode => ERR_UNSUPPORTED_ENCODING);
+               elsif Header = 16#40# then
                   RealVal := PLUS_INFINITY;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif Header = 16#41# then
@@ -374,7 +388,8 @@ is
                elsif Header = 16#43# then
                   RealVal := -0.0;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif (Header and 16#80#) > 0 then
+               elsif (Header and 16#80#) > 0 and (Header and 16#30#) /= 16#30#
+               then
                   UPER_Dec_Real_AsBinary
                     (bs, Header, Length - 1, RealVal, Result);
                else
@@ -387,6 +402,8 @@ is
          else
             Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
          end if;
+      else
+         Result.Success := False;
       end if;
    end UPER_Dec_Real;
 
@@ -439,7 +456,7 @@ is
       UPER_Dec_ConstraintWholeNumberInt
         (bs, length, 0, 255, 8, result.Success);
       if result.Success then
-         if length > 16#80# then
+         if length >= 16#80# then
             length := (length - 16#80#) * 16#100#;
             UPER_Dec_ConstraintWholeNumberInt
               (bs, len2, 0, 255, 8, result.Success);
@@ -1024,7 +1041,8 @@ is
 
       UPER_Dec_ConstraintWholeNumberInt
         (bs, nRemainingItemsVar1, 0, 255, 8, success);
-      nCurOffset1 := 1;
+      nCurOffset1 := 0;
+      data_length := asn1SizeMin;
 
       while success and
         (nRemainingItemsVar1 = 16#C4# or nRemainingItemsVar1 = 16#C3# or
@@ -1040,12 +1058,15 @@ is
             nCurBlockSize1 := 16#4000#;
          end if;
 
-         BitStream_ReadBits
-           (bs,
-            data
-              (data'First + nCurOffset1 / 8 ..
-                   data'First + (nCurOffset1 + nCurBlockSize1) / 8 - 1),
-            nCurBlockSize1, success);
+         success := nCurOffset1 + nCurBlockSize1 <= asn1SizeMax;
+         if success then
+            BitStream_ReadBits
+              (bs,
+               data
+                 (data'First + nCurOffset1 / 8 ..
+                      data'First + (nCurOffset1 + nCurBlockSize1) / 8 - 1),
+               nCurBlockSize1, success);
+         end if;
 
          if success then
             nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
@@ -1070,21 +1091,24 @@ is
             end;
          end if;
 
-         if success and nCurOffset1 + nRemainingItemsVar1 - 1 <= asn1SizeMax
-         then
+         success := success
+           and nCurOffset1 + nRemainingItemsVar1 <= asn1SizeMax;
+         if success then
 
             BitStream_ReadBits
               (bs,
                data
                  (data'First + nCurOffset1 / 8 ..
-                      data'First + (nCurOffset1 + nRemainingItemsVar1) / 8 -
-                      1),
+                      data'First
+                      + (nCurOffset1 + nRemainingItemsVar1 + 7) / 8 - 1),
                nRemainingItemsVar1, success);
 
             nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
          end if;
 
-         if success and nLengthTmp1 >= 1 and nLengthTmp1 <= asn1SizeMax then
+         if success and nLengthTmp1 >= asn1SizeMin and
+           nLengthTmp1 <= asn1SizeMax
+         then
             data_length := nLengthTmp1;
 
          else
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
index 8c6aa83..b1c3dfe 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
@@ -380,7 +380,8 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 - (8 * data_length + nBits),
       Post => bs.Current_Bit_Pos <=
-      bs'Old.Current_Bit_Pos + (8 * data_length + nBits) and
+      bs'Old.Current_Bit_Pos +
+        (8 * data_length + nBits + 8 * (data_length / 16#4000# + 2)) and
       bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos;
 
    procedure BitStream_DecodeOctetString
@@ -399,7 +400,8 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 - (8 * asn1SizeMax + nBits),
       Post => bs.Current_Bit_Pos <=
-      bs'Old.Current_Bit_Pos + (8 * asn1SizeMax + nBits) and
+      bs'Old.Current_Bit_Pos +
+        (8 * asn1SizeMax + nBits + 8 * (asn1SizeMax / 16#4000# + 2)) and
       bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       data_length >= asn1SizeMin and data_length <= asn1SizeMax;
 
@@ -421,7 +423,8 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 - (data_length + nBits),
       Post => bs.Current_Bit_Pos <=
-      bs'Old.Current_Bit_Pos + (data_length + nBits) and
+      bs'Old.Current_Bit_Pos +
+        (data_length + nBits + 8 * (data_length / 16#4000# + 2)) and
       bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos;
 
 --        Pre     => bitMaskAsByteArray'First >= 0
@@ -452,7 +455,8 @@ is
         bs.Size_In_Bytes * 8 - (asn1SizeMax + nBits),
 
       Post => bs.Current_Bit_Pos <=
-      bs'Old.Current_Bit_Pos + (asn1SizeMax + nBits) and
+      bs'Old.Current_Bit_Pos +
+        (asn1SizeMax + nBits + 8 * (asn1SizeMax / 16#4000# + 2)) and
       bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       data_length >= asn1SizeMin and data_length <= asn1SizeMax;
 
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.ads b/ADA_RTL2/src/adaasn1rtl-encoding.ads
index f8d55c1..2dd62d2 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.ads
@@ -95,7 +95,7 @@ is
    function isNaN (r : Asn1Real) return Boolean is
    (r /= 0.0 and then (not (r < 0.0)) and then (not (r > 0.0)));
    function isPosZero (r : Asn1Real) return Boolean is
-     (r >= 0.0 and then r <= 0.0);
+     (r >= 0.0 and then r <= 0.0 and then Asn1Real'Copy_Sign (1.0, r) > 0.0);
    function isNegZero (r : Asn1Real) return Boolean is
      (r >= -0.0 and then r <= -0.0);
 
-- 
2.43.0


From 01f7dd1c88f318318bce185d8202deffc6d1d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 33/59] fix: BER decoders took lengths and contents that do not
 fit, and read past the end of the data

---
 asn1crt/asn1crt_encoding_ber.c | 84 ++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..1eb530b 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -5,6 +5,7 @@
 #include <float.h>
 #include <ctype.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include "asn1crt_encoding_ber.h"
 
@@ -13,7 +14,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte >= pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +23,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte >= pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
@@ -92,7 +93,7 @@ flag BerDecodeTag(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 		tgCopy >>= 8;
 		tagSize++;
 	}
-	PrimitiveBit = (BerTag)(0x20 << ((tagSize - 1) * 8));
+	PrimitiveBit = (BerTag)0x20 << ((tagSize - 1) * 8);
 
 	while (tagSize>0) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
@@ -162,6 +163,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
+		if (ret > ((unsigned int)INT_MAX >> 8)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 		ret <<= 8;
 		ret |= curByte;
 	}
@@ -249,6 +254,10 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		byte curByte;
@@ -303,7 +312,7 @@ flag BerDecodeBoolean(ByteStream* pByteStrm, BerTag tag, flag *value, int *pErrC
 		return FALSE;
 	}
 
-	*value = data;
+	*value = data != 0;
 
 	return TRUE;
 }
@@ -339,26 +348,37 @@ flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, double value, int *pErrCod
 }
 
 flag BerDecodeReal(ByteStream* pByteStrm, BerTag tag, double *value, int *pErrCode) {
-	/*  int length=0;
-	byte buf[100];*/
+	int length = 0;
+	byte buf[100];
 	BitStream tmp;
-	/*  int i;*/
 
 	if (!BerDecodeTag(pByteStrm, tag, pErrCode))
 		return FALSE;
 
-	/*if (!BerDecodeLength(pByteStrm, &length, pErrCode))
-	return FALSE;*/
+	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
+		return FALSE;
+
+	if (length < 0 || length > (int)sizeof(buf) - 1) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
-	BitStream_AttachBuffer(&tmp, &pByteStrm->buf[pByteStrm->currentByte], pByteStrm->count - pByteStrm->currentByte);
+	if (length > pByteStrm->count - pByteStrm->currentByte) {
+		*pErrCode = ERR_INSUFFICIENT_DATA;
+		return FALSE;
+	}
 
+	/* the contents octets, behind a short form length */
+	buf[0] = (byte)length;
+	memcpy(&buf[1], &pByteStrm->buf[pByteStrm->currentByte], (size_t)length);
+	BitStream_AttachBuffer(&tmp, buf, length + 1);
 
 	if (!BitStream_DecodeReal(&tmp, value)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
 
-	pByteStrm->currentByte += (long)BitStream_GetLength(&tmp);
+	pByteStrm->currentByte += length;
 
 	return TRUE;
 
@@ -392,15 +412,17 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
-
+	if (length < 0 || length > maxLength) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxLength)
-			value[i] = (char)curByte;
+		value[i] = (char)curByte;
 	}
 
 	return TRUE;
@@ -471,7 +493,6 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	int i;
 	int length;
 	byte lastByteUnusedBits, curByte;
-	int nbitCnt = 0;
 	int maxBytesLen = maxBitCount / 8;
 	if ((maxBitCount % 8) != 0)
 		maxBytesLen++;
@@ -482,29 +503,32 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
 
+	if (lastByteUnusedBits > 7 || (length == 1 && lastByteUnusedBits > 0) ||
+		length - 1 > maxBytesLen || (length - 1) * 8 - lastByteUnusedBits > maxBitCount) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxBytesLen) {
-			nbitCnt += 8;
-			value[i] = curByte;
-		}
-		else {
-			lastByteUnusedBits = 0;
-		}
+		value[i] = curByte;
 	}
 
-	nbitCnt -= lastByteUnusedBits;
-
 	if (bitCount != NULL)
-		*bitCount = nbitCnt;
+		*bitCount = (length - 1) * 8 - lastByteUnusedBits;
 
 	return TRUE;
 
@@ -541,16 +565,20 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 0 || length > maxOctCount) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (octCount != NULL)
-		*octCount = length <= maxOctCount ? length : maxOctCount;
+		*octCount = length;
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxOctCount)
-			value[i] = curByte;
+		value[i] = curByte;
 	}
 
 	return TRUE;
-- 
2.43.0


From 43e93b40d6eec3651ee6f2ab485a1bb8e173dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 34/59] fix: XER integers and REAL lost digits and range checks

---
 asn1crt/asn1crt_encoding_xer.c | 99 +++++++++++++++++++++++++---------
 1 file changed, 75 insertions(+), 24 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c248cbd..c40cb73 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -5,6 +5,7 @@
 #include <float.h>
 #include <ctype.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <inttypes.h>
 
 #include "asn1crt_encoding_xer.h"
@@ -21,29 +22,27 @@ char* UInt2String(asn1SccUint v) {
 	return tmp;
 }
 
+/* the shortest form of 17 significant digits (d.dddEx), which denotes exactly this value */
 char* Double2String(double v) {
-	if (fabs(v) < 1e-17)
-		return "0";
-
 	static char tmp[256];
-	int exponent = 0;
-
-	while (fabs(v) >= 10) {
-		v /= 10;
-		exponent++;
-	}
-
-	while (fabs(v) < 1) {
-		v *= 10;
-		exponent--;
-	}
-
-	if (fabs(fabs(v) - llabs((asn1SccSint)v)) < 1e-17) {
-		snprintf(tmp, sizeof(tmp), "%.1fE%d", v, exponent);
-	}
-	else {
-		snprintf(tmp, sizeof(tmp), "%.17gE%d", v, exponent);
-	}
+	char* e;
+	char* last;
+	int exponent;
+
+	if (isnan(v))
+		return "<NOT-A-NUMBER/>";
+	if (isinf(v))
+		return v > 0 ? "<PLUS-INFINITY/>" : "<MINUS-INFINITY/>";
+	if (v == 0)
+		return signbit(v) ? "-0" : "0";
+
+	snprintf(tmp, sizeof(tmp), "%.16E", v);
+	e = strchr(tmp, 'E');
+	exponent = atoi(e + 1);
+	last = e - 1;
+	while (*last == '0' && *(last - 1) != '.')
+		last--;
+	snprintf(last + 1, sizeof(tmp) - (size_t)(last + 1 - tmp), "E%d", exponent);
 
 	return tmp;
 }
@@ -727,23 +726,47 @@ flag Xer_DecodeNull(ByteStream* pByteStrm, const char* elementTag, NullType* val
 
 
 
+/* is there nothing but white space? */
+static flag OnlySpaces(const char* s)
+{
+	while (isspace((unsigned char)*s))
+		s++;
+	return *s == 0;
+}
+
 flag Xer_DecodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint* value, int *pErrCode)
 {
 	char tmp[256];
+	char* end;
+	long long v;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atoll(tmp);
+	errno = 0;
+	v = strtoll(tmp, &end, 10);
+	*value = (asn1SccSint)v;
+	if (end == tmp || !OnlySpaces(end) || errno == ERANGE || *value != v) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 	return TRUE;
 }
 
 flag Xer_DecodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint* value, int *pErrCode)
 {
 	char tmp[256];
+	char* end;
+	unsigned long long v;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = strtoull(tmp, NULL, 10);
+	errno = 0;
+	v = strtoull(tmp, &end, 10);
+	*value = (asn1SccUint)v;
+	if (end == tmp || !OnlySpaces(end) || errno == ERANGE || *value != v || strchr(tmp, '-') != NULL) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 	return TRUE;
 }
 
@@ -804,10 +827,38 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
 {
 	char tmp[256];
+	char* end;
+	NullType null;
+	int save = pByteStrm->currentByte;
 	memset(tmp, 0x0, sizeof(tmp));
+
+	/* <PLUS-INFINITY/>, <MINUS-INFINITY/> and <NOT-A-NUMBER/> */
+	if (Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode) && Xer_LA_NextElementTag(pByteStrm, tmp)) {
+		if (strcmp(tmp, "PLUS-INFINITY") == 0)
+			*value = INFINITY;
+		else if (strcmp(tmp, "MINUS-INFINITY") == 0)
+			*value = -INFINITY;
+		else if (strcmp(tmp, "NOT-A-NUMBER") == 0)
+			*value = NAN;
+		else {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		return Xer_DecodeNull(pByteStrm, tmp, &null, pErrCode) && Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
+	}
+	pByteStrm->currentByte = save;
+
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atof(tmp);
+	if (tmp[strspn(tmp, "0123456789+-.eE \t\r\n")] != 0) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
+	*value = strtod(tmp, &end);
+	if (end == tmp || !OnlySpaces(end)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 	return TRUE;
 }
 
-- 
2.43.0


From 710d83f9c988af723496c530d68788e009da7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 35/59] fix: XER primitive elements and attributes overran
 their fixed-size buffers

---
 asn1crt/asn1crt_encoding_xer.c | 52 +++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c40cb73..8b524e5 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -100,7 +100,7 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 	if (pStrm->currentByte + len >= pStrm->count)
 		return FALSE;
 
-	strcat((char*)&pStrm->buf[pStrm->currentByte], v);
+	memcpy(&pStrm->buf[pStrm->currentByte], v, (size_t)len + 1);
 	pStrm->currentByte += len;
 	return TRUE;
 }
@@ -206,13 +206,16 @@ Token LA(ByteStream* pByteStrm) {
 
 
 
-void AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
+flag AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
 {
-	assert(((unsigned)pAttrArray->nCount) < (sizeof(XmlAttributeArray) - sizeof(int)) / sizeof(XmlAttribute));
+	if (((unsigned)pAttrArray->nCount) >= sizeof(pAttrArray->attrs) / sizeof(XmlAttribute) ||
+		strlen(attr) >= sizeof(pAttrArray->attrs[0].Name) || strlen(val) >= sizeof(pAttrArray->attrs[0].Value))
+		return FALSE;
 
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Name, attr);
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Value, val);
 	pAttrArray->nCount++;
+	return TRUE;
 }
 
 /*
@@ -237,6 +240,7 @@ flag Xer_EncodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 		if (level >= 0)
 			if (!ByteStream_PutNL(pByteStrm))
 				return FALSE;
+		*pErrCode = 0;
 		return TRUE;
 	}
 
@@ -282,8 +286,10 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 	}
 	t = NT(pByteStrm);
 	if (t.TokenID == '/') {
-		if (NT(pByteStrm).TokenID == '>')
+		if (NT(pByteStrm).TokenID == '>') {
+			*pErrCode = 0;
 			return TRUE;
+		}
 		else {
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
@@ -348,6 +354,7 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 		return FALSE;
 	}
 
+	*pErrCode = 0;
 	return TRUE;
 }
 
@@ -363,7 +370,7 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 	Token t1;
 	Token t2;
 
-	while (LA(pByteStrm).TokenID != '>') {
+	while (LA(pByteStrm).TokenID != '>' && LA(pByteStrm).TokenID != '/') {
 		t1 = NT(pByteStrm);
 		if (t1.TokenID != WORD_ID) {
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
@@ -390,7 +397,10 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
 		}
-		AddAttribute(pAttrs, t1.Value, t2.Value);
+		if (pAttrs != NULL && !AddAttribute(pAttrs, t1.Value, t2.Value)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 	}
 	return TRUE;
 }
@@ -399,9 +409,10 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag, XmlAttributeArray* pAttrs, int *pErrCode, int level)
 {
 	int i = 0;
-	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+	*pErrCode = 0;
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return TRUE;
+	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 
 	if (!ByteStream_PutSpace(pByteStrm, level))
 		return FALSE;
@@ -413,6 +424,8 @@ flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 		return FALSE;
 	if (pAttrs != NULL) {
 		for (i = 0; i<pAttrs->nCount; i++) {
+			if (!ByteStream_AppendString(pByteStrm, " "))
+				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, pAttrs->attrs[i].Name))
 				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, "="))
@@ -432,6 +445,7 @@ flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 		if (!ByteStream_PutNL(pByteStrm))
 			return FALSE;
 
+	*pErrCode = 0;
 	return TRUE;
 }
 
@@ -479,9 +493,10 @@ flag Xer_DecodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 
 flag Xer_EncodeComplexElementEnd(ByteStream* pByteStrm, const char* elementTag, int *pErrCode, int level)
 {
-	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
+	*pErrCode = 0;
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return TRUE;
+	*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 	if (!ByteStream_PutSpace(pByteStrm, level))
 		return FALSE;
 
@@ -568,12 +583,6 @@ flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value
 
 flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	strcat(tmp, "<");
-	strcat(tmp, value);
-	strcat(tmp, "/>");
-
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
@@ -780,8 +789,10 @@ flag Xer_DecodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag* valu
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, tmp))
+	if (!Xer_LA_NextElementTag(pByteStrm, tmp)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	if (strcmp(tmp, "true") == 0) {
 		*value = TRUE;
@@ -811,8 +822,10 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, value))
+	if (!Xer_LA_NextElementTag(pByteStrm, value)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	if (!Xer_DecodePrimitiveElement(pByteStrm, value, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
@@ -1143,6 +1156,7 @@ flag Xer_EncodeComment(ByteStream* pByteStrm, const char* comment, int *pErrCode
 
 	if (!ByteStream_AppendString(pByteStrm, "-->"))
 		return FALSE;
+	*pErrCode = 0;
 	return TRUE;
 }
 
@@ -1152,9 +1166,9 @@ void Xer_EncodeXmlHeader(ByteStream* pByteStrm, const char* xmlHeader)
 	if (xmlHeader != NULL)
 		hdr = xmlHeader;
 
-	strcpy((char*)pByteStrm->buf, hdr);
-	pByteStrm->currentByte = (long)strlen(hdr);
-	pByteStrm->buf[pByteStrm->currentByte++] = '\n';
+	pByteStrm->currentByte = 0;
+	if (!ByteStream_AppendString(pByteStrm, hdr) || !ByteStream_AppendString(pByteStrm, "\n"))
+		pByteStrm->currentByte = pByteStrm->count; /* no room: the calls that follow fail */
 }
 
 
-- 
2.43.0


From de0ba3811e8b940d2421ff19cf53c3750d9cf2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 36/59] fix: XER OCTET STRING, BIT STRING and character strings
 were not checked against their limits

---
 asn1crt/asn1crt_encoding_xer.c | 255 ++++++++++++++++++++-------------
 1 file changed, 154 insertions(+), 101 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 8b524e5..c590fa6 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -610,9 +610,33 @@ flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real valu
 	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Double2String(value), pErrCode, level);
 }
 
+/* in the text of an element, '<', '>' and '&' are written as entities */
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+	if (*value == 0)
+		return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+
+	*pErrCode = ERR_INVALID_XML_FILE;
+	if (!ByteStream_PutSpace(pByteStrm, level))
+		return FALSE;
+	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
+		return FALSE;
+
+	for (; *value != 0; value++) {
+		char tmp[2] = { *value, 0 };
+		const char* s = *value == '<' ? "&lt;" : *value == '>' ? "&gt;" : *value == '&' ? "&amp;" : tmp;
+		if (!ByteStream_AppendString(pByteStrm, s)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+	}
+
+	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
+		return FALSE;
+	if (level >= 0)
+		if (!ByteStream_PutNL(pByteStrm))
+			return FALSE;
+	return TRUE;
 }
 
 flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const byte value[], int nCount, int *pErrCode, int level)
@@ -876,12 +900,6 @@ flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value
 }
 
 
-flag Xer_DecodeString(ByteStream* pByteStrm, const char* elementTag, char* value, size_t valSize, int *pErrCode)
-{
-	return Xer_DecodePrimitiveElement(pByteStrm, elementTag, value, valSize, pErrCode);
-}
-
-
 flag CharToNibble(char c, byte* pNibble) {
 	*pNibble = 0;
 	if (c >= '0' && c <= '9') {
@@ -899,133 +917,168 @@ flag CharToNibble(char c, byte* pNibble) {
 	return FALSE;
 }
 
-flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+/* the text of an element, without white space, inside the stream (as long as the stream is not written to) */
+static flag Xer_DecodeElementText(ByteStream* pByteStrm, const char* elementTag, long* pStart, long* pEnd, int *pErrCode)
 {
-	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	*pErrCode = ERR_INVALID_XML_FILE;
+	*pStart = 0;
+	*pEnd = 0;
+	if (NT(pByteStrm).TokenID != '<')
+		return FALSE;
+	if (strcmp(NT(pByteStrm).Value, elementTag) != 0)
+		return FALSE;
+	if (LA(pByteStrm).TokenID == '/') {
+		NT(pByteStrm);
+		if (NT(pByteStrm).TokenID != '>')
+			return FALSE;
+		*pErrCode = 0;
+		return TRUE;
+	}
+	if (NT(pByteStrm).TokenID != '>')
 		return FALSE;
+	*pStart = pByteStrm->currentByte;
+	while (pByteStrm->currentByte < pByteStrm->count && pByteStrm->buf[pByteStrm->currentByte] != '<')
+		pByteStrm->currentByte++;
+	*pEnd = pByteStrm->currentByte;
+	return Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
+}
 
-	len = (int)strlen(tmp);
+flag Xer_DecodeString(ByteStream* pByteStrm, const char* elementTag, char* value, size_t valSize, int *pErrCode)
+{
+	static const struct { const char* text; char c; } entities[] = {
+		{ "&lt;", '<' }, { "&gt;", '>' }, { "&amp;", '&' }, { "&quot;", '"' }, { "&apos;", '\'' } };
+	long i, end;
+	size_t written = 0;
 
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
+	*value = 0;
+	if (!Xer_DecodeElementText(pByteStrm, elementTag, &i, &end, pErrCode))
+		return FALSE;
+
+	*pErrCode = ERR_INVALID_XML_FILE;
+	while (i < end) {
+		char c = (char)pByteStrm->buf[i];
+		if (c == '&') {
+			size_t k, len = 0;
+			for (k = 0; k < sizeof(entities) / sizeof(entities[0]); k++) {
+				len = strlen(entities[k].text);
+				if ((size_t)(end - i) >= len && memcmp(&pByteStrm->buf[i], entities[k].text, len) == 0)
+					break;
+			}
+			if (k == sizeof(entities) / sizeof(entities[0]))
+				return FALSE;
+			c = entities[k].c;
+			i += (long)len;
+		}
+		else
+			i++;
+		if (written + 1 >= valSize)
+			return FALSE;
+		value[written++] = c;
+		value[written] = 0;
 	}
+	*pErrCode = 0;
+	return TRUE;
+}
 
-	len = j;
 
-	for (i = 0; i<len && i / 2 < bufferMaxSize; i++) {
+flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+{
+	long i, end;
+	int n = 0;
+	if (!Xer_DecodeElementText(pByteStrm, elementTag, &i, &end, pErrCode))
+		return FALSE;
+
+	for (; i < end; i++) {
 		byte nibble;
-		if (!CharToNibble(tmp[i], &nibble))
+		if (isspace(pByteStrm->buf[i]))
+			continue;
+		if (n / 2 >= bufferMaxSize || !CharToNibble((char)pByteStrm->buf[i], &nibble)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
-		if (i % 2 == 0) {
-			value[i / 2] = (byte)(nibble << 4);
-		}
-		else {
-			value[i / 2] |= nibble;
 		}
+		if (n % 2 == 0)
+			value[n / 2] = (byte)(nibble << 4);
+		else
+			value[n / 2] |= nibble;
+		n++;
+	}
+	if (n % 2 != 0 || (nCount == NULL && n / 2 != bufferMaxSize)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
 	}
 	if (nCount != NULL)
-		*nCount = len / 2 + len % 2;
-
+		*nCount = n / 2;
+	*pErrCode = 0;
 	return TRUE;
 }
 
 
-
-
 flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, Asn1ObjectIdentifier *pVal, int *pErrCode)
 {
-	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	char delim[] = ".";
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	long i, end;
+	flag inNumber = FALSE;
+	pVal->nCount = 0;
+	if (!Xer_DecodeElementText(pByteStrm, elementTag, &i, &end, pErrCode))
 		return FALSE;
 
-	len = (int)strlen(tmp);
-
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+	*pErrCode = ERR_INVALID_XML_FILE;
+	for (; i < end; i++) {
+		byte c = pByteStrm->buf[i];
+		if (isspace(c))
 			continue;
-		tmp[j++] = tmp[i];
-	}
-
-	len = j;
-
-	char *ptr = strtok(tmp, delim);
-	i = 0;
-	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
-	{
-		pVal->values[i++] = atoll(tmp);
-
-		ptr = strtok(NULL, delim);
+		if (c == '.') {
+			if (!inNumber)
+				return FALSE;
+			inNumber = FALSE;
+			continue;
+		}
+		if (!isdigit(c))
+			return FALSE;
+		if (!inNumber) {
+			if (pVal->nCount >= OBJECT_IDENTIFIER_MAX_LENGTH)
+				return FALSE;
+			pVal->values[pVal->nCount++] = 0;
+			inNumber = TRUE;
+		}
+		{
+			asn1SccUint* pArc = &pVal->values[pVal->nCount - 1];
+			asn1SccUint digit = (asn1SccUint)(c - '0');
+			if (*pArc > ((asn1SccUint)-1 - digit) / 10)
+				return FALSE;
+			*pArc = *pArc * 10 + digit;
+		}
 	}
-
+	if (!inNumber && pVal->nCount > 0)
+		return FALSE;
+	*pErrCode = 0;
 	return TRUE;
 }
 
 
-
-
-
-
-
-
-
-
-
-
-
-
-
-
-
-
-
-
+/* bufferMaxSize: the number of octets of value */
 flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
 {
-	char tmp[2048];
-	int len = 0;
-	int i;
-	int bytes;
-	int j = 0;
-
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
+	long i, end;
+	int n = 0;
+	if (!Xer_DecodeElementText(pByteStrm, elementTag, &i, &end, pErrCode))
 		return FALSE;
 
-	len = (int)strlen(tmp);
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+	memset(value, 0x0, (size_t)bufferMaxSize);
+	for (; i < end; i++) {
+		byte c = pByteStrm->buf[i];
+		if (isspace(c))
 			continue;
-		tmp[j++] = tmp[i];
-	}
-	len = j;
-
-	bytes = len / 8;
-	if (len % 8)
-		bytes++;
-
-	memset(value, 0x0, (size_t)bytes);
-
-
-	for (i = 0; i<len && i / 8 < bufferMaxSize; i++) {
-		byte curVal = (byte)(tmp[i] - '0');
-		int curBit = 7 - i % 8;
-		value[i / 8] |= (byte)(curVal << curBit);
+		if (n / 8 >= bufferMaxSize || (c != '0' && c != '1')) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		if (c == '1')
+			value[n / 8] |= (byte)(1 << (7 - n % 8));
+		n++;
 	}
 	if (nCount != NULL)
-		*nCount = len;
-
+		*nCount = n;
+	*pErrCode = 0;
 	return TRUE;
 }
 
-- 
2.43.0


From 9e251c5a5b6626d15d554b7330f1a07855301b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 37/59] fix: XER tokenizer mishandled comments

---
 asn1crt/asn1crt_encoding_xer.c | 48 ++++++++++++++--------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c590fa6..d1516a4 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -133,41 +133,33 @@ Token NT(ByteStream* pByteStrm) {
 	size_t written = 0;
 	memset(&ret, 0x0, sizeof(Token));
 
-	while (pByteStrm->currentByte < pByteStrm->count && isspace(pByteStrm->buf[pByteStrm->currentByte]))
-		pByteStrm->currentByte++;
-
-	if (pByteStrm->currentByte >= pByteStrm->count)
-		return ret;
+	/* skip white space, <?...?> and comments */
+	for (;;) {
+		const byte* cur;
+		long left;
+		long i;
 
-	if (pByteStrm->currentByte + 1 < pByteStrm->count &&
-		(pByteStrm->buf[pByteStrm->currentByte] == '<') && (pByteStrm->buf[pByteStrm->currentByte + 1] == '?')) {
-		pByteStrm->currentByte++;
-		while (pByteStrm->currentByte < pByteStrm->count &&
-			!((pByteStrm->buf[pByteStrm->currentByte - 1] == '?') && (pByteStrm->buf[pByteStrm->currentByte] == '>')))
-			pByteStrm->currentByte++;
-		pByteStrm->currentByte++;
 		while (pByteStrm->currentByte < pByteStrm->count && isspace(pByteStrm->buf[pByteStrm->currentByte]))
 			pByteStrm->currentByte++;
-	}
 
-	if (pByteStrm->currentByte >= pByteStrm->count)
-		return ret;
+		if (pByteStrm->currentByte >= pByteStrm->count)
+			return ret;
 
-	if (pByteStrm->currentByte + 3 < pByteStrm->count &&
-		(pByteStrm->buf[pByteStrm->currentByte] == '<') && (pByteStrm->buf[pByteStrm->currentByte + 1] == '!') && (pByteStrm->buf[pByteStrm->currentByte + 2] == '-') && (pByteStrm->buf[pByteStrm->currentByte + 3] == '-')) {
-		pByteStrm->currentByte++;
-		pByteStrm->currentByte++;
-		while (pByteStrm->currentByte < pByteStrm->count &&
-			!((pByteStrm->buf[pByteStrm->currentByte - 2] == '-') && (pByteStrm->buf[pByteStrm->currentByte - 1] == '-') && (pByteStrm->buf[pByteStrm->currentByte] == '>')))
-			pByteStrm->currentByte++;
-		pByteStrm->currentByte++;
-		while (pByteStrm->currentByte < pByteStrm->count && isspace(pByteStrm->buf[pByteStrm->currentByte]))
-			pByteStrm->currentByte++;
+		cur = &pByteStrm->buf[pByteStrm->currentByte];
+		left = pByteStrm->count - pByteStrm->currentByte;
+		if (left >= 2 && memcmp(cur, "<?", 2) == 0) {
+			for (i = 2; i + 1 < left && memcmp(&cur[i], "?>", 2) != 0; i++);
+			i += 2;
+		}
+		else if (left >= 4 && memcmp(cur, "<!--", 4) == 0) {
+			for (i = 4; i + 2 < left && memcmp(&cur[i], "-->", 3) != 0; i++);
+			i += 3;
+		}
+		else
+			break;
+		pByteStrm->currentByte += i < left ? i : left;
 	}
 
-	if (pByteStrm->currentByte >= pByteStrm->count)
-		return ret;
-
 	tmp = strchr(spChrs, pByteStrm->buf[pByteStrm->currentByte]);
 	if (tmp != NULL) {
 		ret.TokenID = pByteStrm->buf[pByteStrm->currentByte];
-- 
2.43.0


From 217e32ac048fdab4a3fda87af48759285024d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 38/59] fix: XER encoders refused values without setting an
 error code

---
 asn1crt/asn1crt_encoding_xer.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index d1516a4..008a179 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -500,11 +500,11 @@ flag Xer_EncodeComplexElementEnd(ByteStream* pByteStrm, const char* elementTag,
 		return FALSE;
 	if (!ByteStream_AppendString(pByteStrm, ">"))
 		return FALSE;
-	*pErrCode = 0;
 
 	if (level >= 0)
 		if (!ByteStream_PutNL(pByteStrm))
 			return FALSE;
+	*pErrCode = 0;
 	return TRUE;
 }
 
@@ -578,6 +578,7 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
+	*pErrCode = ERR_INVALID_XML_FILE;
 	if (!ByteStream_PutSpace(pByteStrm, level))
 		return FALSE;
 
@@ -590,8 +591,10 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 
-	if (!ByteStream_PutNL(pByteStrm))
+	if (!ByteStream_PutNL(pByteStrm)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 
 	return TRUE;
@@ -626,8 +629,10 @@ flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char*
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 	if (level >= 0)
-		if (!ByteStream_PutNL(pByteStrm))
+		if (!ByteStream_PutNL(pByteStrm)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
+		}
 	return TRUE;
 }
 
@@ -641,6 +646,7 @@ flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const
 
 	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
 		return FALSE;
+	*pErrCode = ERR_INVALID_XML_FILE;
 
 	for (i = 0; i<nCount; i++) {
 		char tmp[3];
@@ -652,8 +658,10 @@ flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 
-	if (!ByteStream_PutNL(pByteStrm))
+	if (!ByteStream_PutNL(pByteStrm)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	return TRUE;
 }
@@ -672,6 +680,7 @@ flag Xer_EncodeBitString(ByteStream* pByteStrm, const char* elementTag, const by
 
 	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
 		return FALSE;
+	*pErrCode = ERR_INVALID_XML_FILE;
 
 	for (i = 0; i<nCount; i++) {
 		curByte = i / 8;
@@ -689,8 +698,10 @@ flag Xer_EncodeBitString(ByteStream* pByteStrm, const char* elementTag, const by
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 
-	if (!ByteStream_PutNL(pByteStrm))
+	if (!ByteStream_PutNL(pByteStrm)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 	return TRUE;
 }
 
@@ -705,6 +716,7 @@ flag Xer_EncodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, c
 
 	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
 		return FALSE;
+	*pErrCode = ERR_INVALID_XML_FILE;
 	if (pVal->nCount > 0) {
 		char tmp[40];
 		snprintf(tmp, sizeof(tmp), "%" ASN1SCC_PRIu, pVal->values[0]);
@@ -722,8 +734,10 @@ flag Xer_EncodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, c
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 
-	if (!ByteStream_PutNL(pByteStrm))
+	if (!ByteStream_PutNL(pByteStrm)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	return TRUE;
 }
-- 
2.43.0


From a0e37c8da1d4570ae32b42b3fa6f4cb57b3abed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 39/59] fix: LoadXmlFile took the end of a comment for granted
 at '->'

---
 asn1crt/asn1crt_encoding_xer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 008a179..ece6b11 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -1248,6 +1248,8 @@ typedef enum {
 } XmlState;
 
 XmlState PreviousState = XmlStart;
+static int CommentLength = 0; /* the characters of the current comment after its '<' */
+static flag CommentDash = FALSE; /* is the last of them a '-'? */
 
 flag ByteStream_AppendChar(ByteStream* pStrm, const char v)
 {
@@ -1418,11 +1420,15 @@ flag OnXmlComment(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 	(void)pTmpStrm;
 	(void)pStrm;
 
-	if (c == '-' && l1 == '>') {
+	CommentLength++;
+	if (c == '-' && l1 == '>' && CommentDash && CommentLength >= 5) {
 		fgetc(xmlFile); //discard l1 i.e. '>';
 		*pNewState = PreviousState;
+		CommentLength = 0;
+		CommentDash = FALSE;
 	}
 	else {
+		CommentDash = c == '-';
 		*pNewState = XmlComment;
 	}
 
@@ -1447,6 +1453,8 @@ flag LoadXmlFile(const char* fileName, ByteStream* pStrm, int* nBytesLoaded)
 
 	if (fp == NULL)
 		return FALSE;
+	CommentLength = 0;
+	CommentDash = FALSE;
 	while ((c = fgetc(fp)) != EOF) {
 		l1 = fgetc(fp);
 		ungetc(l1, fp);
-- 
2.43.0


From 196e3df3a578968ac0e379d71f2534cf077b1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 40/59] fix: generated XER codecs: wrong limits and refusals
 reported as success

---
 BackendAst/DAstXer.fs         |  9 +++----
 CommonTypes/AbstractMacros.fs |  2 +-
 StgAda/xer_a.stg              |  4 ++--
 StgC/xer_c.stg                | 45 ++++++++++++++++++++++++++---------
 StgScala/xer_scala.stg        |  4 ++--
 5 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index ebfb317..f5797c5 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -46,13 +46,14 @@ let private aux (s:string) = 2 * (s.Length + 1) + 1 |> BigInteger
 let getMaxSizeInBytesForXER_boolean ()  =  BigInteger ("<false/>".Length)  //<>
 let getMaxSizeInBytesForXER_Integer ()  =  BigInteger (System.Int64.MinValue.ToString().Length)
 let getMaxSizeInBytesForXER_Enumerated (itemNames : string list) =
-    let maxName = itemNames |>  Seq.max
+    let maxName = itemNames |> Seq.maxBy(fun n -> n.Length)
     aux maxName
 let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
 let getMaxSizeInBytesForXER_NullType    = 0I
-let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize
+let getMaxSizeInBytesForXER_ObjectIdentifier = 20I * 21I  // 20 arcs, each with its separator
+let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize * 5I  // the longest entity: &amp;
 let getMaxSizeInBytesForXER_NumericString   maxSize = maxSize
 
 let getMaxSizeInBytesForXER  (xmlTag:XerTag) (contentSize:BigInteger) : BigInteger =
@@ -188,7 +189,7 @@ let createObjectIdentifierFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (c
         let xmlTag = xmlTag |> orElse (XerLiteralConstant "ObjectIdentifier")
         let pp = match codec with CommonTypes.Encode -> lm.lg.getPointer p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_Real
+        let contentSize = getMaxSizeInBytesForXER_ObjectIdentifier
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = ObjectIdentifier pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
@@ -244,7 +245,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
         let contentSize = getMaxSizeInBytesForXER_IA5String o.maxSize.uper
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
-        let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
+        let bodyStm = String pp xmlTag.p nLevel o.maxSize.uper (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
     let soSparkAnnotations = None
     createXerFunction_any r lm codec t typeDefinition  isValidFunc  funcBody  soSparkAnnotations us
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 6a9b91a..c83c485 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -538,7 +538,7 @@ Generated by the C stg macros with the following command
         abstract member ObjectIdentifier : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member TimeType : p:string -> sTimeSubType:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Null : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
-        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
+        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Enumerated_item : p:string -> sTag:string -> nLevel:BigInteger -> sItemID:string -> sXerValue:string -> sErrCode:string -> bFirst:bool -> codec:Codec -> string;
         abstract member Enumerated : p:string -> sTag:string -> nLevel:BigInteger -> arrsItems:seq<string> -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member OctetString : p:string -> sAcc:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> bIsFixedSize:bool -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
diff --git a/StgAda/xer_a.stg b/StgAda/xer_a.stg
index 2f63a3f..a19ac2d 100644
--- a/StgAda/xer_a.stg
+++ b/StgAda/xer_a.stg
@@ -150,12 +150,12 @@ ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_EncodeString(bs, <sTag>, <p>, ret, <nLevel>);
 ret.ErrorCode := <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_DecodeString(bs, <sTag>, <p>, ret);
 <if(soCheckExp)><soCheckExp><endif>
 ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index dc2ad4d..8aea91c 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -83,7 +83,9 @@ ret = Xer_EncodeInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 Integer_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -93,7 +95,9 @@ ret = Xer_EncodePosInteger(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 >>
 IntegerPos_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodePosInteger(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -117,7 +121,9 @@ ret = Xer_EncodeReal(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 
 Real_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeReal(pByteStrm, <sTag>, <p>, pErrCode);
-<if(soCheckExp)><soCheckExp><endif>
+<if(soCheckExp)>if (ret) {
+    <soCheckExp>
+}<endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
 
@@ -160,13 +166,13 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
-ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
+ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, <nSizeMax> + 1, pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
@@ -202,6 +208,7 @@ Enumerated_decode(p, sTag, nLevel, arrsItems, soCheckExp, sErrCode) ::= <<
     if (ret) {
         <arrsItems; separator="\n">
 	    else {
+		    ret = FALSE;
 		    *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
 	    }
     } else {
@@ -231,7 +238,16 @@ ret = Xer_EncodeBitString(pByteStrm, <sTag>, <p><sAcc>arr, <if(!bIsFixedSize)><p
 >>
 
 BitString_decode(p, sAcc, sTag, nLevel, nSizeMax, bIsFixedSize, soCheckExp, sErrCode) ::= <<
-ret = Xer_DecodeBitString(pByteStrm, <sTag>, <p><sAcc>arr, <nSizeMax>, <if(!bIsFixedSize)>&<p><sAcc>nCount<else>NULL<endif>, pErrCode);
+{
+    int nBits = 0;
+    ret = Xer_DecodeBitString(pByteStrm, <sTag>, <p><sAcc>arr, sizeof(<p><sAcc>arr), &nBits, pErrCode);
+    <if(bIsFixedSize)>
+    ret = ret && nBits == <nSizeMax>;
+    <else>
+    ret = ret && nBits \<= <nSizeMax>;
+    <p><sAcc>nCount = nBits;
+    <endif>
+}
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
@@ -277,7 +293,8 @@ if (ret) {
     }
 }
 <if(bFixedSize)>
-*pErrCode = (ret && <sI> == <nSizeMax>) ? 0 : <sErrCode>;
+ret = ret && <sI> == <nSizeMax>;
+*pErrCode = ret ? 0 : <sErrCode>;
 
 <else>
 <if(soCheckExp)><soCheckExp><endif>
@@ -299,6 +316,8 @@ Sequence_mandatory_child_decode(sChName, sChildContent, sChildTag) ::= <<
 ret = Xer_NextStartElementIs(pByteStrm, "<sChildTag>");
 if (ret) {
 	<sChildContent>
+} else {
+	*pErrCode = ERR_INVALID_XML_FILE;
 }
 >>
 
@@ -409,7 +428,9 @@ CHOICE_no_tag_decode(p, sAcc, arrsChildren, sErrCode) ::=<<
             ret = FALSE;
             *pErrCode = <sErrCode>;
         }
-	}
+	} else {
+        *pErrCode = <sErrCode>;
+    }
 }
 >>
 
@@ -433,8 +454,10 @@ ret = Xer_DecodeComplexElementStart(pByteStrm, <sTag>, NULL, pErrCode);
 *pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <sMainBody>
-    ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
-	*pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
+        *pErrCode = ret ? 0 : <sErrCode>;
+    }
 }
 >>
 
diff --git a/StgScala/xer_scala.stg b/StgScala/xer_scala.stg
index 0703302..51480c3 100644
--- a/StgScala/xer_scala.stg
+++ b/StgScala/xer_scala.stg
@@ -160,12 +160,12 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
-- 
2.43.0


From 78447e05d108abb995354f552e6eec2d4e68ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 41/59] fix: Ada inequality operator is /=

---
 StgAda/LangGeneric_a.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index c2ef6dd..d672d78 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -110,7 +110,7 @@ type LangGeneric_a() =
         override this.unaryNotOperator    = "not"
         override this.modOp               = "mod"
         override this.eqOp                = "="
-        override this.neqOp               = "<>"
+        override this.neqOp               = "/="
         override this.andOp               = "and"
         override this.orOp                = "or"
         override this.initMethod           = InitMethod.Function
-- 
2.43.0


From 869a22b8188bd16ee7bfa243d34736600f94ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 42/59] fix: Ada initial value of IA5String with an initial
 character

---
 StgAda/LangGeneric_a.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index d672d78..2b2c9ce 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -132,8 +132,8 @@ type LangGeneric_a() =
         override _.asn1SccIntValueToString (i: BigInteger) _ = i.ToString()
         override _.initializeString (asciiCode:BigInteger option) stringSize = 
             match asciiCode with
-            | Some ac -> sprintf "(1 .. %d => '%c', %d => adaasn1rtl.NUL)" (stringSize) (char (int ac)) (stringSize+1)
-            | None ->   sprintf "(others => adaasn1rtl.NUL)"
+            | Some ac when stringSize > 0 -> sprintf "(1 .. %d => '%c', others => adaasn1rtl.NUL)" (stringSize) (char (int ac))
+            | _    ->   sprintf "(others => adaasn1rtl.NUL)"
 
         override _.supportsInitExpressions = true
 
-- 
2.43.0


From 8916960a527f96c074daba681ebe460ca71ec600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 43/59] fix: Ada uPER octet strings may be empty

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.ads | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
index b1c3dfe..e83adab 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
@@ -337,7 +337,7 @@ is
 
    procedure BitStream_EncodeOctetString_no_length
      (bs : in out Bitstream; data : OctetBuffer; data_length : Integer) with
-      Pre => data_length >= 0 and then data'Last >= data'First
+      Pre => data_length >= 0
       and then data'Last < Positive'Last / 8
       and then data'Last - data'First < Positive'Last / 8
       and then data_length <= data'Last - data'First + 1
@@ -350,7 +350,7 @@ is
    procedure BitStream_DecodeOctetString_no_length
      (bs : in out Bitstream; data : in out OctetBuffer; data_length : Integer;
       success :    out Boolean) with
-      Pre => data_length >= 0 and then data'Last >= data'First
+      Pre => data_length >= 0
       and then data'Last < Positive'Last / 8
       and then data'Last - data'First < Positive'Last / 8
       and then data_length <= data'Last - data'First + 1
-- 
2.43.0


From 3f9e7087a02bdc58ca02b4fc2423dd556ed35631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 44/59] fix: Ada alphabet of a string type that narrows another

---
 FrontEndAst/DAstTypeDefinition.fs | 2 +-
 StgAda/spec_a.stg                 | 8 ++++----
 StgC/header_c.stg                 | 2 +-
 StgScala/header_scala.stg         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/FrontEndAst/DAstTypeDefinition.fs b/FrontEndAst/DAstTypeDefinition.fs
index 6f8da17..2f332c7 100644
--- a/FrontEndAst/DAstTypeDefinition.fs
+++ b/FrontEndAst/DAstTypeDefinition.fs
@@ -360,7 +360,7 @@ let createString_u (lm:LanguageMacros)  (id:ReferenceToType) (typeDef: Map<Progr
             Some completeDefinition
         | NonPrimitiveNewSubTypeDefinition subDef     ->
             let otherProgramUnit = if td.programUnit = subDef.programUnit then None else (Some subDef.programUnit)
-            let completeDefinition = define_subType_ia5string td subDef otherProgramUnit
+            let completeDefinition = define_subType_ia5string td subDef otherProgramUnit arrnAlphaChars
             Some completeDefinition
         | NonPrimitiveReference2OtherType            -> None
     let aaa = createString ()
diff --git a/StgAda/spec_a.stg b/StgAda/spec_a.stg
index 76c6070..6db8ef5 100644
--- a/StgAda/spec_a.stg
+++ b/StgAda/spec_a.stg
@@ -209,14 +209,14 @@ subtype <td.alpha> is String(<td.alpha_index>);
 >>
 
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 subtype <td.typeName> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.typeName>;
 subtype <td.encoding_range> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.encoding_range>;
 subtype <td.index> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.index>;
 <if(arrnAlphaChars)>
-subtype <td.alpha_index> is <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha_index>;
-subtype <td.alpha> <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha>;
-<td.alpha_set> : constant := <if(soParentTypePackage)><soParentTypePackage>.<endif><prTd.alpha_set>;
+subtype <td.alpha_index> is Integer range 1..<arrnAlphaChars.Length>;
+subtype <td.alpha> is String(<td.alpha_index>);
+<td.alpha_set> : constant <td.alpha> := <td.alpha>'(<arrnAlphaChars:{c|<i>=>Character'Val(<c>)}; wrap, anchor,  separator=", ">);
 
 <endif>
 >>
diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index f47abff..808884b 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -170,7 +170,7 @@ Define_new_ia5string(td/*:FE_StringTypeDefinition*/, nMin, nMax, nCMax, arrnAlph
 typedef char <td.typeName>[<nCMax>];
 >>
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 typedef <prTd.typeName> <td.typeName>;
 >>
 
diff --git a/StgScala/header_scala.stg b/StgScala/header_scala.stg
index 5eb00b2..8ba9628 100644
--- a/StgScala/header_scala.stg
+++ b/StgScala/header_scala.stg
@@ -139,7 +139,7 @@ Define_new_ia5string(td/*:FE_StringTypeDefinition*/, nMin, nMax, nCMax, arrnAlph
 type <td.typeName> = Vector[UByte]
 >>
 
-Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage) ::= <<
+Define_subType_ia5string(td/*:FE_StringTypeDefinition*/, prTd/*:FE_StringTypeDefinition*/, soParentTypePackage, arrnAlphaChars) ::= <<
 typedef <prTd.typeName> <td.typeName>
 >>
 
-- 
2.43.0


From b0c919b634eab9d40236e2d7a30366788b01239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 45/59] fix: Ada default value of BIT STRING, bit by bit

---
 BackendAst/DAstInitialize.fs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 73e1a87..cdf8d5d 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -488,7 +488,13 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
             | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, BigInteger iv.Length
             | OctetStringValue iv   -> iv, min (8I * BigInteger iv.Length) o.maxSize.uper
             | _                     -> raise(BugErrorException "UnexpectedValue")
-        let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
+        let items =
+            match ProgrammingLanguage.ActiveLanguages.Head with
+            | ProgrammingLanguage.Ada ->    // one array element per bit
+                let bits = bytes |> List.collect(fun b -> [7 .. -1 .. 0] |> List.map(fun s -> (b >>> s) &&& 1uy))
+                bits |> List.truncate (int nBits)
+            | _                       -> bytes
+        let arrsBytes = items |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
         | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) nBits arrsBytes
-- 
2.43.0


From dd664db965c60981134be69df9f32a223a875fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 46/59] fix: Ada IsConstraintValid checks WITH COMPONENT

---
 StgAda/isvalid_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index 4354a4e..551a02f 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -145,7 +145,7 @@ StatementForLoop(p, sAcc, i, bIsFixedSize, nFixedSize, sInnerStatement) ::= <<
 <i> := <p>.Data'First;
 while ret.Success and <i> \<= <if(bIsFixedSize)><nFixedSize><else><p>.Length<endif> loop
     pragma Loop_Invariant (<i> \>= <p>.Data'First and <i> \<= <if(bIsFixedSize)><nFixedSize><else><p>.Length<endif>);
-    <soInnerStatement>
+    <sInnerStatement>
     <i> := <i>+1;
 end loop;
 >>
-- 
2.43.0


From ae882837572623aa59b2a59eb6e44899ba56918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 47/59] fix: Ada equality of strings stops at the terminator

---
 StgAda/equal_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/equal_a.stg b/StgAda/equal_a.stg
index edfc8b5..6cf4313 100644
--- a/StgAda/equal_a.stg
+++ b/StgAda/equal_a.stg
@@ -100,7 +100,7 @@ end <sFuncName>;
 
  isEqual_Primitive(p1, p2) ::= "<p1> = <p2>"
 
- isEqual_String(p1, p2) ::= "<p1> = <p2>"
+ isEqual_String(p1, p2) ::= "adaasn1rtl.String_Equal(<p1>, <p2>)"
 
 isEqual_Real(p1, p2) ::= "adaasn1rtl.Asn1Real_Equal(<p1>, <p2>)"
 
-- 
2.43.0


From 158ba4e8f52a87f83a92b2b0e58b3dea3505a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 48/59] fix: Ada range check of null-terminated ASCII integers
 without an exception

---
 StgAda/acn_a.stg | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 16e9c82..0756a83 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -547,8 +547,14 @@ result.ErrorCode := <sErrCode>;
 <MF(p=p, soMF=soMF, soMFM=soMFM, nUperMin=nUperMin, nUperMax=nUperMax)>
 
 <else>
-adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
-result.ErrorCode := <sErrCode>;
+declare
+    asciiVal : adaasn1rtl.Asn1Int;
+begin
+    adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, asciiVal, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+    result.ErrorCode := <sErrCode>;
+    result.Success := result.Success and then asciiVal >= <nUperMin> and then asciiVal \<= <nUperMax>;
+    <p> := (if result.Success then asciiVal else <nUperMin>);
+end;
 
 <endif>
 >>
@@ -562,8 +568,16 @@ result.ErrorCode := <sErrCode>;
 <MF(p=p, soMF=soMF, soMFM=soMFM, nUperMin=nUperMin, nUperMax=nUperMax)>
 
 <else>
-adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, <p>, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
-result.ErrorCode := <sErrCode>;
+declare
+    asciiVal : adaasn1rtl.Asn1UInt;
+begin
+    adaasn1rtl.encoding.acn.Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(bs, asciiVal, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
+    result.ErrorCode := <sErrCode>;
+    pragma Warnings (Off, "condition *");
+    result.Success := result.Success and then asciiVal >= <nUperMin> and then asciiVal \<= <nUperMax>;
+    pragma Warnings (On, "condition *");
+    <p> := (if result.Success then asciiVal else <nUperMin>);
+end;
 
 <endif>
 >>
-- 
2.43.0


From cc6d2fb2836256768a3c9161761b178cd5fe8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 49/59] fix: Ada decoders refuse string sizes above the maximum

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 12 ++++++++++--
 StgAda/acn_a.stg                         | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 9df3f7e..601cd67 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2271,7 +2271,11 @@ is
       charIndex : Asn1Byte;
    begin
       Result :=
-        ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
+        ASN1_RESULT'
+          (Success      =>
+             extSizeDeterminantFld >= 0 and
+             extSizeDeterminantFld <= Asn1Int (strVal'Length) - 1,
+           ErrorCode => ERR_INCORRECT_STREAM);
 
       while Result.Success and then I <= strVal'Last - 1
         and then I <= Integer (extSizeDeterminantFld)
@@ -2324,7 +2328,11 @@ is
       asn1Max   : constant Integer := charSet'Last - charSet'First;
    begin
       Result :=
-        ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
+        ASN1_RESULT'
+          (Success      =>
+             extSizeDeterminantFld >= 0 and
+             extSizeDeterminantFld <= Asn1Int (strVal'Length) - 1,
+           ErrorCode => ERR_INCORRECT_STREAM);
       strVal := (others => Standard.Ascii.NUL);
       while Result.Success and then I <= strVal'Last - 1
         and then I <= Integer (extSizeDeterminantFld)
diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 0756a83..43e8219 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -757,7 +757,11 @@ result.ErrorCode := <sErrCode>;
 
 Acn_String_Ascii_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, sExtFld) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_External_Field_Determinant(bs, <p>);"
 Acn_String_Ascii_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, sExtFld) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_External_Field_Determinant(bs, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+if <sExtFld> \<= <nAsn1Max> then
+   adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_External_Field_Determinant(bs, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+else
+   result.Success := False;
+end if;
 result.ErrorCode := <sErrCode>;
 >>
 
@@ -785,14 +789,22 @@ result.ErrorCode := <sErrCode>;
 
 Acn_String_CharIndex_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, arrnAlphabetAsciiCodes, nCharSetSize, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <p>);"
 Acn_String_CharIndex_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, arrnAlphabetAsciiCodes, nCharSetSize, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+if <sExtFld> \<= <nAsn1Max> then
+   adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+else
+   result.Success := False;
+end if;
 result.ErrorCode := <sErrCode>;
 >>
 
 
 Acn_IA5String_CharIndex_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize, nRemainingBits) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <p>);"
 Acn_IA5String_CharIndex_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize, nRemainingBits) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+if <sExtFld> \<= <nAsn1Max> then
+   adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+else
+   result.Success := False;
+end if;
 result.ErrorCode := <sErrCode>;
 >>
 
-- 
2.43.0


From c8c3da0045f6de5f229ce6967f374a4eca015fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 50/59] fix: Ada decoders with nothing to decode report success

---
 BackendAst/Acn/AcnFunctionWrapper.fs | 2 +-
 BackendAst/DAstUPer.fs               | 2 +-
 FrontEndAst/Language.fs              | 2 ++
 StgAda/LangGeneric_a.fs              | 2 ++
 StgC/LangGeneric_c.fs                | 1 +
 StgScala/LangGeneric_scala.fs        | 1 +
 6 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnFunctionWrapper.fs b/BackendAst/Acn/AcnFunctionWrapper.fs
index 3889d91..8b31185 100644
--- a/BackendAst/Acn/AcnFunctionWrapper.fs
+++ b/BackendAst/Acn/AcnFunctionWrapper.fs
@@ -105,7 +105,7 @@ let createAcnFunction (r: Asn1AcnAst.AstRoot)
                 let bodyResult_funcBody, errCodes,  bodyResult_localVariables, bBsIsUnreferenced, bVarNameIsUnreferenced, udfcs, auxiliaries, icdResult =
                     match content with
                     | None ->
-                        let emptyStatement = lm.lg.emptyStatement
+                        let emptyStatement = match codec with Encode -> lm.lg.emptyStatement | Decode -> lm.lg.emptyDecodeStatement
                         emptyStatement, [], [], true, isValidFuncName.IsNone, [], [], None
                     | Some bodyResult ->
                         bodyResult.funcBody, bodyResult.errCodes, bodyResult.localVariables, bodyResult.bBsIsUnReferenced, bodyResult.bValIsUnReferenced, bodyResult.userDefinedFunctions, bodyResult.auxiliaries, bodyResult.icdResult
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index ef32675..6ac4c78 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -96,7 +96,7 @@ let internal createUperFunction (r:Asn1AcnAst.AstRoot)
                 let bodyResult_funcBody, errCodes,  bodyResult_localVariables, bBsIsUnreferenced, bVarNameIsUnreferenced, auxiliaries =
                     match content with
                     | None              ->
-                        let emptyStatement = lm.lg.emptyStatement
+                        let emptyStatement = match codec with Encode -> lm.lg.emptyStatement | Decode -> lm.lg.emptyDecodeStatement
                         emptyStatement, [], [], true, isValidFuncName.IsNone, []
                     | Some bodyResult   -> bodyResult.funcBody, bodyResult.errCodes, bodyResult.localVariables, bodyResult.bBsIsUnReferenced, bodyResult.bValIsUnReferenced, bodyResult.auxiliaries
                 let lvars = bodyResult_localVariables |> List.map(fun (lv:LocalVariable) -> lm.lg.getLocalVariableDeclaration lv) |> Seq.distinct
diff --git a/FrontEndAst/Language.fs b/FrontEndAst/Language.fs
index 151477e..d64224d 100644
--- a/FrontEndAst/Language.fs
+++ b/FrontEndAst/Language.fs
@@ -334,6 +334,8 @@ type ILangGeneric () =
     abstract member TrueLiteral      :string
     abstract member FalseLiteral     :string
     abstract member emptyStatement   :string
+    /// the body of a decoding function that has nothing to decode
+    abstract member emptyDecodeStatement   :string
     abstract member bitStreamName    :string
     abstract member unaryNotOperator :string
     abstract member modOp            :string
diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index 2b2c9ce..e64e757 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -106,6 +106,8 @@ type LangGeneric_a() =
         override this.requiresValueAssignmentsInSrcFile = false
         override this.supportsStaticVerification = true
         override this.emptyStatement = "null;"
+        override this.emptyDecodeStatement =
+            sprintf "result := %sASN1_RESULT'(Success => True, ErrorCode => 0);" this.rtlModuleName
         override this.bitStreamName = "adaasn1rtl.encoding.BitStreamPtr"
         override this.unaryNotOperator    = "not"
         override this.modOp               = "mod"
diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 7f06813..dd6f74c 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -184,6 +184,7 @@ type LangGeneric_c() =
         override this.TrueLiteral = "TRUE"
         override this.FalseLiteral = "FALSE"
         override this.emptyStatement = ""
+        override this.emptyDecodeStatement = ""
         override this.bitStreamName = "BitStream"
         override this.unaryNotOperator    = "!"
         override this.modOp               = "%"
diff --git a/StgScala/LangGeneric_scala.fs b/StgScala/LangGeneric_scala.fs
index f64129b..7e6f39e 100644
--- a/StgScala/LangGeneric_scala.fs
+++ b/StgScala/LangGeneric_scala.fs
@@ -234,6 +234,7 @@ type LangGeneric_scala() =
         override this.TrueLiteral = "true"
         override this.FalseLiteral = "false"
         override this.emptyStatement = ""
+        override this.emptyDecodeStatement = ""
         override this.bitStreamName = "BitStream"
         override this.unaryNotOperator    = "!"
         override this.modOp               = "%"
-- 
2.43.0


From 7a39d9a8dce8c5c72de92ed7e8f9d31f5f8609af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 51/59] fix: Ada alphabet of a string type that narrows another
 (macros regenerated)

---
 CommonTypes/AbstractMacros.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index c83c485..978f67c 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -63,7 +63,7 @@ Generated by the C stg macros with the following command
         abstract member Define_new_enumerated_private : td:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
         abstract member Define_subType_enumerated_private : td:FE_EnumeratedTypeDefinition -> prTd:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
         abstract member Define_new_ia5string : td:FE_StringTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> nCMax:BigInteger -> arrnAlphaChars:seq<BigInteger> -> string;
-        abstract member Define_subType_ia5string : td:FE_StringTypeDefinition -> prTd:FE_StringTypeDefinition -> soParentTypePackage:string option -> string;
+        abstract member Define_subType_ia5string : td:FE_StringTypeDefinition -> prTd:FE_StringTypeDefinition -> soParentTypePackage:string option -> arrnAlphaChars:seq<BigInteger> -> string;
         abstract member Define_new_octet_string : td:FE_SizeableTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> bFixedSize:bool -> arrsInvariants:seq<string> -> string;
         abstract member Define_subType_octet_string : td:FE_SizeableTypeDefinition -> prTd:FE_SizeableTypeDefinition -> soParentTypePackage:string option -> bFixedSize:bool -> string;
         abstract member Define_new_bit_string_named_bit : td:FE_SizeableTypeDefinition -> sTargetLangBitName:string -> sHexValue:string -> sComment:string -> string;
-- 
2.43.0


From d287180dce19ddf816c31489f1e4c6cdb7167d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:56 +0000
Subject: [PATCH 52/59] fix: Ada encoders stop at the first element that cannot
 be encoded

---
 StgAda/acn_a.stg  | 2 +-
 StgAda/uper_a.stg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 43e8219..5a24839 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -818,7 +818,7 @@ result.ErrorCode := <sErrCode>;
 
 loopFixedItem_enc (i, fixedSize, nfixedSizeUperLimit, sInternalItem, nCurOffset, nAlignSize, nIntItemMinSize, nIntItemMaxSize)::= /*nogen*/<<
 <i> := 1;
-while <i>\<= <fixedSize> loop
+while <i>\<= <fixedSize> AND result.Success loop
     pragma Loop_Invariant (<i> >=1 and <i>\<=<fixedSize>);
     pragma Loop_Invariant (bs.Current_Bit_Pos \>= bs.Current_Bit_Pos'Loop_Entry);
     pragma Loop_Invariant (bs.Current_Bit_Pos\<=bs.Current_Bit_Pos'Loop_Entry + <nIntItemMaxSize>*(<i>-1));
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 1f79326..98a33a2 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -438,7 +438,7 @@ end if;
 
 
 loopFixedItem_enc (i, fixedSize, nfixedSizeUperLimit, sInternalItem, nCurOffset, nAlignSize, nIntItemMinSize, nIntItemMaxSize)::= /*nogen*/<<
-while <i>\<= <fixedSize> loop
+while <i>\<= <fixedSize> AND result.Success loop
     pragma Loop_Invariant (<i> >=1 and <i>\<=<fixedSize>);
     pragma Loop_Invariant (bs.Current_Bit_Pos \>= bs.Current_Bit_Pos'Loop_Entry);
     pragma Loop_Invariant (bs.Current_Bit_Pos\<=bs.Current_Bit_Pos'Loop_Entry + <nIntItemMaxSize>*(<i>-1));
-- 
2.43.0


From b5dae80844fc5fd658f3612a589fab822d424a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 53/59] fix: Ada decoders of terminated strings check the
 minimum size before they store it

---
 StgAda/acn_a.stg | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 5a24839..ccedc31 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -914,7 +914,7 @@ if result.Success and <i> = <nSizeMax>+1  then
 		<p>.Length := <i>-1;
 	end if;
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => result.Success, ErrorCode => <sErrCode>);
-elsif result.Success and <i> \< <nSizeMax>+1 then
+elsif result.Success and <i> \< <nSizeMax>+1<if(noSizeMin)> and <i> \> <noSizeMin><endif> then
 	<p>.Length := <i>-1;
 	<rtlModuleName()>.encoding.BitStream_SkipBits(bs, <nBitPatternLength>);
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
@@ -1681,10 +1681,19 @@ adaasn1rtl.encoding.BitStream_AppendBitArray(bs, <p><sAcc>Data, <p><sAcc>Length)
 >>
 
 bit_string_null_terminated_decode(sTypeDefName, p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength)  ::= <<
-<rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, <p><sAcc>Length, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
-if not result.Success then
-    result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
-end if;
+declare
+    bitsRead : Natural;
+begin
+    <rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, bitsRead, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
+    <if(noSizeMin)>
+    result.Success := result.Success and bitsRead \>= <noSizeMin>;
+    <endif>
+    if result.Success then
+        <p><sAcc>Length := bitsRead;
+    else
+        result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
+    end if;
+end;
 >>
 
 bit_string_null_terminated_decode0(p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength) /*nogen*/ ::= <<
-- 
2.43.0


From 37edbcaa3d790c897791588c5af546c5130d6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 54/59] fix: Ada range check of null-terminated ASCII integers
 without a warning

---
 StgAda/acn_a.stg | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index ccedc31..45bd498 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -552,7 +552,9 @@ declare
 begin
     adaasn1rtl.encoding.acn.Acn_Dec_Int_ASCII_VarSize_NullTerminated<sSsuffix>(bs, asciiVal, adaasn1rtl.OctetBuffer'(<arruNullBytes : {b|<i>=><b>}; separator=", ">), result);
     result.ErrorCode := <sErrCode>;
+    pragma Warnings (Off, "condition *");
     result.Success := result.Success and then asciiVal >= <nUperMin> and then asciiVal \<= <nUperMax>;
+    pragma Warnings (On, "condition *");
     <p> := (if result.Success then asciiVal else <nUperMin>);
 end;
 
-- 
2.43.0


From 2db39254f55eaaa0f86eb74895e00524a8776cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 55/59] fix: REAL mantissas of 53 bits in the library built
 with WORD_SIZE=4

---
 asn1crt/asn1crt_encoding.c | 16 ++++++++--------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index eaf49fe..f903322 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -717,12 +717,10 @@ int GetLengthInBytesOfUInt(asn1SccUint64 v)
 {
 	int ret = 0;
 	asn1SccUint32 v32 = (asn1SccUint32)v;
-#if WORD_SIZE==8
 	if (v>0xFFFFFFFF) {
 		ret = 4;
 		v32 = (asn1SccUint32)(v >> 32);
 	}
-#endif
 
 	if (v32<0x100)
 		return ret + 1;
@@ -1112,7 +1110,7 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #endif
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
@@ -1208,9 +1206,11 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 	}
 
 
-	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	/* encode mantissa, which may not fit asn1SccUint */
+	while (nManLen > 0) {
+		nManLen--;
+		BitStream_AppendByte0(pBitStrm, (byte)(mantissa >> (nManLen * 8)));
+	}
 
 }
 
@@ -1274,7 +1274,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int exponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
 
 	if (header & 0x40)
@@ -1310,7 +1310,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		if ((N >> (WORD_SIZE * 8 - 8)) != 0)	/* mantissa larger than asn1SccUint */
+		if ((N >> 56) != 0)	/* mantissa larger than asn1SccUint64 */
 			return FALSE;
 		N = N << 8 | b;
 	}
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From 0157f1d113c341f43ca3dfb51dc238ac1f7ed433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 56/59] fix: 64-bit ACN integers in the library built with
 WORD_SIZE=4

---
 asn1crt/asn1crt_encoding_acn.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index ee89241..c4841b8 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -225,7 +225,14 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    int i;
+    byte b = 0;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        if (!BitStream_ReadByte(pBitStrm, &b))
+            return FALSE;
+    }
+#endif
 
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
@@ -267,7 +274,13 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
     flag ret;
 	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    int i;
+    byte b = 0;
+    for (i = 0; i < 8 - WORD_SIZE && ret; i++) {
+        ret = BitStream_ReadByte(pBitStrm, &b);
+    }
+#endif
     return ret;
 }
 
@@ -361,7 +374,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    }
+#endif
+    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, int2uint(intVal), WORD_SIZE);
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -376,7 +395,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, int2uint(intVal), WORD_SIZE);
+#if WORD_SIZE!=8
+	int i;
+	for (i = 0; i < 8 - WORD_SIZE; i++) {
+		BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	}
+#endif
 }
 
 
-- 
2.43.0


From 15f888e283b494714d74bb7c01aa6fa6e95ce9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 57/59] fix: size of a REAL with -wordSize 4 and 64-bit
 floating point

---
 FrontEndAst/AcnCreateFromAntlr.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 74a09ff..91108f9 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -329,7 +329,7 @@ let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Language
             }
         | None  -> {RealAcnProperties.encodingProp = None; endiannessProp = None }
     let uperRange    = uPER.getRealTypeConstraintUperRange cons loc
-    let uperMaxSizeInBits=(5I+asn1.args.integerSizeInBytes)*8I
+    let uperMaxSizeInBits=(5I+(max asn1.args.integerSizeInBytes asn1.args.floatingPointSizeInBytes))*8I
     let uperMinSizeInBits=8I
     let alignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
     let acnEncodingClass,  acnMinSizeInBits, acnMaxSizeInBits= AcnEncodingClasses.GetRealEncodingClass alignment loc acnProperties uperMinSizeInBits uperMaxSizeInBits
-- 
2.43.0


From 1304cdb0c28183dfe31d35982c8642c97a1f12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:40 +0000
Subject: [PATCH 58/59] fix: encodings of constrained and of ACN enumerations
 with -eee

---
 BackendAst/Acn/AcnEnum.fs | 8 +++++++-
 StgC/header_c.stg         | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 64d6d03..fd98d90 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -77,8 +77,14 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
             | Some intAcnFuncBdResult ->
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
+                // the look-up table holds the definition values, so it serves only when these (or their indexes) are what is encoded
+                let encodedAsDefined =
+                    o.items |>
+                    List.sortBy(fun it -> it.definitionValue) |>
+                    List.mapi(fun i it -> it.acnEncodeValue = (if o.encodeValues then it.definitionValue else BigInteger i)) |>
+                    List.forall id
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length  with
+                    match r.args.isEnumEfficientEnabled o.items.Length && encodedAsDefined with
                     | false ->
                         let arrItems =
                             o.items |>
diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index 808884b..a4894c4 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -147,7 +147,9 @@ static const asn1SccSint <td.values_array>[] = {
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
-#define <td.encoded_values_array> <td.values_array>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
 
 #define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
-- 
2.43.0


From eb001c5be51486f1743b2d6a4f06a2ead88bc5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:08 +0000
Subject: [PATCH 59/59] fix: values that do not fit the narrow integers of
 -slim were cut short instead of refused

---
 asn1crt/asn1crt_encoding_acn.c | 146 ++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 73 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index c4841b8..06672e4 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1528,7 +1528,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pI
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1536,7 +1536,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1544,7 +1544,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1552,7 +1552,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1560,7 +1560,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1568,7 +1568,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1576,7 +1576,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1584,7 +1584,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1592,7 +1592,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1600,7 +1600,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1608,7 +1608,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1616,7 +1616,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1624,7 +1624,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1632,7 +1632,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1640,7 +1640,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1648,7 +1648,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1656,7 +1656,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1664,7 +1664,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1672,7 +1672,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1680,7 +1680,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1688,7 +1688,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1696,7 +1696,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1704,7 +1704,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1712,7 +1712,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntV
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1720,7 +1720,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1728,7 +1728,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1736,7 +1736,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1744,7 +1744,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1752,7 +1752,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1760,7 +1760,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1768,7 +1768,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1776,7 +1776,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1784,7 +1784,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1792,7 +1792,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1800,7 +1800,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1808,7 +1808,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1816,7 +1816,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1824,7 +1824,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1832,7 +1832,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1840,7 +1840,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1848,7 +1848,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1856,7 +1856,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1864,7 +1864,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1872,7 +1872,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1880,7 +1880,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1888,7 +1888,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1896,7 +1896,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int e
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1904,7 +1904,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1912,7 +1912,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1920,7 +1920,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* p
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1928,7 +1928,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1936,7 +1936,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1944,7 +1944,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* p
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1952,7 +1952,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1960,7 +1960,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1968,7 +1968,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1976,7 +1976,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, in
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1984,7 +1984,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, in
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1992,7 +1992,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t*
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2000,7 +2000,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2008,7 +2008,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2016,7 +2016,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t*
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2024,7 +2024,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2032,7 +2032,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2040,7 +2040,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, in
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2048,7 +2048,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal,
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2056,7 +2056,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal,
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2064,7 +2064,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2072,7 +2072,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2080,7 +2080,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2088,7 +2088,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2096,7 +2096,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2104,7 +2104,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
-- 
2.43.0

