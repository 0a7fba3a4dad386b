-------------------------------- MODULE Bits --------------------------------
(* Bit strings, octet strings and 64-bit machine words.
   TLC's integers are 32 bits wide, so a machine word is a sequence of eight
   octets, most significant first (two's complement when signed).            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pow2(n) == 2^n
Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 1]
Rep(x, n) == [i \in 1..n |-> x]

ByteBits == TLCEval([b \in 0..255 |-> <<(b \div 128) % 2, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
                                (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2>>])
BytesToBits(s) == TLCEval([i \in 1..(8*Len(s)) |-> ByteBits[s[((i-1) \div 8) + 1]][((i-1) % 8) + 1]])
\* n bits of a small natural number
NatBits(v, n) == [i \in 1..n |-> IF n - i > 30 THEN 0 ELSE (v \div (2^(n-i))) % 2]
BitsNat(b) == FoldLeft(LAMBDA acc, x : 2*acc + x, 0, b)
\* number of significant bits of a small natural number
NatLen(v) == IF v = 0 THEN 0 ELSE CHOOSE k \in 1..31 : /\ v >= 2^(k-1) /\ (k = 31 \/ v < 2^k)
BitsToBytes(b) == [i \in 1..((Len(b)+7) \div 8) |->
                     BitsNat([j \in 1..8 |-> IF 8*(i-1)+j <= Len(b) THEN b[8*(i-1)+j] ELSE 0])]
Inv(b) == [i \in 1..Len(b) |-> 1 - b[i]]
\* last n elements
LastN(s, n) == SubSeq(s, Len(s)-n+1, Len(s))
FirstN(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n+1, Len(s))

------------------------------------------------------------------------------
(* words *)
W0 == <<0,0,0,0,0,0,0,0>>
WFF == <<255,255,255,255,255,255,255,255>>
WNat(n) == <<0,0,0,0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
WBits(w) == BytesToBits(w)
RECURSIVE AddC(_,_,_,_)
AddC(a, b, i, c) == IF i = 0 THEN <<>> ELSE
                      LET s == a[i] + b[i] + c IN Append(AddC(a, b, i-1, s \div 256), s % 256)
WAdd(a, b) == AddC(a, b, 8, 0)
WNot(a) == [i \in 1..8 |-> 255 - a[i]]
WSub(a, b) == AddC(a, WNot(b), 8, 1)
WNeg(a) == AddC(WNot(a), W0, 8, 1)
RECURSIVE LexLt(_,_,_)
LexLt(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLt(a, b, i+1)
WLtU(a, b) == LexLt(a, b, 1)
WLeU(a, b) == ~WLtU(b, a)
WSignFlip(a) == [a EXCEPT ![1] = (a[1] + 128) % 256]
WLtS(a, b) == WLtU(WSignFlip(a), WSignFlip(b))
WLeS(a, b) == ~WLtS(b, a)
WIsNeg(a) == a[1] >= 128
\* number of leading elements of b equal to x
RECURSIVE Lead(_,_,_)
Lead(b, x, i) == IF i > Len(b) THEN Len(b) ELSE IF b[i] # x THEN i-1 ELSE Lead(b, x, i+1)
\* significant bits (0 for zero) of an unsigned word
WLen(w) == LET b == WBits(w) IN 64 - Lead(b, 0, 1)
\* significant bits of a signed word, the sign bit included (>= 1)
WLenS(w) == LET b == WBits(w) IN LET k == Lead(b, b[1], 1) IN 65 - k
\* low n bits (n <= 64)
WLow(w, n) == LastN(WBits(w), n)
\* word from at most 64 bits: zero / sign extended
BitsW(b) == BitsToBytes(Zeros(64 - Len(b)) \o b)
BitsWS(b) == IF b = <<>> THEN W0 ELSE BitsToBytes(Rep(b[1], 64 - Len(b)) \o b)
WToNat(w) == w[5] * 16777216 + w[6] * 65536 + w[7] * 256 + w[8]      \* only when it fits
WFitsNat(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0 /\ w[5] < 64
\* division by ten: <<quotient, remainder>>
RECURSIVE Div10(_,_,_,_)
Div10(w, i, r, q) == IF i > Len(w) THEN <<q, r>> ELSE
                       LET t == r*256 + w[i] IN Div10(w, i+1, t % 10, Append(q, t \div 10))
WDiv10(w) == Div10(w, 1, 0, <<>>)
RECURSIVE DecDigits(_)
\* decimal digits, most significant first; <<>> for zero
DecDigits(w) == IF w = W0 THEN <<>> ELSE LET d == WDiv10(w) IN Append(DecDigits(d[1]), d[2])
\* w*10 + d as <<word, carry>>
RECURSIVE Mul10(_,_,_)
Mul10(w, i, c) == IF i = 0 THEN <<<<>>, c>> ELSE
                    LET t == w[i]*10 + c r == Mul10(w, i-1, t \div 256) IN <<Append(r[1], t % 256), r[2]>>
WMul10Add(w, d) == Mul10(w, 8, d)
\* <<word, overflow?>> of a sequence of decimal digits
DigitsW(ds) == FoldLeft(LAMBDA acc, d : LET m == WMul10Add(acc[1], d) IN <<m[1], acc[2] \/ m[2] # 0>>, <<W0, FALSE>>, ds)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
=============================================================================
