-------------------------------- MODULE Prim --------------------------------
(* The wire format of every primitive of the run-time library: what bits an
   encoding call appends (Enc), and what a decoding call must make of the bits
   at the cursor (Dec).  Sources: ITU-T X.691 (unaligned PER), X.690 8.5 (REAL)
   and 8.19 (OID), and the ACN manual.

   An operation is a record: op (its name) and its arguments
     v, lo, hi : 64-bit words (see Bits)     n, min, max : small integers
     d, d2     : octet strings               neg : BOOLEAN    arcs : seq of words
   Dec yields [st, v, n]: st = "ok"   must succeed with value v, consuming n bits
                               "fail" must report failure
                               "opt"  may refuse; if it accepts, then as "ok"
                               "any"  outside the format: only has to return     *)
EXTENDS Bits

Bits(in, pos, n) == SubSeq(in, pos+1, pos+n)
Ok(v, n)  == [st |-> "ok", v |-> v, n |-> n]
Opt(v, n) == [st |-> "opt", v |-> v, n |-> n]
Fail == [st |-> "fail", v |-> 0, n |-> 0]
AnyR == [st |-> "any", v |-> 0, n |-> 0]
Bytes(b) == BitsToBytes(b)
OctetsFor(bits) == IF bits = 0 THEN 1 ELSE (bits + 7) \div 8
Byte(b) == ByteBits[b]
W(n) == WNat(n)

------------------------------------------------------------------------------
(* X.691: whole numbers *)
RangeBits(lo, hi) == WLen(WSub(hi, lo))
EncCons(v, lo, hi) == WLow(WSub(v, lo), RangeBits(lo, hi))
EncSemi(v, lo) == LET u == WSub(v, lo) k == OctetsFor(WLen(u)) IN NatBits(k, 8) \o WLow(u, 8*k)
EncUncons(v) == LET k == OctetsFor(WLenS(v)) IN NatBits(k, 8) \o WLow(v, 8*k)
EncNat(x, lo, hi) == NatBits(x - lo, NatLen(hi - lo))

DecCons(in, pos, lo, hi) ==
  LET n == RangeBits(lo, hi) r == WSub(hi, lo) IN
  IF n = 0 THEN Ok(lo, 0) ELSE IF pos + n > Len(in) THEN Fail ELSE
  LET u == TLCEval(BitsW(Bits(in, pos, n))) IN IF WLtU(r, u) THEN Fail ELSE Ok(WAdd(u, lo), n)
\* small-number variant: value is an integer
DecNat(in, pos, lo, hi) ==
  LET n == NatLen(hi - lo) IN
  IF pos + n > Len(in) THEN Fail ELSE
  LET u == BitsNat(Bits(in, pos, n)) IN IF u > hi - lo THEN Fail ELSE Ok(u + lo, n)
DecLenWord(in, pos, signed) ==      \* length octet, then that many octets
  IF pos + 8 > Len(in) THEN Fail ELSE
  LET k == BitsNat(Bits(in, pos, 8)) IN
  IF k > 8 THEN Fail ELSE IF pos + 8 + 8*k > Len(in) THEN Fail ELSE
  IF k = 0 THEN AnyR ELSE
  LET b == TLCEval(Bits(in, pos+8, 8*k))
      w == TLCEval(IF signed THEN BitsWS(b) ELSE BitsW(b))
      need == OctetsFor(IF signed THEN WLenS(w) ELSE WLen(w))
  IN IF need = k THEN Ok(w, 8 + 8*k) ELSE Opt(w, 8 + 8*k)
DecSemi(in, pos, lo, signed) ==
  LET r == DecLenWord(in, pos, FALSE) IN
  IF r.st \in {"fail", "any"} THEN r ELSE
  LET s == TLCEval(WAdd(r.v, lo)) IN
  \* the sum has to be a word of the type
  IF (IF signed THEN WLtS(s, lo) ELSE WLtU(s, lo)) THEN AnyR ELSE [r EXCEPT !.v = s]

------------------------------------------------------------------------------
(* X.691: length determinants and fragmentation (16K items per fragment unit) *)
K16 == 16384
EncLen(n) == IF n <= 127 THEN NatBits(n, 8) ELSE <<1, 0>> \o NatBits(n, 14)
RECURSIVE EncFrag(_,_,_)
\* items: a bit string of n*w bits, w bits per item
EncFrag(b, n, w) ==
  IF n < K16 THEN EncLen(n) \o b
  ELSE LET f == IF n >= 4*K16 THEN 4 ELSE n \div K16 IN
       <<1,1>> \o NatBits(f, 6) \o FirstN(b, f*K16*w) \o EncFrag(Drop(b, f*K16*w), n - f*K16, w)
RECURSIVE DecFrag(_,_,_,_,_,_)
\* acc: bits so far, cnt: items so far, lax: a non-canonical determinant was seen
DecFrag(in, pos, w, max, acc, lax) ==
  IF pos + 8 > Len(in) THEN Fail ELSE
  LET o == BitsNat(Bits(in, pos, 8)) cnt == Len(acc) \div w IN
  IF o >= 192 THEN
     LET f == o - 192 IN
     IF f \notin 1..4 THEN Fail ELSE
     IF cnt + f*K16 > max THEN Fail ELSE
     IF pos + 8 + f*K16*w > Len(in) THEN Fail ELSE
     DecFrag(in, pos + 8 + f*K16*w, w, max, acc \o Bits(in, pos+8, f*K16*w), lax)
  ELSE IF o >= 128 /\ pos + 16 > Len(in) THEN Fail ELSE
  LET n == IF o >= 128 THEN BitsNat(Bits(in, pos+2, 14)) ELSE o
      h == IF o >= 128 THEN 16 ELSE 8 IN
  IF cnt + n > max THEN Fail ELSE
  IF pos + h + n*w > Len(in) THEN Fail ELSE
  LET all == acc \o Bits(in, pos+h, n*w) IN
  [st |-> IF lax \/ (o >= 128 /\ n < 128) THEN "opt" ELSE "ok", v |-> all, n |-> pos + h + n*w]

EncSized(b, n, w, min, max) ==
  IF max < 65536 THEN (IF min = max THEN <<>> ELSE EncNat(n, min, max)) \o b ELSE EncFrag(b, n, w)
\* value: <<count, bits>>
DecSized(in, pos, w, min, max) ==
  IF max < 65536 THEN
    LET c == IF min = max THEN Ok(min, 0) ELSE DecNat(in, pos, min, max) IN
    IF c.st # "ok" THEN c ELSE
    IF pos + c.n + c.v*w > Len(in) THEN Fail ELSE Ok(<<c.v, Bits(in, pos + c.n, c.v*w)>>, c.n + c.v*w)
  ELSE
    LET r == DecFrag(in, pos, w, max, <<>>, FALSE) IN
    IF r.st = "fail" THEN r ELSE
    LET c == Len(r.v) \div w IN
    [st |-> IF c < min THEN "opt" ELSE r.st, v |-> <<c, r.v>>, n |-> r.n - pos]

------------------------------------------------------------------------------
(* object identifiers: base-128 sub-identifiers behind a length determinant *)
RECURSIVE Groups(_)
Groups(b) == IF b = <<>> THEN <<>> ELSE IF Len(b) <= 7 THEN << Zeros(7 - Len(b)) \o b >>
             ELSE Append(Groups(FirstN(b, Len(b)-7)), LastN(b, 7))
SubId(w) == LET b == WLow(w, WLen(w)) g == IF b = <<>> THEN <<Zeros(7)>> ELSE Groups(b) IN
            FoldLeft(LAMBDA acc, i : acc \o <<IF i = Len(g) THEN 0 ELSE 1>> \o g[i], <<>>, [i \in 1..Len(g) |-> i])
WTimes40(w) == LET x == WMul10Add(w, 0)[1] IN WMul10Add(W0, 0)[1] \* (only used for 0..2)
FirstArc(a, b) == WAdd(IF WToNat(a) = 0 THEN W0 ELSE W(40 * WToNat(a)), b)
EncOid(arcs, rel) ==
  LET subs == IF rel THEN arcs ELSE <<FirstArc(arcs[1], arcs[2])>> \o SubSeq(arcs, 3, Len(arcs))
      body == TLCEval(FoldLeft(LAMBDA acc, s : acc \o SubId(s), <<>>, subs))
  IN EncLen(Len(body) \div 8) \o body
RECURSIVE SplitSub(_,_,_,_)
\* octets -> sequence of bit groups; st "any" when the last one is unfinished
SplitSub(o, i, cur, acc) ==
  IF i > Len(o) THEN [ok |-> cur = <<>>, v |-> acc] ELSE
  LET b == Byte(o[i]) g == cur \o Drop(b, 1) IN
  IF b[1] = 1 THEN SplitSub(o, i+1, g, acc) ELSE SplitSub(o, i+1, <<>>, Append(acc, g))
DecOid(in, pos, rel) ==
  IF pos + 8 > Len(in) THEN Fail ELSE
  LET o == BitsNat(Bits(in, pos, 8)) IN
  IF o >= 128 /\ pos + 16 > Len(in) THEN Fail ELSE
  IF o >= 192 THEN AnyR ELSE
  LET n == IF o >= 128 THEN BitsNat(Bits(in, pos+2, 14)) ELSE o
      h == IF o >= 128 THEN 16 ELSE 8 IN
  IF n = 0 /\ rel THEN Opt(<<>>, h) ELSE
  IF n = 0 THEN AnyR ELSE
  LET have == (Len(in) - pos - h) \div 8
      oct == TLCEval(Bytes(Bits(in, pos+h, 8*(IF have < n THEN have ELSE n))))
      s == SplitSub(oct, 1, <<>>, <<>>)
      sig(g) == Len(g) - Lead(g, 0, 1) IN
  IF have < n THEN Fail ELSE
  IF Len(s.v) + (IF rel THEN 0 ELSE 1) + (IF s.ok THEN 0 ELSE 1) > 20 THEN Fail ELSE
  IF ~s.ok \/ \E i \in 1..Len(s.v) : sig(s.v[i]) > 64 \/ (Len(s.v[i]) > 7 /\ BitsNat(FirstN(s.v[i], 7)) = 0) THEN AnyR ELSE
  LET ws == TLCEval([i \in 1..Len(s.v) |-> BitsW(LastN(s.v[i], IF Len(s.v[i]) > 64 THEN 64 ELSE Len(s.v[i])))]) IN
  IF rel THEN Ok(ws, h + 8*n) ELSE
  IF ~WFitsNat(ws[1]) \/ WToNat(ws[1]) > 119 THEN AnyR ELSE
  LET f == WToNat(ws[1]) IN Ok(<<W(f \div 40), W(f % 40)>> \o SubSeq(ws, 2, Len(ws)), h + 8*n)

------------------------------------------------------------------------------
(* ACN integers *)
RevOctets(b) == LET o == Bytes(b) IN BytesToBits(Rev(o))
PadDigits(ds, n) == Zeros(n - Len(ds)) \o ds
AsciiDigits(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
Digits1(w) == LET ds == DecDigits(w) IN IF ds = <<>> THEN <<0>> ELSE ds
WAbs(w) == IF WIsNeg(w) THEN WNeg(w) ELSE w
Sign(w) == IF WIsNeg(w) THEN 45 ELSE 43
Nibbles(ds) == FoldLeft(LAMBDA acc, x : acc \o NatBits(x, 4), <<>>, ds)
OctBits(o) == BytesToBits(o)

\* decimal digits (each 0..9) to a result consuming n bits
DigitsRes(ds, n) == LET r == TLCEval(DigitsW(ds)) IN IF r[2] THEN AnyR ELSE Ok(r[1], n)
\* ascii digit octets
AsciiRes(oct, n) == IF \E i \in 1..Len(oct) : oct[i] < 48 \/ oct[i] > 57 THEN Fail
                    ELSE DigitsRes([i \in 1..Len(oct) |-> oct[i] - 48], n)
SignedRes(sg, r) ==
  IF r.st \notin {"ok", "opt"} THEN r ELSE
  IF sg = 43 THEN (IF WIsNeg(r.v) THEN AnyR ELSE r)
  ELSE IF WIsNeg(r.v) /\ r.v # <<128,0,0,0,0,0,0,0>> THEN AnyR ELSE [r EXCEPT !.v = WNeg(r.v)]
DecBcd(in, pos, n, h) ==          \* n nibbles behind h bits
  IF pos + h + 4*n > Len(in) THEN Fail ELSE
  LET ds == TLCEval([i \in 1..n |-> BitsNat(Bits(in, pos + h + 4*(i-1), 4))]) IN
  IF \E i \in 1..n : ds[i] > 9 THEN AnyR ELSE DigitsRes(ds, h + 4*n)
RECURSIVE BcdEnd(_,_,_)
BcdEnd(in, pos, k) == IF pos + 4*k + 4 > Len(in) THEN -1
                      ELSE IF BitsNat(Bits(in, pos + 4*k, 4)) > 9 THEN k ELSE BcdEnd(in, pos, k+1)
\* first k such that the octets from pos + 8k on are the terminator; -1 if none
RECURSIVE TermAt(_,_,_,_)
TermAt(in, pos, tb, k) == IF pos + 8*k + Len(tb) > Len(in) THEN -1
                          ELSE IF Bits(in, pos + 8*k, Len(tb)) = tb THEN k ELSE TermAt(in, pos, tb, k+1)
DecAsciiN(in, pos, n, h, signed) ==
  IF ~signed THEN IF pos + h + 8*n > Len(in) THEN
                    \* a non-digit or the end of the input, whichever comes first: refused
                    Fail
                  ELSE AsciiRes(Bytes(Bits(in, pos+h, 8*n)), h + 8*n)
  ELSE IF pos + h + 8 > Len(in) THEN (IF n = 0 THEN AnyR ELSE Fail) ELSE
       IF n = 0 THEN AnyR ELSE
       LET sg == BitsNat(Bits(in, pos+h, 8)) IN
       IF sg \notin {43, 45} THEN Fail ELSE
       IF pos + h + 8*n > Len(in) THEN Fail ELSE
       LET r == AsciiRes(Bytes(Bits(in, pos+h+8, 8*(n-1))), h + 8*n) IN
       IF n = 1 THEN (IF r.st = "fail" THEN r ELSE AnyR) ELSE SignedRes(sg, r)
DecAsciiNul(in, pos, d, signed) ==
  LET tb == OctBits(d) h == IF signed THEN 8 ELSE 0 IN
  IF pos + h > Len(in) THEN Fail ELSE
  LET sg == IF signed THEN BitsNat(Bits(in, pos, 8)) ELSE 43 IN
  IF signed /\ sg \notin {43, 45} THEN Fail ELSE
  LET k == TermAt(in, pos+h, tb, 0) IN
  IF k < 0 THEN Fail ELSE
  LET r == AsciiRes(Bytes(Bits(in, pos+h, 8*k)), h + 8*k + Len(tb)) IN
  IF k = 0 THEN AnyR ELSE IF signed THEN SignedRes(sg, r) ELSE r

------------------------------------------------------------------------------
(* ACN strings: the value is the NUL-padded buffer of max+1 characters *)
Pad(o, n) == o \o Zeros(n - Len(o))
Index(c, set) == CHOOSE i \in 1..Len(set) : set[i] = c /\ \A j \in 1..(i-1) : set[j] # c
CharIdx(o, set) == FoldLeft(LAMBDA acc, c : acc \o NatBits(Index(c, set) - 1, NatLen(Len(set) - 1)), <<>>, o)
Ia5(o) == FoldLeft(LAMBDA acc, c : acc \o NatBits(c, 7), <<>>, o)
DecChars(in, pos, n, h, max) ==
  IF pos + h + 8*n > Len(in) THEN Fail ELSE Ok(Pad(Bytes(Bits(in, pos+h, 8*n)), max+1), h + 8*n)
DecIdx(in, pos, n, h, max, set) ==
  LET w == NatLen(Len(set) - 1) IN
  IF pos + h + w*n > Len(in) THEN Fail ELSE
  LET ix == TLCEval([i \in 1..n |-> BitsNat(Bits(in, pos + h + w*(i-1), w))]) IN
  IF \E i \in 1..n : ix[i] >= Len(set) THEN Fail
  ELSE Ok(Pad([i \in 1..n |-> set[ix[i]+1]], max+1), h + w*n)
DecIa5(in, pos, n, h, max) ==
  IF pos + h + 7*n > Len(in) THEN Fail
  ELSE Ok(Pad([i \in 1..n |-> BitsNat(Bits(in, pos + h + 7*(i-1), 7))], max+1), h + 7*n)
Min2(a, b) == IF a < b THEN a ELSE b
DecStrTerm(in, pos, tb, max) ==
  LET k == TermAt(in, pos, tb, 0) IN
  IF k < 0 THEN Fail ELSE IF k > max THEN Fail
  ELSE Ok(Pad(Bytes(Bits(in, pos, 8*k)), max+1), 8*k + Len(tb))
RECURSIVE BitTermAt(_,_,_,_,_)
BitTermAt(in, pos, tb, max, k) == IF k > max \/ pos + k + Len(tb) > Len(in) THEN -1
                                  ELSE IF Bits(in, pos + k, Len(tb)) = tb THEN k
                                  ELSE BitTermAt(in, pos, tb, max, k+1)

------------------------------------------------------------------------------
(* IEEE 754 / X.690 8.5 REAL.  A finite double is <<sign, mantissa bits, exponent>>
   with the mantissa an odd integer without leading zeros (<<>> for zero).       *)
RECURSIVE StripL(_)
StripL(b) == IF b = <<>> \/ b[1] = 1 THEN b ELSE StripL(Drop(b, 1))
TrailZ(b) == Lead(Rev(b), 0, 1)
Norm(s, b, e) == LET m == StripL(b) IN IF m = <<>> THEN <<s, <<>>, 0>> ELSE
                 LET z == TrailZ(m) IN <<s, FirstN(m, Len(m)-z), e + z>>
DExp(w) == (w[1] % 128) * 16 + w[2] \div 16
DMant(w) == WLow(w, 52)
DSign(w) == w[1] \div 128
DIsNan(w) == DExp(w) = 2047 /\ \E i \in 1..52 : DMant(w)[i] = 1
DIsInf(w) == DExp(w) = 2047 /\ ~DIsNan(w)
DVal(w) == IF DExp(w) = 0 THEN Norm(DSign(w), DMant(w), -1074) ELSE Norm(DSign(w), <<1>> \o DMant(w), DExp(w) - 1075)
\* the double denoting a normal form, when there is one
DRep(x) == LET l == Len(x[2]) top == x[3] + l - 1 IN
           x[2] = <<>> \/ (l <= 53 /\ top <= 1023 /\ x[3] >= -1074)
DWord(x) == LET l == Len(x[2]) top == x[3] + l - 1 IN
  IF x[2] = <<>> THEN <<128*x[1],0,0,0,0,0,0,0>> ELSE
  IF top >= -1022 THEN BitsToBytes(<<x[1]>> \o NatBits(top + 1023, 11) \o Drop(x[2], 1) \o Zeros(53 - l))
  ELSE BitsToBytes(<<x[1]>> \o Zeros(11) \o Zeros(52 - l - (x[3] + 1074)) \o x[2] \o Zeros(x[3] + 1074))
\* two's complement of at most 3 octets as an integer
SNat(b) == IF b[1] = 1 THEN BitsNat(b) - Pow2(Len(b)) ELSE BitsNat(b)
(* contents octets of a REAL: [st, x] with st in special names, "bin" (x a normal form), "bad", "other" *)
RealContents(o) ==
  IF o = <<>> THEN [st |-> "zero"] ELSE
  IF o[1] \in 64..67 THEN (IF Len(o) > 1 THEN [st |-> "other"] ELSE
        [st |-> CASE o[1] = 64 -> "pinf" [] o[1] = 65 -> "ninf" [] o[1] = 66 -> "nan" [] OTHER -> "mzero"]) ELSE
  IF o[1] < 128 THEN [st |-> "other"] ELSE
  LET h == Byte(o[1]) base == h[3]*2 + h[4] f == h[5]*2 + h[6] el == (h[7]*2 + h[8]) + 1
      mul == CASE base = 0 -> 1 [] base = 1 -> 3 [] OTHER -> 4 IN
  IF base = 3 \/ el = 4 THEN [st |-> "other"] ELSE
  IF Len(o) < 1 + el THEN [st |-> "bad"] ELSE
  IF Len(o) < 2 + el THEN [st |-> "other"] ELSE
  LET e == SNat(BytesToBits(SubSeq(o, 2, 1+el))) m == StripL(BytesToBits(Drop(o, 1+el))) IN
  IF Len(m) > 61 THEN [st |-> "other"] ELSE
  [st |-> "bin", x |-> Norm(h[2], m, f + mul*e)]
\* does this bit string encode the double w?
EncRealOk(w, b) ==
  /\ Len(b) >= 8 /\ b[1] = 0
  /\ Len(b) = 8 + 8*BitsNat(FirstN(b, 8))
  /\ LET c == RealContents(Bytes(Drop(b, 8))) IN
     CASE DIsNan(w) -> c.st = "nan"
       [] DIsInf(w) -> c.st = (IF DSign(w) = 1 THEN "ninf" ELSE "pinf")
       [] DVal(w)[2] = <<>> -> c.st = (IF DSign(w) = 1 THEN "mzero" ELSE "zero")
       [] OTHER -> c.st = "bin" /\ c.x = DVal(w)
NanWord == <<127,248,0,0,0,0,0,0>>
DecRealR(in, pos) ==
  IF pos + 8 > Len(in) THEN Fail ELSE
  LET l == BitsNat(Bits(in, pos, 8)) have == (Len(in) - pos - 8) \div 8
      c == RealContents(TLCEval(Bytes(Bits(in, pos+8, 8*Min2(l, have))))) IN
  IF l >= 128 THEN AnyR ELSE
  IF have < l THEN (IF have >= 1 /\ BitsNat(Bits(in, pos+8, 8)) < 128 THEN AnyR ELSE Fail) ELSE
  LET n == 8 + 8*l IN
  CASE c.st = "zero" -> Ok(W0, n)
    [] c.st = "mzero" -> Ok(<<128,0,0,0,0,0,0,0>>, n)
    [] c.st = "pinf" -> Ok(<<127,240,0,0,0,0,0,0>>, n)
    [] c.st = "ninf" -> Ok(<<255,240,0,0,0,0,0,0>>, n)
    [] c.st = "nan" -> Ok(NanWord, n)
    [] c.st = "bad" -> Fail
    [] c.st = "other" -> AnyR
    \* more than eight mantissa octets, the first ones zero: an implementation may refuse them
    [] OTHER -> IF DRep(c.x) THEN [Ok(DWord(c.x), n) EXCEPT !.st = IF l > 12 THEN "opt" ELSE "ok"] ELSE AnyR
\* observed value of a REAL: every NaN is the same
RealSame(a, b) == a = b \/ (DIsNan(a) /\ DIsNan(b))

------------------------------------------------------------------------------
Enc(e) ==
  LET o == e.op IN
  CASE o = "bit" -> <<e.n>>
    [] o = "byte" -> IF e.neg THEN Inv(Byte(e.n)) ELSE Byte(e.n)
    [] o = "byte0" -> Byte(e.n)
    [] o = "pbyte" -> IF e.neg THEN Inv(NatBits(e.v, e.n)) ELSE NatBits(e.v, e.n)
    [] o = "zeros" -> Zeros(e.n)
    [] o = "ones" -> Ones(e.n)
    [] o \in {"bytes", "oct"} -> OctBits(e.d)
    [] o = "bits" -> FirstN(OctBits(e.d), e.n)
    [] o = "nonneg" -> WLow(e.v, WLen(e.v))
    [] o = "nonnegneg" -> IF e.neg THEN Inv(WLow(e.v, WLen(e.v))) ELSE WLow(e.v, WLen(e.v))
    [] o \in {"cint", "cuint"} -> EncCons(e.v, e.lo, e.hi)
    [] o \in {"scint", "scuint"} -> EncSemi(e.v, e.lo)
    [] o = "ucint" -> EncUncons(e.v)
    [] o = "octstr" -> EncSized(OctBits(e.d), Len(e.d), 8, e.min, e.max)
    [] o = "octfrag" -> EncFrag(OctBits(e.d), Len(e.d), 8)
    [] o = "bitstr" -> EncSized(FirstN(OctBits(e.d), e.n), e.n, 1, e.min, e.max)
    [] o = "oid" -> EncOid(e.arcs, FALSE)
    [] o = "roid" -> EncOid(e.arcs, TRUE)
    [] o \in {"apos", "alen"} -> WLow(e.v, e.n)
    [] o \in {"aposbe", "atwobe"} -> WLow(e.v, e.n)
    [] o \in {"aposle", "atwole"} -> RevOctets(WLow(e.v, e.n))
    [] o = "aposvar" -> EncSemi(e.v, W0)
    [] o = "atwo" -> WLow(e.v, e.n)
    [] o = "atwovar" -> EncUncons(e.v)
    [] o = "abcd" -> Nibbles(PadDigits(DecDigits(e.v), e.n))
    [] o = "abcdvar" -> LET ds == DecDigits(e.v) IN NatBits(Len(ds), 8) \o Nibbles(ds)
    [] o = "abcdnul" -> Nibbles(DecDigits(e.v)) \o <<1,1,1,1>>
    [] o = "auasc" -> OctBits(AsciiDigits(PadDigits(DecDigits(e.v), e.n)))
    [] o = "asasc" -> OctBits(<<Sign(e.v)>> \o AsciiDigits(PadDigits(DecDigits(WAbs(e.v)), e.n - 1)))
    [] o = "auascvar" -> LET ds == Digits1(e.v) IN OctBits(<<Len(ds)>> \o AsciiDigits(ds))
    [] o = "asascvar" -> LET ds == Digits1(WAbs(e.v)) IN OctBits(<<Len(ds) + 1, Sign(e.v)>> \o AsciiDigits(ds))
    [] o = "auascnul" -> OctBits(AsciiDigits(Digits1(e.v)) \o e.d)
    [] o = "asascnul" -> OctBits(<<Sign(e.v)>> \o AsciiDigits(Digits1(WAbs(e.v))) \o e.d)
    [] o \in {"strfix", "strext"} -> OctBits(e.d)
    [] o = "strnul" -> OctBits(Append(e.d, e.n))
    [] o = "strnulm" -> OctBits(e.d \o e.d2)
    [] o = "strint" -> EncNat(Len(e.d), e.min, e.max) \o OctBits(e.d)
    [] o \in {"idxfix", "idxext"} -> CharIdx(e.d, e.d2)
    [] o = "idxint" -> EncNat(Len(e.d), e.min, e.max) \o CharIdx(e.d, e.d2)
    [] o = "ia5ext" -> Ia5(e.d)
    [] o = "ia5int" -> EncNat(Len(e.d), e.min, e.max) \o Ia5(e.d)
    [] o \in {"f32be", "f64be"} -> OctBits(e.d)
    [] o \in {"f32le", "f64le"} -> OctBits(Rev(e.d))

\* a double that single precision holds exactly
FRep(w) == DIsNan(w) \/ DIsInf(w) \/ LET x == DVal(w) l == Len(x[2]) top == x[3] + l - 1 IN x[2] = <<>> \/ (l <= 24 /\ top <= 127 /\ x[3] >= -149)

Dec(e, in, pos) ==
  LET o == e.op
      need(n, v) == IF pos + n > Len(in) THEN Fail ELSE Ok(v, n)
      fixed(n, signed, rev) ==
         IF pos + n > Len(in) THEN Fail ELSE
         LET b == IF rev THEN RevOctets(Bits(in, pos, n)) ELSE Bits(in, pos, n) IN
         Ok(IF signed THEN BitsWS(b) ELSE BitsW(b), n)
      str(r) == IF r.st \in {"ok", "opt"} THEN [r EXCEPT !.v = <<r.v[1], Bytes(r.v[2])>>] ELSE r
  IN
  CASE o = "bit" -> IF pos + 1 > Len(in) THEN Fail ELSE Ok(in[pos+1], 1)
    [] o = "peek" -> IF pos + 1 > Len(in) THEN AnyR ELSE Ok(in[pos+1], 0)
    [] o \in {"byte", "byte0"} -> IF pos + 8 > Len(in) THEN Fail ELSE Ok(BitsNat(Bits(in, pos, 8)), 8)
    [] o = "pbyte" -> IF pos + e.n > Len(in) THEN Fail ELSE Ok(BitsNat(Bits(in, pos, e.n)), e.n)
    [] o \in {"bytes", "oct"} -> IF pos + 8*e.n > Len(in) THEN Fail ELSE Ok(Bytes(Bits(in, pos, 8*e.n)), 8*e.n)
    [] o = "bits" -> IF pos + e.n > Len(in) THEN Fail ELSE Ok(Bytes(Bits(in, pos, e.n)), e.n)
    [] o = "nonneg" -> fixed(e.n, FALSE, FALSE)
    [] o \in {"cint", "cuint"} -> DecCons(in, pos, e.lo, e.hi)
    [] o = "scint" -> DecSemi(in, pos, e.lo, TRUE)
    [] o = "scuint" -> DecSemi(in, pos, e.lo, FALSE)
    [] o = "ucint" -> DecLenWord(in, pos, TRUE)
    [] o = "ucmax" -> LET r == DecLenWord(in, pos, TRUE) IN IF r.st = "ok" /\ WLtS(e.mx, r.v) THEN Fail ELSE r
    [] o = "octstr" -> str(DecSized(in, pos, 8, e.min, e.max))
    [] o = "octfrag" -> LET r == DecFrag(in, pos, 8, e.max, <<>>, FALSE) IN
                        IF r.st = "fail" THEN r ELSE [st |-> r.st, v |-> <<Len(r.v) \div 8, Bytes(r.v)>>, n |-> r.n - pos]
    [] o = "bitstr" -> str(DecSized(in, pos, 1, e.min, e.max))
    [] o = "oid" -> DecOid(in, pos, FALSE)
    [] o = "roid" -> DecOid(in, pos, TRUE)
    [] o = "real" -> DecRealR(in, pos)
    [] o \in {"apos", "alen", "aposbe"} -> fixed(e.n, FALSE, FALSE)
    [] o \in {"atwo", "atwobe"} -> fixed(e.n, TRUE, FALSE)
    [] o = "aposle" -> fixed(e.n, FALSE, TRUE)
    [] o = "atwole" -> fixed(e.n, TRUE, TRUE)
    [] o = "aposvar" -> DecLenWord(in, pos, FALSE)
    [] o = "atwovar" -> DecLenWord(in, pos, TRUE)
    [] o = "abcd" -> DecBcd(in, pos, e.n, 0)
    [] o = "abcdvar" -> IF pos + 8 > Len(in) THEN Fail ELSE
                        LET k == BitsNat(Bits(in, pos, 8)) r == DecBcd(in, pos, k, 8) IN
                        IF k > 20 THEN (IF r.st = "ok" THEN Opt(r.v, r.n) ELSE r) ELSE r
    [] o = "abcdnul" -> LET k == BcdEnd(in, pos, 0) IN
                        IF k < 0 THEN Fail ELSE
                        IF Bits(in, pos + 4*k, 4) # <<1,1,1,1>> THEN AnyR ELSE
                        LET r == DecBcd(in, pos, k, 0) IN [r EXCEPT !.n = r.n + 4]
    [] o = "auasc" -> DecAsciiN(in, pos, e.n, 0, FALSE)
    [] o = "asasc" -> DecAsciiN(in, pos, e.n, 0, TRUE)
    [] o \in {"auascvar", "asascvar"} ->
         IF pos + 8 > Len(in) THEN Fail ELSE
         LET k == BitsNat(Bits(in, pos, 8)) IN
         IF k = 0 THEN AnyR ELSE DecAsciiN(in, pos, k, 8, o = "asascvar")
    [] o = "auascnul" -> DecAsciiNul(in, pos, e.d, FALSE)
    [] o = "asascnul" -> DecAsciiNul(in, pos, e.d, TRUE)
    [] o = "strfix" -> DecChars(in, pos, e.max, 0, e.max)
    [] o = "strnul" -> DecStrTerm(in, pos, Byte(e.n), e.max)
    [] o = "strnulm" -> DecStrTerm(in, pos, OctBits(e.d2), e.max)
    [] o = "strext" -> IF e.n < 0 \/ e.n > e.max THEN Fail ELSE DecChars(in, pos, e.n, 0, e.max)
    [] o = "idxfix" -> DecIdx(in, pos, e.max, 0, e.max, e.d2)
    [] o = "idxext" -> IF e.n < 0 \/ e.n > e.max THEN Fail ELSE DecIdx(in, pos, e.n, 0, e.max, e.d2)
    [] o = "ia5ext" -> IF e.n < 0 \/ e.n > e.max THEN Fail ELSE DecIa5(in, pos, e.n, 0, e.max)
    [] o \in {"strint", "idxint", "ia5int"} ->
         LET c == DecNat(in, pos, e.min, e.max) IN
         IF c.st # "ok" THEN c ELSE
         CASE o = "strint" -> DecChars(in, pos, c.v, c.n, e.max)
           [] o = "idxint" -> DecIdx(in, pos, c.v, c.n, e.max, e.d2)
           [] OTHER -> DecIa5(in, pos, c.v, c.n, e.max)
    [] o \in {"f32be", "f64be", "f32le", "f64le"} ->
         LET n == IF o \in {"f32be", "f32le"} THEN 32 ELSE 64 IN
         IF pos + n > Len(in) THEN Fail ELSE
         LET b == Bytes(Bits(in, pos, n)) w == IF o \in {"f32be", "f64be"} THEN b ELSE Rev(b) IN
         IF n = 32 /\ w[1] % 128 = 127 /\ w[2] \in 128..191 /\ w # <<w[1], 128, 0, 0>> THEN AnyR   \* a signalling NaN may become a quiet one
         ELSE Ok(w, n)
    [] o = "pat" -> IF pos + e.n > Len(in) THEN Fail
                    ELSE Ok(Bits(in, pos, e.n) = FirstN(OctBits(e.d), e.n), e.n)
    [] o = "patign" -> IF pos + e.n > Len(in) THEN Fail ELSE Ok(TRUE, e.n)
    [] o = "tf" -> IF pos + e.n > Len(in) THEN Fail ELSE
                   LET b == Bits(in, pos, e.n) IN
                   IF b = FirstN(OctBits(e.d), e.n) THEN Ok(TRUE, e.n)
                   ELSE IF b = FirstN(OctBits(e.d2), e.n) THEN Ok(FALSE, e.n) ELSE Fail
    [] o = "chkpat" -> IF pos + e.n > Len(in) THEN Ok(0, 0) ELSE
                       IF Bits(in, pos, e.n) = FirstN(OctBits(e.d), e.n) THEN Ok(2, e.n) ELSE Ok(1, 0)
    [] o = "bitsnul" -> LET tb == FirstN(OctBits(e.d), e.n) k == BitTermAt(in, pos, tb, e.max, 0) IN
                        IF k < 0 THEN Fail ELSE Ok(<<k, Bytes(Bits(in, pos, k))>>, k + e.n)

\* next multiple of a bits
AlignUp(p, a) == ((p + a - 1) \div a) * a

(* pure helper functions *)
Fn(e) ==
  LET o == e.op IN
  CASE o = "nbits" -> WLen(e.v)
    [] o = "lenu" -> OctetsFor(WLen(e.v))
    [] o = "lens" -> OctetsFor(WLenS(e.v))
    [] o = "int2uint" -> e.v
    [] o = "uint2int" -> BitsWS(WLow(e.v, 8*e.n))
    [] o = "octeq" -> e.d = e.d2
    [] o = "biteq" -> e.n = e.min /\ FirstN(OctBits(e.d), e.n) = FirstN(OctBits(e.d2), e.n)
    [] o = "oideq" -> e.arcs = e.arcs2
    [] o = "oidvalid" -> Len(e.arcs) >= 2 /\ WLeU(e.arcs[1], W(2)) /\ WLeU(e.arcs[2], W(39))
    [] o = "roidvalid" -> Len(e.arcs) >= 1
    [] o = "bsearch" -> IF \E i \in 1..Len(e.arcs) : e.arcs[i] = e.v
                        THEN (CHOOSE i \in 1..Len(e.arcs) : e.arcs[i] = e.v /\ \A j \in 1..(i-1) : e.arcs[j] # e.v) - 1 ELSE -1
    [] o = "milenc" -> IF e.v = W(32) THEN W0 ELSE e.v
    [] o = "mildec" -> IF e.v = W0 THEN W(32) ELSE e.v
=============================================================================
