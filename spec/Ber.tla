--------------------------------- MODULE Ber ---------------------------------
(* X.690 basic encoding rules of the primitive types, as octets.
   A tag is the machine word whose significant octets are its identifier
   octets; words are Bits!words.                                            *)
EXTENDS Prim

TagOctets(t) == LET k == Lead(t, 0, 1) IN IF k = 8 THEN <<0>> ELSE Drop(t, k)
NatOctets(n) == IF n < 256 THEN <<n>> ELSE IF n < 65536 THEN <<n \div 256, n % 256>>
                ELSE IF n < 16777216 THEN <<n \div 65536, (n \div 256) % 256, n % 256>>
                ELSE <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
LenOctets(n) == IF n < 128 THEN <<n>> ELSE <<128 + Len(NatOctets(n))>> \o NatOctets(n)
Tlv(t, c) == TagOctets(t) \o LenOctets(Len(c)) \o c
IntOctets(v) == LastN(v, (WLenS(v) + 7) \div 8)

\* the unused bits of the last octet of a BIT STRING are the sender's choice; here: those of the value
BerEnc(e) ==
  LET o == e.op IN
  CASE o = "tag" -> TagOctets(e.tag)
    [] o = "lens" -> <<128>>
    [] o = "lene" -> <<0, 0>>
    [] o = "null" -> Tlv(e.tag, <<>>)
    [] o = "bool" -> Tlv(e.tag, <<IF e.n = 0 THEN 0 ELSE 255>>)
    [] o = "int" -> Tlv(e.tag, IntOctets(e.v))
    [] o \in {"str", "oct"} -> Tlv(e.tag, e.d)
    [] o = "bits" -> Tlv(e.tag, <<(8 - (e.n % 8)) % 8>> \o e.d)

\* -- decoding: in is the input, p octets of it are consumed ------------------
R(st, v, p) == [st |-> st, v |-> v, p |-> p]
Bad == R("fail", <<>>, 0)
Flip(x) == IF (x \div 32) % 2 = 1 THEN x - 32 ELSE x + 32
\* the primitive/constructed bit of the first octet is not the tag's business
DTag(in, p, t) ==
  LET o == TagOctets(t) n == Len(o) IN
  IF p + n > Len(in) THEN Bad ELSE
  LET s == SubSeq(in, p+1, p+n) IN
  IF s = o THEN R("ok", <<>>, p+n)
  ELSE IF Flip(s[1]) = o[1] /\ Tail(s) = Tail(o) THEN R("opt", <<>>, p+n) ELSE Bad
\* v = -1: indefinite
DLen(in, p) ==
  IF p >= Len(in) THEN Bad ELSE
  LET x == in[p+1] k == x - 128 IN
  IF x < 128 THEN R("ok", x, p+1) ELSE
  IF k = 0 THEN R("ok", -1, p+1) ELSE
  IF p + 1 + k > Len(in) THEN Bad ELSE
  LET c == SubSeq(in, p+2, p+1+k) z == Lead(c, 0, 1) s == Drop(c, z) IN
  IF Len(s) > 4 \/ (Len(s) = 4 /\ s[1] >= 128) THEN Bad ELSE
  R(IF k = 127 THEN "opt" ELSE "ok", FoldLeft(LAMBDA a, b : 256*a + b, 0, s), p+1+k)
\* identifier, length and all the contents: v the contents
DTlv(in, p, t) ==
  LET a == DTag(in, p, t) IN
  IF a.st = "fail" THEN a ELSE
  LET l == DLen(in, a.p) IN
  IF l.st = "fail" THEN l ELSE
  IF l.v < 0 THEN Bad ELSE
  IF l.v > Len(in) - l.p THEN Bad ELSE
  R(IF a.st = "opt" \/ l.st = "opt" THEN "opt" ELSE "ok", SubSeq(in, l.p+1, l.p+l.v), l.p+l.v)
Weaken(r, c) == IF c THEN [r EXCEPT !.st = "opt"] ELSE r
With(r, v) == [r EXCEPT !.v = v]
BerDec(e, in, p) ==
  LET o == e.op IN
  CASE o = "tag" -> DTag(in, p, e.tag)
    [] o = "len" -> DLen(in, p)
    [] o = "eoc2" -> IF p + 2 <= Len(in) /\ in[p+1] = 0 /\ in[p+2] = 0 THEN R("ok", <<>>, p+2) ELSE Bad
    [] OTHER ->
  LET r == DTlv(in, p, e.tag) IN
  IF r.st = "fail" THEN r ELSE
  LET c == r.v IN
  CASE o = "null" -> IF c = <<>> THEN r ELSE Bad
    [] o = "bool" -> IF Len(c) = 1 THEN With(r, IF c[1] = 0 THEN 0 ELSE 1) ELSE Bad
    [] o = "int" ->
         LET w == LastN(c, 8) n == Len(c) IN
         IF n = 0 THEN Bad ELSE
         IF n <= 8 THEN LET v == BitsWS(BytesToBits(c)) IN Weaken(With(r, v), IntOctets(v) # c)
         ELSE IF \A i \in 1..(n-8) : c[i] = (IF w[1] >= 128 THEN 255 ELSE 0) THEN Weaken(With(r, w), TRUE) ELSE Bad
    [] o = "real" ->
         LET x == DecRealR(BytesToBits(<<Len(c)>> \o c), 0) IN
         IF Len(c) > 12 THEN [r EXCEPT !.st = "any"] ELSE
         IF x.st \in {"fail", "any"} THEN [r EXCEPT !.st = x.st] ELSE Weaken(With(r, x.v), x.st = "opt" \/ r.st = "opt")
    [] o \in {"str", "oct"} -> IF Len(c) > e.max THEN Bad ELSE r
    [] o = "bits" ->
         IF c = <<>> THEN Bad ELSE IF c[1] > 7 \/ (Len(c) = 1 /\ c[1] > 0) THEN Bad ELSE
         LET n == 8 * (Len(c) - 1) - c[1] IN IF n > e.max THEN Bad ELSE With(r, FirstN(BytesToBits(Tail(c)), n))
\* a look ahead tells whether the step is possible and consumes nothing
BerLook(e, in, p) == IF e.op = "eoc" THEN BerDec([op |-> "eoc2"], in, p).st ELSE DTag(in, p, e.tag).st
=============================================================================
