-------------------------------- MODULE Asn1 --------------------------------
(* The type system of a schema: which values a type has (X.680, X.682), how
   unaligned PER lays them out (X.691), how they are read back, how large they
   can get, when two are the same.

   Types and constraints are records (see lib/asn.py, which writes them):
     t.k     "int" "bool" "null" "real" "enum" "oct" "bits" "str" "seq" "choice" "sof" "oid" "roid"
     t.con   the constraints applied in turn (all must hold)
   Values
     int     nine octets, two's complement          real  the eight octets of the double
     enum    position in the declaration (0: none)   oct, str  octets / character codes
     bits    bits            seq   per component <<v>> / <<>> / <<present, v>> for DEFAULT
     choice  <<alternative, v>> (0: none)            sof   sequence    oid  words        *)
EXTENDS Prim

Low(x) == SubSeq(x, 2, 9)
ILt(a, b) == WLtS(a, b)
ILe(a, b) == ~WLtS(b, a)
I9(n) == <<0>> \o WNat(n)
\* small naturals only
INat(x) == IF WFitsNat(Low(x)) THEN WToNat(Low(x)) ELSE 1073741823
IInc(a) == AddC(a, I9(1), 9, 0)
IDec(a) == AddC(a, [i \in 1..9 |-> 255], 9, 0)
Set(s) == {s[i] : i \in 1..Len(s)}
Sum(f, n) == FoldLeft(LAMBDA acc, i : acc + f[i], 0, [i \in 1..n |-> i])
Max2(a, b) == IF a < b THEN b ELSE a
MaxOf(f, n) == FoldLeft(LAMBDA acc, i : Max2(acc, f[i]), 0, [i \in 1..n |-> i])
RECURSIVE FlatR(_,_,_)
FlatR(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a] ELSE LET m == (a + b) \div 2 IN FlatR(ss, a, m) \o FlatR(ss, m + 1, b)
Flat(ss) == LET s == TLCEval(ss) IN FlatR(s, 1, Len(s))

------------------------------------------------------------------------------
(* order of the doubles (not NaN) *)
RAbs(w) == [w EXCEPT ![1] = w[1] % 128]
RZero(w) == RAbs(w) = W0
RLt(a, b) ==
  IF DIsNan(a) \/ DIsNan(b) THEN FALSE ELSE
  IF RZero(a) /\ RZero(b) THEN FALSE ELSE
  IF DSign(a) # DSign(b) THEN DSign(a) = 1 ELSE
  IF DSign(a) = 0 THEN WLtU(RAbs(a), RAbs(b)) ELSE WLtU(RAbs(b), RAbs(a))
REq(a, b) == ~DIsNan(a) /\ ~DIsNan(b) /\ (a = b \/ (RZero(a) /\ RZero(b)))
RLe(a, b) == RLt(a, b) \/ REq(a, b)

------------------------------------------------------------------------------
(* constraints: a tree, o one of
     val v   rng lo hi xl xh (an open end is <<>>)   or and exc (a, b)   ax (all except a)
     size a  from a  elem a (WITH COMPONENT)   wcs l (WITH COMPONENTS {..., }) *)
RECURSIVE Sat(_,_,_)
RECURSIVE Alpha(_)
Alpha(c) ==
  CASE c.o = "val" -> Set(c.v)
    [] c.o = "rng" -> {x \in 0..127 : (IF c.xl = 1 THEN c.lo[1] < x ELSE c.lo[1] <= x) /\ (IF c.xh = 1 THEN x < c.hi[1] ELSE x <= c.hi[1])}
    [] c.o = "or" -> Alpha(c.a) \cup Alpha(c.b)
    [] c.o = "and" -> Alpha(c.a) \cap Alpha(c.b)
    [] c.o = "exc" -> Alpha(c.a) \ Alpha(c.b)
    [] OTHER -> 0..127 \ Alpha(c.a)
IntT == [k |-> "int", con |-> <<>>]
Sat(c, t, v) ==
  LET k == t.k
      lt(a, b) == IF k = "int" THEN ILt(a, b) ELSE RLt(a, b)
      le(a, b) == IF k = "int" THEN ILe(a, b) ELSE RLe(a, b) IN
  CASE c.o = "val" -> IF k = "real" THEN REq(c.v, v) ELSE c.v = v
    [] c.o = "rng" -> /\ (c.lo = <<>> \/ (IF c.xl = 1 THEN lt(c.lo, v) ELSE le(c.lo, v)))
                      /\ (c.hi = <<>> \/ (IF c.xh = 1 THEN lt(v, c.hi) ELSE le(v, c.hi)))
    [] c.o = "or" -> Sat(c.a, t, v) \/ Sat(c.b, t, v)
    [] c.o = "and" -> Sat(c.a, t, v) /\ Sat(c.b, t, v)
    [] c.o = "exc" -> Sat(c.a, t, v) /\ ~Sat(c.b, t, v)
    [] c.o = "ax" -> ~Sat(c.a, t, v)
    [] c.o = "ext" -> Sat(c.a, t, v)
    [] c.o = "size" -> Sat(c.a, IntT, I9(Len(v)))
    [] c.o = "from" -> LET al == Alpha(c.a) IN \A i \in 1..Len(v) : v[i] \in al
    [] c.o = "elem" -> \A i \in 1..Len(v) : \A j \in 1..Len(c.a) : Sat(c.a[j], t.t, v[i])
    [] OTHER ->   \* wcs
       \A j \in 1..Len(c.l) :
         LET e == c.l[j] IN
         IF k = "seq" THEN
           LET m == t.comps[e.i] cv == v[e.i]
               there == IF m.o = "m" THEN TRUE ELSE IF m.o = "o" THEN cv # <<>> ELSE cv[1] = 1 IN
           /\ (e.p = "p" => there) /\ (e.p = "a" => ~there)
           /\ (there => \A q \in 1..Len(e.c) : Sat(e.c[q], m.t, IF m.o = "d" THEN cv[2] ELSE cv[1]))
         ELSE
           /\ (e.p = "p" => v[1] = e.i) /\ (e.p = "a" => v[1] # e.i)
           /\ (v[1] = e.i => \A q \in 1..Len(e.c) : Sat(e.c[q], t.alts[e.i], v[2]))

------------------------------------------------------------------------------
(* effective constraints: lists of intervals <<lo, hi>>, open ends <<>> *)
AllIv == << <<<<>>, <<>>>> >>
LoMax(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF ILt(a, b) THEN b ELSE a
HiMin(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF ILt(a, b) THEN a ELSE b
Meet(x, y) == Flat([i \in 1..Len(x) |-> Flat([j \in 1..Len(y) |->
                LET lo == LoMax(x[i][1], y[j][1]) hi == HiMin(x[i][2], y[j][2]) IN
                IF lo # <<>> /\ hi # <<>> /\ ILt(hi, lo) THEN <<>> ELSE << <<lo, hi>> >>])])
RECURSIVE Iv(_)
Iv(c) ==
  CASE c.o = "val" -> << <<c.v, c.v>> >>
    [] c.o = "rng" -> << <<IF c.lo = <<>> THEN <<>> ELSE IF c.xl = 1 THEN IInc(c.lo) ELSE c.lo,
                           IF c.hi = <<>> THEN <<>> ELSE IF c.xh = 1 THEN IDec(c.hi) ELSE c.hi>> >>
    [] c.o = "or" -> Iv(c.a) \o Iv(c.b)
    [] c.o = "and" -> Meet(Iv(c.a), Iv(c.b))
    [] c.o \in {"exc", "ext"} -> Iv(c.a)
    [] OTHER -> AllIv
RECURSIVE SizeIv(_)
SizeIv(c) ==
  CASE c.o = "size" -> Iv(c.a)
    [] c.o = "or" -> SizeIv(c.a) \o SizeIv(c.b)
    [] c.o = "and" -> Meet(SizeIv(c.a), SizeIv(c.b))
    [] c.o = "exc" -> SizeIv(c.a)
    [] OTHER -> AllIv
\* as elsewhere, what follows EXCEPT does not count for the encoding
RECURSIVE PerAlpha(_)
PerAlpha(c) ==
  CASE c.o \in {"val", "rng"} -> Alpha(c)
    [] c.o = "or" -> PerAlpha(c.a) \cup PerAlpha(c.b)
    [] c.o = "and" -> PerAlpha(c.a) \cap PerAlpha(c.b)
    [] c.o = "exc" -> PerAlpha(c.a)
    [] OTHER -> 0..127
RECURSIVE AlphaIv(_)
AlphaIv(c) ==
  CASE c.o = "from" -> PerAlpha(c.a)
    [] c.o = "or" -> AlphaIv(c.a) \cup AlphaIv(c.b)
    [] c.o = "and" -> AlphaIv(c.a) \cap AlphaIv(c.b)
    [] c.o = "exc" -> AlphaIv(c.a)
    [] OTHER -> 0..127
Hull(ivs) == FoldLeft(LAMBDA acc, x : <<IF acc[1] = <<>> \/ x[1] = <<>> THEN <<>> ELSE IF ILt(x[1], acc[1]) THEN x[1] ELSE acc[1],
                                        IF acc[2] = <<>> \/ x[2] = <<>> THEN <<>> ELSE IF ILt(acc[2], x[2]) THEN x[2] ELSE acc[2]>>, ivs[1], ivs)
\* <<lo, hi>> of an INTEGER
IRange(t) == TLCEval(Hull(FoldLeft(LAMBDA acc, c : Meet(acc, Iv(c)), AllIv, t.con)))
\* <<min, max>> of a size
SRange(t) == TLCEval(LET h == Hull(FoldLeft(LAMBDA acc, c : Meet(acc, SizeIv(c)), << <<I9(0), <<>>>> >>, t.con)) IN
                     <<INat(h[1]), IF h[2] = <<>> THEN 1073741823 ELSE INat(h[2])>>)
Numeric == {32} \cup 48..57
Letters(t) == TLCEval((IF t.kind = "num" THEN Numeric ELSE 0..127) \cap
                      FoldLeft(LAMBDA acc, c : acc \cap AlphaIv(c), 0..127, t.con))
Extensible(t) == Len(t.con) > 0 /\ t.con[Len(t.con)].o = "ext"

(* X.680 20: items without a number get the smallest naturals not used *)
RECURSIVE Number(_,_,_,_)
Number(items, i, used, acc) ==
  IF i > Len(items) THEN acc
  ELSE IF items[i] # <<>> THEN Number(items, i+1, used, Append(acc, items[i][1]))
  ELSE LET x == CHOOSE n \in 0..(2*Len(items)) : n \notin used /\ \A m \in 0..(n-1) : m \in used IN
       Number(items, i+1, used \cup {x}, Append(acc, x))
EnumVals(t) == TLCEval(Number(t.items, 1, {t.items[i][1] : i \in {j \in 1..Len(t.items) : t.items[j] # <<>>}}, <<>>))
\* zero-based index of item i in the order of the values
EnumRank(t, i) == LET v == EnumVals(t) IN Cardinality({j \in 1..Len(v) : v[j] < v[i]})
EnumItem(t, rank) == CHOOSE i \in 1..Len(t.items) : EnumRank(t, i) = rank
\* X.691 23: alternatives in the canonical order of their tags; a tag is 0 (automatic: textual order) or its rank
AltIndex(t, i) == IF t.tags = <<>> THEN i - 1 ELSE Cardinality({j \in 1..Len(t.tags) : t.tags[j] < t.tags[i]})
AltOf(t, x) == CHOOSE i \in 1..Len(t.alts) : AltIndex(t, i) = x

------------------------------------------------------------------------------
(* the values of a type *)
OidOk(v) == /\ Len(v) \in 2..20 /\ WLeU(v[1], W(2)) /\ (WLtU(v[1], W(2)) => WLeU(v[2], W(39))) /\ WLeU(v[2], W(39))
RECURSIVE Valid(_,_)
Valid(t, v) ==
  LET k == t.k
      here == \A i \in 1..Len(t.con) : Sat(t.con[i], t, v) IN
  CASE k = "int" -> here
    [] k \in {"bool", "null"} -> TRUE
    [] k = "real" -> here
    [] k = "enum" -> v \in 1..Len(t.items) /\ here
    [] k \in {"oct", "bits"} -> here
    [] k = "str" -> (\A i \in 1..Len(v) : v[i] \in (IF t.kind = "num" THEN Numeric ELSE 0..127)) /\ here
    [] k = "oid" -> OidOk(v)
    [] k = "roid" -> Len(v) \in 1..20
    [] k = "sof" -> here /\ \A i \in 1..Len(v) : Valid(t.t, v[i])
    [] k = "choice" -> v[1] \in 1..Len(t.alts) /\ Valid(t.alts[v[1]], v[2]) /\ here
    [] OTHER -> /\ \A i \in 1..Len(v) : LET m == t.comps[i] IN
                     CASE m.o = "m" -> Valid(m.t, v[i][1])
                       [] m.o = "o" -> v[i] = <<>> \/ Valid(m.t, v[i][1])
                       [] OTHER -> v[i][1] = 0 \/ Valid(m.t, v[i][2])
                /\ here

(* the same abstract value *)
RECURSIVE Same(_,_,_)
Same(t, a, b) ==
  CASE t.k = "real" -> RealSame(a, b)
    [] t.k = "sof" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(t.t, a[i], b[i])
    [] t.k = "choice" -> a[1] = b[1] /\ Same(t.alts[a[1]], a[2], b[2])
    [] t.k = "seq" -> \A i \in 1..Len(a) : LET m == t.comps[i] IN
                        CASE m.o = "m" -> Same(m.t, a[i][1], b[i][1])
                          [] m.o = "o" -> (a[i] = <<>>) = (b[i] = <<>>) /\ (a[i] # <<>> => Same(m.t, a[i][1], b[i][1]))
                          [] OTHER -> a[i][1] = b[i][1] /\ (a[i][1] = 1 => Same(m.t, a[i][2], b[i][2]))
    [] OTHER -> a = b
(* what a decoder delivers for an encoding of v: an absent component with a DEFAULT has it *)
RECURSIVE Deliver(_,_)
Deliver(t, v) ==
  CASE t.k = "sof" -> [i \in 1..Len(v) |-> Deliver(t.t, v[i])]
    [] t.k = "choice" -> <<v[1], Deliver(t.alts[v[1]], v[2])>>
    [] t.k = "seq" -> [i \in 1..Len(v) |-> LET m == t.comps[i] IN
                        CASE m.o = "m" -> <<Deliver(m.t, v[i][1])>>
                          [] m.o = "o" -> IF v[i] = <<>> THEN <<>> ELSE <<Deliver(m.t, v[i][1])>>
                          [] OTHER -> IF v[i][1] = 1 THEN <<1, Deliver(m.t, v[i][2])>> ELSE <<0, m.d>>]
    [] OTHER -> v
\* like Same, but an absent DEFAULT component has to hold its default
RECURSIVE Exact(_,_,_)
Exact(t, a, b) ==
  CASE t.k = "real" -> RealSame(a, b)
    [] t.k = "sof" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Exact(t.t, a[i], b[i])
    [] t.k = "choice" -> a[1] = b[1] /\ Exact(t.alts[a[1]], a[2], b[2])
    [] t.k = "seq" -> \A i \in 1..Len(a) : LET m == t.comps[i] IN
                        CASE m.o = "m" -> Exact(m.t, a[i][1], b[i][1])
                          [] m.o = "o" -> (a[i] = <<>>) = (b[i] = <<>>) /\ (a[i] # <<>> => Exact(m.t, a[i][1], b[i][1]))
                          [] OTHER -> a[i][1] = b[i][1] /\ Exact(m.t, a[i][2], b[i][2])
    [] OTHER -> a = b

(* comparing: reals that are close need not be told apart *)
Near4(w) == BitsNat(FirstN(OctBits(w), 30))
RealTri(a, b) ==
  IF DIsNan(a) \/ DIsNan(b) THEN "any" ELSE IF a = b THEN "eq" ELSE
  IF RZero(a) /\ RZero(b) THEN "any" ELSE
  IF DIsInf(a) \/ DIsInf(b) THEN "any" ELSE
  IF DSign(a) # DSign(b) \/ RZero(a) \/ RZero(b) THEN "ne" ELSE
  LET x == Near4(a) y == Near4(b) IN IF x - y >= 64 \/ y - x >= 64 THEN "ne" ELSE "any"
Tri3(ts) == IF \E i \in 1..Len(ts) : ts[i] = "ne" THEN "ne" ELSE IF \E i \in 1..Len(ts) : ts[i] = "any" THEN "any" ELSE "eq"
TriB(b) == IF b THEN "eq" ELSE "ne"
RECURSIVE SameTri(_,_,_)
SameTri(t, a, b) ==
  CASE t.k = "real" -> RealTri(a, b)
    [] t.k = "sof" -> IF Len(a) # Len(b) THEN "ne" ELSE Tri3([i \in 1..Len(a) |-> SameTri(t.t, a[i], b[i])])
    [] t.k = "choice" -> IF a[1] # b[1] THEN "ne" ELSE SameTri(t.alts[a[1]], a[2], b[2])
    [] t.k = "seq" -> Tri3([i \in 1..Len(a) |-> LET m == t.comps[i] IN
                        CASE m.o = "m" -> SameTri(m.t, a[i][1], b[i][1])
                          [] m.o = "o" -> IF (a[i] = <<>>) # (b[i] = <<>>) THEN "ne" ELSE IF a[i] = <<>> THEN "eq" ELSE SameTri(m.t, a[i][1], b[i][1])
                          [] OTHER -> IF a[i][1] # b[i][1] THEN "ne" ELSE IF a[i][1] = 0 THEN "eq" ELSE SameTri(m.t, a[i][2], b[i][2])])
    [] OTHER -> TriB(a = b)
\* does a type contain one of the kinds ks?
RECURSIVE Has(_,_)
Has(t, ks) ==
  CASE t.k \in ks -> TRUE
    [] t.k = "sof" -> Has(t.t, ks)
    [] t.k = "choice" -> \E i \in 1..Len(t.alts) : Has(t.alts[i], ks)
    [] t.k = "seq" -> \E i \in 1..Len(t.comps) : Has(t.comps[i].t, ks)
    [] OTHER -> FALSE

------------------------------------------------------------------------------
(* X.690 8.5 / X.691 15: the canonical REAL *)
SOctets(e) == IF e >= -128 /\ e <= 127 THEN 1 ELSE 2
EncReal(w) ==
  LET hdr(n) == NatBits(n, 8) IN
  CASE DIsNan(w) -> hdr(1) \o NatBits(66, 8)
    [] DIsInf(w) -> hdr(1) \o NatBits(IF DSign(w) = 1 THEN 65 ELSE 64, 8)
    [] DVal(w)[2] = <<>> -> IF DSign(w) = 1 THEN hdr(1) \o NatBits(67, 8) ELSE hdr(0)
    [] OTHER -> LET x == DVal(w) el == SOctets(x[3]) ml == (Len(x[2]) + 7) \div 8
                    e == IF x[3] < 0 THEN x[3] + 2^(8*el) ELSE x[3] IN
                hdr(1 + el + ml) \o <<1, x[1], 0,0,0,0, 0, el - 1>> \o NatBits(e, 8*el) \o Zeros(8*ml - Len(x[2])) \o x[2]

(* characters *)
Sorted(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a < b)
CharBits(al) == NatLen(Cardinality(al) - 1)
\* X.691 30.5.4: the codes themselves when they all fit
ByCode(t, al) == t.ix = 0 /\ \A c \in al : c < 2^CharBits(al)
CharIndex(t, al, c) == IF ByCode(t, al) THEN c ELSE Cardinality({x \in al : x < c})
EncChars(t, al, s) == LET w == CharBits(al) IN Flat([i \in 1..Len(s) |-> NatBits(CharIndex(t, al, s[i]), w)])

(* a length and that many items (bit strings) *)
RECURSIVE EncItemsFrag(_,_)
EncItemsFrag(items, n) ==
  IF n < K16 THEN EncLen(n) \o Flat(items)
  ELSE LET f == IF n >= 4*K16 THEN 4 ELSE n \div K16 IN
       <<1,1>> \o NatBits(f, 6) \o Flat(FirstN(items, f*K16)) \o EncItemsFrag(Drop(items, f*K16), n - f*K16)
EncItems(items, min, max) ==
  IF max < 65536 THEN (IF min = max THEN <<>> ELSE EncNat(Len(items), min, max)) \o Flat(items)
  ELSE EncItemsFrag(items, Len(items))

RECURSIVE Uper(_,_)
Uper(t, v) ==
  LET k == t.k IN
  CASE k = "int" ->
         LET r == IRange(t)
             root == IF r[1] # <<>> /\ r[2] # <<>> THEN EncCons(Low(v), Low(r[1]), Low(r[2]))
                     ELSE IF r[1] # <<>> THEN EncSemi(Low(v), Low(r[1])) ELSE EncUncons(Low(v)) IN
         IF Extensible(t) THEN <<0>> \o root ELSE root
    [] k = "bool" -> <<v>>
    [] k = "null" -> <<>>
    [] k = "real" -> EncReal(v)
    [] k = "enum" -> EncNat(EnumRank(t, v), 0, Len(t.items) - 1)
    [] k = "oct" -> LET s == SRange(t) IN EncSized(OctBits(v), Len(v), 8, s[1], s[2])
    [] k = "bits" -> LET s == SRange(t) IN EncSized(v, Len(v), 1, s[1], s[2])
    [] k = "str" -> LET s == SRange(t) al == Letters(t) IN
                    EncSized(EncChars(t, al, v), Len(v), CharBits(al), s[1], s[2])
    [] k = "oid" -> EncOid(v, FALSE)
    [] k = "roid" -> EncOid(v, TRUE)
    [] k = "sof" -> LET s == SRange(t) IN EncItems([i \in 1..Len(v) |-> Uper(t.t, v[i])], s[1], s[2])
    [] k = "choice" -> EncNat(AltIndex(t, v[1]), 0, Len(t.alts) - 1) \o Uper(t.alts[v[1]], v[2])
    [] OTHER ->
         Flat([i \in 1..Len(v) |-> CASE t.comps[i].o = "m" -> <<>>
                                     [] t.comps[i].o = "o" -> <<IF v[i] = <<>> THEN 0 ELSE 1>>
                                     [] OTHER -> <<v[i][1]>>])
         \o Flat([i \in 1..Len(v) |-> CASE t.comps[i].o = "m" -> Uper(t.comps[i].t, v[i][1])
                                        [] t.comps[i].o = "o" -> IF v[i] = <<>> THEN <<>> ELSE Uper(t.comps[i].t, v[i][1])
                                        [] OTHER -> IF v[i][1] = 1 THEN Uper(t.comps[i].t, v[i][2]) ELSE <<>>])

------------------------------------------------------------------------------
(* decoding: answers as in Prim; Then chains two readings *)
Good(r) == r.st \in {"ok", "opt"}
Lax(a, b) == IF a = "opt" \/ b = "opt" THEN "opt" ELSE "ok"
MapV(r, v) == IF Good(r) THEN [r EXCEPT !.v = v] ELSE r
ToI9(w, signed) == <<IF signed /\ WIsNeg(w) THEN 255 ELSE 0>> \o w
RECURSIVE UDec(_,_,_)
RECURSIVE UDecSeq(_,_,_,_,_,_)
RECURSIVE UDecM(_,_,_,_)
\* n elements of type t (halved, to keep the recursion shallow); .n is where they end
UDecM(t, in, pos, n) ==
  IF n = 0 THEN [st |-> "ok", v |-> <<>>, n |-> pos] ELSE
  IF n = 1 THEN LET r == TLCEval(UDec(t, in, pos)) IN IF Good(r) THEN [st |-> r.st, v |-> <<r.v>>, n |-> pos + r.n] ELSE r ELSE
  LET a == TLCEval(UDecM(t, in, pos, n \div 2)) IN
  IF ~Good(a) THEN a ELSE
  LET b == TLCEval(UDecM(t, in, a.n, n - n \div 2)) IN
  IF ~Good(b) THEN b ELSE [st |-> Lax(a.st, b.st), v |-> a.v \o b.v, n |-> b.n]
UDecN(t, in, pos, n, acc, st) == LET r == UDecM(t, in, pos, n) IN IF Good(r) THEN [r EXCEPT !.v = acc \o r.v, !.st = Lax(st, r.st)] ELSE r
RECURSIVE UDecFrag(_,_,_,_,_,_)
UDecFrag(t, in, pos, max, acc, st) ==
  IF pos + 8 > Len(in) THEN Fail ELSE
  LET o == BitsNat(Bits(in, pos, 8)) IN
  IF o >= 192 THEN
     LET f == o - 192 IN
     IF f \notin 1..4 \/ Len(acc) + f*K16 > max THEN Fail ELSE
     LET r == UDecN(t, in, pos + 8, f*K16, acc, st) IN
     IF ~Good(r) THEN r ELSE UDecFrag(t, in, r.n, max, r.v, r.st)
  ELSE IF o >= 128 /\ pos + 16 > Len(in) THEN Fail ELSE
  LET n == IF o >= 128 THEN BitsNat(Bits(in, pos+2, 14)) ELSE o IN
  IF Len(acc) + n > max THEN Fail ELSE
  UDecN(t, in, pos + (IF o >= 128 THEN 16 ELSE 8), n, acc, IF o >= 128 /\ n < 128 THEN "opt" ELSE st)
\* the components from the i-th on; there[i]: the component is encoded
UDecSeq(t, in, pos, there, acc, st) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(t.comps) THEN [st |-> st, v |-> acc, n |-> pos] ELSE
  LET m == t.comps[i] IN
  IF ~there[i] THEN UDecSeq(t, in, pos, there, Append(acc, IF m.o = "d" THEN <<0, m.d>> ELSE <<>>), st) ELSE
  LET r == TLCEval(UDec(m.t, in, pos)) IN
  IF ~Good(r) THEN r ELSE
  UDecSeq(t, in, pos + r.n, there, Append(acc, IF m.o = "d" THEN <<1, r.v>> ELSE <<r.v>>), Lax(st, r.st))
Rel(r, pos) == IF Good(r) THEN [r EXCEPT !.n = r.n - pos] ELSE r
UDec(t, in, pos) ==
  LET k == t.k IN
  CASE k = "int" ->
         LET x == IRange(t)
             p0 == pos + (IF Extensible(t) THEN 1 ELSE 0)
             sgn == x[1] = <<>> \/ x[1][1] = 255
             r == IF x[1] # <<>> /\ x[2] # <<>> THEN DecCons(in, p0, Low(x[1]), Low(x[2]))
                  ELSE IF x[1] # <<>> THEN DecSemi(in, p0, Low(x[1]), sgn) ELSE DecLenWord(in, p0, TRUE) IN
         IF p0 > Len(in) THEN Fail ELSE
         IF p0 > pos /\ in[p0] = 1 THEN AnyR ELSE
         IF Good(r) THEN [r EXCEPT !.v = ToI9(r.v, sgn), !.n = r.n + p0 - pos] ELSE r
    [] k = "bool" -> IF pos + 1 > Len(in) THEN Fail ELSE Ok(in[pos+1], 1)
    [] k = "null" -> Ok(0, 0)
    [] k = "real" -> DecRealR(in, pos)
    [] k = "enum" -> LET r == DecNat(in, pos, 0, Len(t.items) - 1) IN IF Good(r) THEN [r EXCEPT !.v = EnumItem(t, r.v)] ELSE r
    [] k \in {"oct", "bits", "str"} ->
         LET s == SRange(t) al == IF k = "str" THEN Letters(t) ELSE {}
             w == CASE k = "oct" -> 8 [] k = "bits" -> 1 [] OTHER -> CharBits(al)
             r == IF w = 0 THEN (IF s[1] = s[2] THEN Ok(<<s[1], <<>>>>, 0)
                                 ELSE LET c == DecNat(in, pos, s[1], s[2]) IN MapV(c, <<c.v, <<>>>>))
                  ELSE DecSized(in, pos, w, s[1], s[2]) IN
         IF ~Good(r) THEN r ELSE
         CASE k = "oct" -> [r EXCEPT !.v = Bytes(r.v[2])]
           [] k = "bits" -> [r EXCEPT !.v = r.v[2]]
           [] OTHER -> LET so == TLCEval(Sorted(al))
                           ix == TLCEval([i \in 1..r.v[1] |-> BitsNat(SubSeq(r.v[2], (i-1)*w + 1, i*w))]) IN
                       IF ByCode(t, al) THEN (IF \E i \in 1..Len(ix) : ix[i] \notin al THEN Fail ELSE
                                           \* a NUL ends the string early in its C form
                                           IF \E i \in 1..Len(ix) : ix[i] = 0 THEN AnyR ELSE [r EXCEPT !.v = ix])
                       ELSE IF \E i \in 1..Len(ix) : ix[i] >= Len(so) THEN Fail ELSE [r EXCEPT !.v = [i \in 1..Len(ix) |-> so[ix[i]+1]]]
    [] k = "oid" -> DecOid(in, pos, FALSE)
    [] k = "roid" -> DecOid(in, pos, TRUE)
    [] k = "sof" ->
         LET s == SRange(t) IN
         IF s[2] >= 65536 THEN Rel(UDecFrag(t.t, in, pos, s[2], <<>>, "ok"), pos) ELSE
         LET c == IF s[1] = s[2] THEN Ok(s[1], 0) ELSE DecNat(in, pos, s[1], s[2]) IN
         IF ~Good(c) THEN c ELSE Rel(UDecN(t.t, in, pos + c.n, c.v, <<>>, c.st), pos)
    [] k = "choice" ->
         LET c == DecNat(in, pos, 0, Len(t.alts) - 1) IN
         IF ~Good(c) THEN c ELSE
         LET i == AltOf(t, c.v) r == TLCEval(UDec(t.alts[i], in, pos + c.n)) IN
         IF Good(r) THEN [r EXCEPT !.v = <<i, r.v>>, !.n = r.n + c.n] ELSE r
    [] OTHER ->
         LET opts == SelectSeq([i \in 1..Len(t.comps) |-> i], LAMBDA i : t.comps[i].o # "m")
             n == Len(opts) IN
         IF pos + n > Len(in) THEN Fail ELSE
         LET there == TLCEval([i \in 1..Len(t.comps) |-> t.comps[i].o = "m" \/ in[pos + Cardinality({j \in 1..n : opts[j] <= i})] = 1]) IN
         Rel(UDecSeq(t, in, pos + n, there, <<>>, "ok"), pos)
\* a decoder also refuses what is not a value of the type
UperDec(t, in) == LET r == TLCEval(UDec(t, in, 0)) IN IF Good(r) /\ ~Valid(t, r.v) THEN Fail ELSE r

------------------------------------------------------------------------------
(* the largest encoding *)
FragMax(n, w) == LET full == n \div (4*K16) rest == n % (4*K16) IN
                 n*w + 8*full + (IF rest >= K16 THEN 8 ELSE 0) + (IF rest % K16 > 127 THEN 16 ELSE 8)
SizedMax(min, max, w) == IF max < 65536 THEN (IF min = max THEN 0 ELSE NatLen(max - min)) + max*w ELSE FragMax(max, w)
RECURSIVE UMax(_)
UMax(t) ==
  LET k == t.k IN
  CASE k = "int" -> LET r == IRange(t) IN
                    (IF Extensible(t) THEN 1 ELSE 0) + (IF r[1] # <<>> /\ r[2] # <<>> THEN RangeBits(Low(r[1]), Low(r[2])) ELSE 72)
    [] k = "bool" -> 1
    [] k = "null" -> 0
    [] k = "real" -> 88
    [] k = "enum" -> NatLen(Len(t.items) - 1)
    [] k = "oct" -> SizedMax(SRange(t)[1], SRange(t)[2], 8)
    [] k = "bits" -> SizedMax(SRange(t)[1], SRange(t)[2], 1)
    [] k = "str" -> SizedMax(SRange(t)[1], SRange(t)[2], CharBits(Letters(t)))
    [] k \in {"oid", "roid"} -> 16 + 8 * (IF k = "oid" THEN 181 ELSE 200)
    [] k = "sof" -> SizedMax(SRange(t)[1], SRange(t)[2], UMax(t.t))
    [] k = "choice" -> NatLen(Len(t.alts) - 1) + MaxOf([i \in 1..Len(t.alts) |-> UMax(t.alts[i])], Len(t.alts))
    [] OTHER -> Sum([i \in 1..Len(t.comps) |-> UMax(t.comps[i].t) + (IF t.comps[i].o = "m" THEN 0 ELSE 1)], Len(t.comps))
=============================================================================
