-------------------------------- MODULE Acn --------------------------------
(* ACN: the wire format a schema designer lays down next to the ASN.1 schema.

   t.acn describes how a type is encoded (lib/acn.py writes it together with
   the ACN text it stands for):
     al      alignment in bits before the type (0: none)
     int     sg a signed field whatever its type;  enc "" (as uPER) "pos" "two" "asc" "bcd";  sz bits (0: until term);  le little endian;  mf mapping function
     enum    the same;  ev: the values are encoded, not the indices;  vals: the values, where ACN renames them
     real    enc "" "32" "64", le
     bool    tv, fv patterns of TRUE and FALSE (<<>>: the complement of the other one)
     null    pat
     str     asc;  det: the field that holds the length (0: none);  term: what ends the string
     oct bits sof   det, term
     choice  det and em[i] (the value of det for alternative i), or pw[i] a list of <<field, value>>
     seq     ch: the fields in wire order, each a component (c) or a field inserted by ACN (t, d its number);
             pw: the field that says whether the component is there (0: a bit in front), px: an expression that does
   Fields are numbered throughout the type.  env maps numbers to values. *)
EXTENDS Asn1

Props(t) == t.acn
I9S(n) == IF n >= 0 THEN I9(n) ELSE IInc(LET x == I9(0-n) IN [i \in 1..9 |-> 255 - x[i]])
PadTo(al, pos) == IF al = 0 THEN <<>> ELSE Zeros(AlignUp(pos, al) - pos)
Unsigned(t) == t.acn.sg = 0 /\ LET r == IRange(t) IN r[1] # <<>> /\ r[1][1] = 0

------------------------------------------------------------------------------
(* numbers *)
NumBits(p, un, v) ==
  CASE p.enc \in {"pos", "two"} -> IF p.le = 1 THEN RevOctets(WLow(v, p.sz)) ELSE WLow(v, p.sz)
    [] p.enc = "asc" -> IF p.sz = 0 THEN Enc([op |-> IF un THEN "auascnul" ELSE "asascnul", v |-> v, d |-> p.term])
                        ELSE Enc([op |-> IF un THEN "auasc" ELSE "asasc", v |-> v, n |-> p.sz \div 8])
    [] OTHER -> IF p.sz = 0 THEN Enc([op |-> "abcdnul", v |-> v]) ELSE Enc([op |-> "abcd", v |-> v, n |-> p.sz \div 4])
NumDec(p, un, in, pos) ==
  CASE p.enc \in {"pos", "two"} ->
         IF pos + p.sz > Len(in) THEN Fail ELSE
         LET b == IF p.le = 1 THEN RevOctets(Bits(in, pos, p.sz)) ELSE Bits(in, pos, p.sz) IN
         Ok(IF p.enc = "two" THEN BitsWS(b) ELSE BitsW(b), p.sz)
    [] p.enc = "asc" -> IF p.sz = 0 THEN Dec([op |-> IF un THEN "auascnul" ELSE "asascnul", d |-> p.term], in, pos)
                        ELSE Dec([op |-> IF un THEN "auasc" ELSE "asasc", n |-> p.sz \div 8], in, pos)
    [] OTHER -> IF p.sz = 0 THEN Dec([op |-> "abcdnul"], in, pos) ELSE Dec([op |-> "abcd", n |-> p.sz \div 4], in, pos)
Mil(v) == IF v = W(32) THEN W0 ELSE v
MilInv(v) == IF v = W0 THEN W(32) ELSE v
MapFn(p, v) == IF p.mf = "milbus" THEN Mil(v) ELSE v
MapInv(p, v) == IF p.mf = "milbus" THEN MilInv(v) ELSE v
MapInt(p, v) == IF p.mf = "milbus" THEN <<0>> \o Mil(Low(v)) ELSE v
\* a number that stands for item i of an enumeration
EnumNum(t, i) == IF t.acn.ev = 0 THEN I9(i - 1) ELSE IF t.acn.vals # <<>> THEN t.acn.vals[i] ELSE I9S(EnumVals(t)[i])
EnumNums(t) == TLCEval([i \in 1..Len(t.items) |-> EnumNum(t, i)])
EnumLo(t) == LET s == EnumNums(t) IN FoldLeft(LAMBDA a, x : IF ILt(x, a) THEN x ELSE a, s[1], s)
EnumHi(t) == LET s == EnumNums(t) IN FoldLeft(LAMBDA a, x : IF ILt(a, x) THEN x ELSE a, s[1], s)

(* IEEE 754 single precision *)
FBits(w) ==
  IF DIsNan(w) THEN <<0>> \o Rep(1, 8) \o <<1>> \o Zeros(22) ELSE
  IF DIsInf(w) THEN <<DSign(w)>> \o Rep(1, 8) \o Zeros(23) ELSE
  LET x == DVal(w) l == Len(x[2]) top == x[3] + l - 1 IN
  IF x[2] = <<>> THEN <<DSign(w)>> \o Zeros(31) ELSE
  IF top >= -126 THEN <<x[1]>> \o NatBits(top + 127, 8) \o Drop(x[2], 1) \o Zeros(24 - l)
  ELSE <<x[1]>> \o Zeros(8) \o Zeros(23 - l - (x[3] + 149)) \o x[2] \o Zeros(x[3] + 149)
FWord(b) ==
  LET e == BitsNat(SubSeq(b, 2, 9)) m == SubSeq(b, 10, 32) IN
  IF e = 255 THEN (IF \E i \in 1..23 : m[i] = 1 THEN NanWord ELSE <<IF b[1] = 1 THEN 255 ELSE 127, 240, 0,0,0,0,0,0>>)
  ELSE DWord(LET x == IF e = 0 THEN Norm(b[1], m, -149) ELSE Norm(b[1], <<1>> \o m, e - 150) IN <<b[1], x[2], x[3]>>)

------------------------------------------------------------------------------
(* what the fields inserted by ACN have to hold, for a value *)
RECURSIVE Defs(_)
Defs(t) ==
  CASE t.k = "sof" -> Defs(t.t)
    [] t.k = "choice" -> UNION {Defs(t.alts[i]) : i \in 1..Len(t.alts)}
    [] t.k = "seq" -> UNION {LET c == t.acn.ch[i] IN IF c.c = 0 THEN {c.d} ELSE Defs(t.comps[c.c].t) : i \in 1..Len(t.acn.ch)}
    [] OTHER -> {}
Present(m, cv) == m.o = "m" \/ (IF m.o = "o" THEN cv # <<>> ELSE cv[1] = 1)
CVal(m, cv) == IF m.o = "d" THEN cv[2] ELSE cv[1]
RECURSIVE Dets(_,_)
Dets(t, v) ==
  LET k == t.k p == t.acn
      size == IF p.det # 0 THEN << <<p.det, I9(Len(v))>> >> ELSE <<>> IN
  CASE k \in {"oct", "bits", "str"} -> size
    [] k = "sof" -> LET ds == Defs(t.t) IN
                    size \o SelectSeq(Flat([i \in 1..Len(v) |-> Dets(t.t, v[i])]), LAMBDA x : x[1] \notin ds)
    [] k = "choice" -> (IF p.det # 0 THEN << <<p.det, p.em[v[1]]>> >> ELSE IF p.pw # <<>> THEN p.pw[v[1]] ELSE <<>>) \o Dets(t.alts[v[1]], v[2])
    [] k = "seq" -> Flat([i \in 1..Len(p.ch) |-> LET c == p.ch[i] IN
                      IF c.c = 0 THEN <<>> ELSE
                      LET m == t.comps[c.c] cv == v[c.c] h == Present(m, cv) IN
                      (IF c.pw # 0 THEN << <<c.pw, IF h THEN 1 ELSE 0>> >> ELSE <<>>) \o (IF h THEN Dets(m.t, CVal(m, cv)) ELSE <<>>)])
    [] OTHER -> <<>>
NoEnv == [x \in {} |-> 0]
EnvOf(ps) == FoldLeft(LAMBDA e, x : (x[1] :> x[2]) @@ e, NoEnv, ps)
Clash(ps) == \E i, j \in 1..Len(ps) : ps[i][1] = ps[j][1] /\ ps[i][2] # ps[j][2]
\* two users of one field that need different values of it
RECURSIVE Clashes(_,_)
Clashes(t, v) ==
  CASE t.k = "sof" -> \E i \in 1..Len(v) : Clash(SelectSeq(Dets(t.t, v[i]), LAMBDA x : x[1] \in Defs(t.t))) \/ Clashes(t.t, v[i])
    [] t.k = "choice" -> Clashes(t.alts[v[1]], v[2])
    [] t.k = "seq" -> \E i \in 1..Len(t.comps) : Present(t.comps[i], v[i]) /\ Clashes(t.comps[i].t, CVal(t.comps[i], v[i]))
    [] OTHER -> FALSE
NoEncoding(t, v) == Clash(Dets(t, v)) \/ Clashes(t, v)

------------------------------------------------------------------------------
(* expressions over the components of a sequence: numbers only *)
RECURSIVE Ex(_,_,_)
Ex(e, t, v) ==
  CASE e.o = "n" -> e.n
    [] e.o = "f" -> LET m == t.comps[e.i] x == CVal(m, v[e.i]) IN IF m.t.k = "bool" THEN x ELSE INat(x)
    [] e.o = "!" -> 1 - Ex(e.a, t, v)
    [] OTHER -> LET a == Ex(e.a, t, v) b == Ex(e.b, t, v) tf(x) == IF x THEN 1 ELSE 0 IN
       CASE e.o = "+" -> a + b [] e.o = "-" -> a - b [] e.o = "*" -> a * b [] e.o = "%" -> a % b
         [] e.o = "<" -> tf(a < b) [] e.o = "<=" -> tf(a <= b) [] e.o = ">" -> tf(a > b) [] e.o = ">=" -> tf(a >= b)
         [] e.o = "==" -> tf(a = b) [] e.o = "!=" -> tf(a # b)
         [] e.o = "and" -> tf(a = 1 /\ b = 1) [] OTHER -> tf(a = 1 \/ b = 1)
\* components whose presence an expression decides, and decides otherwise
RECURSIVE BadPx(_,_)
BadPx(t, v) ==
  CASE t.k = "sof" -> \E i \in 1..Len(v) : BadPx(t.t, v[i])
    [] t.k = "choice" -> BadPx(t.alts[v[1]], v[2])
    [] t.k = "seq" -> \E i \in 1..Len(t.acn.ch) : LET c == t.acn.ch[i] IN c.c # 0 /\
                        LET m == t.comps[c.c] h == Present(m, v[c.c]) IN
                        \/ c.px # <<>> /\ h # (Ex(c.px[1], t, v) = 1)
                        \/ h /\ BadPx(m.t, CVal(m, v[c.c]))
    [] OTHER -> FALSE

------------------------------------------------------------------------------
(* encoding; an inserted field that nothing determines is a 2 *)
Items(bits, n, min, max, p) ==      \* n items, already encoded
  (IF p.det # 0 \/ p.term # <<>> \/ min = max THEN <<>> ELSE EncNat(n, min, max)) \o bits \o p.term
RECURSIVE AEnc(_,_,_,_)
RECURSIVE ABody(_,_,_,_)
RECURSIVE AElems(_,_,_,_,_)
RECURSIVE AFields(_,_,_,_,_,_)
AEnc(t, v, env, pos) == LET pad == PadTo(t.acn.al, pos) IN pad \o TLCEval(ABody(t, v, env, pos + Len(pad)))
\* elements from the i-th on
AElems(t, v, i, env, pos) ==
  IF i > Len(v) THEN <<>> ELSE
  LET b == TLCEval(AEnc(t.t, v[i], EnvOf(Dets(t.t, v[i])) @@ env, pos)) IN b \o AElems(t, v, i + 1, env, pos + Len(b))
AFields(t, v, i, env, pos, acc) ==
  IF i > Len(t.acn.ch) THEN acc ELSE
  LET c == t.acn.ch[i] p == pos + Len(acc)
      b == IF c.c # 0 THEN LET m == t.comps[c.c] IN (IF Present(m, v[c.c]) THEN AEnc(m.t, CVal(m, v[c.c]), env, p) ELSE <<>>)
           ELSE IF c.t.k = "null" THEN AEnc(c.t, 0, env, p)
           ELSE IF c.d \notin DOMAIN env THEN <<2>> ELSE AEnc(c.t, env[c.d], env, p) IN
  AFields(t, v, i + 1, env, pos, acc \o TLCEval(b))
ABody(t, v, env, pos) ==
  LET k == t.k p == t.acn IN
  CASE k = "int" -> IF p.enc = "" THEN Uper(t, MapInt(p, v)) ELSE NumBits(p, Unsigned(t), MapFn(p, Low(v)))
    [] k = "enum" -> IF p.enc # "" THEN NumBits(p, p.ev = 0 \/ EnumLo(t)[1] = 0, Low(EnumNum(t, v)))
                     ELSE EncCons(Low(EnumNum(t, v)), Low(EnumLo(t)), Low(EnumHi(t)))
    [] k = "real" -> CASE p.enc = "" -> Uper(t, v)
                       [] p.enc = "32" -> IF p.le = 1 THEN RevOctets(FBits(v)) ELSE FBits(v)
                       [] OTHER -> LET b == OctBits(v) IN IF p.le = 1 THEN RevOctets(b) ELSE b
    [] k = "bool" -> IF v = 1 THEN (IF p.tv # <<>> THEN p.tv ELSE IF p.fv # <<>> THEN Inv(p.fv) ELSE <<1>>)
                     ELSE (IF p.fv # <<>> THEN p.fv ELSE IF p.tv # <<>> THEN Inv(p.tv) ELSE <<0>>)
    [] k = "null" -> p.pat
    [] k = "oct" -> Items(OctBits(v), Len(v), SRange(t)[1], SRange(t)[2], p)
    [] k = "bits" -> Items(v, Len(v), SRange(t)[1], SRange(t)[2], p)
    [] k = "str" -> LET s == SRange(t) al == Letters(t) IN
                    IF p.asc = 1 THEN Items(OctBits(v), Len(v), s[1], s[2], p)
                    ELSE Items(EncChars(t, al, v), Len(v), s[1], s[2], p)
    [] k = "sof" -> LET s == SRange(t) pre == IF p.det # 0 \/ p.term # <<>> \/ s[1] = s[2] THEN <<>> ELSE EncNat(Len(v), s[1], s[2]) IN
                    pre \o AElems(t, v, 1, env, pos + Len(pre)) \o p.term
    [] k = "choice" -> LET pre == IF p.det # 0 \/ p.pw # <<>> THEN <<>> ELSE EncNat(AltIndex(t, v[1]), 0, Len(t.alts) - 1) IN
                       pre \o AEnc(t.alts[v[1]], v[2], env, pos + Len(pre))
    [] k = "seq" -> LET mask == Flat([i \in 1..Len(p.ch) |-> LET c == p.ch[i] IN
                                  IF c.c = 0 THEN <<>> ELSE IF t.comps[c.c].o = "m" \/ c.pw # 0 \/ c.px # <<>> THEN <<>>
                                  ELSE <<IF Present(t.comps[c.c], v[c.c]) THEN 1 ELSE 0>>]) IN
                    AFields(t, v, 1, env, pos, mask)
    [] OTHER -> Uper(t, v)
Acn(t, v) == AEnc(t, v, EnvOf(Dets(t, v)), 0)

------------------------------------------------------------------------------
(* decoding: .n is where the reading ends, .env what is known then *)
OkA(v, n, env) == [st |-> "ok", v |-> v, n |-> n, env |-> env]
WithEnv(r, env) == [st |-> r.st, v |-> r.v, n |-> r.n, env |-> env]
\* a leaf read at pos, with a relative length
At(r, pos, env) == [st |-> r.st, v |-> r.v, n |-> IF Good(r) THEN pos + r.n ELSE 0, env |-> env]
RECURSIVE ADec(_,_,_,_)
RECURSIVE ABack(_,_,_,_)
RECURSIVE ADElems(_,_,_,_,_,_)
RECURSIVE ADTerm(_,_,_,_,_,_,_)
RECURSIVE ADFields(_,_,_,_,_,_,_,_)
ADec(t, in, pos, env) ==
  LET a == IF t.acn.al = 0 THEN pos ELSE AlignUp(pos, t.acn.al) IN
  IF a > Len(in) THEN At(Fail, 0, env) ELSE ABack(t, in, a, env)
ADElems(t, in, pos, n, env, acc) ==
  IF n = 0 THEN acc ELSE
  LET r == TLCEval(ADec(t.t, in, acc.n, env)) IN
  IF ~Good(r) THEN r ELSE ADElems(t, in, pos, n - 1, env, [st |-> Lax(acc.st, r.st), v |-> Append(acc.v, r.v), n |-> r.n, env |-> env])
\* elements up to the pattern
ADTerm(t, in, pos, max, term, env, acc) ==
  IF acc.n + Len(term) <= Len(in) /\ Bits(in, acc.n, Len(term)) = term THEN [acc EXCEPT !.n = acc.n + Len(term)] ELSE
  IF Len(acc.v) >= max THEN At(Fail, 0, env) ELSE
  LET r == TLCEval(ADec(t.t, in, acc.n, env)) IN
  IF ~Good(r) THEN r ELSE ADTerm(t, in, pos, max, term, env, [st |-> Lax(acc.st, r.st), v |-> Append(acc.v, r.v), n |-> r.n, env |-> env])
\* the fields from the i-th on; bit: where the next presence bit is
ADFields(t, in, i, bit, vs, st, n, env) ==
  IF i > Len(t.acn.ch) THEN [st |-> st, v |-> vs, n |-> n, env |-> env] ELSE
  LET c == t.acn.ch[i] IN
  IF c.c = 0 THEN
    LET r == TLCEval(ADec(c.t, in, n, env)) IN
    IF ~Good(r) THEN r ELSE ADFields(t, in, i + 1, bit, vs, Lax(st, r.st), r.n, IF c.t.k = "null" THEN env ELSE (c.d :> r.v) @@ env)
  ELSE
  LET m == t.comps[c.c]
      own == m.o # "m" /\ c.pw = 0 /\ c.px = <<>>
      there == CASE m.o = "m" -> TRUE [] c.pw # 0 -> env[c.pw] = 1 [] c.px # <<>> -> Ex(c.px[1], t, vs) = 1 [] OTHER -> in[bit + 1] = 1
      bit2 == IF own THEN bit + 1 ELSE bit IN
  IF ~there THEN ADFields(t, in, i + 1, bit2, [vs EXCEPT ![c.c] = IF m.o = "d" THEN <<0, m.d>> ELSE <<>>], st, n, env) ELSE
  LET r == TLCEval(ADec(m.t, in, n, env)) IN
  IF ~Good(r) THEN r ELSE
  ADFields(t, in, i + 1, bit2, [vs EXCEPT ![c.c] = IF m.o = "d" THEN <<1, r.v>> ELSE <<r.v>>], Lax(st, r.st), r.n, r.env)
\* how many items: from a field, an own length, or fixed
Count(p, in, pos, min, max, env) ==
  IF p.det # 0 THEN (LET n == INat(env[p.det]) IN IF n < min \/ n > max THEN Fail ELSE Ok(n, 0))
  ELSE IF min = max THEN Ok(min, 0) ELSE DecNat(in, pos, min, max)
ABack(t, in, pos, env) ==
  LET k == t.k p == t.acn
      need(n, v) == IF pos + n > Len(in) THEN At(Fail, 0, env) ELSE OkA(v, pos + n, env) IN
  CASE k = "int" ->
         IF p.enc = "" THEN LET r == UDec(t, in, pos) IN At(IF Good(r) /\ p.mf # "" THEN [r EXCEPT !.v = <<0>> \o MapInv(p, Low(r.v))] ELSE r, pos, env)
         ELSE LET un == Unsigned(t) r == NumDec(p, un, in, pos) IN At(IF Good(r) THEN [r EXCEPT !.v = ToI9(MapInv(p, r.v), ~un)] ELSE r, pos, env)
    [] k = "enum" ->
         LET un == p.ev = 0 \/ EnumLo(t)[1] = 0
             r == IF p.enc # "" THEN NumDec(p, un, in, pos)
                  ELSE DecCons(in, pos, Low(EnumLo(t)), Low(EnumHi(t)))
             hit == IF Good(r) THEN {i \in 1..Len(t.items) : Low(EnumNums(t)[i]) = r.v} ELSE {} IN
         IF ~Good(r) THEN At(r, pos, env) ELSE IF hit = {} THEN At(Fail, 0, env) ELSE At([r EXCEPT !.v = CHOOSE i \in hit : TRUE], pos, env)
    [] k = "real" ->
         CASE p.enc = "" -> At(UDec(t, in, pos), pos, env)
           [] p.enc = "32" -> need(32, LET b == Bits(in, pos, 32) IN FWord(IF p.le = 1 THEN RevOctets(b) ELSE b))
           [] OTHER -> need(64, LET b == Bits(in, pos, 64) IN Bytes(IF p.le = 1 THEN RevOctets(b) ELSE b))
    [] k = "bool" ->
         LET n == IF p.tv # <<>> THEN Len(p.tv) ELSE IF p.fv # <<>> THEN Len(p.fv) ELSE 1 IN
         IF pos + n > Len(in) THEN At(Fail, 0, env) ELSE
         LET b == Bits(in, pos, n) IN
         IF p.tv # <<>> /\ p.fv # <<>> THEN (IF b = p.tv THEN OkA(1, pos + n, env) ELSE IF b = p.fv THEN OkA(0, pos + n, env) ELSE At(Fail, 0, env))
         ELSE IF p.tv # <<>> THEN OkA(IF b = p.tv THEN 1 ELSE 0, pos + n, env)
         ELSE IF p.fv # <<>> THEN OkA(IF b = p.fv THEN 0 ELSE 1, pos + n, env)
         ELSE OkA(b[1], pos + n, env)
    [] k = "null" -> LET n == Len(p.pat) IN
         IF pos + n > Len(in) \/ Bits(in, pos, n) # p.pat THEN At(Fail, 0, env) ELSE OkA(0, pos + n, env)
    [] k \in {"oct", "bits", "str"} ->
         LET s == SRange(t) al == IF k = "str" THEN Letters(t) ELSE {}
             w == CASE k = "oct" -> 8 [] k = "bits" -> 1 [] OTHER -> IF p.asc = 1 THEN 8 ELSE CharBits(al) IN
         IF p.term # <<>> THEN
           (IF k = "bits" THEN
              LET j == BitTermAt(in, pos, p.term, s[2], 0) IN
              IF j < 0 THEN At(Fail, 0, env) ELSE OkA(Bits(in, pos, j), pos + j + Len(p.term), env)
            ELSE LET j == TermAt(in, pos, p.term, 0) IN
              LET b == Bytes(Bits(in, pos, 8*j)) IN
              IF j < 0 \/ j > s[2] THEN At(Fail, 0, env)
              ELSE IF k = "str" /\ \E i \in 1..j : b[i] = 0 \/ b[i] > 127 THEN At(AnyR, 0, env)
              ELSE OkA(b, pos + 8*j + Len(p.term), env))
         ELSE
         LET c == Count(p, in, pos, s[1], s[2], env) IN
         IF ~Good(c) THEN At(c, pos, env) ELSE
         LET a == pos + c.n e == a + w * c.v IN
         IF e > Len(in) THEN At(Fail, 0, env) ELSE
         LET b == Bits(in, a, w * c.v) IN
         IF k = "oct" THEN OkA(Bytes(b), e, env) ELSE IF k = "bits" THEN OkA(b, e, env) ELSE
         LET so == TLCEval(Sorted(al)) ix == TLCEval([i \in 1..c.v |-> BitsNat(SubSeq(b, (i-1)*w + 1, i*w))]) IN
         IF p.asc = 1 \/ ByCode(t, al) THEN (IF \E i \in 1..c.v : ix[i] = 0 \/ ix[i] > 127 THEN At(AnyR, 0, env)
                                             ELSE IF \E i \in 1..c.v : ix[i] \notin al THEN At(Fail, 0, env) ELSE OkA(ix, e, env))
         ELSE IF \E i \in 1..c.v : ix[i] >= Len(so) THEN At(Fail, 0, env) ELSE OkA([i \in 1..c.v |-> so[ix[i]+1]], e, env)
    [] k = "sof" ->
         LET s == SRange(t) IN
         IF p.term # <<>> THEN ADTerm(t, in, pos, s[2], p.term, env, OkA(<<>>, pos, env)) ELSE
         LET c == Count(p, in, pos, s[1], s[2], env) IN
         IF ~Good(c) THEN At(c, pos, env) ELSE ADElems(t, in, pos, c.v, env, OkA(<<>>, pos + c.n, env))
    [] k = "choice" ->
         LET own == p.det = 0 /\ p.pw = <<>>
             c == IF own THEN DecNat(in, pos, 0, Len(t.alts) - 1) ELSE Ok(0, 0) IN
         IF ~Good(c) THEN At(c, pos, env) ELSE
         LET hit == IF own THEN {AltOf(t, c.v)} ELSE
                    IF p.det # 0 THEN {i \in 1..Len(t.alts) : p.em[i] = env[p.det]}
                    ELSE {i \in 1..Len(t.alts) : \A j \in 1..Len(p.pw[i]) : env[p.pw[i][j][1]] = p.pw[i][j][2]} IN
         IF hit = {} THEN At(Fail, 0, env) ELSE
         LET i == CHOOSE x \in hit : \A y \in hit : x <= y r == TLCEval(ADec(t.alts[i], in, pos + c.n, env)) IN
         IF Good(r) THEN [r EXCEPT !.v = <<i, r.v>>] ELSE r
    [] k = "seq" ->
         LET n == Cardinality({i \in 1..Len(p.ch) : LET c == p.ch[i] IN c.c # 0 /\ c.pw = 0 /\ c.px = <<>> /\ t.comps[c.c].o # "m"}) IN
         IF pos + n > Len(in) THEN At(Fail, 0, env) ELSE
         ADFields(t, in, 1, pos, [i \in 1..Len(t.comps) |-> <<>>], "ok", pos + n, env)
    [] OTHER -> At(UDec(t, in, pos), pos, env)
AcnDec(t, in) == LET r == TLCEval(ADec(t, in, 0, NoEnv)) IN
                 IF Good(r) /\ ~Valid(t, r.v) THEN Fail ELSE [st |-> r.st, v |-> r.v, n |-> r.n]

------------------------------------------------------------------------------
\* a terminator: contents that contain it do not come back
RECURSIVE Ambiguous(_)
Ambiguous(t) ==
  CASE t.k \in {"oct", "bits", "str"} -> t.acn.term # <<>>
    [] t.k = "sof" -> t.acn.term # <<>> \/ Ambiguous(t.t)
    [] t.k = "choice" -> \E i \in 1..Len(t.alts) : Ambiguous(t.alts[i])
    [] t.k = "seq" -> \E i \in 1..Len(t.comps) : Ambiguous(t.comps[i].t)
    [] OTHER -> FALSE
\* a value that single precision does not keep
RECURSIVE Rounds(_,_)
Rounds(t, v) ==
  CASE t.k = "real" -> t.acn.enc = "32" /\ ~FRep(v)
    [] t.k = "sof" -> \E i \in 1..Len(v) : Rounds(t.t, v[i])
    [] t.k = "choice" -> Rounds(t.alts[v[1]], v[2])
    [] t.k = "seq" -> \E i \in 1..Len(t.comps) : Present(t.comps[i], v[i]) /\ Rounds(t.comps[i].t, CVal(t.comps[i], v[i]))
    [] OTHER -> FALSE

(* a size some value reaches (alignment not counted) *)
NumMax(p, un, r) ==
  IF p.sz # 0 THEN p.sz ELSE
  LET top == IF r[2] # <<>> THEN Low(r[2]) ELSE <<127,255,255,255,255,255,255,255>>
      d == Max2(1, Len(DecDigits(IF WIsNeg(top) /\ ~un THEN WNeg(top) ELSE top))) IN
  IF p.enc = "bcd" THEN 4*d + 4 ELSE 8*d + 8*Len(p.term) + (IF un THEN 0 ELSE 8)
RECURSIVE AMax(_)
ItemsMax(t, w) == LET s == SRange(t) p == t.acn IN
                  (IF p.det # 0 \/ p.term # <<>> \/ s[1] = s[2] THEN 0 ELSE NatLen(s[2] - s[1])) + w * s[2] + Len(p.term)
AMax(t) ==
  LET k == t.k p == t.acn IN
  CASE k = "int" -> IF p.enc = "" THEN UMax(t) ELSE NumMax(p, Unsigned(t), IRange(t))
    [] k = "enum" -> IF p.enc = "" THEN (IF p.ev = 0 THEN UMax(t) ELSE RangeBits(Low(EnumLo(t)), Low(EnumHi(t))))
                     ELSE IF p.sz # 0 THEN p.sz ELSE 8
    [] k = "real" -> CASE p.enc = "" -> UMax(t) [] p.enc = "32" -> 32 [] OTHER -> 64
    [] k = "bool" -> Max2(1, Max2(Len(p.tv), Len(p.fv)))
    [] k = "null" -> Len(p.pat)
    [] k = "oct" -> ItemsMax(t, 8)
    [] k = "bits" -> ItemsMax(t, 1)
    [] k = "str" -> ItemsMax(t, IF p.asc = 1 THEN 8 ELSE CharBits(Letters(t)))
    [] k = "sof" -> ItemsMax(t, AMax(t.t))
    [] k = "choice" -> (IF p.det # 0 \/ p.pw # <<>> THEN 0 ELSE NatLen(Len(t.alts) - 1)) + MaxOf([i \in 1..Len(t.alts) |-> AMax(t.alts[i])], Len(t.alts))
    [] k = "seq" -> Sum([i \in 1..Len(p.ch) |-> LET c == p.ch[i] IN
                        IF c.c = 0 THEN AMax(c.t)
                        ELSE AMax(t.comps[c.c].t) + (IF t.comps[c.c].o = "m" \/ c.pw # 0 \/ c.px # <<>> THEN 0 ELSE 1)], Len(p.ch))
    [] OTHER -> UMax(t)
=============================================================================
