------------------------------ MODULE XerE2eTrace ------------------------------
(* What the generated XER encoders and decoders did, judged by reading the texts
   as X.693 documents of the type.  The name of the elements of a SEQUENCE OF is
   left open; wrapping an element in one more is allowed there.                *)
EXTENDS Asn1, Json, IOUtils
X == INSTANCE Xer

File == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Evs == File.ev
VARIABLES i, bad
vars == <<i, bad>>
R(st, v, p) == [st |-> st, v |-> v, p |-> p]
Bad == R("fail", <<>>, 0)
Dead(r) == r.st \in {"fail", "any"}
Code == TLCEval([c \in {X!Ch(File.chars, k) : k \in 1..127} |-> CHOOSE k \in 1..127 : X!Ch(File.chars, k) = c])
Codes(s) == [k \in 1..Len(s) |-> IF X!Ch(s, k) \in DOMAIN Code THEN Code[X!Ch(s, k)] ELSE 999]
Where(n, s) == CHOOSE k \in 1..Len(s) : s[k] = n
Sized(r, t, n) == LET z == SRange(t) IN IF n > z[2] \/ (z[1] = z[2] /\ n # z[1]) THEN Bad ELSE r

RECURSIVE XP(_,_,_,_)
RECURSIVE Comps(_,_,_,_,_,_,_)
RECURSIVE Items(_,_,_,_,_,_)
\* an element without its own tag, as in a SEQUENCE OF
Inner(t, in, p) ==
  LET n == X!NextName(in, p)
      bare == CASE t.k = "bool" -> n \in {"true", "false"} [] t.k = "enum" -> n \in Set(t.names) [] t.k = "choice" -> n \in Set(t.names) [] OTHER -> FALSE IN
  IF bare THEN XP(t, in, p, "") ELSE XP(t, in, p, n)
Named(r, names) == IF Dead(r) THEN r ELSE IF r.v \in Set(names) THEN [r EXCEPT !.v = Where(r.v, names)] ELSE Bad
XP(t, in, p, tag) ==
  LET k == t.k
      r == X!Elem(in, p, tag) IN
  CASE k = "bool" -> LET n == X!NameOf(in, p, tag) IN IF Dead(n) THEN n ELSE IF n.v = "true" THEN [n EXCEPT !.v = 1] ELSE IF n.v = "false" THEN [n EXCEPT !.v = 0] ELSE Bad
    [] k = "enum" -> Named(X!NameOf(in, p, tag), t.names)
    [] k = "choice" ->
         LET o == IF tag = "" THEN [st |-> "ok", p |-> p, e |-> FALSE, at |-> <<>>] ELSE X!Open(in, p, tag)
             n == X!NextName(in, o.p) IN
         IF Dead(o) THEN R(o.st, <<>>, 0) ELSE IF o.e \/ n \notin Set(t.names) THEN Bad ELSE
         LET q == Where(n, t.names) a == XP(t.alts[q], in, o.p, n) IN
         IF Dead(a) THEN a ELSE
         LET c == IF tag = "" THEN R("ok", <<>>, a.p) ELSE X!Close(in, a.p, tag) IN
         IF Dead(c) THEN c ELSE R(X!Soft(o.at # <<>>, X!Both(o.st, X!Both(a.st, c.st))), <<q, a.v>>, c.p)
    [] k = "seq" ->
         LET o == X!Open(in, p, tag) IN
         IF Dead(o) THEN R(o.st, <<>>, 0) ELSE IF o.e THEN (IF \A j \in 1..Len(t.comps) : t.comps[j].o # "m" THEN R("any", <<>>, 0) ELSE Bad) ELSE
         LET b == Comps(t, in, o.p, 1, <<>>, X!Soft(o.at # <<>>, o.st), tag) IN
         IF Dead(b) THEN b ELSE
         LET c == X!Close(in, b.p, tag) IN IF Dead(c) THEN c ELSE R(X!Both(b.st, c.st), b.v, c.p)
    [] k = "sof" ->
         LET o == X!Open(in, p, tag) IN
         IF Dead(o) THEN R(o.st, <<>>, 0) ELSE IF o.e THEN (IF SRange(t)[1] = 0 THEN R("any", <<>>, 0) ELSE Bad) ELSE
         LET b == Items(t, in, o.p, <<>>, X!Soft(o.at # <<>>, o.st), tag) IN IF Dead(b) THEN b ELSE Sized(b, t, Len(b.v))
    [] k = "real" -> X!RealOf(in, p, tag)
    [] Dead(r) -> r
    [] k = "null" -> [r EXCEPT !.v = 0, !.st = IF r.v # "" THEN "any" ELSE r.st]
    [] k = "int" -> LET u == X!NumberOf(r, FALSE) s == X!NumberOf(r, TRUE) IN
                    IF ~Dead(u) THEN [u EXCEPT !.v = <<0>> \o u.v] ELSE IF Dead(s) THEN s ELSE [s EXCEPT !.v = <<IF WIsNeg(s.v) THEN 255 ELSE 0>> \o s.v]
    [] k = "str" -> LET u == X!Unesc(r.v, 0, "") IN IF ~u.ok \/ Len(u.s) > SRange(t)[2] THEN Bad ELSE [r EXCEPT !.v = Codes(u.s)]
    [] k = "oct" -> LET o == X!OctetsOf(r, 1000000, FALSE) IN IF Dead(o) THEN o ELSE Sized(o, t, Len(o.v))
    [] k = "bits" -> LET o == X!BitsOf(r, 1000000) IN IF Dead(o) THEN o ELSE Sized(o, t, Len(o.v))
    [] OTHER -> X!OidOf(r)
Comps(t, in, p, j, acc, st, tag) ==
  IF j > Len(t.comps) THEN R(st, acc, p) ELSE
  LET m == t.comps[j]
      o == X!Open(in, p, m.n)
      here == ~Dead(o) \/ (o.st = "any") IN
  IF here THEN LET r == XP(m.t, in, p, m.n) IN
               IF Dead(r) THEN r ELSE
               Comps(t, in, r.p, j + 1, Append(acc, IF m.o = "d" THEN <<1, r.v>> ELSE <<r.v>>), X!Soft(o.at # <<>>, X!Both(st, r.st)), tag)
  ELSE IF m.o = "m" THEN Bad
  ELSE Comps(t, in, p, j + 1, Append(acc, IF m.o = "d" THEN <<0, m.d>> ELSE <<>>), st, tag)
Items(t, in, p, acc, st, tag) ==
  LET c == X!Close(in, p, tag) IN
  IF ~Dead(c) THEN R(X!Both(st, c.st), acc, c.p) ELSE
  IF Len(acc) > SRange(t)[2] THEN Bad ELSE
  LET r == Inner(t.t, in, p) IN
  IF Dead(r) THEN r ELSE Items(t, in, r.p, Append(acc, r.v), X!Both(st, r.st), tag)
\* a is what a text says (a REAL is a decimal number), b a value
RECURSIVE Says(_,_,_)
Says(t, a, b) ==
  CASE t.k = "real" -> X!RealIs(b, a)
    [] t.k = "sof" -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : Says(t.t, a[j], b[j])
    [] t.k = "choice" -> a[1] = b[1] /\ Says(t.alts[a[1]], a[2], b[2])
    [] t.k = "seq" -> \A j \in 1..Len(a) : LET m == t.comps[j] IN
                        CASE m.o = "m" -> Says(m.t, a[j][1], b[j][1])
                          [] m.o = "o" -> (a[j] = <<>>) = (b[j] = <<>>) /\ (a[j] # <<>> => Says(m.t, a[j][1], b[j][1]))
                          [] OTHER -> a[j][1] = b[j][1] /\ (IF a[j][1] = 1 THEN Says(m.t, a[j][2], b[j][2]) ELSE Exact(m.t, a[j][2], b[j][2]))
    [] OTHER -> a = b
EncWhy(e, t) ==
  IF ~Valid(t, e.v) THEN (IF e.enc = 1 THEN "an invalid value was encoded" ELSE "") ELSE
  IF e.enc # 1 THEN "a value of the type was refused by the encoder" ELSE
  LET d == Deliver(t, e.v) r == TLCEval(XP(t, e.s, 0, e.tag)) IN
  CASE e.err # 0 -> "an error code for a successful encoding"
    [] r.st = "any" -> ""
    [] r.st = "fail" -> "the text is not a document of this type"
    [] r.p # Len(e.s) -> "there is something behind the document"
    [] ~Says(t, r.v, d) -> "the text denotes another value"
    [] e.dec # 1 -> "the decoder refuses the encoder's output"
    [] e.p # e.n -> "the decoder consumed the wrong amount of text"
    [] ~Exact(t, e.dv, d) -> "decoding does not give the value back"
    [] OTHER -> ""
DecWhy(e, t) ==
  LET r == TLCEval(XP(t, e.s, 0, e.tag)) IN
  CASE r.st = "any" -> ""
    [] r.st = "fail" -> IF e.dec = 1 THEN "accepted a text that is no document of this type" ELSE IF e.err = 0 THEN "no error code from the decoder" ELSE ""
    [] e.dec = 0 -> IF r.st = "opt" \/ Has(t, {"real", "sof"}) THEN "" ELSE IF Valid(t, r.v) THEN "refused a valid document" ELSE ""
    [] ~Says(t, r.v, e.dv) -> IF Has(t, {"real"}) THEN "wrong value" ELSE IF Valid(t, r.v) THEN "wrong value" ELSE ""
    [] e.p # r.p -> "consumed the wrong amount of text"
    [] OTHER -> ""
Why(e, t) ==
  CASE e.k = "E" -> EncWhy(e, t)
    [] e.k = "D" -> DecWhy(e, t)
    [] OTHER -> "the generated code did not return (" \o e.k \o ")"
Told(e) ==
  LET w == TLCEval(Why(e, File.types[e.t])) IN
  IF w = "" \/ File.alt[e.t] = <<>> THEN w ELSE IF Why(e, File.alt[e.t][1]) = "" THEN "ALT " \o w ELSE w
Init == i \in 1..Len(Evs) /\ bad = "?"
Next == /\ bad = "?"
        /\ bad' = Told(Evs[i]) /\ i' = i
        /\ (bad' # "" => PrintT(<<"BAD", i, bad'>>))
Spec == Init /\ [][Next]_vars
TypeOK == bad \in STRING
=============================================================================
