------------------------------- MODULE AdaTrace -------------------------------
(* What generated Ada code did with octets: the value cannot be looked at from
   outside, but what it decodes to is known from the specification, and so is
   what every other codec, the validity check, the comparison and a second
   round of decoding have to make of that value. *)
EXTENDS Acn, Json, IOUtils

E == INSTANCE E2eTrace WITH i <- 0, bad <- ""
File == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Evs == File.ev

VARIABLES i, bad
vars == <<i, bad>>

\* o: what encoding the value v again gave, with codec o.c
OutWhy(o, t, v) ==
  LET A == o.c = "A"
      d == Deliver(t, v)
      open == A /\ (NoEncoding(t, v) \/ BadPx(t, v))
      as == [c |-> o.c, v |-> v, b |-> o.b, n |-> o.n]
      w == E!EncodedAs(as, t, d)
  IN CASE open -> ""
       [] o.ok # 1 -> IF A /\ E!Undetermined(t, v) THEN "" ELSE "a value that was decoded is refused by the encoder " \o o.c
       [] o.n > 8 * o.size -> "the encoding is larger than announced"
       [] w = "" -> ""
       [] OTHER -> "encoded again with " \o o.c \o ": " \o w
RECURSIVE OutsWhy(_, _, _, _)
OutsWhy(os, q, t, v) ==
  IF q > Len(os) THEN ""
  ELSE LET w == TLCEval(OutWhy(os[q], t, v)) IN IF w # "" THEN w ELSE OutsWhy(os, q + 1, t, v)
Refused(os) == \A q \in 1..Len(os) : os[q].ok = 0 /\ os[q].err = 1

DecWhy(e, t) ==
  LET r == TLCEval(E!DecOf(e, t, BytesToBits(e.b))) IN
  CASE r.st = "any" -> ""
    [] r.st = "fail" -> IF e.dec = 1 THEN "accepted input that is not an encoding of a value" ELSE ""
    [] e.dec = 0 -> IF r.st = "opt" THEN "" ELSE "refused a valid encoding"
    [] e.p # r.n -> "consumed the wrong number of bits"
    [] e.valid # 1 -> "the decoded value is called invalid"
    [] OTHER -> OutsWhy(e.outs, 1, t, r.v)
EqWhy(e, t) ==
  LET r == TLCEval(E!DecOf(e, t, BytesToBits(e.b)))
      q == TLCEval(E!DecOf(e, t, BytesToBits(e.d))) IN
  IF r.st # "ok" \/ q.st # "ok" THEN "" ELSE
  IF e.dec = 0 THEN "refused a valid encoding" ELSE
  E!EqWhy([v |-> r.v, w |-> q.v, eq |-> e.eq, eqr |-> e.eqr], t)
\* what the initial value is, is for the generated code to choose: one of the type
InitWhy(e, t) ==
  IF e.valid # 1 THEN "the initial value is not a value of the type"
  ELSE IF ~Refused(e.outs) /\ \E q \in 1..Len(e.outs) : e.outs[q].ok = 0 /\ e.outs[q].c = "U" THEN "the initial value cannot be encoded"
  ELSE LET bads == {q \in 1..Len(e.outs) : e.outs[q].ok = 1 /\ ~(e.outs[q].c = "A" /\ Ambiguous(t)) /\ LET r == E!DecOf(e.outs[q], t, BytesToBits(e.outs[q].b)) IN ~(r.st = "any" \/ (r.st \in {"ok", "opt"} /\ r.n = e.outs[q].n))}
       IN IF bads # {} THEN "the encoding of the initial value is not one of the type" ELSE ""
Why(e, t) ==
  CASE e.k = "T" -> DecWhy(e, t)
    [] e.k = "Q" -> EqWhy(e, t)
    [] e.k = "I" -> InitWhy(e, t)
    [] OTHER -> "the generated code did not return (" \o e.k \o ")"
Told(e) ==
  LET w == TLCEval(Why(e, File.types[e.t])) IN
  IF w = "" \/ File.alt[e.t] = <<>> THEN w ELSE IF Why(e, File.alt[e.t][1]) = "" THEN "ALT " \o w ELSE w

Init == i \in 1..Len(Evs) /\ bad = "?"
Next == /\ bad = "?"
        /\ bad' = Told(Evs[i]) /\ i' = i
        /\ (bad' # "" => PrintT(<<"BAD", i, bad'>>))
Spec == Init /\ [][Next]_vars
TypeOK == bad \in STRING
=============================================================================
