------------------------------- MODULE E2eTrace -------------------------------
(* What generated code did with values and inputs of a schema's types, judged
   by the type system and the codecs of Asn1 / Acn.  Every event is one step. *)
EXTENDS Acn, Json, IOUtils

File == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Evs == File.ev
\* what is judged: "valid", "codec", "size", "equal" or "all"
Aspect == IOEnv.ASPECT
Judge(a) == Aspect \in {a, "all"}

VARIABLES i, bad
vars == <<i, bad>>

EncOf(e, t) == IF e.c = "A" THEN Acn(t, e.v) ELSE Uper(t, e.v)
DecOf(e, t, in) == IF e.c = "A" THEN AcnDec(t, in) ELSE UperDec(t, in)
\* the same value, as far as the encoding keeps it (single precision)
Back(e, t, x, d) == Exact(t, x, d) \/ (e.c = "A" /\ Rounds(t, e.v))
\* bits that are not determined: a REAL has more than one encoding, a length nothing uses has any value
Loose(e, t, x) == Has(t, {"real"}) \/ \E q \in 1..Len(x) : x[q] = 2
\* an inserted field nothing determines is of any length: a 2 in the middle
EncodedAs(e, t, d) ==
  LET x == TLCEval(EncOf(e, t)) IN
  IF Loose(e, t, x) THEN      \* what is written is read back by the specification
    LET r == TLCEval(DecOf(e, t, BytesToBits(e.b))) IN
    IF r.st = "any" THEN "" ELSE
    IF ~Good(r) THEN "the encoding has wrong bits" ELSE
    IF r.n # e.n THEN "the encoding has the wrong size" ELSE
    IF ~Back(e, t, r.v, d) THEN "the encoding has wrong bits" ELSE ""
  ELSE
    IF e.n # Len(x) THEN "the encoding has the wrong size" ELSE
    IF e.b # BitsToBytes(x) THEN "the encoding has wrong bits" ELSE
    LET r == DecOf(e, t, BytesToBits(e.b)) IN      \* the specification agrees with itself
    IF ~(e.c = "A" /\ Ambiguous(t)) /\ (r.st \notin {"ok", "any"} \/ (r.st = "ok" /\ (~Exact(t, r.v, d) \/ r.n # Len(x))))
    THEN "SPEC: decoding is not the inverse of encoding" ELSE ""
\* the encoder may refuse a value that leaves an inserted field open
Undetermined(t, v) == LET x == Acn(t, v) IN \E q \in 1..Len(x) : x[q] = 2
\* the decoder has to give the value back
ComesBack(e, t, d) ==
  IF e.c = "A" /\ Ambiguous(t) THEN LET r == TLCEval(DecOf(e, t, BytesToBits(e.b))) IN r.st = "ok" /\ r.n = e.n /\ Exact(t, r.v, d) ELSE TRUE
EncWhy(e, t) ==
  LET ok == Valid(t, e.v) IN
  IF Judge("valid") /\ ok # (e.valid = 1) THEN (IF ok THEN "a value of the type is called invalid" ELSE "a value outside the type is called valid") ELSE
  IF ~ok THEN (IF ~Judge("valid") THEN "" ELSE IF e.verr = 0 THEN "no error code for an invalid value"
               ELSE IF e.enc = 1 THEN "an invalid value was encoded" ELSE IF e.err = 0 THEN "no error code from the encoder" ELSE "") ELSE
  LET d == Deliver(t, e.v) IN
  IF e.c = "A" /\ (NoEncoding(t, e.v) \/ BadPx(t, e.v)) THEN (IF Judge("codec") /\ e.enc = 1 /\ (IF e.dec = 1 THEN ~Exact(t, e.dv, d) ELSE TRUE) THEN "a value that has no encoding was encoded" ELSE "") ELSE
  IF e.enc # 1 THEN (IF e.c = "A" /\ Undetermined(t, e.v) THEN "" ELSE "a value of the type was refused by the encoder") ELSE
  IF Judge("size") /\ e.n > e.cap THEN "the encoding is larger than announced" ELSE
  IF Judge("codec") THEN
    LET w == EncodedAs(e, t, d) IN
    CASE w # "" -> w
      [] ~ComesBack(e, t, d) -> ""
      [] e.dec # 1 -> "the decoder refuses the encoder's output"
      [] e.p # e.n -> "the decoder consumed the wrong number of bits"
      [] ~Back(e, t, e.dv, d) -> "decoding does not give the value back"
      [] OTHER -> ""
  ELSE IF Judge("equal") /\ e.dec = 1 /\ Exact(t, e.dv, d) /\ e.eq # (IF SameTri(t, e.v, e.dv) = "ne" THEN 0 ELSE 1) /\ SameTri(t, e.v, e.dv) # "any"
  THEN "the decoded value does not compare equal" ELSE ""
DecWhy(e, t) ==
  LET r == TLCEval(DecOf(e, t, BytesToBits(e.b))) IN
  CASE r.st = "any" -> ""
    [] r.st = "fail" -> IF e.dec = 1 THEN "accepted input that is not an encoding of a value" ELSE ""
    [] r.st = "opt" /\ e.dec = 0 -> ""
    [] OTHER -> IF e.dec = 0 THEN "refused a valid encoding" ELSE
                IF e.p # r.n THEN "consumed the wrong number of bits" ELSE
                IF ~Exact(t, e.dv, r.v) THEN "wrong value" ELSE ""
SizeWhy(e, t) ==
  LET m == IF e.c = "A" THEN AMax(t) ELSE UMax(t) IN
  IF e.bits < m THEN "the announced size bound is too small"
  ELSE IF e.bytes # (e.bits + 7) \div 8 THEN "size bounds in bits and bytes disagree" ELSE ""
EqWhy(e, t) ==
  LET s == SameTri(t, e.v, e.w) IN
  IF e.eq # e.eqr THEN "comparison is not symmetric" ELSE
  IF s = "eq" /\ e.eq = 0 THEN "equal values compare different" ELSE
  IF s = "ne" /\ e.eq = 1 THEN "different values compare equal" ELSE ""
InitWhy(e, t) ==
  IF ~Valid(t, e.v) THEN "the initial value is not a value of the type"
  ELSE IF e.valid # 1 THEN "the initial value is called invalid" ELSE ""

Why(e, t) ==
  CASE e.k = "E" -> EncWhy(e, t)
    [] e.k = "D" -> DecWhy(e, t)
    [] e.k = "S" -> SizeWhy(e, t)
    [] e.k = "Q" -> EqWhy(e, t)
    [] e.k = "I" -> InitWhy(e, t)
    [] OTHER -> "the generated code did not return (" \o e.k \o ")"
\* File.alt: for some types, a variant with a deviation that is on record
Told(e) ==
  LET w == TLCEval(Why(e, File.types[e.t])) IN
  IF w = "" \/ File.alt[e.t] = <<>> THEN w ELSE IF Why(e, File.alt[e.t][1]) = "" THEN "ALT " \o w ELSE w

\* every event is judged on its own: the initial states enumerate them, for all workers at once
Init == i \in 1..Len(Evs) /\ bad = "?"
Next == /\ bad = "?"
        /\ bad' = Told(Evs[i]) /\ i' = i
        /\ (bad' # "" => PrintT(<<"BAD", i, bad'>>))
Spec == Init /\ [][Next]_vars
TypeOK == bad \in STRING
=============================================================================
