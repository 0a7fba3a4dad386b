------------------------------ MODULE BerTrace ------------------------------
(* Histories of calls recorded from the real BER functions: the stream is the
   octets written so far (sb) or the input, the cursor and the capacity.     *)
EXTENDS Ber, Json, IOUtils
Eps == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES ep, ei, sb, cur, bad
vars == <<ep, ei, sb, cur, bad>>
Ev == Eps[ep].ev
Init == ep \in 1..Len(Eps) /\ ei = 1 /\ sb = Eps[ep].init /\ cur = 0 /\ bad = ""
EncWhy(e, x) ==
  LET fits == cur + Len(x) <= Eps[ep].cap IN
  CASE e.p > Eps[ep].cap -> "the cursor left the buffer"
    [] e.p < cur \/ FirstN(e.out, cur) # sb -> "octets already written were changed"
    [] ~e.ok /\ fits -> "refused although there is room"
    [] e.ok /\ ~fits -> "accepted more than fits the buffer"
    [] ~e.ok -> IF e.err = 0 THEN "no error code for a refused call" ELSE ""
    [] OTHER -> IF e.out # sb \o x THEN "wrong octets" ELSE ""
RealWhy(e) ==
  LET t == TagOctets(e.tag) x == Drop(e.out, cur) IN
  CASE e.p > Eps[ep].cap -> "the cursor left the buffer"
    [] e.p < cur \/ FirstN(e.out, cur) # sb -> "octets already written were changed"
    [] ~e.ok -> IF cur + Len(t) + 13 <= Eps[ep].cap THEN "refused although there is room" ELSE IF e.err = 0 THEN "no error code for a refused call" ELSE ""
    [] OTHER -> IF Len(x) > Len(t) /\ FirstN(x, Len(t)) = t /\ EncRealOk(e.v, BytesToBits(Drop(x, Len(t)))) THEN "" ELSE "not an encoding of this REAL"
Got(e, r) == IF e.op = "real" THEN RealSame(e.v, r.v)
             ELSE IF e.op \in {"int", "bool", "len"} THEN e.v = r.v
             ELSE IF e.op = "oct" THEN e.n \in {-7, Len(r.v)} /\ FirstN(e.v, Len(r.v)) = r.v
             ELSE IF e.op = "str" THEN e.v = Pad(r.v, e.max)
             ELSE IF e.op = "bits" THEN e.n \in {-7, Len(r.v)} /\ FirstN(BytesToBits(e.v), Len(r.v)) = r.v
             ELSE TRUE
DecWhy(e, r) ==
  CASE r.st = "any" -> ""
    [] r.st = "fail" -> IF e.ok THEN "accepted input that is no valid encoding" ELSE IF e.err = 0 THEN "no error code for a refused call" ELSE ""
    [] ~e.ok -> IF r.st = "opt" THEN "" ELSE "refused a valid encoding"
    [] e.p # r.p -> "consumed the wrong number of octets"
    [] OTHER -> IF Got(e, r) THEN "" ELSE "wrong value"
LookWhy(e, st) == IF e.p # cur THEN "a look ahead moved the cursor"
                  ELSE IF (st = "ok" /\ ~e.ok) \/ (st = "fail" /\ e.ok) THEN "wrong answer of a look ahead" ELSE ""
Step == /\ ei <= Len(Ev) /\ bad = ""
        /\ LET e == Ev[ei] IN
           CASE e.k = "enc" -> /\ bad' = (IF e.op = "real" THEN RealWhy(e) ELSE EncWhy(e, TLCEval(BerEnc(e))))
                               /\ sb' = (IF e.p <= Eps[ep].cap THEN e.out ELSE sb) /\ cur' = e.p
             [] e.k = "dec" -> /\ bad' = DecWhy(e, TLCEval(BerDec(e, sb, cur))) /\ cur' = (IF e.ok THEN e.p ELSE cur) /\ UNCHANGED sb
             [] e.k = "look" -> bad' = LookWhy(e, BerLook(e, sb, cur)) /\ UNCHANGED <<sb, cur>>
             [] OTHER -> bad' = "the implementation did not return (" \o e.k \o ")" /\ UNCHANGED <<sb, cur>>
        /\ ei' = ei + 1 /\ ep' = ep
        /\ (bad' # "" => PrintT(<<"BAD", ep, ei, bad'>>))
Next == Step
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
