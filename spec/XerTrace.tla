------------------------------ MODULE XerTrace ------------------------------
(* Histories of calls recorded from the real XER functions.                  *)
EXTENDS Xer, Json, IOUtils
Eps == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES ep, ei, sb, cur, bad
vars == <<ep, ei, sb, cur, bad>>
Ev == Eps[ep].ev
Init == ep \in 1..Len(Eps) /\ ei = 1 /\ sb = Eps[ep].init /\ cur = 0 /\ bad = ""
RECURSIVE NoIndent(_)
NoIndent(s) == IF s # "" /\ Ch(s, 1) = " " THEN NoIndent(Tail(s)) ELSE s
RECURSIVE NoBreak(_)
NoBreak(s) == IF s # "" /\ Ch(s, Len(s)) = "\n" THEN NoBreak(Part(s, 1, Len(s) - 1)) ELSE s
Bare(s) == IF Eps[ep].ws THEN NoBreak(NoIndent(s)) ELSE s
Written(e) == Part(e.out, cur + 1, Len(e.out))
Room(e, x) == LET n == cur + Len(x) IN
              IF n > Eps[ep].cap THEN "no" ELSE
              IF n + 2 + (IF Eps[ep].ws /\ e.level > 0 THEN 2*e.level ELSE 0) <= Eps[ep].cap THEN "yes" ELSE "maybe"
RealText(e) == LET w == Bare(Written(e)) r == XerDec(e, w, 0) IN r.st = "ok" /\ r.p = Len(w) /\ RealIs(e.v, r.v)
EncWhy(e, x) ==
  LET room == IF e.op = "real" THEN (IF cur + 2*Len(e.tag) + 34 + 2*Max2(e.level, 0) <= Eps[ep].cap THEN "yes" ELSE "maybe") ELSE Room(e, x) IN
  CASE e.p > Eps[ep].cap -> "the cursor left the buffer"
    [] e.p < cur \/ Part(e.out, 1, cur) # sb -> "octets already written were changed"
    [] ~e.ok /\ room = "yes" -> "refused although there is room"
    [] ~e.ok -> IF e.err = 0 THEN "no error code for a refused call" ELSE ""
    [] room = "no" -> "accepted more than fits the buffer"
    [] e.err # 0 -> "an error code for a successful call"
    [] e.op = "real" -> IF RealText(e) THEN "" ELSE "not the text of this REAL"
    [] OTHER -> IF Bare(Written(e)) = Bare(x) THEN "" ELSE "wrong text"
Got(e, r) == CASE e.op = "real" -> RealIs(e.v, r.v)
               [] e.op \in {"int", "pint", "bool", "enum", "str", "oid"} -> e.v = r.v
               [] e.op = "start" -> e.nul \/ e.v = r.v
               [] e.op = "oct" -> FirstN(e.v, Len(r.v)) = r.v /\ (e.nul \/ e.n = Len(r.v))
               [] e.op = "bits" -> FirstN(BytesToBits(e.v), Len(r.v)) = r.v /\ (e.nul \/ e.n = Len(r.v))
               [] OTHER -> TRUE
DecWhy(e, r) ==
  CASE e.p < cur \/ e.p > Len(sb) -> "the cursor left the input"
    [] r.st = "any" -> ""
    [] r.st = "fail" -> IF e.ok THEN "accepted text that is no valid encoding" ELSE IF e.err = 0 THEN "no error code for a refused call" ELSE ""
    [] ~e.ok -> IF r.st = "opt" THEN "" ELSE "refused a valid encoding"
    [] e.p # r.p -> "consumed the wrong amount of text"
    [] OTHER -> IF Got(e, r) THEN "" ELSE "wrong value"
LookWhy(e, st) == IF e.p # cur THEN "a look ahead moved the cursor"
                  ELSE IF (st = "ok" /\ ~e.ok) \/ (st = "fail" /\ e.ok) THEN "wrong answer of a look ahead"
                  ELSE IF st = "ok" /\ e.op = "nexttag" /\ e.v # NextName(sb, cur) THEN "wrong name of the next element" ELSE ""
LoadWhy(e) == IF ~e.ok THEN (IF Len(e.s) < Eps[ep].cap THEN "refused a file although there is room" ELSE "")
              ELSE IF e.p # 0 THEN "the cursor is not at the start"
              ELSE IF Items(e.out, 0, "", <<>>) # Items(e.s, 0, "", <<>>) THEN "the loaded text differs" ELSE ""
Step == /\ ei <= Len(Ev) /\ bad = ""
        /\ LET e == Ev[ei] IN
           CASE e.k = "enc" -> /\ bad' = (IF e.op = "real" THEN EncWhy(e, "") ELSE EncWhy(e, TLCEval(XerEnc(e))))
                               /\ sb' = (IF e.p <= Eps[ep].cap THEN e.out ELSE sb) /\ cur' = e.p
             [] e.k = "dec" -> /\ bad' = DecWhy(e, TLCEval(XerDec(e, sb, cur))) /\ cur' = (IF e.ok THEN e.p ELSE cur) /\ UNCHANGED sb
             [] e.k = "load" -> bad' = LoadWhy(e) /\ UNCHANGED <<sb, cur>>
             [] e.k = "look" -> bad' = LookWhy(e, XerLook(e, sb, cur)) /\ UNCHANGED <<sb, cur>>
             [] OTHER -> bad' = "the implementation did not return (" \o e.k \o ")" /\ UNCHANGED <<sb, cur>>
        /\ ei' = ei + 1 /\ ep' = ep
        /\ (bad' # "" => PrintT(<<"BAD", ep, ei, bad'>>))
Next == Step
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
