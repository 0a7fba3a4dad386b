------------------------------- MODULE RtTrace -------------------------------
(* Trace validation of the run-time library's bit stream.
   The abstract state of a stream is the bit string written so far (sb), the
   cursor and the capacity.  An episode is a recorded history of calls on one
   stream of the real implementation; every call must be a step of the abstract
   stream.  Deferred determinants (dets) are reserved fields: patching one
   replaces exactly its bits.                                               *)
EXTENDS Prim, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
Eps == TLCEval(File)

VARIABLES ep, ei, sb, cur, dets, bad
vars == <<ep, ei, sb, cur, dets, bad>>

Ev == Eps[ep].ev

Init == /\ ep \in 1..Len(Eps)
        /\ ei = 1
        /\ sb = IF Eps[ep].dec THEN BytesToBits(Eps[ep].init) ELSE <<>>
        /\ cur = 0
        /\ dets = <<>>
        /\ bad = ""

\* what is wrong with an encoding call that should append x
WriteWhy(e, x) ==
  LET off == cur % 8
      obs == BytesToBits(e.reg) IN
  CASE ~e.ok -> "the call reports failure"
    [] e.p # cur + Len(x) -> "cursor moved to the wrong position"
    [] FirstN(obs, off) # LastN(sb, off) -> "bits already written were changed"
    [] SubSeq(obs, off+1, off+Len(x)) # x -> "wrong bits"
    [] OTHER -> ""

Replace(s, at, x) == SubSeq(s, 1, at) \o x \o SubSeq(s, at + Len(x) + 1, Len(s))

EncStep(e) ==
  IF e.op = "align" THEN
    LET np == AlignUp(cur, e.n) IN
    /\ bad' = IF e.p # np THEN "not aligned to the next boundary"
              ELSE IF FirstN(BytesToBits(e.reg), cur % 8) # LastN(sb, cur % 8) THEN "bits already written were changed" ELSE ""
    /\ sb' = IF bad' # "" THEN sb ELSE sb \o SubSeq(BytesToBits(e.reg), (cur % 8) + 1, (cur % 8) + np - cur)
    /\ cur' = np /\ UNCHANGED dets
  ELSE IF e.op = "real" THEN
    LET obs == BytesToBits(e.reg) 
        x == SubSeq(obs, (cur % 8) + 1, (cur % 8) + e.p - cur) IN
    /\ bad' = IF e.p < cur THEN "cursor moved backwards" ELSE
              IF FirstN(obs, cur % 8) # LastN(sb, cur % 8) THEN "bits already written were changed" ELSE
              IF ~EncRealOk(e.v, x) THEN "not an encoding of this REAL" ELSE ""
    /\ sb' = sb \o x /\ cur' = e.p /\ UNCHANGED dets
  ELSE IF e.op \in {"bytes", "oct", "octstr"} /\ cur + Len(Enc(e)) > 8 * Eps[ep].cap THEN
    /\ bad' = IF e.ok THEN "accepted more than fits the buffer" ELSE ""
    /\ UNCHANGED <<sb, cur, dets>>
  ELSE
    LET x == TLCEval(Enc(e)) IN
    /\ bad' = WriteWhy(e, x)
    /\ sb' = sb \o x
    /\ cur' = cur + Len(x)
    /\ UNCHANGED dets

\* reserve a determinant: a field of the width of its encoding, all zero
DetBits(e, v) ==
  LET k == e.op IN
  CASE k \in {"U8", "I8"} -> WLow(v, 8)
    [] k \in {"U16_BE", "I16_BE"} -> WLow(v, 16)
    [] k \in {"U32_BE", "I32_BE"} -> WLow(v, 32)
    [] k \in {"U64_BE", "I64_BE"} -> WLow(v, 64)
    [] k = "U16_LE" -> RevOctets(WLow(v, 16))
    [] k = "U32_LE" -> RevOctets(WLow(v, 32))
    [] k = "U64_LE" -> RevOctets(WLow(v, 64))
    [] k = "BOOL1" -> <<IF v = W0 THEN 0 ELSE 1>>
    [] k \in {"ConstSize", "TwosComplement_ConstSize"} -> WLow(v, e.n)
StrDet(d, n) == Ia5([j \in 1..n |-> IF j <= Len(d) THEN d[j] ELSE 32])
InitStep(e) ==
  LET x == Zeros(IF e.op = "IA5" THEN 7*e.n ELSE Len(DetBits(e, W0))) IN
  /\ bad' = WriteWhy(e, x)
  /\ sb' = sb \o x /\ cur' = cur + Len(x)
  /\ dets' = Append(dets, [at |-> cur, set |-> FALSE, v |-> <<>>])
PatchStep(e) ==
  LET d == dets[e.id]
      x == IF e.op = "IA5" THEN StrDet(e.d, e.n) ELSE DetBits(e, e.v)
      val == IF e.op = "IA5" THEN FirstN(e.d, Min2(Len(e.d), e.n)) ELSE e.v
      same == d.v = val IN
  /\ cur' = cur
  /\ IF d.set THEN
        /\ bad' = IF e.ok # same THEN "consistency of a shared determinant misjudged"
                  ELSE IF ~e.ok /\ e.err # 203 THEN "wrong error code for an inconsistent determinant"
                  ELSE IF e.p # cur THEN "patching moved the cursor"
                  ELSE IF FirstN(BytesToBits(e.all), cur) # sb THEN "a repeated patch changed the stream" ELSE ""
        /\ UNCHANGED <<sb, dets>>
     ELSE
        /\ sb' = Replace(sb, d.at, x)
        /\ dets' = [dets EXCEPT ![e.id] = [d EXCEPT !.set = TRUE, !.v = val]]
        /\ bad' = IF ~e.ok THEN "the first patch was refused"
                  ELSE IF e.p # cur THEN "patching moved the cursor"
                  ELSE IF FirstN(BytesToBits(e.all), cur) # sb' THEN "patching wrote wrong bits or touched others" ELSE ""

DecWhy(e, r) ==
  LET good == /\ e.ok /\ e.p = cur + r.n
              /\ IF e.op = "real" THEN RealSame(e.v, r.v) ELSE e.v = r.v IN
  CASE r.st = "any" -> ""
    [] r.st = "fail" -> IF e.ok THEN "accepted input that is not a complete valid encoding" ELSE ""
    [] r.st = "opt" -> IF e.ok /\ ~good THEN "wrong value or position" ELSE ""
    [] OTHER -> IF ~e.ok THEN "refused a valid encoding" ELSE
                IF e.p # cur + r.n THEN "consumed the wrong number of bits" ELSE
                IF ~good THEN "wrong value" ELSE ""
\* a decoder of a narrow machine integer refuses what does not fit it (with a narrower word, ws, it is not bound)
Signed(o) == o \in {"cint", "scint", "ucint", "atwo", "atwobe", "atwole", "atwovar", "asasc", "asascvar", "asascnul"}
Fits(v, w, sg) == IF sg THEN WLenS(v) <= w ELSE WLen(v) <= w
Narrowed(e, r) ==
  IF cur > Len(sb) THEN (IF e.ok /\ e.p # cur THEN Fail ELSE AnyR)     \* behind missing padding
  ELSE IF r.st \notin {"ok", "opt"} THEN r
  ELSE IF "f32" \in DOMAIN e /\ (~FRep(r.v) \/ DIsInf(r.v) \/ DIsNan(r.v)) THEN AnyR
  ELSE IF "w" \in DOMAIN e /\ e.w < 64 /\ (IF e.op \in {"oid", "roid"} THEN \E i \in 1..Len(r.v) : ~Fits(r.v[i], e.w, FALSE)
                                               ELSE ~Fits(r.v, e.w, Signed(e.op))) THEN (IF "ws" \in DOMAIN e THEN AnyR ELSE Fail) ELSE r
DecStep(e) ==
  IF e.op = "align" THEN
    LET np == AlignUp(cur, e.n) IN
    \* padding missing at the end of the input is noticed by the next read
    /\ bad' = IF e.p # np /\ np <= Len(sb) THEN "not aligned to the next boundary" ELSE ""
    /\ cur' = np /\ UNCHANGED <<sb, dets>>
  ELSE
  LET r == TLCEval(Narrowed(e, Dec(e, sb, cur))) IN
  /\ bad' = DecWhy(e, r)
  /\ cur' = IF e.ok THEN e.p ELSE cur
  /\ UNCHANGED <<sb, dets>>

Step == /\ ei <= Len(Ev) /\ bad = ""
        /\ LET e == Ev[ei] IN
           CASE e.k = "enc" -> EncStep(e)
             [] e.k = "dec" -> DecStep(e)
             [] e.k = "init" -> InitStep(e)
             [] e.k = "patch" -> PatchStep(e)
             [] e.k = "rewind" -> /\ bad' = IF FirstN(BytesToBits(e.all), cur) # sb THEN "the buffer does not hold what was written" ELSE ""
                                  /\ sb' = BytesToBits(e.all) /\ cur' = 0 /\ UNCHANGED dets
             [] e.k = "end" -> /\ bad' = IF FirstN(BytesToBits(e.all), cur) # sb THEN "the buffer does not hold what was written" ELSE ""
                               /\ UNCHANGED <<sb, cur, dets>>
             [] e.k = "fn" -> /\ bad' = IF e.r # Fn(e) THEN "wrong result of a helper function" ELSE ""
                              /\ UNCHANGED <<sb, cur, dets>>
             [] OTHER -> bad' = "the implementation did not return (" \o e.k \o ")" /\ UNCHANGED <<sb, cur, dets>>
        /\ ei' = ei + 1 /\ ep' = ep
        /\ (bad' # "" => PrintT(<<"BAD", ep, ei, bad'>>))
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == cur >= 0 /\ (bad = "" => Len(sb) >= 0)
\* the deciding invariant; a driver lists every violated episode from the printed lines
Conforms == bad = ""
=============================================================================
