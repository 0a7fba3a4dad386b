------------------------------ MODULE PuscTrace ------------------------------
(* Calls recorded from the real wrappers, each judged against Pusc.          *)
EXTENDS Pusc, Json, IOUtils
Ev == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLE i
Err(e, k) == IF e.e = 0 THEN "" ELSE IF e.err # e.codes[k] THEN "wrong error code" ELSE ""
Refused(e, k, what) == IF e.ret # 0 THEN what ELSE IF e.out # e.in THEN "a refused operation changed the packet" ELSE Err(e, k)
Hi(x) == <<x \div 256, x % 256>>
Why(e) ==
  CASE e.k = "crc" -> IF e.r # Crc(e.old, e.in) THEN "wrong checksum" ELSE ""
    [] e.k = "iso" -> IF Hi(e.r) # Iso(e.in) THEN "wrong checksum" ELSE ""
    [] e.k = "pu" -> IF e.n <= 2 THEN Refused(e, "short", "accepted a message too short for its error control")
                     ELSE IF e.ret # 1 THEN "refused a message" ELSE IF e.out # PecUpdate(e.kind, e.in, e.n) THEN "wrong error control field" ELSE ""
    [] e.k = "pv" -> IF e.n <= 2 THEN Refused(e, "short", "accepted a message too short for its error control")
                     ELSE IF e.out # e.in THEN "validation changed the packet"
                     ELSE IF PecValid(e.kind, e.in, e.n) THEN (IF e.ret # 1 THEN "refused a packet with the right checksum" ELSE "")
                     ELSE Refused(e, "sum", "accepted a packet with a wrong checksum")
    [] e.k \in {"lu", "lv"} ->
         IF e.n <= 6 THEN Refused(e, "short", "accepted a packet shorter than its header")
         ELSE IF e.n > e.max THEN Refused(e, "long", "accepted a packet longer than allowed")
         ELSE IF e.n > 65536 THEN ""
         ELSE IF e.k = "lu" THEN (IF e.ret # 1 THEN "refused a packet" ELSE IF e.out # LenUpdate(e.in, e.n) THEN "wrong length field" ELSE "")
         ELSE IF e.out # e.in THEN "validation changed the packet"
         ELSE IF LenValid(e.in, e.n) THEN (IF e.ret # 1 THEN "refused a packet with the right length" ELSE "")
         ELSE Refused(e, "len", "accepted a packet with a wrong length")
    [] e.k = "ue" -> IF e.out # [e.in EXCEPT ![e.at + 1] = e.v \div 256, ![e.at + 2] = e.v % 256] THEN "wrong octets" ELSE ""
    [] e.k = "ud" -> IF e.r # 256 * e.in[e.at + 1] + e.in[e.at + 2] THEN "wrong value" ELSE IF e.out # e.in THEN "reading changed the packet" ELSE ""
    [] e.k = "crash" -> "the wrapper did not return"
Init == i = 1
Next == /\ i <= Len(Ev) /\ i' = i + 1
        /\ LET w == Why(Ev[i]) IN w = "" \/ PrintT(<<"BAD", i, w>>)
=============================================================================
