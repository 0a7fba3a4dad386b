------------------------------ MODULE PuscModel ------------------------------
(* The life of a packet: composed, length and error control filled in, damaged
   on the way, validated.  Checked exhaustively for short packets.           *)
EXTENDS Pusc, FiniteSets
CONSTANTS Octets, N
VARIABLES buf, st, kind, errs        \* errs: bits altered in transit
vars == <<buf, st, kind, errs>>
Init == /\ buf \in [1..N -> Octets] /\ kind \in {"crc", "iso"} /\ st = "composed" /\ errs = {}
Fill == st = "composed" /\ st' = "sent" /\ buf' = PecUpdate(kind, LenUpdate(buf, N), N) /\ UNCHANGED <<kind, errs>>
Flip(b) == LET i == (b \div 8) + 1 IN [buf EXCEPT ![i] = @ ^^ (2^(7 - (b % 8)))]
Damage == /\ st = "sent" /\ Cardinality(errs) < 2
          /\ \E b \in 0..(8*N - 1) : b \notin errs /\ buf' = Flip(b) /\ errs' = errs \union {b}
          /\ UNCHANGED <<st, kind>>
Next == Fill \/ Damage
Spec == Init /\ [][Next]_vars
\* an undamaged packet validates
Intact == st = "sent" /\ errs = {} => PecValid(kind, buf, N) /\ LenValid(buf, N)
\* the cyclic code notices one or two altered bits; the sums one (255 and 0 are the same residue, so not eight)
Noticed == errs # {} /\ kind = "crc" => ~PecValid(kind, buf, N)
NoticedIso == Cardinality(errs) = 1 /\ kind = "iso" => ~PecValid(kind, buf, N)
\* running over the whole packet leaves a zero register, and zero sums (Annex B.1/B.2, verification)
Zero == st = "sent" /\ errs = {} => IF kind = "crc" THEN Crc(65535, buf) = 0 ELSE Sums(buf) = <<0, 0>>
CrcTableOk == \A x \in Octets : \A r \in {0, 1, 255, 256, 4660, 32768, 65535} : CrcStep(r, x) = CrcByte(r, x)
=============================================================================
