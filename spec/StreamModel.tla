----------------------------- MODULE StreamModel -----------------------------
(* The design of the bit stream: a buffer of Chunk octets that is handed on when
   it is full (Chunk = 0: one buffer for everything), old contents in it, a
   cursor, and reserved fields that are written later.  Explored exhaustively;
   it has to refine the abstract stream (the bits written so far), and every
   history is exported, replayed by the real library, and judged by RtTrace. *)
EXTENDS Bits, TLC
CONSTANTS Names, Chunk, Depth, MaxDets, Dirty
VARIABLES hist, st, sb, dets, rd
vars == <<hist, st, sb, dets, rd>>

Item(n) == CASE n = "b0" -> <<0>> [] n = "b1" -> <<1>>
             [] n = "w3" -> <<1, 0, 1>>
             [] n = "w13" -> <<1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1>>
             [] n = "o" -> ByteBits[165]
             [] n = "o3" -> ByteBits[1] \o ByteBits[254] \o ByteBits[128]
             [] n = "z11" -> [i \in 1..11 |-> 0]
             [] n = "f9" -> [i \in 1..9 |-> 1]
Width(n) == IF n = "rU8" THEN 8 ELSE 3
Val(n, w) == IF w = 8 THEN (IF n = "a" THEN ByteBits[90] ELSE ByteBits[201]) ELSE (IF n = "a" THEN <<0, 1, 1>> ELSE <<1, 1, 0>>)
Least(a, b) == IF a < b THEN a ELSE b
Size == IF Chunk = 0 THEN 8 * 40 ELSE 8 * Chunk

\* one bit: written over whatever was there; a full buffer is handed on, and used again as it is
Put(s, b) == LET q == [s EXCEPT !.buf = [@ EXCEPT ![s.pos + 1] = b], !.pos = @ + 1] IN
             IF q.pos = Size /\ Chunk # 0 THEN [q EXCEPT !.sent = @ \o q.buf, !.pos = 0] ELSE q
RECURSIVE PutAll(_, _, _)
PutAll(s, x, i) == IF i > Len(x) THEN s ELSE PutAll(TLCEval(Put(s, x[i])), x, i + 1)
Abs(s) == s.sent \o SubSeq(s.buf, 1, s.pos)

Init == /\ hist = <<>> /\ sb = <<>> /\ dets = <<>>
        /\ \E d \in Dirty : st = [sent |-> <<>>, buf |-> [i \in 1..Size |-> d], pos |-> 0]
        /\ rd = [i |-> 0, at |-> 0, buf |-> <<>>, next |-> 0, got |-> <<>>]
Write(n) == /\ st' = PutAll(st, Item(n), 1) /\ sb' = sb \o Item(n)
            /\ UNCHANGED <<dets, rd>>
Pad(n) == (n - (Len(sb) % n)) % n
Align == /\ st' = PutAll(st, [i \in 1..Pad(8) |-> 0], 1) /\ sb' = sb \o [i \in 1..Pad(8) |-> 0]
         /\ UNCHANGED <<dets, rd>>
Reserve(n) == /\ Len(dets) < MaxDets /\ Chunk = 0
              /\ st' = PutAll(st, [i \in 1..Width(n) |-> 0], 1) /\ sb' = sb \o [i \in 1..Width(n) |-> 0]
              /\ dets' = Append(dets, [at |-> st.pos, w |-> Width(n), v |-> ""]) /\ UNCHANGED rd
\* the first value decides; a later one is only compared
Patch(k, n) == /\ k <= Len(dets)
               /\ IF dets[k].v # "" THEN UNCHANGED <<st, sb, dets>> ELSE
                  LET d == dets[k] x == Val(n, d.w) IN
                  /\ dets' = [dets EXCEPT ![k].v = n]
                  /\ st' = [st EXCEPT !.buf = [i \in 1..Size |-> IF i > d.at /\ i <= d.at + d.w THEN x[i - d.at] ELSE @[i]]]
                  /\ sb' = [i \in 1..Len(sb) |-> IF i > d.at /\ i <= d.at + d.w THEN x[i - d.at] ELSE sb[i]]
               /\ UNCHANGED rd
Do(n) == CASE n = "al" -> Align
           [] n \in {"rU8", "rC3"} -> Reserve(n)
           [] n = "p1a" -> Patch(1, "a") [] n = "p1b" -> Patch(1, "b")
           [] n = "p2a" -> Patch(2, "a") [] n = "p2b" -> Patch(2, "b")
           [] OTHER -> Write(n)
Call == /\ Len(hist) < Depth /\ rd.i = 0
        /\ \E n \in Names : Do(n) /\ hist' = Append(hist, n)
        /\ (Len(hist') = Depth => PrintT(<<"H", hist'>>))

\* reading, from a buffer that is filled again when it is used up
Wire == Abs(st) \o [i \in 1..((8 - (Len(sb) % 8)) % 8) |-> 0]
Fill(r) == IF r.at < Len(r.buf) THEN r ELSE
           LET n == Least(Size, Len(Wire) - r.next) IN [r EXCEPT !.buf = SubSeq(Wire, r.next + 1, r.next + n), !.at = 0, !.next = @ + n]
Take(r) == LET q == Fill(r) IN [q EXCEPT !.got = Append(@, q.buf[q.at + 1]), !.at = @ + 1]
Read == /\ Len(hist) = Depth /\ Len(rd.got) < Len(sb)
        /\ rd' = [Take(rd) EXCEPT !.i = @ + 1] /\ UNCHANGED <<hist, st, sb, dets>>
Next == Call \/ Read
Spec == Init /\ [][Next]_vars

\* the design refines the abstract stream
Refines == Abs(st) = sb /\ st.pos < Size /\ Len(st.sent) % 8 = 0
\* a reserved field holds its value, and nothing else was touched by writing it late
Held == \A k \in DOMAIN dets : SubSeq(sb, dets[k].at + 1, dets[k].at + dets[k].w) =
          IF dets[k].v = "" THEN [i \in 1..dets[k].w |-> 0] ELSE Val(dets[k].v, dets[k].w)
\* what is read is what was written
Back == rd.got = SubSeq(sb, 1, Len(rd.got))
=============================================================================
