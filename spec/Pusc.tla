-------------------------------- MODULE Pusc --------------------------------
(* Packet error control and packet length of CCSDS / ECSS-E-70-41C packets, as
   the PUS-C components library wraps them (Annex B.1 cyclic redundancy code,
   Annex B.2 ISO checksum).  Octets and checksums are small naturals.        *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

\* one bit through the shift register of x^16 + x^12 + x^5 + 1
CrcBit(r, b) == LET top == ((r \div 32768) + b) % 2
                    s == (2 * r) % 65536
                IN IF top = 1 THEN s ^^ 4129 ELSE s
CrcByte(r, x) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(r, x \div 128), (x \div 64) % 2), (x \div 32) % 2), (x \div 16) % 2),
                        (x \div 8) % 2), (x \div 4) % 2), (x \div 2) % 2), x % 2)
CrcTable == TLCEval([x \in 0..255 |-> CrcByte(0, x)])
\* the register is linear, so eight bits can go through it at once (CrcTableOk in PuscModel)
CrcStep(r, x) == ((256 * (r % 256)) ^^ CrcTable[(r \div 256) ^^ x])
Crc(old, data) == FoldLeft(CrcStep, old, data)

\* running sums modulo 255
Sums(data) == FoldLeft(LAMBDA c, x : LET a == (c[1] + x) % 255 IN <<a, (c[2] + a) % 255>>, <<0, 0>>, data)
Nz(x) == IF x = 0 THEN 255 ELSE x                     \* the octet of a residue: zero is written as 255
Iso(data) == LET c == Sums(data) IN <<Nz((510 - c[1] - c[2]) % 255), Nz(c[2])>>

Checksum(kind, data) == IF kind = "crc" THEN LET r == Crc(65535, data) IN <<r \div 256, r % 256>> ELSE Iso(data)

\* a packet's first n octets; the last two are the error control field, octets 5 and 6 the length of what follows the header, less one
PecUpdate(kind, buf, n) == LET k == Checksum(kind, SubSeq(buf, 1, n - 2)) IN [buf EXCEPT ![n - 1] = k[1], ![n] = k[2]]
PecValid(kind, buf, n) == SubSeq(buf, n - 1, n) = Checksum(kind, SubSeq(buf, 1, n - 2))
LenUpdate(buf, n) == [buf EXCEPT ![5] = (n - 7) \div 256, ![6] = (n - 7) % 256]
LenValid(buf, n) == 256 * buf[5] + buf[6] = n - 7
=============================================================================
