------------------------------ MODULE CbmRelMC ------------------------------
(***************************************************************************)
(* Where a record of a relative file lies, at real size: for every record  *)
(* length and every record up to the point where positions repeat, the     *)
(* pieces the library reads (one, or two when the record straddles blocks) *)
(* are exactly the record's bytes of the data stream.  Files that end in a *)
(* record at, next to or across a block boundary are printed, to be built  *)
(* and given to the real library.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RecLens, Emitting
D == 254
AllLens == 1..255
VARIABLES rLen, rIdx
Init == rLen \in RecLens /\ rIdx = 0
Next == rIdx < D /\ rIdx' = rIdx + 1 /\ UNCHANGED rLen
Spec == Init /\ [][Next]_<<rLen, rIdx>>

\* the library's computation: <<block, offset in the sector, size>> of one or two pieces
Pieces == LET o == rLen * rIdx
              q == o \div D
              s == (o % D) + 2
          IN IF s + rLen <= 256 THEN <<<<q, s, rLen>>>>
             ELSE LET n == s + rLen - 256 IN <<<<q, s, rLen - n>>, <<q + 1, 2, n>>>>
\* byte i of a piece as a byte of the stream
At(p, i) == p[1] * D + (p[2] - 2) + i
Covers == LET ps == Pieces IN
    /\ \A k \in 1..Len(ps) : ps[k][3] >= 1 /\ ps[k][2] >= 2 /\ ps[k][2] + ps[k][3] <= 256
    /\ At(ps[1], 0) = rLen * rIdx
    /\ At(ps[Len(ps)], ps[Len(ps)][3] - 1) = rLen * (rIdx + 1) - 1
    /\ Len(ps) = 2 => At(ps[2], 0) = At(ps[1], ps[1][3] - 1) + 1
    /\ Len(ps) = 2 => ps[1][3] + ps[2][3] = rLen
\* the last block needed exists in a file of rIdx + 1 records, and no more are needed
Enough == LET ps == Pieces IN ps[Len(ps)][1] = ((rLen * (rIdx + 1)) + D - 1) \div D - 1
Close == LET a == (rLen * rIdx) % D
             b == (rLen * (rIdx + 1)) % D
         IN (a < 2 \/ b < 2 \/ b > 252 \/ a > b) /\ rLen * (rIdx + 1) <= 3 * D
Emit == (Emitting /\ Close) => PrintT("GEN " \o ToJson([rl |-> rLen, n |-> rIdx + 1]))
=============================================================================
