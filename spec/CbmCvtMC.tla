------------------------------ MODULE CbmCvtMC ------------------------------
(***************************************************************************)
(* The GEOS Convert reader as the state machine it is in the library       *)
(* (entry block, info block, index, records, end; a buffer refilled on     *)
(* every change of state), for every small file and every sequence of read *)
(* sizes, against the stream it should give.  B is the number of data      *)
(* bytes of a block.  Every file shape is also printed, to be built at     *)
(* real size and given to the real library.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS B,            \* data bytes per block
          Lens,         \* record lengths (-1: no such record)
          MaxRecs,      \* longest index
          Sizes,        \* sizes of read requests
          Emitting
Shapes == [v : {TRUE}, r : UNION {[1..n -> Lens \cup {-1}] : n \in 0..MaxRecs}]
          \cup [v : {FALSE}, r : [1..1 -> Lens]]
Some(t, n) == [i \in 1..n |-> <<t, i>>]
Real(sh) == SelectSeq([i \in 1..Len(sh.r) |-> <<i, sh.r[i]>>], LAMBDA x : x[2] # -1)
Pad(s) == IF Len(s) % B = 0 THEN s ELSE s \o [i \in 1..(B - (Len(s) % B)) |-> <<"zero", 0>>]

\* ---------------------------------------------------- the stream wanted
RECURSIVE DataOf(_)
DataOf(rs) == IF rs = <<>> THEN <<>>
              ELSE LET d == Some(rs[1][1], rs[1][2])
                   IN IF Len(rs) = 1 THEN d ELSE Pad(d) \o DataOf(Tail(rs))
Stream(sh) == Some("head", B) \o Some("info", B) \o (IF sh.v THEN Some("index", B) ELSE <<>>) \o DataOf(Real(sh))

\* ---------------------------------------------------------- the machine
Refill(sh, m) ==
    LET Recs(n) == IF n.ch = <<>> THEN [n EXCEPT !.ph = "fin"]
                   ELSE LET d == n.buf \o Some(n.ch[1][1], n.ch[1][2])
                        IN [n EXCEPT !.ph = "recs", !.ch = Tail(n.ch), !.buf = IF Len(n.ch) > 1 THEN Pad(d) ELSE d]
    IN CASE m.ph = "head" -> [m EXCEPT !.ph = "info", !.buf = Some("info", B)]
         [] m.ph = "info" -> IF sh.v THEN [m EXCEPT !.ph = "index", !.buf = Some("index", B), !.ch = Real(sh)]
                             ELSE [m EXCEPT !.ph = "recs", !.ch = Real(sh)]
         [] m.ph \in {"index", "recs"} -> Recs(m)
         [] OTHER -> m
RECURSIVE Read(_, _, _)
Read(sh, m, n) ==
    IF m.ph = "fin" THEN m
    ELSE LET k == IF n < Len(m.buf) THEN n ELSE Len(m.buf)
             m1 == [m EXCEPT !.buf = SubSeq(@, k + 1, Len(@)), !.out = @ \o SubSeq(m.buf, 1, k)]
         IN IF k = n THEN m1 ELSE Read(sh, Refill(sh, m1), n - k)

VARIABLES vSh, vM, vLast
Init == /\ vSh \in Shapes
        /\ vM = [ph |-> "head", buf |-> Some("head", B), ch |-> <<>>, out |-> <<>>]
        /\ vLast = <<0, 0>>
Next == \E n \in Sizes :
           /\ vM' = Read(vSh, vM, n)
           /\ vLast' = <<n, Len(vM'.out) - Len(vM.out)>>
           /\ UNCHANGED vSh
Spec == Init /\ [][Next]_<<vSh, vM, vLast>>

Prefix == Len(vM.out) <= Len(Stream(vSh)) /\ vM.out = SubSeq(Stream(vSh), 1, Len(vM.out))
Counted == vLast[2] <= vLast[1]
\* nothing is returned for a proper request exactly at the end of the stream; otherwise reading goes on
AtEnd == (vLast[1] > 0 /\ vLast[2] = 0) => vM.out = Stream(vSh)
Goes == [][(vLast'[1] > 0 /\ vM.out # Stream(vSh)) => Len(vM'.out) > Len(vM.out)]_<<vSh, vM, vLast>>
Emit == (Emitting /\ vM.ph = "head" /\ vM.out = <<>> /\ vLast = <<0, 0>> /\ vLast'[1] = 0)
            => PrintT("GEN " \o ToJson([v |-> IF vSh.v THEN 1 ELSE 0, r |-> vSh.r]))
=============================================================================
