------------------------------ MODULE CbmAlloc ------------------------------
(***************************************************************************)
(* The documented block search of the CBM DOS and of GEOS (DISK.TXT).      *)
(* The state it depends on is only the set of free locations and the       *)
(* previous block; 0 stands for "disk full".                               *)
(***************************************************************************)
EXTENDS CbmGeometry

FreeOn(free, k, t) == {s \in 0..(Spt[k][t] - 1) : Loc(t, s) \in free}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* first element of a sequence of tracks which has a free sector, 0 if none
RECURSIVE FirstTrackWith(_, _, _)
FirstTrackWith(free, k, ts) ==
    IF ts = <<>> THEN 0
    ELSE IF \E s \in 0..(Spt[k][ts[1]] - 1) : Loc(ts[1], s) \in free THEN ts[1]
    ELSE FirstTrackWith(free, k, Tail(ts))

Down(a, b) == IF a < b THEN <<>> ELSE [i \in 1..(a - b + 1) |-> a - i + 1]
Up(a, b) == IF a > b THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
IsReservedTrk(k, t) == t = DirTrk[k] \/ t = Reserved[k]
NoReserved(k, ts) == SelectSeq(ts, LAMBDA t : ~IsReservedTrk(k, t))

(* CBM DOS: the first block of a file goes on the track nearest to the    *)
(* directory (below before above), lowest free sector.                    *)
RECURSIVE NearSeq(_, _)
NearSeq(k, d) ==
    IF d > LastTrk[k] THEN <<>>
    ELSE (IF DirTrk[k] - d >= 1 THEN <<DirTrk[k] - d>> ELSE <<>>)
         \o (IF DirTrk[k] + d <= LastTrk[k] THEN <<DirTrk[k] + d>> ELSE <<>>)
         \o NearSeq(k, d + 1)
FirstTracks == [k \in Kinds |-> NoReserved(k, NearSeq(k, 1))]
FirstFreeCbm(free, k) ==
    LET t == FirstTrackWith(free, k, FirstTracks[k])
    IN IF t = 0 THEN 0 ELSE Loc(t, MinOf(FreeOn(free, k, t)))

(* CBM DOS: following blocks grow away from the directory, then the whole *)
(* other side, then the whole side again.  <<tracks before a jump, after>>*)
CbmOrder(k, T) ==
    IF T = DirTrk[k] THEN <<<<T>>, <<>>>>
    ELSE IF T < DirTrk[k]
         THEN <<<<T>> \o NoReserved(k, Down(T - 1, 1)),
                NoReserved(k, Up(DirTrk[k] + 1, LastTrk[k])) \o NoReserved(k, Down(DirTrk[k] - 1, 1))>>
         ELSE <<<<T>> \o NoReserved(k, Up(T + 1, LastTrk[k])),
                NoReserved(k, Down(DirTrk[k] - 1, 1)) \o NoReserved(k, Up(DirTrk[k] + 1, LastTrk[k]))>>
(* GEOS: ascending to the last track, then once more from track 1.        *)
GeosOrder(k, T) ==
    IF T = DirTrk[k] THEN <<<<T>>, <<>>>>
    ELSE <<<<T>> \o NoReserved(k, Up(T + 1, LastTrk[k])),
           IF T = 1 THEN <<>> ELSE NoReserved(k, Up(1, LastTrk[k]))>>

Ilv(k, t) == IF t = DirTrk[k] THEN DirInterleave[k] ELSE Interleave[k]

\* the sector at which the scan of the chosen track starts, before wrapping
StartSector(geos, k, prev, t, jumped) ==
    IF jumped THEN 0
    ELSE IF ~geos THEN Sec(prev) + Ilv(k, t)
    ELSE IF t = Trk(prev) THEN Sec(prev) + Ilv(k, t) - (IF t >= 25 THEN 1 ELSE 0)
    ELSE (t - Trk(prev)) * 2 + 4 + Ilv(k, t)
\* running past the end of the track: CBM DOS also steps back by one
RECURSIVE WrapSector(_, _, _)
WrapSector(geos, n, s) ==
    IF s < n THEN s
    ELSE LET r == s - n
         IN WrapSector(geos, n, IF ~geos /\ r > 0 THEN r - 1 ELSE r)
\* first free sector from s on, cyclically
ScanFrom(F, n, s) ==
    LET ahead == {x \in F : x >= s} IN IF ahead # {} THEN MinOf(ahead) ELSE MinOf(F)

NextFree(free, geos, k, prev) ==
    LET ord == IF geos THEN GeosOrder(k, Trk(prev)) ELSE CbmOrder(k, Trk(prev))
        t1 == FirstTrackWith(free, k, ord[1])
        t == IF t1 # 0 THEN t1 ELSE FirstTrackWith(free, k, ord[2])
        n == Spt[k][t]
        s0 == StartSector(geos, k, prev, t, t1 = 0)
    IN IF t = 0 THEN 0
       ELSE Loc(t, ScanFrom(FreeOn(free, k, t), n, WrapSector(geos, n, s0)))

FirstFree(free, geos, k) ==
    IF geos THEN NextFree(free, TRUE, k, Loc(1, 0)) ELSE FirstFreeCbm(free, k)
=============================================================================
