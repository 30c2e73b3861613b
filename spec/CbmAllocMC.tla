---------------------------- MODULE CbmAllocMC -----------------------------
(***************************************************************************)
(* The documented block search by itself, at the real geometry.            *)
(* "one" states: for every previous block, a disk with a single free block *)
(* (every position): found if it is suitable, never anything else.  As the *)
(* search looks for the first track with a free sector, this shows that it *)
(* finds a block whenever there is a suitable one.                         *)
(* "run" behaviours: an empty disk is filled block by block; every choice  *)
(* is free and suitable, no block is handed out twice, and "full" comes    *)
(* only when nothing suitable is left.                                     *)
(***************************************************************************)
EXTENDS CbmAlloc
CONSTANTS RunKinds, OneKinds, Step1   \* Step1: which previous blocks (every n-th)

SuitableFor(k, p) == IF p # 0 /\ Trk(p) = DirTrk[k] THEN DirTrackLocs[k] ELSE DataLocs[k]
Search(F, g, k, p) == IF p = 0 THEN FirstFree(F, g, k) ELSE NextFree(F, g, k, p)
Fresh == [k \in Kinds |-> AllLocs[k] \ SystemLocs[k]]
PrevOf == [k \in Kinds |-> AllLocs[k] \ ReservedLocs[k]]

\* every non-reserved track is reached by the search from every track
Range1(q) == {q[i] : i \in 1..Len(q)}
ASSUME \A k \in Kinds : \A t \in 1..LastTrk[k] : ~IsReservedTrk(k, t) =>
         /\ Range1(CbmOrder(k, t)[1]) \cup Range1(CbmOrder(k, t)[2]) = {u \in 1..LastTrk[k] : ~IsReservedTrk(k, u)}
         /\ Range1(GeosOrder(k, t)[1]) \cup Range1(GeosOrder(k, t)[2]) = {u \in 1..LastTrk[k] : ~IsReservedTrk(k, u)}
ASSUME \A k \in Kinds : Range1(FirstTracks[k]) = {u \in 1..LastTrk[k] : ~IsReservedTrk(k, u)}
\* the two sides of the interleave arithmetic stay on the track
ASSUME \A n \in {17, 18, 19, 21, 40} : \A x \in 0..(n + 150) : \A g \in BOOLEAN : WrapSector(g, n, x) \in 0..(n - 1)

VARIABLES mMode, mKnd, mGeo, mPrv, mFre, mLast
vars == <<mMode, mKnd, mGeo, mPrv, mFre, mLast>>
Init == /\ mGeo \in BOOLEAN
        /\ mLast = -1
        /\ \/ /\ mMode = "one" /\ mKnd \in OneKinds /\ mFre = {}
              /\ mPrv = 0
           \/ /\ mMode = "run" /\ mKnd \in RunKinds /\ mFre = Fresh[mKnd]
              /\ mPrv \in {0, FirstDirLoc[mKnd]}
\* the previous block is chosen in two steps (track, sector) so that TLC can share the work
Prevs == IF mLast = -1 THEN {<<t, -2>> : t \in 1..LastTrk[mKnd]}
         ELSE {<<Loc(mPrv, s), -3>> : s \in {s \in 0..(Spt[mKnd][mPrv] - 1) : Loc(mPrv, s) \in PrevOf[mKnd] /\ Loc(mPrv, s) % Step1 = 0}}
Pick == /\ mMode = "one" /\ mLast \in {-1, -2}
        /\ \E q \in Prevs : mPrv' = q[1] /\ mLast' = q[2]
        /\ UNCHANGED <<mMode, mKnd, mGeo, mFre>>
Fill == /\ mMode = "run" /\ mLast # 0
        /\ LET l == Search(mFre, mGeo, mKnd, mPrv)
           IN mLast' = l /\ mFre' = mFre \ {l} /\ mPrv' = IF l = 0 THEN mPrv ELSE l
        /\ UNCHANGED <<mMode, mKnd, mGeo>>
Next == Pick \/ Fill
Spec == Init /\ [][Next]_vars

Single == (mMode = "one" /\ mLast # -2) => \A x \in AllLocs[mKnd] \ ReservedLocs[mKnd] :
            Search({x}, mGeo, mKnd, mPrv) = (IF x \in SuitableFor(mKnd, mPrv) THEN x ELSE 0)
Choice == [][(mMode = "run" /\ mLast' # mLast) => IF mLast' = 0 THEN mFre \cap SuitableFor(mKnd, mPrv) = {}
                               ELSE mLast' \in mFre \cap SuitableFor(mKnd, mPrv)]_vars
View == IF mMode = "one" THEN <<mMode, mKnd, mGeo, mPrv, mLast>> ELSE <<mMode, mKnd, mGeo, Trk(FirstDirLoc[mKnd]) = Trk(mPrv), Cardinality(mFre), mLast>>
=============================================================================
