--------------------------- MODULE CbmAllocTrace ---------------------------
(***************************************************************************)
(* Judges recorded answers of the library's block search, on arbitrary     *)
(* free-block maps and previous blocks, against CbmAlloc.                  *)
(***************************************************************************)
EXTENDS CbmAlloc, Json, IOUtils, TLC

CONSTANT Prop
Tr == ndJsonDeserialize(IOEnv.TRACE)
L(cond, label) == IF cond THEN {} ELSE {label}

\* free blocks which may be chosen at all for data / for the directory
Suitable(s, prev) == IF prev # 0 /\ Trk(prev) = DirTrk[s.k] THEN s.free \cap DirTrackLocs[s.k]
                     ELSE s.free \cap DataLocs[s.k]
Expected(s, prev) == IF prev = 0 THEN FirstFree(s.free, s.g, s.k) ELSE NextFree(s.free, s.g, s.k, prev)

JudgeNext(s, e) ==
    LET suit == Suitable(s, e.pv) IN
    IF e.res = "ok"
    THEN L(e.l \in suit, "notfree") \cup L(e.l = Expected(s, e.pv), "order")
    ELSE L(e.res = "DiskFull" /\ suit = {}, "full")

MapFree(e) == UNION {{Loc(e.m[i][1], x) : x \in BitSet(e.m[i][3])} : i \in 1..Len(e.m)}
\* the whole map is that of the free blocks fr
Matches(e, k, fr) ==
    L(MapFree(e) = fr, "mapbits")
    \cup L(\A i \in 1..Len(e.m) : e.m[i][2] = Cardinality(BitSet(e.m[i][3])), "mapcount")
    \cup L(e.bf = Cardinality(fr \ DirTrackLocs[k]), "blocksfree")
JudgeMap(e) == L(e.res = "ok", "map") \cup Matches(e, e.k, {e.fr[i] : i \in 1..Len(e.fr)})
\* stored in the image and read again
JudgeStore(s, e) == IF e.res = "ok" /\ Matches(e, s.k, s.free) = {} THEN {} ELSE {"stored"}
\* one block marked used or free; what is not a block of the disk is refused and nothing changes
Exists(k, x) == ValidLoc(k, LastTrk[k], x)
MarkFree(s, e) == IF ~Exists(s.k, e.l) THEN s.free ELSE IF e.al THEN s.free \ {e.l} ELSE s.free \cup {e.l}
JudgeMark(s, e) == L(IF Exists(s.k, e.l) THEN e.res = "ok" ELSE e.res = "InvalidLocation", "badloc")
                   \cup (IF Exists(s.k, e.l) THEN Matches(e, s.k, MarkFree(s, e))
                         ELSE IF Matches(e, s.k, s.free) = {} THEN {} ELSE {"badmark"})

Step(s, e) ==
    IF e.op = "map" THEN [st |-> [k |-> e.k, g |-> e.g, free |-> {e.fr[i] : i \in 1..Len(e.fr)}], bad |-> JudgeMap(e)]
    ELSE IF e.op = "next" THEN [st |-> s, bad |-> JudgeNext(s, e)]
    ELSE IF e.op = "take" THEN [st |-> [s EXCEPT !.free = @ \ {e.l}], bad |-> JudgeNext(s, e)]
    ELSE IF e.op = "store" THEN [st |-> s, bad |-> JudgeStore(s, e)]
    ELSE IF e.op = "mark" THEN [st |-> [s EXCEPT !.free = MarkFree(s, e)], bad |-> JudgeMark(s, e)]
    ELSE IF e.op = "end" THEN [st |-> s, bad |-> {}]
    ELSE [st |-> s, bad |-> {"fatal"}]

LabelProps(l) == IF l = "stored" THEN {"C03", "C04", "C12"}
                 ELSE IF l \in {"badloc", "badmark"} THEN {"C06", "C03"}
                 ELSE IF l \in {"mapcount", "blocksfree", "mapbits"} THEN {"C07", "C03"} ELSE {"C07", "C10"}
VARIABLES tIdx, tSt, tBad
Init == tIdx = 0 /\ tSt = [k |-> "d64", g |-> FALSE, free |-> {}] /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ \E r \in {Step(tSt, Tr[tIdx + 1])} :
              tSt' = r.st /\ tBad' = {x \in r.bad : Prop \in LabelProps(x)}
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tSt, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op]
=============================================================================
