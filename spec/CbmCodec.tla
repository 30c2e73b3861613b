------------------------------ MODULE CbmCodec ------------------------------
(***************************************************************************)
(* Byte layouts of the on-disk structures: directory slots, header sector, *)
(* free-block map.  Sectors are sequences of 256 bytes, so offset o of the *)
(* documented layouts is index o+1 here.                                   *)
(***************************************************************************)
EXTENDS CbmGeometry

At(b, o) == b[o + 1]
Range(b, o, n) == SubSeq(b, o + 1, o + n)
LocAt(b, o) == Loc(At(b, o), At(b, o + 1))

\* --- directory slot i (0..7) of a directory sector
SlotA(b, i) == At(b, 32 * i + 2)
SlotFirst(b, i) == LocAt(b, 32 * i + 3)
SlotName(b, i) == Range(b, 32 * i + 5, 16)
SlotExtra(b, i) == Range(b, 32 * i + 21, 9)
SlotSize(b, i) == At(b, 32 * i + 30) + 256 * At(b, 32 * i + 31)
SlotType(a) == a % 16
SlotClosed(a) == a >= 128
SlotEmpty(a) == SlotType(a) = 0 /\ ~SlotClosed(a)

\* how the directory entry's data is organised (GEOS.TXT)
IsGeos(a, x) == (a % 8) < 4 /\ (x[3] # 0 \/ x[4] # 0) /\ x[3] <= 1
SchemeOf(a, x) == IF SlotType(a) = 4 THEN "R"
                  ELSE IF IsGeos(a, x) THEN (IF x[3] = 1 THEN "V" ELSE "S")
                  ELSE "L"

\* --- free-block map as stored in the image; sec is a function from location to bytes
MapOf(k, sec, t) == LET p == BitmapAt(k, t) IN BitSet(Range(sec[p[1]], p[2], p[3]))
CountOf(k, sec, t) == LET p == CountAt(k, t) IN At(sec[p[1]], p[2])
\* where the bit of a location is: <<map sector, index of the byte, weight of the bit>>
BitPlace == [k \in Kinds |-> [l \in AllLocs[k] |->
    LET p == BitmapAt(k, Trk(l)) IN <<p[1], p[2] + (Sec(l) \div 8) + 1, Pow2[Sec(l) % 8]>>]]
FreeInImage(k, sec) == {l \in AllLocs[k] : LET p == BitPlace[k][l] IN (sec[p[1]][p[2]] \div p[3]) % 2 = 1}
PopCount == [b \in 0..255 |-> Bit(b, 0) + Bit(b, 1) + Bit(b, 2) + Bit(b, 3) + Bit(b, 4) + Bit(b, 5) + Bit(b, 6) + Bit(b, 7)]
RECURSIVE Pops(_, _, _)
Pops(b, o, n) == IF n = 0 THEN 0 ELSE PopCount[b[o + n]] + Pops(b, o, n - 1)
\* no bit beyond the last sector of the track
NoExtraBits(k, b, o, n, t) ==
    \A j \in 0..(n - 1) : LET left == Spt[k][t] - 8 * j
                          IN left >= 8 \/ (IF left <= 0 THEN b[o + j + 1] = 0 ELSE b[o + j + 1] < Pow2[left])
\* tracks whose stored count or bitmap is not a count/bitmap of sectors of that track
BadMapTracks(k, sec, ts) == {t \in ts :
    LET p == BitmapAt(k, t) b == sec[p[1]]
    IN CountOf(k, sec, t) # Pops(b, p[2], p[3]) \/ ~NoExtraBits(k, b, p[2], p[3], t)}

\* the parts of a map sector which are not map: <<offset, length>>
FrameRanges(k, l) == IF k = "d64" THEN <<<<0, 4>>, <<144, 112>>>>
                     ELSE IF l = Loc(18, 0) THEN <<<<0, 4>>, <<144, 77>>>>
                     ELSE IF l = Loc(53, 0) THEN <<<<105, 151>>>>
                     ELSE <<<<0, 16>>>>
SameFrame(k, l, a, b) == \A i \in 1..Len(FrameRanges(k, l)) :
    LET r == FrameRanges(k, l)[i] IN Range(a, r[1], r[2]) = Range(b, r[1], r[2])
\* tracks of which the map's bytes differ between two images
MapEntry(k, sec, t) == LET p == BitmapAt(k, t) c == CountAt(k, t)
                       IN <<At(sec[c[1]], c[2]), Range(sec[p[1]], p[2], p[3])>>
ChangedMap(k, new, old) == IF \A l \in BamLocs[k] : l \in DOMAIN old
    THEN {t \in 1..LastTrk[k] : MapEntry(k, new, t) # MapEntry(k, old, t)}
    ELSE 1..LastTrk[k]
FreeOnTracks(k, sec, ts) == UNION {{Loc(t, s) : s \in MapOf(k, sec, t) \cap 0..(Spt[k][t] - 1)} : t \in ts}
LocsOnTracks(k, ts) == UNION {LocsOnTrack(k, t) : t \in ts}

\* --- a freshly formatted disk, sector by sector
BitmapByte(free, t, j, k) == LET B(i) == IF 8 * j + i < Spt[k][t] /\ Loc(t, 8 * j + i) \in free THEN Pow2[i] ELSE 0
                             IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)
MapByte(k, free, l, o) ==
    LET ct == {t \in 1..LastTrk[k] : CountAt(k, t) = <<l, o>>}
        bt == {t \in 1..LastTrk[k] : BitmapAt(k, t)[1] = l /\ o >= BitmapAt(k, t)[2] /\ o < BitmapAt(k, t)[2] + BitmapAt(k, t)[3]}
    IN IF ct # {} THEN LET t == CHOOSE t \in ct : TRUE IN Cardinality({s \in 0..(Spt[k][t] - 1) : Loc(t, s) \in free})
       ELSE IF bt # {} THEN LET t == CHOOSE t \in bt : TRUE IN BitmapByte(free, t, o - BitmapAt(k, t)[2], k)
       ELSE 0
FreshFree == [k \in Kinds |-> AllLocs[k] \ SystemLocs[k]]
\* the map bytes of a fresh disk (constant, computed once)
FreshMap == [k \in Kinds |-> [l \in BamLocs[k] |-> [o \in 0..255 |-> MapByte(k, FreshFree[k], l, o)]]]
HeaderByte(k, nm, id, o) ==
    IF o = 0 THEN DirTrk[k] ELSE IF o = 1 THEN FirstDirSec[k]
    ELSE IF o = 2 THEN FmtByte[k]
    ELSE IF o = 3 /\ k = "d71" THEN 128
    ELSE IF o >= HOffName[k] /\ o < HOffName[k] + 16 THEN PadTo(nm, 16)[o - HOffName[k] + 1]
    ELSE IF o = HOffId[k] THEN id[1] ELSE IF o = HOffId[k] + 1 THEN id[2]
    ELSE IF o = HOffDos[k] THEN DosByte[k] ELSE IF o = HOffFmt[k] THEN FmtByte[k]
    ELSE IF o \in HPads[k] THEN Pad
    ELSE IF HeaderLoc[k] \in BamLocs[k] THEN FreshMap[k][HeaderLoc[k]][o]
    ELSE 0
FreshHeader(k, nm, id) == [i \in 1..256 |-> HeaderByte(k, nm, id, i - 1)]
FreshDir == [i \in 1..256 |-> IF i = 2 THEN 255 ELSE 0]
FreshMapSector(k, l) == [i \in 1..256 |-> FreshMap[k][l][i - 1]]
=============================================================================
