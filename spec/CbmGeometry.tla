----------------------------- MODULE CbmGeometry -----------------------------
(***************************************************************************)
(* The documented geometry of the three Commodore disk types: zones,       *)
(* addresses of sectors in an image, places of header, directory and       *)
(* free-block map.  Pure data; every other module looks things up here.    *)
(* A location (track t, sector s) is written as the number t*256+s.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Loc(t, s) == t * 256 + s
Trk(l) == l \div 256
Sec(l) == l % 256

\* sectors on a track of a single-sided 5.25" disk
Zone(t) == IF t <= 17 THEN 21 ELSE IF t <= 24 THEN 19 ELSE IF t <= 30 THEN 18 ELSE 17

Kinds == {"d64", "d71", "d81"}
MaxTrk == [k \in Kinds |-> IF k = "d64" THEN 40 ELSE IF k = "d71" THEN 70 ELSE 80]

SptOf(k, t) == IF k = "d81" THEN 40
               ELSE IF k = "d71" /\ t > 35 THEN Zone(t - 35)
               ELSE Zone(t)
Spt == [k \in Kinds |-> [t \in 1..MaxTrk[k] |-> SptOf(k, t)]]

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* index of the first sector of a track
FirstIdx == [k \in Kinds |-> [t \in 1..MaxTrk[k] |-> SumTo(Spt[k], t - 1)]]
Index(k, l) == FirstIdx[k][Trk(l)] + Sec(l)
NSectors(k, trk) == SumTo(Spt[k], trk)
ImageSize(k, trk, err) == NSectors(k, trk) * 256 + (IF err THEN NSectors(k, trk) ELSE 0)

LocsOnTrack(k, t) == {Loc(t, s) : s \in 0..(Spt[k][t] - 1)}
ValidLoc(k, trk, l) == /\ Trk(l) \in 1..trk
                       /\ Sec(l) < Spt[k][Trk(l)]

(* The part of the disk managed by CBM DOS: the free-block map covers     *)
(* tracks 1..LastTrk (a 40-track D64 has five more which DOS never uses). *)
LastTrk == [k \in Kinds |-> IF k = "d64" THEN 35 ELSE IF k = "d71" THEN 70 ELSE 80]
DirTrk == [k \in Kinds |-> IF k = "d81" THEN 40 ELSE 18]
FirstDirSec == [k \in Kinds |-> IF k = "d81" THEN 3 ELSE 1]
Reserved == [k \in Kinds |-> IF k = "d71" THEN 53 ELSE 0]
Interleave == [k \in Kinds |-> IF k = "d64" THEN 10 ELSE IF k = "d71" THEN 6 ELSE 1]
DirInterleave == [k \in Kinds |-> IF k = "d81" THEN 1 ELSE 3]
HeaderLoc == [k \in Kinds |-> Loc(DirTrk[k], 0)]
FirstDirLoc == [k \in Kinds |-> Loc(DirTrk[k], FirstDirSec[k])]

AllLocs == [k \in Kinds |-> {x \in 256..(LastTrk[k] * 256 + 255) : Sec(x) < Spt[k][Trk(x)]}]
DirTrackLocs == [k \in Kinds |-> LocsOnTrack(k, DirTrk[k])]
ReservedLocs == [k \in Kinds |-> IF Reserved[k] = 0 THEN {} ELSE LocsOnTrack(k, Reserved[k])]
DataLocs == [k \in Kinds |-> (AllLocs[k] \ DirTrackLocs[k]) \ ReservedLocs[k]]

\* Sectors with a copy of the free-block map
BamLocs == [k \in Kinds |-> IF k = "d64" THEN {Loc(18, 0)}
                            ELSE IF k = "d71" THEN {Loc(18, 0), Loc(53, 0)}
                            ELSE {Loc(40, 1), Loc(40, 2)}]
SystemLocs == [k \in Kinds |-> {HeaderLoc[k], FirstDirLoc[k]} \cup BamLocs[k] \cup ReservedLocs[k]]

\* Sectors of the directory track that can hold directory entries
DirCapacity == [k \in Kinds |-> Cardinality(DirTrackLocs[k]) - Cardinality((SystemLocs[k] \cap DirTrackLocs[k]) \ {FirstDirLoc[k]})]
DataBlocks == [k \in Kinds |-> Cardinality(DataLocs[k])]
EntriesPerBlock == 8
MaxEntries == [k \in Kinds |-> DirCapacity[k] * EntriesPerBlock]

(* Where track t's free count and bitmap are stored: <<loc, offset>> for  *)
(* the count, <<loc, offset, bytes>> for the bitmap.                      *)
CountAt(k, t) == IF k = "d81"
                 THEN IF t <= 40 THEN <<Loc(40, 1), 16 + 6 * (t - 1)>>
                                 ELSE <<Loc(40, 2), 16 + 6 * (t - 41)>>
                 ELSE IF t <= 35 THEN <<Loc(18, 0), 4 + 4 * (t - 1)>>
                                 ELSE <<Loc(18, 0), 221 + (t - 36)>>
BitmapAt(k, t) == IF k = "d81"
                  THEN IF t <= 40 THEN <<Loc(40, 1), 17 + 6 * (t - 1), 5>>
                                  ELSE <<Loc(40, 2), 17 + 6 * (t - 41), 5>>
                  ELSE IF t <= 35 THEN <<Loc(18, 0), 5 + 4 * (t - 1), 3>>
                                  ELSE <<Loc(53, 0), 3 * (t - 36), 3>>

(* Header fields: offsets in the header sector. *)
HOffName == [k \in Kinds |-> IF k = "d81" THEN 4 ELSE 144]
HOffId == [k \in Kinds |-> IF k = "d81" THEN 22 ELSE 162]
HOffDos == [k \in Kinds |-> IF k = "d81" THEN 25 ELSE 165]
HOffFmt == [k \in Kinds |-> IF k = "d81" THEN 26 ELSE 166]
HPads == [k \in Kinds |-> IF k = "d81" THEN {20, 21, 24, 27, 28}
                          ELSE {160, 161, 164, 167, 168, 169, 170}]
FmtByte == [k \in Kinds |-> IF k = "d81" THEN 68 ELSE 65]
DosByte == [k \in Kinds |-> IF k = "d81" THEN 51 ELSE 50]
HOffBorder == 171
HOffGeos == 173
GeosSig == <<71, 69, 79, 83, 32, 102, 111, 114, 109, 97, 116>>  \* "GEOS format"

Pad == 160
PadTo(nm, n) == [i \in 1..n |-> IF i <= Len(nm) THEN nm[i] ELSE Pad]
RECURSIVE Strip(_)
Strip(nm) == IF nm # <<>> /\ nm[Len(nm)] = Pad THEN Strip(SubSeq(nm, 1, Len(nm) - 1)) ELSE nm

\* powers of two and bits
Pow2 == [i \in 0..7 |-> IF i = 0 THEN 1 ELSE IF i = 1 THEN 2 ELSE IF i = 2 THEN 4 ELSE IF i = 3 THEN 8
                        ELSE IF i = 4 THEN 16 ELSE IF i = 5 THEN 32 ELSE IF i = 6 THEN 64 ELSE 128]
Bit(byte, i) == (byte \div Pow2[i]) % 2
\* the set of sectors whose bit is set in a little-endian bitmap
BitSet(bytes) == {s \in 0..(8 * Len(bytes) - 1) : Bit(bytes[(s \div 8) + 1], s % 8) = 1}
=============================================================================
