------------------------------ MODULE CbmImage ------------------------------
(***************************************************************************)
(* What the bytes of a disk image mean: block chains, the directory, the   *)
(* four kinds of files (linear, relative, GEOS sequential, GEOS VLIR),     *)
(* GEOS Convert streams, and the consistency rules that validation checks. *)
(* An image is a record [k, trk, ix, secs]: the disk type, the number of   *)
(* tracks, for each sector in image order its place in `secs` (0: all      *)
(* bytes zero), and the distinct non-zero sectors.                         *)
(***************************************************************************)
EXTENDS CbmCodec

ZeroSector == [i \in 1..256 |-> 0]
\* a sector is transmitted as <<fill byte, bytes before the trailing run of it>>
Expand(c) == c[2] \o [i \in 1..(256 - Len(c[2])) |-> c[1]]

Valid(g, l) == ValidLoc(g.k, g.trk, l)
Sector(g, l) == LET i == g.ix[Index(g.k, l) + 1] IN IF i = 0 THEN ZeroSector ELSE g.secs[i]

\* --------------------------------------------------------------- chains
(* The blocks of the chain starting at l: [ok, b], b being the sequence of *)
(* <<location, used bytes>>.  A link to a block already visited, to a      *)
(* place outside the disk, or a last block without even its link bytes in  *)
(* use is an error (ok = FALSE).                                           *)
RECURSIVE Walk(_, _, _, _)
Walk(g, l, seen, acc) ==
    IF l \in seen \/ ~Valid(g, l) THEN [ok |-> FALSE, b |-> acc]
    ELSE LET s == Sector(g, l)
         IN IF s[1] # 0 THEN Walk(g, Loc(s[1], s[2]), seen \cup {l}, Append(acc, <<l, 256>>))
            ELSE IF s[2] = 0 THEN [ok |-> FALSE, b |-> acc]
            ELSE [ok |-> TRUE, b |-> Append(acc, <<l, s[2] + 1>>)]
Chain(g, l) == Walk(g, l, {}, <<>>)
ChainLocs(c) == {c.b[i][1] : i \in 1..Len(c.b)}

RECURSIVE Bytes(_, _, _, _)
Bytes(g, b, i, j) ==
    IF i > j THEN <<>>
    ELSE IF i = j THEN SubSeq(Sector(g, b[i][1]), 3, b[i][2])
    ELSE LET m == (i + j) \div 2 IN Bytes(g, b, i, m) \o Bytes(g, b, m + 1, j)
Stream(g, c) == Bytes(g, c.b, 1, Len(c.b))

\* ------------------------------------------------------------ directory
GeosDisk(g) == LET h == Sector(g, HeaderLoc[g.k]) IN Range(h, HOffGeos, 11) = GeosSig
Border(g) == LocAt(Sector(g, HeaderLoc[g.k]), HOffBorder)
DirChain(g) == Chain(g, FirstDirLoc[g.k])
(* Directory blocks in listing order, with the bytes in use: the chain,    *)
(* then the border block of a GEOS disk.                                   *)
DirBlocks(g) == DirChain(g).b \o (IF GeosDisk(g) THEN <<<<Border(g), 256>>>> ELSE <<>>)
DirOk(g) == DirChain(g).ok /\ (GeosDisk(g) => Valid(g, Border(g)))
\* slots (location*8+slot) of all entries that are not scratched, in order
BlockSlots(g, d) == LET s == Sector(g, d[1])
                    IN SelectSeq([i \in 1..(d[2] \div 32) |-> d[1] * 8 + i - 1], LAMBDA p : ~SlotEmpty(SlotA(s, p % 8)))
RECURSIVE SlotsFrom(_, _)
SlotsFrom(g, ds) == IF ds = <<>> THEN <<>> ELSE BlockSlots(g, ds[1]) \o SlotsFrom(g, Tail(ds))
Slots(g) == SlotsFrom(g, DirBlocks(g))

EA(g, p) == SlotA(Sector(g, p \div 8), p % 8)
EFirst(g, p) == SlotFirst(Sector(g, p \div 8), p % 8)
EName(g, p) == Strip(SlotName(Sector(g, p \div 8), p % 8))
EExtra(g, p) == SlotExtra(Sector(g, p \div 8), p % 8)
ESize(g, p) == SlotSize(Sector(g, p \div 8), p % 8)
EScheme(g, p) == SchemeOf(EA(g, p), EExtra(g, p))
Entry(g, p) == [nm |-> EName(g, p), a |-> EA(g, p), f |-> EFirst(g, p), sz |-> ESize(g, p), p |-> p,
                sc |-> EScheme(g, p), x |-> EExtra(g, p), bd |-> GeosDisk(g) /\ p \div 8 = Border(g)]

\* ------------------------------------------------------- relative files
SideLoc(x) == Loc(x[1], x[2])
RecLen(x) == x[3]
Pairs(s, o, n) == [i \in 1..n |-> LocAt(s, o + 2 * (i - 1))]
SideList(s) == SelectSeq(Pairs(s, 4, 6), LAMBDA l : Trk(l) # 0)
RECURSIVE SideData(_, _)
SideData(g, b) == IF b = <<>> THEN <<>>
                  ELSE Pairs(Sector(g, b[1][1]), 16, (b[1][2] - 16) \div 2) \o SideData(g, Tail(b))
(* The relative file: [ok, side, data, len]; ok is FALSE if the side       *)
(* sectors are unreadable or contradict each other, or if the data is not  *)
(* a whole number of records ending with the last block listed.            *)
Rel(g, x) ==
    LET c == Chain(g, SideLoc(x))
        side == [i \in 1..Len(c.b) |-> c.b[i][1]]
        sizes == \A i \in 1..Len(c.b) : c.b[i][2] >= 16 /\ c.b[i][2] % 2 = 0
        lists == \A i \in 1..Len(c.b) : SideList(Sector(g, side[i])) = side
        ok1 == RecLen(x) > 0 /\ c.ok /\ Len(side) <= 6 /\ sizes /\ lists
        data == IF ok1 THEN SideData(g, c.b) ELSE <<>>
        last == IF data = <<>> THEN 0 ELSE data[Len(data)]
        lb == IF last # 0 /\ Valid(g, last) THEN Sector(g, last) ELSE <<1, 0>>
        len == IF data = <<>> THEN 0 ELSE (Len(data) - 1) * 254 + lb[2] - 1
        ok2 == data = <<>> \/ (lb[1] = 0 /\ lb[2] > 0)
    IN [ok |-> ok1 /\ ok2 /\ len % RecLen(x) = 0, side |-> side, data |-> data, len |-> len]
\* byte i (from 0) of the data stream as listed in the side sectors
RelByte(g, r, i) == At(Sector(g, r.data[(i \div 254) + 1]), 2 + (i % 254))
RelRecord(g, x, r, n) == [j \in 1..RecLen(x) |-> RelByte(g, r, n * RecLen(x) + j - 1)]
RelReadable(g, x, r, n) == \A q \in {(n * RecLen(x)) \div 254, ((n + 1) * RecLen(x) - 1) \div 254} :
                               Valid(g, r.data[q + 1])
\* the side sectors list exactly the blocks of the data chain
RelAgrees(g, p, r) == LET c == Chain(g, EFirst(g, p))
                      IN c.ok /\ r.data = [i \in 1..Len(c.b) |-> c.b[i][1]]

\* ----------------------------------------------------------- GEOS files
InfoLoc(x) == Loc(x[1], x[2])
\* the records of an index block: locations, 255 (track 0) for empty ones
RECURSIVE IndexFrom(_, _)
IndexFrom(s, o) == IF o > 254 \/ LocAt(s, o) = 0 THEN <<>> ELSE <<LocAt(s, o)>> \o IndexFrom(s, o + 2)
VlirIndex(g, l) == IndexFrom(Sector(g, l), 2)
Empty == 255

\* ------------------------------------- all blocks of a file: [ok, set]
OccOf(g, p) ==
    LET x == EExtra(g, p)
        f == EFirst(g, p)
        sc == EScheme(g, p)
        main == Chain(g, f)
        info == IF InfoLoc(x) = 0 THEN {} ELSE {InfoLoc(x)}
    IN IF sc = "L" THEN [ok |-> main.ok, set |-> ChainLocs(main)]
       ELSE IF sc = "R" THEN LET r == Rel(g, x)
                             IN [ok |-> r.ok, set |-> {r.data[i] : i \in 1..Len(r.data)} \cup {r.side[i] : i \in 1..Len(r.side)}]
       ELSE IF sc = "S" THEN [ok |-> main.ok, set |-> ChainLocs(main) \cup info]
       ELSE IF ~Valid(g, f) THEN [ok |-> FALSE, set |-> {}]
       ELSE LET ix == SelectSeq(VlirIndex(g, f), LAMBDA l : l # Empty)
                cs == [i \in 1..Len(ix) |-> Chain(g, ix[i])]
            IN [ok |-> main.ok /\ \A i \in 1..Len(ix) : cs[i].ok,
                set |-> ChainLocs(main) \cup info \cup UNION {ChainLocs(cs[i]) : i \in 1..Len(ix)}]

\* ---------------------------------------------------- GEOS Convert stream
CvtSig(vlir) == (IF vlir THEN <<80, 82, 71>> ELSE <<83, 69, 81>>) \o
    <<32, 102, 111, 114, 109, 97, 116, 116, 101, 100, 32, 71, 69, 79, 83, 32, 102, 105, 108, 101, 32, 86, 49, 46, 48>>
CvtHead(g, p) == LET b == Range(Sector(g, p \div 8), 32 * (p % 8) + 2, 30) \o CvtSig(EScheme(g, p) = "V")
                 IN b \o [i \in 1..(254 - Len(b)) |-> 0]
PadBlock(b) == IF Len(b) % 254 = 0 THEN b ELSE b \o [i \in 1..(254 - (Len(b) % 254)) |-> 0]
RECURSIVE CvtData(_, _)
CvtData(g, cs) == IF cs = <<>> THEN <<>>
                  ELSE IF Len(cs) = 1 THEN Stream(g, cs[1])
                  ELSE PadBlock(Stream(g, cs[1])) \o CvtData(g, Tail(cs))
RECURSIVE CvtIndex(_, _)
CvtIndex(g, ix) == IF ix = <<>> THEN <<>>
                   ELSE (IF ix[1] = Empty THEN <<0, 255>>
                         ELSE LET c == Chain(g, ix[1]) IN <<Len(c.b), c.b[Len(c.b)][2] - 1>>) \o CvtIndex(g, Tail(ix))
(* [ok, b]: the whole stream; not available without an info block, with a  *)
(* damaged chain, or if a record has more than 255 blocks.                 *)
Cvt(g, p) ==
    LET x == EExtra(g, p)
        f == EFirst(g, p)
        v == EScheme(g, p) = "V"
        none == [ok |-> FALSE, b |-> <<>>]
    IN IF InfoLoc(x) = 0 \/ ~Valid(g, InfoLoc(x)) \/ ~Valid(g, f) THEN none
       ELSE LET ix == IF v THEN VlirIndex(g, f) ELSE <<f>>
                recs == SelectSeq(ix, LAMBDA l : l # Empty)
                cs == [i \in 1..Len(recs) |-> Chain(g, recs[i])]
            IN IF \E i \in 1..Len(cs) : ~cs[i].ok \/ (v /\ Len(cs[i].b) > 255) THEN none
               ELSE [ok |-> TRUE,
                     b |-> CvtHead(g, p) \o SubSeq(Sector(g, InfoLoc(x)), 3, 256)
                           \o (IF v THEN LET n == CvtIndex(g, ix) IN n \o [i \in 1..(254 - Len(n)) |-> 0] ELSE <<>>)
                           \o CvtData(g, cs)]

\* ------------------------------------------------------- free-block map
BamSectors(g) == [l \in BamLocs[g.k] |-> Sector(g, l)]
FreeOf(g) == FreeInImage(g.k, BamSectors(g))

\* ----------------------------------------------------------- validation
(* Owners of a block: the system (header, map, reserved track, directory   *)
(* chain, border) as position 0, and every file that can be followed.      *)
SysOwned(g) == SystemLocs[g.k] \cup ChainLocs(DirChain(g)) \cup (IF GeosDisk(g) THEN {Border(g)} ELSE {})
Scans(g) == LET ps == Slots(g) IN [i \in 1..Len(ps) |-> OccOf(g, ps[i])]
FileOwned(sc) == UNION {sc[i].set : i \in {j \in 1..Len(sc) : sc[j].ok}}
=============================================================================
