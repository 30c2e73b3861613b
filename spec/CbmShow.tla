------------------------------ MODULE CbmShow -------------------------------
(***************************************************************************)
(* What is printed about an image: directory lines, file details, the      *)
(* free-block map, validation messages, hex dumps.                         *)
(***************************************************************************)
EXTENDS CbmImage, CbmText, TLC

\* the image with changed sectors <<location, compressed bytes>>
RECURSIVE Apply(_, _, _)
Apply(g, chg, i) ==
    IF i > Len(chg) THEN g
    ELSE Apply([g EXCEPT !.secs = Append(@, Expand(chg[i][2])),
                         !.ix[Index(g.k, chg[i][1]) + 1] = Len(g.secs) + 1], chg, i + 1)
ChgLocs(e) == {e.chg[i][1] : i \in 1..Len(e.chg)}

HeaderReadable(g) == g.k = "d71" => At(Sector(g, HeaderLoc[g.k]), 3) = 128
MapOfTrack(g, t) == LET p == BitmapAt(g.k, t) c == CountAt(g.k, t)
                    IN <<t, At(Sector(g, c[1]), c[2]), Range(Sector(g, p[1]), p[2], p[3])>>
MapOk(g, m) == Len(m) = LastTrk[g.k] /\ \A t \in 1..LastTrk[g.k] : m[t] = MapOfTrack(g, t)
RECURSIVE SumCounts(_, _)
SumCounts(g, t) == IF t = 0 THEN 0
                   ELSE (IF t = DirTrk[g.k] THEN 0 ELSE MapOfTrack(g, t)[2]) + SumCounts(g, t - 1)
GeosTypeName == <<"Non-GEOS", "BASIC", "Assembler", "Data file", "System File", "Desk Accessory", "Application",
                  "Application Data", "Font File", "Printer Driver", "Input Driver", "Disk Driver",
                  "System Boot File", "Temporary", "Auto-Execute File">>
Le16(s, o) == At(s, o) + 256 * At(s, o + 1)
MapCountsOk(n, ts) == BadMapTracks(n.k, BamSectors(n), ts) = {}
(* What deletion frees: of a relative file, the data chain and the side    *)
(* sectors; of the others, all occupied blocks.                            *)
DelSet(g, p) == IF EScheme(g, p) = "R"
                THEN LET c == Chain(g, EFirst(g, p)) r == Rel(g, EExtra(g, p))
                     IN [ok |-> c.ok /\ r.ok, set |-> ChainLocs(c) \cup {r.side[i] : i \in 1..Len(r.side)}]
                ELSE OccOf(g, p)
Put(b, o, v) == [i \in 1..Len(b) |-> IF i - 1 >= o /\ i - 1 < o + Len(v) THEN v[i - o] ELSE b[i]]
\* the records of a file as the library numbers them: [ok, b], b a sequence of byte sequences
FileRecords(g, p) ==
    LET x == EExtra(g, p)
        f == EFirst(g, p)
        sc == EScheme(g, p)
        c == Chain(g, f)
        bad == [ok |-> FALSE, b |-> <<>>]
    IN IF sc \in {"L", "S"} THEN IF c.ok THEN [ok |-> TRUE, b |-> <<Stream(g, c)>>] ELSE bad
       ELSE IF sc = "R" THEN LET r == Rel(g, x) n == r.len \div RecLen(x)
                             IN IF r.ok /\ \A i \in 0..(n - 1) : RelReadable(g, x, r, i)
                                THEN [ok |-> TRUE, b |-> [i \in 1..n |-> RelRecord(g, x, r, i - 1)]] ELSE bad
       ELSE IF ~Valid(g, f) THEN bad
       ELSE LET ix == VlirIndex(g, f)
                cs == [i \in 1..Len(ix) |-> IF ix[i] = Empty THEN [ok |-> TRUE, b |-> <<>>] ELSE Chain(g, ix[i])]
            IN IF \A i \in 1..Len(ix) : cs[i].ok
               THEN [ok |-> TRUE, b |-> [i \in 1..Len(ix) |-> Stream(g, cs[i])]] ELSE bad
RECURSIVE Flat(_, _, _)
Flat(f, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN f[i]
                 ELSE LET m == (i + j) \div 2 IN Flat(f, i, m) \o Flat(f, m + 1, j)
RecordLines(rs) == Flat([i \in 1..Len(rs) |-> <<"Record: " \o Dec(i - 1)>> \o HexLines(rs[i])], 1, Len(rs))
ZeroLines == HexLines(ZeroSector)
SectorLines(g, l) == IF g.ix[Index(g.k, l) + 1] = 0 THEN ZeroLines ELSE HexLines(Sector(g, l))
\* every sector of the image in order, 18 lines each, then the error table
ErrLine(g, et, t) == "track " \o Dec2(t) \o ": " \o Concat([s \in 1..Spt[g.k][t] |-> HexCell[et[FirstIdx[g.k][t] + s]]])
FileDump(g, p, r) == <<"Filename: ~22;" \o NameS(EName(g, p)) \o "~22;">> \o RecordLines(r.b)
DumpLength(g, et) == 18 * NSectors(g.k, g.trk) + (IF et = <<>> THEN 0 ELSE 2 + g.trk)
DumpSectorsOk(g, lines) ==
    \A t \in 1..g.trk : \A s \in 0..(Spt[g.k][t] - 1) :
        LET o == 18 * (FirstIdx[g.k][t] + s)
        IN /\ lines[o + 1] = "" /\ lines[o + 2] = "track " \o Dec2(t) \o " sector " \o Dec2(s)
           /\ SubSeq(lines, o + 3, o + 18) = SectorLines(g, Loc(t, s))
DumpErrorsOk(g, et, lines) ==
    et = <<>> \/ LET N == 18 * NSectors(g.k, g.trk)
                 IN /\ lines[N + 1] = "" /\ lines[N + 2] = "Error table:"
                    /\ \A t \in 1..g.trk : lines[N + 2 + t] = ErrLine(g, et, t)

\* ---------------------------------------------------------- directory text
LocS(l) == "(" \o Dec(Trk(l)) \o "," \o Dec(Sec(l)) \o ")"
LocsS(ls) == Concat([i \in 1..Len(ls) |-> (IF i = 1 THEN "" ELSE " ") \o LocS(ls[i])])
PosS(p) == "(" \o Dec(Trk(p \div 8)) \o "," \o Dec(Sec(p \div 8)) \o "@0x" \o Hex2[32 * (p % 8)] \o ")"
\* GEOS text: up to the first zero byte, other bytes escaped
RECURSIVE ToZero(_)
ToZero(b) == IF b = <<>> \/ b[1] = 0 THEN <<>> ELSE <<b[1]>> \o ToZero(Tail(b))
EscByte == [b \in 0..255 |-> IF b = 9 THEN "~5c;t" ELSE IF b = 10 THEN "~5c;n" ELSE IF b = 13 THEN "~5c;r"
                             ELSE IF b = 34 THEN "~5c;~22;" ELSE IF b = 39 THEN "~5c;'" ELSE IF b = 92 THEN "~5c;~5c;"
                             ELSE IF b >= 32 /\ b <= 126 THEN Printable[b - 31] ELSE "~5c;x" \o Hex2[b]]
GeosS(b) == LET z == ToZero(b) IN Concat([i \in 1..Len(z) |-> EscByte[z[i]]])
HeaderLine(g) ==
    LET h == Sector(g, HeaderLoc[g.k])
    IN "0 ~22;" \o NameS(Range(h, HOffName[g.k], 16)) \o "~22; " \o NameS(Range(h, HOffId[g.k], 2)) \o " "
       \o PetS[At(h, HOffDos[g.k])] \o PetS[At(h, HOffFmt[g.k])]
       \o (IF GeosDisk(g) THEN " (" \o GeosS(Range(h, HOffGeos, 16)) \o ")" ELSE "")
TypeS(a) == CASE SlotType(a) = 0 -> "del" [] SlotType(a) = 1 -> "seq" [] SlotType(a) = 2 -> "prg"
              [] SlotType(a) = 3 -> "usr" [] SlotType(a) = 4 -> "rel" [] OTHER -> "unk"
AttrS(a) == (IF SlotClosed(a) THEN " " ELSE "*") \o TypeS(a)
            \o (LET lock == (a \div 64) % 2 = 1 repl == (a \div 32) % 2 = 1
                IN IF lock /\ repl THEN "<@" ELSE IF lock THEN "<" ELSE IF repl THEN "@" ELSE " ")
StructS(b) == IF b = 0 THEN "Sequential" ELSE IF b = 1 THEN "VLIR" ELSE "Unknown(0x" \o Hex2[b] \o ")"
GTypeS(b) == IF b < 15 THEN GeosTypeName[b + 1] ELSE "Unknown(0x" \o Hex2[b] \o ")"
ExtraS(sc, x) ==
    IF sc = "L" THEN "REGULAR"
    ELSE IF sc = "R" THEN "REL(side=" \o LocS(SideLoc(x)) \o " rec_len=" \o Dec(RecLen(x)) \o ")"
    ELSE "GEOS(" \o StructS(x[3]) \o ", " \o GTypeS(x[4]) \o ", " \o Dec(1900 + x[5]) \o "-" \o Dec2(x[6]) \o "-"
         \o Dec2(x[7]) \o "-" \o Dec2(x[8]) \o ":" \o Dec2(x[9]) \o ")"
EntryLine(g, p, v) ==
    LET size == Dec(ESize(g, p))
        nm == EName(g, p)
    IN size \o Blanks(4 - (IF ESize(g, p) >= 10000 THEN 5 ELSE IF ESize(g, p) >= 1000 THEN 4
                           ELSE IF ESize(g, p) >= 100 THEN 3 ELSE IF ESize(g, p) >= 10 THEN 2 ELSE 1)) \o " "
       \o "~22;" \o NameS(nm) \o "~22;" \o Blanks(16 - Len(nm)) \o AttrS(EA(g, p))
       \o (IF v > 0 THEN " " \o ExtraS(EScheme(g, p), EExtra(g, p)) ELSE "")
       \o (IF GeosDisk(g) /\ p \div 8 = Border(g) THEN " (GEOS border)" ELSE "")
\* the info block as the tool shows it: icon on the left, text on the right
InfoText(s) == <<"Type: " \o GTypeS(At(s, 69)) \o " (" \o StructS(At(s, 70)) \o ")",
                 "Program addresses: load=0x" \o Hex4(Le16(s, 71)) \o " end=0x" \o Hex4(Le16(s, 73)) \o " start=0x" \o Hex4(Le16(s, 75)),
                 "Class: " \o GeosS(Range(s, 77, 20)), "Author: " \o GeosS(Range(s, 97, 20)),
                 "Application: " \o GeosS(Range(s, 117, 20)), "Description: " \o GeosS(Range(s, 160, 96))>>
InfoLines(s) == LET ic == SpriteLines(Range(s, 5, 63))
                IN <<"GEOS info block:">>
                   \o [r \in 1..11 |-> TextS(ic[r]) \o " " \o (IF r <= 6 THEN InfoText(s)[r] ELSE "")]
\* details of the file at slot p: [ok, b], b the lines; d = 1 for more detail
RECURSIVE LastFull(_, _)
LastFull(ix, n) == IF n = 0 THEN Len(ix) ELSE IF ix[n] # Empty THEN n ELSE LastFull(ix, n - 1)
VlirLines(g, f, ix, d) ==
    LET n == LastFull(ix, Len(ix))
    IN IF d = 0 THEN <<"VLIR records: " \o Dec(n)>>
       ELSE <<"VLIR record sector: " \o LocS(f)>>
            \o [i \in 1..n |-> "Record " \o Dec(i - 1) \o " sectors: "
                               \o (IF ix[i] = Empty THEN "" ELSE LET c == Chain(g, ix[i]) IN LocsS([j \in 1..Len(c.b) |-> c.b[j][1]]))]
            \o (IF n < Len(ix) THEN <<Dec(Len(ix) - n) \o " unavailable records follow...">> ELSE <<>>)
Details(g, p, d) ==
    LET x == EExtra(g, p)
        f == EFirst(g, p)
        sc == EScheme(g, p)
        c == Chain(g, f)
        dp == IF d > 0 THEN <<"Directory position: " \o PosS(p)>> ELSE <<>>
        occ == IF d > 0 THEN <<"Occupied sectors: " \o LocsS([j \in 1..Len(c.b) |-> c.b[j][1]])>> ELSE <<>>
        bad == [ok |-> FALSE, b |-> <<>>]
        info == IF InfoLoc(x) = 0 THEN <<>> ELSE InfoLines(Sector(g, InfoLoc(x)))
    IN IF sc = "L" THEN IF d > 0 /\ ~c.ok THEN bad ELSE [ok |-> TRUE, b |-> dp \o occ]
       ELSE IF sc = "R" THEN LET r == Rel(g, x)
                             IN IF ~r.ok THEN bad
                                ELSE [ok |-> TRUE, b |-> dp \o (IF d > 0 THEN <<"Data sectors: " \o LocsS(r.data), "Side sectors: " \o LocsS(r.side)>>
                                                                ELSE <<>>)]
       ELSE IF InfoLoc(x) # 0 /\ ~Valid(g, InfoLoc(x)) THEN bad
       ELSE IF sc = "S" THEN IF d > 0 /\ ~c.ok THEN bad ELSE [ok |-> TRUE, b |-> dp \o occ \o info]
       ELSE IF ~Valid(g, f) THEN bad
       ELSE LET ix == VlirIndex(g, f)
            IN IF d > 0 /\ \E i \in 1..Len(ix) : ix[i] # Empty /\ ~Chain(g, ix[i]).ok THEN bad
               ELSE [ok |-> TRUE, b |-> dp \o VlirLines(g, f, ix, d) \o info]
\* the slot found under a name (0: none)
Find(g, nm) == LET ps == SelectSeq(Slots(g), LAMBDA p : EName(g, p) = Strip(nm)) IN IF ps = <<>> THEN 0 ELSE ps[1]
FreeLine(g) == Dec(SumCounts(g, LastTrk[g.k])) \o " blocks free."
DirLines(g, v) ==
    LET ps == Slots(g)
        ds == [i \in 1..Len(ps) |-> IF v > 1 THEN Details(g, Find(g, EName(g, ps[i])), v - 2) ELSE [ok |-> TRUE, b |-> <<>>]]
    IN [ok |-> \A i \in 1..Len(ps) : ds[i].ok,
        b |-> <<HeaderLine(g)>>
              \o Flat([i \in 1..Len(ps) |-> <<EntryLine(g, ps[i], v)>> \o (IF v > 1 THEN ds[i].b \o <<"">> ELSE <<>>)], 1, Len(ps))
              \o <<FreeLine(g)>>]
MapLine(g, t) == LET m == MapOfTrack(g, t) bits == BitSet(m[3])
                 IN "t" \o Dec2(t) \o ": [" \o Dec2(m[2]) \o "/" \o Dec2(Spt[g.k][t]) \o "] "
                    \o Concat([s \in 1..Spt[g.k][t] |-> IF s - 1 \in bits THEN "." ELSE "x"])
MapLines(g) == [t \in 1..LastTrk[g.k] |-> MapLine(g, t)] \o <<FreeLine(g)>>

\* ------------------------------------------------------------- validation
Prefix(a, b) == Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a
Suffix(a, b) == Len(b) >= Len(a) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
DebugS(nm) == TextS(DebugText(nm))
(* What validation finds: sets of locations and files, see CbmImageTrace.  *)
Findings(g) ==
    LET ps == Slots(g)
        sc == Scans(g)
        files == FileOwned(sc)
        free == FreeOf(g)
        sys == SysOwned(g)
        owned == sys \cup files
    IN [sys |-> SystemLocs[g.k] \cap free,
        alloc |-> AllLocs[g.k] \ (free \cup owned),
        occ |-> ((owned \cap AllLocs[g.k]) \cap free) \ SystemLocs[g.k],
        twice |-> {l \in files : (IF l \in sys THEN 1 ELSE 0) + Cardinality({i \in 1..Len(ps) : sc[i].ok /\ l \in sc[i].set}) > 1},
        broken |-> {i \in 1..Len(ps) : ~sc[i].ok},
        names |-> [l \in files |-> {EName(g, ps[i]) : i \in {j \in 1..Len(ps) : sc[j].ok /\ l \in sc[j].set}}],
        sysall |-> sys]
Clean(f) == f.sys = {} /\ f.alloc = {} /\ f.occ = {} /\ f.twice = {} /\ f.broken = {}
\* the messages for a block; with alternatives where the file to be named is not determined
OccLine(f, l, s) == LET pre == "Sector " \o LocS(l) \o " misoccupied by file: "
                    IN IF l \in f.sysall THEN Prefix(pre, s) ELSE \E nm \in f.names[l] : s = pre \o DebugS(nm)
TwiceLine(f, l, s) == LET pre == "Sector " \o LocS(l) \o " occupied by multiple files, including at least: "
                      IN IF l \in f.sysall THEN Prefix(pre, s) /\ \E nm \in f.names[l] : Suffix(" " \o DebugS(nm), s)
                         ELSE \E a, b \in f.names[l] : s = pre \o DebugS(a) \o " " \o DebugS(b)
ValLinesOk(g, f, lines) ==
    LET all == {lines[i] : i \in 1..Len(lines)}
        ps == Slots(g)
        exact == {"System sector not allocated: " \o LocS(l) : l \in f.sys} \cup {"Sector misallocated: " \o LocS(l) : l \in f.alloc}
        rest == all \ exact
    IN /\ exact \subseteq all
       /\ \A l \in f.occ : \E s \in rest : OccLine(f, l, s)
       /\ \A l \in f.twice : \E s \in rest : TwiceLine(f, l, s)
       /\ \A i \in f.broken : \E s \in rest : Prefix("Error scanning " \o DebugS(EName(g, ps[i])) \o ": ", s)
       /\ \A s \in rest :
             \/ \E l \in f.occ : OccLine(f, l, s)
             \/ \E l \in f.twice : TwiceLine(f, l, s)
             \/ \E j \in f.broken : Prefix("Error scanning " \o DebugS(EName(g, ps[j])) \o ": ", s)
=============================================================================
