---------------------------- MODULE CbmCliTrace -----------------------------
(***************************************************************************)
(* Judges sessions with the command-line tool: what every command prints,  *)
(* its exit status, the host files it writes and what it does to the       *)
(* image, against CbmImage (what the image's bytes mean) and CbmShow (how  *)
(* it is printed).  The state is the image file.                           *)
(***************************************************************************)
EXTENDS CbmShow, Json, IOUtils

CONSTANT Prop
Tr == ndJsonDeserialize(IOEnv.TRACE)
L(cond, label) == IF cond THEN {} ELSE {label}

\* st: "none" no such file, "odd" not an image, "ok"
NoImg == [k |-> "d64", trk |-> 35, ix |-> <<>>, secs |-> <<>>, st |-> "none", dmg |-> 0, et |-> <<>>]
Load(e) == [k |-> e.k, trk |-> e.trk, ix |-> e.ix, secs |-> [i \in 1..Len(e.secs) |-> Expand(e.secs[i])],
            st |-> e.res, dmg |-> e.dmg, et |-> e.et]
Blank(g) == [g EXCEPT !.ix = [i \in 1..NSectors(g.k, g.trk) |-> 0], !.secs = <<>>, !.st = "ok", !.dmg = 0, !.et = <<>>]

\* what the tool did: refused with a message, or finished
Unchanged(e) == e.chg = <<>> /\ e.same
Refused(e) == e.st \in 1..100 /\ (e.err \/ e.saidout)
Done(e) == e.st = 0
Fails(e, label) == L(Refused(e), label \o "-status") \cup L(Unchanged(e), label \o "-changed")
Reads(e, good, label) == L(Done(e) /\ good, label) \cup L(Unchanged(e), label \o "-changed")

Name(cs) == FromText(cs)
\* n bytes of data with a period
Datum(e, i) == e.b[((i - 1) % Len(e.b)) + 1]
IsData(s, o, e, n) == Len(s) = o + n /\ \A i \in 1..n : s[o + i] = Datum(e, i)
SlotBytes(g, p) == Range(Sector(g, p \div 8), 32 * (p % 8) + 2, 30)

\* ---------------------------------------------------------------- writing
EmptySlots(g) == LET ds == DirChain(g).b
                     Of(d) == SelectSeq([i \in 1..(d[2] \div 32) |-> d[1] * 8 + i - 1], LAMBDA p : SlotEmpty(EA(g, p)))
                 IN Flat([i \in 1..Len(ds) |-> Of(ds[i])], 1, Len(ds))
DataFree(g) == FreeOf(g) \cap DataLocs[g.k]
DirFree(g) == FreeOf(g) \cap DirTrackLocs[g.k]
LastDir(g) == LET d == DirChain(g).b IN d[Len(d)][1]
\* tracks whose map entry differs
MapTracks(g, n) == {t \in 1..LastTrk[g.k] : MapOfTrack(g, t) # MapOfTrack(n, t)}
FramesSame(g, n) == \A l \in BamLocs[g.k] : SameFrame(g.k, l, Sector(n, l), Sector(g, l))
\* the entries of g, unless in `except`, are as they were
SlotSet(g) == LET ps == Slots(g) IN {ps[i] : i \in 1..Len(ps)}
Others(g, n, except) == \A p \in SlotSet(g) \ except : SlotBytes(n, p) = SlotBytes(g, p)
(* The image n is g with a new file of the given name, type and, as its    *)
(* contents, the first m bytes of the data for some m allowed by M(m).     *)
Written(g, n, e, nm, M(_)) ==
    LET es == EmptySlots(g)
        grown == ChainLocs(DirChain(n)) \ ChainLocs(DirChain(g))
        p == IF es # <<>> THEN es[1] ELSE LastDir(n) * 8
        c == Chain(n, EFirst(n, p))
        s == Stream(n, c)
        blocks == ChainLocs(c)
    IN /\ DirOk(n) /\ c.ok
       /\ IF es # <<>> THEN grown = {} ELSE Cardinality(grown) = 1 /\ grown \subseteq DirFree(g) /\ p \div 8 \in grown
       /\ SlotSet(n) = SlotSet(g) \cup {p}
       /\ EName(n, p) = Strip(nm) /\ EA(n, p) = 128 + e.ty /\ EScheme(n, p) = "L"
       /\ M(Len(s)) /\ IsData(s, 0, e, Len(s))
       /\ ESize(n, p) = Len(c.b)
       /\ blocks \subseteq DataFree(g)
       /\ FreeOf(n) = FreeOf(g) \ (blocks \cup grown)
       /\ MapCountsOk(n, MapTracks(g, n)) /\ FramesSame(g, n)
       /\ Others(g, n, {})
       /\ ChgLocs(e) \subseteq BamLocs[g.k] \cup blocks \cup grown \cup {p \div 8, LastDir(g)}
       /\ es # <<>> \/ Range(Sector(n, LastDir(g)), 2, 254) = Range(Sector(g, LastDir(g)), 2, 254)
Grown(g, n, e) ==
    LET grown == ChainLocs(DirChain(n)) \ ChainLocs(DirChain(g))
    IN /\ DirOk(n) /\ Slots(n) = Slots(g) /\ FreeOf(n) = FreeOf(g) \ grown /\ Others(g, n, {}) /\ FramesSame(g, n)
       /\ ChgLocs(e) \subseteq BamLocs[g.k] \cup grown \cup {LastDir(g)}
       /\ MapCountsOk(n, MapTracks(g, n))
Need(n) == IF n <= 254 THEN 1 ELSE (n + 253) \div 254
JudgeWrite(g, e, n) ==
    LET nm == Name(e.nm)
        slot == EmptySlots(g) # <<>> \/ DirFree(g) # {}
        room == Cardinality(DataFree(g))
    IN IF Len(nm) > 16 \/ Find(g, nm) # 0 THEN Fails(e, "write-refuse")
       ELSE IF ~slot \/ room = 0
       THEN L(Refused(e), "write-full-status") \cup L(e.same /\ (e.chg = <<>> \/ Grown(g, n, e)), "write-full-changed")
       ELSE IF Need(e.n) > room
       THEN L(Refused(e), "write-space-status") \cup L(e.same /\ Written(g, n, e, nm, LAMBDA m : m <= e.n), "write-space")
       ELSE L(Done(e), "write-status") \cup L(e.same /\ Written(g, n, e, nm, LAMBDA m : m = e.n), "write")

Appended(g, n, e, p, M(_)) ==
    LET c0 == Chain(g, EFirst(g, p))
        s0 == Stream(g, c0)
        c == Chain(n, EFirst(n, p))
        s == Stream(n, c)
        new == ChainLocs(c) \ ChainLocs(c0)
    IN /\ DirOk(n) /\ c.ok /\ Slots(n) = Slots(g)
       /\ SubSeq(SlotBytes(n, p), 1, 28) = SubSeq(SlotBytes(g, p), 1, 28)
       /\ M(Len(s) - Len(s0)) /\ SubSeq(s, 1, Len(s0)) = s0 /\ IsData(s, Len(s0), e, Len(s) - Len(s0))
       /\ ESize(g, p) # Len(c0.b) \/ ESize(n, p) = Len(c.b)
       /\ \A i \in 1..Len(c0.b) : c.b[i][1] = c0.b[i][1]
       /\ new \subseteq DataFree(g)
       /\ FreeOf(n) = FreeOf(g) \ new
       /\ MapCountsOk(n, MapTracks(g, n)) /\ FramesSame(g, n)
       /\ Others(g, n, {p})
       /\ ChgLocs(e) \subseteq BamLocs[g.k] \cup ChainLocs(c) \cup {p \div 8}
JudgeAppend(g, e, n) ==
    LET p == Find(g, Name(e.nm))
        c == Chain(g, EFirst(g, p))
        last == c.b[Len(c.b)][2]
        room == 256 - last + 254 * Cardinality(DataFree(g))
    IN IF p = 0 THEN Fails(e, "append-refuse")
       ELSE IF EScheme(g, p) # "L" \/ ~c.ok THEN Fails(e, "append-refuse")
       ELSE IF e.n > room THEN L(Refused(e), "append-space-status") \cup L(e.same /\ Appended(g, n, e, p, LAMBDA m : m <= e.n), "append-space")
       ELSE L(Done(e), "append-status") \cup L(e.same /\ Appended(g, n, e, p, LAMBDA m : m = e.n), "append")

\* ------------------------------------------------- renaming, deleting, map
JudgeRename(g, e, n) ==
    LET p == Find(g, Name(e.nm))
        to == Name(e.to)
        l == p \div 8
    IN IF p = 0 \/ Len(to) > 16 \/ Find(g, to) # 0 THEN Fails(e, "rename-refuse")
       ELSE L(Done(e), "rename-status")
            \cup L(/\ e.same /\ ChgLocs(e) \subseteq {l}
                   /\ Sector(n, l) = Put(Sector(g, l), 32 * (p % 8) + 5, PadTo(Strip(to), 16)), "rename")
JudgeDelete(g, e, n) ==
    LET p == Find(g, Name(e.nm))
        d == DelSet(g, p)
        l == p \div 8
    IN IF p = 0 THEN Fails(e, "delete-refuse")
       ELSE IF ~d.ok \/ ~(d.set \subseteq AllLocs[g.k]) THEN Fails(e, "delete-broken")
       ELSE L(Done(e), "delete-status")
            \cup L(/\ e.same /\ SlotEmpty(EA(n, p)) /\ Others(g, n, {p})
                   /\ ChgLocs(e) \subseteq BamLocs[g.k] \cup {l}
                   /\ FreeOf(n) = FreeOf(g) \cup d.set
                   /\ MapCountsOk(n, MapTracks(g, n)) /\ FramesSame(g, n), "delete")
JudgeBam(g, e, n) ==
    LET ts == IF e.t < 0 THEN 1..LastTrk[g.k] ELSE {e.t}
        Locs == UNION {{l \in LocsOnTrack(g.k, t) : e.s < 0 \/ Sec(l) = e.s} : t \in ts}
    IN IF e.s > 39 \/ e.t > LastTrk[g.k] \/ (e.t > 0 /\ e.s >= Spt[g.k][e.t]) THEN Fails(e, "bam-refuse")
       ELSE L(Done(e), "bam-status")
            \cup L(/\ e.same /\ ChgLocs(e) \subseteq BamLocs[g.k] /\ FramesSame(g, n)
                   /\ FreeOf(n) = (IF e.fr THEN FreeOf(g) \cup Locs ELSE FreeOf(g) \ Locs)
                   /\ MapTracks(g, n) \subseteq ts /\ MapCountsOk(n, ts), "bam")

\* ---------------------------------------------------- formatting, creating
FormattedOk(n, nm, id) ==
    LET special == {HeaderLoc[n.k], FirstDirLoc[n.k]} \cup BamLocs[n.k]
    IN /\ Sector(n, HeaderLoc[n.k]) = FreshHeader(n.k, nm, id)
       /\ Sector(n, FirstDirLoc[n.k]) = FreshDir
       /\ \A l \in BamLocs[n.k] \ {HeaderLoc[n.k]} : Sector(n, l) = FreshMapSector(n.k, l)
       /\ \A t \in 1..n.trk : \A s \in 0..(Spt[n.k][t] - 1) :
             Loc(t, s) \in special \/ n.ix[FirstIdx[n.k][t] + s + 1] = 0 \/ Sector(n, Loc(t, s)) = ZeroSector
JudgeFormat(g, e, n) ==
    LET nm == Name(e.nm)
    IN IF Len(nm) > 16 THEN Fails(e, "format-refuse")
       ELSE L(Done(e), "format-status") \cup L(e.same /\ FormattedOk(n, nm, IdOf(Name(e.id))), "format")
JudgeCreate(g, e) ==
    IF g.st # "none" THEN Fails(e, "create-refuse")
    ELSE L(Done(e), "create-status") \cup L(e.len = ImageSize(g.k, g.trk, FALSE) /\ e.zero, "create")

\* ---------------------------------------------------------------- reading
JudgeRead(g, e) ==
    LET p == Find(g, Name(e.nm))
        c == Chain(g, EFirst(g, p))
    IN IF p = 0 THEN Fails(e, "read-refuse")
       ELSE IF EScheme(g, p) \in {"L", "S"} /\ c.ok THEN Reads(e, e.hf = Stream(g, c), "read")
       ELSE Fails(e, "read-broken")
JudgeGeosRead(g, e) ==
    LET p == Find(g, Name(e.nm))
    IN IF p = 0 THEN Fails(e, "read-refuse")
       ELSE IF EScheme(g, p) \in {"S", "V"} /\ Cvt(g, p).ok THEN Reads(e, e.hf = Cvt(g, p).b, "geosread")
       ELSE Fails(e, "geosread-broken")
JudgeDir(g, e) == LET d == DirLines(g, e.v) IN IF d.ok THEN Reads(e, e.out = d.b, "dir") ELSE Fails(e, "dir-broken")
JudgeVal(g, e) ==
    LET f == Findings(g)
    IN IF Clean(f) THEN Reads(e, e.out = <<"Disk validates successfully.">>, "validate")
       ELSE Fails(e, "validate-errors") \cup L(ValLinesOk(g, f, e.out), "validate-lines")
JudgeFDump(g, e) ==
    LET p == Find(g, Name(e.nm))
        r == FileRecords(g, p)
    IN IF p = 0 THEN Fails(e, "dump-refuse")
       ELSE IF r.ok THEN Reads(e, e.out = FileDump(g, p, r), "dump") ELSE Fails(e, "dump-broken")
JudgeDDump(g, e) == Reads(e, Len(e.out) = DumpLength(g, g.et) /\ DumpSectorsOk(g, e.out) /\ DumpErrorsOk(g, g.et, e.out), "dump")

NeedsDir == {"write", "append", "rename", "delete", "read", "geosread", "dir", "validate", "fdump"}
Judge(g, e, n) ==
    IF e.c = "create" THEN JudgeCreate(g, e)
    ELSE IF e.c \in {"bad", "pre"} \/ g.st # "ok" THEN Fails(e, e.c)
    ELSE IF e.c = "format" THEN JudgeFormat(g, e, n)
    ELSE IF e.c = "ddump" THEN JudgeDDump(g, e)
    ELSE IF ~HeaderReadable(g) THEN Fails(e, "header")
    ELSE IF e.c \in NeedsDir /\ ~DirOk(g)
    THEN L(Unchanged(e), "broken-changed") \cup (IF e.c \in {"dir", "validate"} THEN Fails(e, "broken") ELSE {})
    ELSE CASE e.c = "write" -> JudgeWrite(g, e, n)
           [] e.c = "append" -> JudgeAppend(g, e, n)
           [] e.c = "rename" -> JudgeRename(g, e, n)
           [] e.c = "delete" -> JudgeDelete(g, e, n)
           [] e.c = "bam" -> JudgeBam(g, e, n)
           [] e.c = "read" -> JudgeRead(g, e)
           [] e.c = "geosread" -> JudgeGeosRead(g, e)
           [] e.c = "dir" -> JudgeDir(g, e)
           [] e.c = "show" -> Reads(e, e.out = MapLines(g), "show")
           [] e.c = "validate" -> JudgeVal(g, e)
           [] e.c = "fdump" -> JudgeFDump(g, e)
Step(g, e) ==
    IF e.op = "end" THEN [st |-> g, bad |-> {}]
    ELSE IF e.op = "fatal" THEN [st |-> g, bad |-> {"crash"}]
    ELSE IF e.op = "img" THEN [st |-> Load(e), bad |-> {}]
    ELSE LET n == IF g.st = "ok" THEN Apply(g, e.chg, 1)
                  ELSE IF e.c = "create" /\ e.st = 0 THEN Blank(g) ELSE g
         IN [st |-> n, bad |-> L(e.st \in 0..100, "crash") \cup Judge(g, e, n)]

VARIABLES tIdx, tSt, tBad
Init == tIdx = 0 /\ tSt = NoImg /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ \E r \in {Step(tSt, Tr[tIdx + 1])} : tSt' = r.st /\ tBad' = r.bad
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tSt, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op]
=============================================================================
