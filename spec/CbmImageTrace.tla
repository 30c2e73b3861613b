--------------------------- MODULE CbmImageTrace ---------------------------
(***************************************************************************)
(* Judges what the library reports about disk images (intact ones and      *)
(* damaged ones), and what its editing operations do to their bytes,       *)
(* against CbmImage.  The state is the image.                              *)
(***************************************************************************)
EXTENDS CbmShow, Json, IOUtils, TLC

CONSTANT Prop
Tr == ndJsonDeserialize(IOEnv.TRACE)
L(cond, label) == IF cond THEN {} ELSE {label}
IsErr(r) == r \notin {"ok", "panic", "hang", "abort", "overrun", "aftereof"}

NoImg == [k |-> "d64", trk |-> 35, ix |-> <<>>, secs |-> <<>>, on |-> FALSE, dmg |-> 0]
Load(e) == [k |-> e.k, trk |-> e.trk, ix |-> e.ix, secs |-> [i \in 1..Len(e.secs) |-> Expand(e.secs[i])],
            on |-> e.res = "ok", dmg |-> e.dmg]
\* --------------------------------------------------------- opening, header
JudgeImg(g, e) == L((e.res = "ok") = HeaderReadable(g), "open")
HeaderOf(g) == LET h == Sector(g, HeaderLoc[g.k]) IN
    [nm |-> Range(h, HOffName[g.k], 16), id |-> Range(h, HOffId[g.k], 2), ft |-> At(h, 2),
     dv |-> At(h, HOffDos[g.k]), df |-> At(h, HOffFmt[g.k]), fd |-> LocAt(h, 0),
     g |-> IF GeosDisk(g) THEN Border(g) ELSE 0]
JudgeMeta(g, e) ==
    L(e.hd = HeaderOf(g), "header")
    \cup L(MapOk(g, e.m), "map")
    \cup L(e.bres = "ok" /\ e.bf = SumCounts(g, LastTrk[g.k]), "blocksfree")
    \cup (IF DirOk(g)
          THEN L(e.res = "ok", "dirres")
               \cup L(e.res # "ok" \/ e.ls = [i \in 1..Len(Slots(g)) |-> Entry(g, Slots(g)[i])], "listing")
          ELSE L(IsErr(e.res), "dirbroken"))
    \cup L(e.chg = <<>>, "readchange")

\* ------------------------------------------------------------- validation
JudgeVal(g, e) ==
    IF ~DirOk(g) THEN L(IsErr(e.res), "valbroken")
    ELSE IF e.res # "ok" THEN {"valres"}
    ELSE
    LET ps == Slots(g)
        f == Findings(g)
        n == Len(e.er)
        Obs(c) == {e.er[i][2] : i \in {j \in 1..n : e.er[j][1] = c}}
        NamesOf(l) == IF l \in DOMAIN f.names THEN f.names[l] ELSE {}
    IN L(Obs("S") = f.sys, "valsystem")
       \cup L(Obs("A") = f.alloc, "valmisalloc")
       \cup L(Obs("O") = f.occ, "valmisocc")
       \cup L(Obs("2") = f.twice, "valover")
       \cup L({e.er[i][3] : i \in {j \in 1..n : e.er[j][1] = "F"}} = {EName(g, ps[i]) : i \in f.broken}
              /\ Cardinality({j \in 1..n : e.er[j][1] = "F"}) = Cardinality(f.broken), "valscan")
       \cup L(\A i \in 1..n :
                 /\ e.er[i][1] = "O" => IF e.er[i][2] \in f.sysall THEN TRUE ELSE e.er[i][3] \in NamesOf(e.er[i][2])
                 /\ e.er[i][1] = "2" => (\/ e.er[i][3] \in NamesOf(e.er[i][2]) \/ e.er[i][2] \in f.sysall)
                                        /\ e.er[i][4] \in NamesOf(e.er[i][2]), "valname")
       \cup L(\A i \in 1..n : e.er[i][1] \in {"S", "A", "O", "2", "F"}, "valkind")
       \cup L(e.chg = <<>> /\ MapOk(g, e.m), "valchange")

\* ------------------------------------------------------------------ files
InfoOk(s, f) ==
    /\ f.ic = Range(s, 5, 63) /\ f.a = At(s, 68) /\ f.ty = At(s, 69) /\ f.st = At(s, 70)
    /\ At(s, 69) < 15 => f.tn = GeosTypeName[At(s, 69) + 1]
    /\ At(s, 70) < 2 => f.sn = (IF At(s, 70) = 1 THEN "VLIR" ELSE "Sequential")
    /\ f.ld = Le16(s, 71) /\ f.en = Le16(s, 73) /\ f.sa = Le16(s, 75)
    /\ f.cl = Range(s, 77, 20) /\ f.au = Range(s, 97, 20) /\ f.ap = Range(s, 117, 20)
    /\ f.rs = Range(s, 137, 23) /\ f.ds = Range(s, 160, 96)
    /\ f.enc = [i \in 1..256 |-> IF i <= 5 THEN 85 ELSE s[i]]
JudgeInfo(g, x, f) ==
    IF InfoLoc(x) = 0 THEN L(f.res = "ok" /\ ~f.some, "info")
    ELSE IF ~Valid(g, InfoLoc(x)) THEN L(IsErr(f.res), "infobroken")
    ELSE IF f.res # "ok" \/ ~f.some THEN {"info"}
    ELSE L(InfoOk(Sector(g, InfoLoc(x)), f), "infofields")

\* a chain read as one record or stream
ReadOk(g, l, r) == LET c == Chain(g, l)
                   IN IF c.ok THEN r.res = "ok" /\ r.b = Stream(g, c) ELSE IsErr(r.res)
Recs(e) == {e.recs[i] : i \in 1..Len(e.recs)}
OccOk(e, o) == IF ~o.ok THEN IsErr(e.occ.res)
               ELSE e.occ.res = "ok" /\ {e.occ.b[i] : i \in 1..Len(e.occ.b)} = o.set /\ Len(e.occ.b) = Cardinality(o.set)

\* What must not be read as data: the call may not succeed where its chain is broken or leads out of the disk.
AsData(g, e) ==
    LET p == e.p
        x == EExtra(g, p)
        f == EFirst(g, p)
        sc == EScheme(g, p)
        o == OccOf(g, p)
    IN L(e.res # "ok"
         \/ /\ o.ok \/ IsErr(e.occ.res)
            /\ sc = "R" => LET r == Rel(g, x) IN
                  r.ok /\ \A q \in Recs(e) : q.i < r.len \div RecLen(x) /\ ~RelReadable(g, x, r, q.i) => IsErr(q.res)
            /\ sc = "S" /\ ~Chain(g, f).ok => IsErr(e.rd.res) /\ \A q \in Recs(e) : q.i = 0 => IsErr(q.res)
            /\ sc = "V" => Valid(g, f) /\ LET ix == VlirIndex(g, f) IN
                  \A q \in Recs(e) : q.i < Len(ix) /\ ix[q.i + 1] # Empty /\ ~Chain(g, ix[q.i + 1]).ok => IsErr(q.res)
            /\ sc \in {"S", "V"} /\ e.cvt.res = "ok" => Cvt(g, p).ok,
         "asdata")

JudgeFile(g, e) ==
    LET p == e.p
        x == EExtra(g, p)
        f == EFirst(g, p)
        sc == EScheme(g, p)
        o == OccOf(g, p)
    IN L(g.dmg = 2 \/ e.bn = p, "byname") \cup
       (IF sc = "L" THEN
           IF e.res # "ok" THEN {"openfile"} ELSE
           L(e.rcres = "ok" /\ e.rc = 1, "linrc")
           \cup L(\A r \in Recs(e) : IF r.i = 0 THEN ReadOk(g, f, r) ELSE IsErr(r.res), "linrec")
           \cup L(ReadOk(g, f, e.rd), "linread")
           \cup L(IF Chain(g, f).ok THEN e.wr = "ok" ELSE IsErr(e.wr), "linwriter")
           \cup L(OccOk(e, o), "linocc")
           \cup L(e.info.res = "ok" /\ ~e.info.some, "info")
        ELSE IF sc = "R" THEN
           LET r == Rel(g, x) IN
           IF ~r.ok THEN L(IsErr(e.res), "relrefuse")
           ELSE IF e.res # "ok" THEN {"relopen"}
           ELSE L(e.rcres = "ok" /\ e.rc = r.len \div RecLen(x), "relcount")
                \cup L(\A q \in Recs(e) : IF q.i >= r.len \div RecLen(x) THEN IsErr(q.res)
                                         ELSE IF RelReadable(g, x, r, q.i)
                                              THEN q.res = "ok" /\ q.b = RelRecord(g, x, r, q.i)
                                              ELSE IsErr(q.res), "relrecord")
                \cup L(OccOk(e, o), "relocc")
                \cup L(IsErr(e.rd.res) /\ IsErr(e.wr), "relreader")
        ELSE IF sc = "S" THEN
           IF e.res # "ok" THEN {"openfile"} ELSE
           L(e.rcres = "ok" /\ e.rc = 1, "geosrc")
           \cup L(\A q \in Recs(e) : q.i = 0 => ReadOk(g, f, q), "geosrec")
           \cup L(ReadOk(g, f, e.rd) /\ IsErr(e.wr), "geosread")
           \cup L(OccOk(e, o), "geosocc")
           \cup JudgeInfo(g, x, e.info)
           \cup (LET c == Cvt(g, p) IN L(IF c.ok THEN e.cvt.res = "ok" /\ e.cvt.b = c.b ELSE IsErr(e.cvt.res), "cvt"))
        ELSE
           IF ~Valid(g, f) THEN L(IsErr(e.res), "vlirrefuse")
           ELSE IF e.res # "ok" THEN {"openfile"}
           ELSE LET ix == VlirIndex(g, f) IN
           L(e.rcres = "ok" /\ e.rc = Len(ix), "vlirrc")
           \cup L(\A q \in Recs(e) : IF q.i >= Len(ix) THEN IsErr(q.res)
                                    ELSE IF ix[q.i + 1] = Empty THEN q.res = "ok" /\ q.b = <<>>
                                    ELSE ReadOk(g, ix[q.i + 1], q), "vlirrec")
           \cup L(IsErr(e.rd.res) /\ IsErr(e.wr), "vlirreader")
           \cup L(OccOk(e, o), "geosocc")
           \cup JudgeInfo(g, x, e.info)
           \cup (LET c == Cvt(g, p) IN L(IF c.ok THEN e.cvt.res = "ok" /\ e.cvt.b = c.b ELSE IsErr(e.cvt.res), "cvt")))
       \cup (IF Prop = "C10" THEN AsData(g, e) ELSE {})
       \cup L(e.res # "ok" \/ e.chg = <<>>, "readchange")

\* ------------------------------------------------------------ deletion
JudgeDel(g, e, n) ==
    LET p == e.p
        d == DelSet(g, p)
        ts == {Trk(l) : l \in d.set}
        old == Sector(g, p \div 8)
        new == Sector(n, p \div 8)
        ds == p \div 8
        can == d.ok /\ d.set \subseteq AllLocs[g.k]
    IN IF ~can THEN L(IsErr(e.res), "delbroken") \cup L(e.chg = <<>> /\ MapOk(g, e.m), "delfail")
       ELSE IF e.res # "ok" THEN {"delres"}
       ELSE L(SlotEmpty(EA(n, p)), "delentry")
            \cup L(ChgLocs(e) \subseteq BamLocs[g.k] \cup {ds}, "delother")
            \cup L(\A i \in 1..256 : i = 32 * (p % 8) + 3 \/ new[i] = old[i] \/ ds \in BamLocs[g.k], "delslots")
            \* (an entry of a damaged disk may lie in the map itself)
            \cup (IF ds \in BamLocs[g.k] THEN {}
                  ELSE L(FreeOf(n) = FreeOf(g) \cup d.set, "delfree")
                       \cup L(g.dmg = 2 \/ MapCountsOk(n, ts), "delcount")
                       \cup L(MapOk(n, e.m), "delmap"))

\* ----------------------------------------- writing structures back
RECURSIVE PutBytes(_, _, _, _)
PutBytes(b, o, xs, i) == IF i > Len(xs) THEN b ELSE PutBytes([b EXCEPT ![o + xs[i][1] + 1] = xs[i][2]], o, xs, i + 1)
\* the 30 bytes of an entry after setting fields
NewEntry(b, s) ==
    LET D == DOMAIN s
        b1 == IF "a" \in D THEN Put(b, 0, <<s.a>>) ELSE b
        b2 == IF "f" \in D THEN Put(b1, 1, <<Trk(s.f), Sec(s.f)>>) ELSE b1
        b3 == IF "nm" \in D THEN Put(b2, 3, PadTo(s.nm, 16)) ELSE b2
        b4 == IF "sz" \in D THEN Put(b3, 28, <<s.sz % 256, s.sz \div 256>>) ELSE b3
    IN PutBytes(b4, 19, s.x, 1)
JudgeEnt(g, e, n) ==
    LET l == e.p \div 8
        o == 32 * (e.p % 8) + 2
        old == Sector(g, l)
    IN IF e.res # "ok" THEN {"entres"}
       ELSE L(Sector(n, l) = Put(old, o, NewEntry(Range(old, o, 30), e.set)), "entbytes")
            \cup L(ChgLocs(e) \subseteq {l}, "entother")
NewHeader(g, s) ==
    LET b == Sector(g, HeaderLoc[g.k])
        D == DOMAIN s
        b1 == IF "nm" \in D THEN Put(b, HOffName[g.k], PadTo(s.nm, 16)) ELSE b
        b2 == IF "id" \in D THEN Put(b1, HOffId[g.k], s.id) ELSE b1
        b3 == IF "ft" \in D THEN Put(b2, 2, <<s.ft>>) ELSE b2
        b4 == IF "dv" \in D THEN Put(b3, HOffDos[g.k], <<s.dv>>) ELSE b3
    IN IF "df" \in D THEN Put(b4, HOffFmt[g.k], <<s.df>>) ELSE b4
JudgeHdr(g, e, n) ==
    LET want == NewHeader(g, e.set)
        got == Sector(n, HeaderLoc[g.k])
    IN IF e.res # "ok" THEN {"hdrres"}
       ELSE L(\A i \in 1..256 : (got[i] = want[i] \/ ((i - 1) \in HPads[g.k] /\ got[i] = Pad)), "hdrbytes")
            \cup L(ChgLocs(e) \subseteq {HeaderLoc[g.k]}, "hdrother")
JudgeBal(g, e, n) ==
    LET t == Trk(e.l)
        old == MapOfTrack(g, t)
        bits == IF e.fr THEN BitSet(old[3]) \cup {Sec(e.l)} ELSE BitSet(old[3]) \ {Sec(e.l)}
        new == MapOfTrack(n, t)
    IN IF e.res # "ok" THEN {"balres"}
       ELSE L(BitSet(new[3]) = bits /\ new[2] = Cardinality(bits), "baltrack")
            \cup L(\A u \in 1..LastTrk[g.k] : u # t => MapOfTrack(n, u) = MapOfTrack(g, u), "balother")
            \cup L(ChgLocs(e) \subseteq BamLocs[g.k] /\ \A l \in BamLocs[g.k] : SameFrame(g.k, l, Sector(n, l), Sector(g, l)), "balframe")
            \cup L(MapOk(n, e.m), "balmem")

\* ------------------------------------------------------------- hex dumps
JudgeFDump(g, e) ==
    LET r == FileRecords(g, e.p)
    IN IF ~r.ok THEN L(IsErr(e.res), "fdumpbroken")
       ELSE L(e.res = "ok" /\ e.lines = FileDump(g, e.p, r), "fdump")
JudgeDDump(g, e) ==
    IF e.res # "ok" THEN {"ddump"}
    ELSE L(Len(e.lines) = DumpLength(g, e.et), "ddumplen")
         \cup L(Len(e.lines) # DumpLength(g, e.et) \/ DumpSectorsOk(g, e.lines), "ddump")
         \cup L(Len(e.lines) # DumpLength(g, e.et) \/ DumpErrorsOk(g, e.et, e.lines), "ddumperr")
         \cup L(e.same, "dumpchange")

(* On a damaged image the directory, the border block or a file may lie on *)
(* top of the header or the map, which the library keeps in memory: after  *)
(* an edit there, what it reports is its own copy, and is judged no more.  *)
Overwritten(g, e) == /\ g.dmg = 2
                     /\ e.op \in {"misc", "went", "del"}
                     /\ ChgLocs(e) \cap (BamLocs[g.k] \cup {HeaderLoc[g.k]}) # {}

\* ------------------------------------------------------------------ steps
Panicked(e) == e.res \in {"panic", "hang", "abort", "overrun", "aftereof"}
Inner(e) == IF e.op # "file" \/ e.res # "ok" THEN {}
            ELSE {e.rcres, e.rd.res, e.occ.res, e.cvt.res, e.info.res, e.det} \cup {r.res : r \in Recs(e)}
Crash(e) == L(~Panicked(e) /\ Inner(e) \cap {"panic", "hang", "abort", "overrun", "aftereof"} = {}, "crash")
Step(g, e) ==
    IF e.op = "end" THEN [st |-> g, bad |-> {}]
    ELSE IF e.op = "fatal" THEN [st |-> [g EXCEPT !.on = FALSE], bad |-> {"crash"}]
    ELSE IF e.op = "img" THEN LET n == Load(e) IN [st |-> n, bad |-> Crash(e) \cup JudgeImg(n, e)]
    ELSE IF ~g.on THEN [st |-> g, bad |-> IF "res" \in DOMAIN e THEN Crash(e) ELSE {}]
    ELSE IF Panicked(e) THEN [st |-> [g EXCEPT !.on = FALSE], bad |-> {"crash"}]
    ELSE
    LET n == IF "chg" \in DOMAIN e THEN Apply(g, e.chg, 1) ELSE g
        bad == CASE e.op = "meta" -> JudgeMeta(g, e)
                 [] e.op = "val" -> JudgeVal(g, e)
                 [] e.op = "file" -> JudgeFile(g, e)
                 [] e.op = "del" -> JudgeDel(g, e, n)
                 [] e.op = "went" -> JudgeEnt(g, e, n)
                 [] e.op = "whd" -> JudgeHdr(g, e, n)
                 [] e.op = "bal" -> JudgeBal(g, e, n)
                 [] e.op = "fdump" -> JudgeFDump(g, e)
                 [] e.op = "ddump" -> JudgeDDump(g, e)
                 [] OTHER -> {}
    IN [st |-> [n EXCEPT !.dmg = IF e.op \in {"went", "whd", "misc", "bal"} THEN 2 ELSE @,
                         !.on = (e.op # "whd" \/ HeaderReadable(n)) /\ ~Overwritten(g, e)],
        bad |-> bad \cup Crash(e)]

LabelProps(x) ==
    CASE x = "crash" -> {"C19", "C09", "C10", "C12", "C13", "C14", "C15"}
      [] x \in {"open", "dirres"} -> {"C10", "C12"}
      [] x \in {"dirbroken", "infobroken", "delbroken", "asdata"} -> {"C10"}
      [] x \in {"header", "map", "blocksfree", "infofields", "entres", "entbytes", "entother", "hdrres", "hdrbytes",
                "hdrother", "balres", "baltrack", "balother", "balframe", "balmem"} -> {"C12"}
      [] x = "listing" -> {"C12", "C14", "C05"}
      [] x = "readchange" -> {"C12", "C10"}
      [] x \in {"valbroken", "valres", "valsystem", "valmisalloc", "valmisocc", "valover", "valscan", "valname",
                "valkind", "valchange"} -> {"C09"}
      [] x \in {"openfile", "linrc", "linrec", "linread", "linwriter", "linocc"} -> {"C10", "C01"}
      [] x \in {"relrefuse", "relopen", "relcount", "relrecord", "relocc", "relreader"} -> {"C13"}
      [] x \in {"geosrc", "geosrec", "geosread", "geosocc", "vlirrefuse", "vlirrc", "vlirrec", "vlirreader", "info"} -> {"C14"}
      [] x = "cvt" -> {"C15"}
      [] x = "byname" -> {"C14", "C13", "C05"}
      [] x \in {"delres", "delentry", "delother", "delslots", "delfree", "delcount", "delmap"} -> {"C13", "C14", "C03", "C02"}
      [] x \in {"fdump", "fdumpbroken", "ddump", "ddumplen", "ddumperr", "dumpchange"} -> {"C19"}
      [] x = "delfail" -> {"C06", "C10"}
      [] OTHER -> {}
VARIABLES tIdx, tSt, tBad
Init == tIdx = 0 /\ tSt = NoImg /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ \E r \in {Step(tSt, Tr[tIdx + 1])} :
              tSt' = r.st /\ tBad' = {x \in r.bad : Prop = "ALL" \/ Prop \in LabelProps(x)}
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tSt, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op]
=============================================================================
