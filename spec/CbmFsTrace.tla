----------------------------- MODULE CbmFsTrace -----------------------------
(***************************************************************************)
(* Judges a recorded history of the real library against CbmFs at the real *)
(* geometry.  One event per step: the model's transition for the operation *)
(* is taken (where the library had a choice of blocks, the choice found in *)
(* the image is adopted if it was a legal one), and everything that was    *)
(* observed afterwards - image bytes, free map in memory and in the image, *)
(* listing, results, contents read - must be what the model state implies. *)
(* Failed clauses are collected in `bad` as labels.                        *)
(***************************************************************************)
EXTENDS CbmAlloc, CbmCodec, Json, IOUtils, TLC, TLCExt, SequencesExt

CONSTANT Prop            \* the property whose clauses are to be reported

Tr == ndJsonDeserialize(IOEnv.TRACE)

\* ------------------------------------------------------- block contents
\* contents of a block are represented by <<length, hash1, hash2>>
P1 == 46337
P2 == 46327
RECURSIVE Pow(_, _, _)
Pow(b, n, p) == IF n = 0 THEN 1 ELSE (b * Pow(b, n - 1, p)) % p
PowA == [n \in 0..254 |-> Pow(257, n, P1)]
PowB == [n \in 0..254 |-> Pow(263, n, P2)]
DCat(x, y) == <<x[1] + y[1], (x[2] * PowA[y[1]] + y[2]) % P1, (x[3] * PowB[y[1]] + y[3]) % P2>>
DLen(x) == x[1]
DEmpty == <<0, 0, 0>>
NmLen(n) == Len(n)

F == INSTANCE CbmFs WITH Cap <- 254, CCat <- DCat, CLen <- DLen, CEmpty <- DEmpty,
                         NameMax <- 16, NLen <- NmLen, Norm <- Strip

Fm == [k \in Kinds |-> [epb |-> 8, data |-> DataLocs[k], dirtrk |-> DirTrackLocs[k], sys |-> SystemLocs[k]]]

\* ------------------------------------------------------------- the state
Off(saved) == [on |-> FALSE, dead |-> FALSE, k |-> "d64", trk |-> 35, ro |-> FALSE, border |-> 0,
               hnm |-> <<>>, id |-> <<>>, dirb |-> <<>>, files |-> <<>>, free |-> {}, ifree |-> {}, mapbad |-> {},
               im |-> <<>>, raw |-> <<>>, wr |-> <<>>, ls |-> <<>>, hd |-> <<>>, age |-> 0, saved |-> saved]

Zero == <<0, 0, 0, 0, 0>>
ImAt(im, l) == IF l \in DOMAIN im THEN im[l] ELSE Zero
Upd(f, g) == g @@ f
ChgSet(e) == {e.chg[i][1] : i \in 1..Len(e.chg)}
ChgIm(e) == [l \in ChgSet(e) |-> LET c == (CHOOSE i \in 1..Len(e.chg) : e.chg[i][1] = l) IN SubSeq(e.chg[c], 2, 6)]
RawSet(e) == {e.raw[i][1] : i \in 1..Len(e.raw)}
RawMap(e) == [l \in RawSet(e) |-> e.raw[CHOOSE i \in 1..Len(e.raw) : e.raw[i][1] = l][2]]
MbTracks(e) == {e.mb[i][1] : i \in 1..Len(e.mb)}
MbFree(k, e) == UNION {{Loc(e.mb[i][1], s) : s \in BitSet(e.mb[i][3])} : i \in 1..Len(e.mb)}
MbBad(k, e) == \E i \in 1..Len(e.mb) :
    LET m == BitSet(e.mb[i][3]) IN e.mb[i][2] # Cardinality(m) \/ ~(m \subseteq 0..(Spt[k][e.mb[i][1]] - 1))
FreeObs(s, e) == IF e.mb = <<>> THEN s.free
                 ELSE (s.free \ LocsOnTracks(s.k, MbTracks(e))) \cup (MbFree(s.k, e) \cap AllLocs[s.k])

Fs(s) == [dirb |-> s.dirb, files |-> s.files, free |-> s.free]
Geos(s) == s.border # 0
DirtyPos(s) == {s.wr[w].pos : w \in {x \in DOMAIN s.wr : s.wr[x].dirty}}
WriterOf(s, pos) == {w \in DOMAIN s.wr : s.wr[w].pos = pos}

\* ---------------------------------------------- what the image must hold
NextBytes(l) == <<Trk(l), Sec(l)>>
\* the file's blocks in the image: links and contents; the last one may lag behind while dirty
FileOk(s, im, pos, tails) ==
    LET f == s.files[pos]
        n == Len(f.blk)
    IN /\ \A i \in 1..(n - 1) : ImAt(im, f.blk[i]) = NextBytes(f.blk[i + 1]) \o f.pc[i]
       /\ LET v == ImAt(im, f.blk[n])
          IN v[1] = 0 /\ v[2] = v[3] + 1 /\ <<v[3], v[4], v[5]>> \in tails
TailsOf(s, pos) ==
    LET ws == WriterOf(s, pos) IN
    IF ws = {} THEN {s.files[pos].pc[Len(s.files[pos].pc)]}
    ELSE UNION {s.wr[w].acc : w \in ws}
SlotOk(s, b, pos) ==
    LET i == pos % 8 IN
    IF pos \in DOMAIN s.files
    THEN LET f == s.files[pos] IN
         /\ SlotA(b, i) = f.a
         /\ SlotFirst(b, i) = f.blk[1]
         /\ SlotName(b, i) = PadTo(f.nm, 16)
         /\ SlotExtra(b, i) = <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
         /\ SlotSize(b, i) = Len(f.blk)
    ELSE SlotEmpty(SlotA(b, i))
DirBlockOk(s, raw, l) == \A i \in 0..7 : SlotOk(s, raw[l], l * 8 + i)
DirLinksOk(s, raw) == \A i \in 1..Len(s.dirb) :
    s.dirb[i] \in DOMAIN raw /\
    (IF i < Len(s.dirb) THEN LocAt(raw[s.dirb[i]], 0) = s.dirb[i + 1]
                        ELSE At(raw[s.dirb[i]], 0) = 0 /\ At(raw[s.dirb[i]], 1) = 255)
Listing(s) ==
    LET ord == F!FileOrder(Fm[s.k], Fs(s))
    IN [i \in 1..Len(ord) |->
          LET p == ord[i] f == s.files[p] IN
          [nm |-> f.nm, a |-> f.a, f |-> f.blk[1], sz |-> Len(f.blk), p |-> p,
           sc |-> "L", x |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, bd |-> FALSE]]
\* everything but the block count, for telling C03 from C05
NoSize(ls) == [i \in 1..Len(ls) |-> [nm |-> ls[i].nm, a |-> ls[i].a, f |-> ls[i].f, p |-> ls[i].p,
                                     sc |-> ls[i].sc, x |-> ls[i].x, bd |-> ls[i].bd]]
HeaderObs(s) == [nm |-> PadTo(s.hnm, 16), id |-> s.id, ft |-> FmtByte[s.k], dv |-> DosByte[s.k],
                 df |-> FmtByte[s.k], fd |-> FirstDirLoc[s.k], g |-> s.border]
Pieces(pc) == SelectSeq(pc, LAMBDA x : x[1] > 0)
ImPieces(s, im, pos) == Pieces([i \in 1..Len(s.files[pos].blk) |->
                                   SubSeq(ImAt(im, s.files[pos].blk[i]), 3, 5)])

\* --------------------------------------------------- results of one event
\* r: st (model state), bad (labels), touched (positions), fatal (cannot continue)
R(s, bad, touched, fatal) == [st |-> s, bad |-> bad, touched |-> touched, fatal |-> fatal]
L(cond, label) == IF cond THEN {} ELSE {label}

\* expected errors; roerr: operations that need a writable image
Judge(s, e, errs, roerr) ==
    LET all == errs \cup (IF s.ro /\ roerr THEN {"ReadOnly"} ELSE {})
    IN IF all = {} THEN e.res = "ok" ELSE e.res \in all

\* --- the directory may have grown: the new block, or 0
GrownTo(s, raw) ==
    LET last == s.dirb[Len(s.dirb)]
        n == IF last \in DOMAIN raw THEN LocAt(raw[last], 0) ELSE 255
    IN IF Trk(n) = 0 THEN 0 ELSE n

\* where new blocks must be the ones the documented search gives
AllocOn(s) == Prop \in {"C07", "ALL"} \/ (Prop = "C11" /\ s.age <= 9)
DirAllocOk(s, d) == d = NextFree(s.free, Geos(s), s.k, s.dirb[Len(s.dirb)])

StepCreate(s, e, im, raw) ==
    LET fm == Fm[s.k]
        errs == F!CreateErrs(fm, Fs(s), e.nm)
        slots == F!FreeSlots(fm, Fs(s))
        d == IF slots = <<>> THEN GrownTo(s, raw) ELSE 0
        dok == d \in F!DirFree(fm, Fs(s))
        s1 == IF d # 0 /\ dok THEN [s EXCEPT !.dirb = Append(@, d), !.free = @ \ {d}] ELSE s
        pos == IF slots # <<>> THEN slots[1] ELSE d * 8
        b == IF Trk(pos \div 8) > 0 /\ (pos \div 8) \in DOMAIN raw THEN SlotFirst(raw[pos \div 8], pos % 8) ELSE 0
        bok == b \in F!DataFree(fm, Fs(s1))
        badg == IF d # 0 THEN L(dok, "dirgrow") \cup L(~dok \/ ~AllocOn(s) \/ DirAllocOk(s, d), "allocdir") ELSE {}
    IN IF e.res = "ok"
       THEN IF errs # {} \/ s.ro THEN R(s, {"res"}, {}, TRUE)
            ELSE IF ~bok \/ (slots = <<>> /\ ~dok) THEN R(s1, {"createblock"} \cup badg, {}, TRUE)
            ELSE LET f == F!Create(Fs(s1), pos, e.nm, e.ty + 128, b)
                 IN R([s1 EXCEPT !.files = f.files, !.free = f.free],
                      badg \cup L(~AllocOn(s) \/ b = FirstFree(s1.free, Geos(s), s.k), "allocfirst"),
                      {pos}, FALSE)
       ELSE R(s1, badg \cup L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)

StepNfde(s, e, im, raw) ==
    LET fm == Fm[s.k]
        slots == F!FreeSlots(fm, Fs(s))
        d == IF slots = <<>> THEN GrownTo(s, raw) ELSE 0
        dok == d \in F!DirFree(fm, Fs(s))
        s1 == IF d # 0 /\ dok THEN [s EXCEPT !.dirb = Append(@, d), !.free = @ \ {d}] ELSE s
        pos == IF slots # <<>> THEN slots[1] ELSE d * 8
        errs == IF slots = <<>> THEN (IF s.ro THEN {"ReadOnly"} ELSE {}) \cup (IF F!DirFree(fm, Fs(s)) = {} THEN {"DiskFull"} ELSE {}) ELSE {}
        badg == IF d # 0 THEN L(dok, "dirgrow") \cup L(~dok \/ ~AllocOn(s) \/ DirAllocOk(s, d), "allocdir") ELSE {}
    IN R(s1, badg \cup L(Judge(s, e, errs, FALSE), "res")
             \cup L(e.res # "ok" \/ e.en.p = pos, "slot"), {}, FALSE)

\* follow the chain in the image from the old last block, at most n more blocks
RECURSIVE Follow(_, _, _)
Follow(im, l, n) ==
    IF n = 0 THEN <<>>
    ELSE LET v == ImAt(im, l) IN
         IF v[1] = 0 THEN <<>>
         ELSE <<Loc(v[1], v[2])>> \o Follow(im, Loc(v[1], v[2]), n - 1)
\* are the new blocks the ones the documented search gives, one after the other?
RECURSIVE AllocOrderOk(_, _, _, _, _)
AllocOrderOk(free, geos, k, prev, new) ==
    IF new = <<>> THEN TRUE
    ELSE /\ new[1] \in {FirstFree(free, geos, k), NextFree(free, geos, k, prev)}
         /\ AllocOrderOk(TLCEval(free \ {new[1]}), geos, k, new[1], Tail(new))

StepWrite(s, e, im, raw) ==
    IF s.ro
    THEN R([s EXCEPT !.wr[e.w].dirty = @ \/ e.rq > 0], L(e.res \in {"ok", "ReadOnly", "DiskFull"}, "res"), {}, FALSE)
    ELSE
    LET fm == Fm[s.k]
        pos == s.wr[e.w].pos
        f == s.files[pos]
        acc == F!Accepts(fm, Fs(s), pos, e.rq)
        need == F!NeedBlocks(f, e.acc)
        new == Follow(im, f.blk[Len(f.blk)], need)
        newset == {new[i] : i \in 1..Len(new)}
        \* (as of any Write, a call may accept less than would fit, but not nothing)
        resok == IF acc = 0 /\ e.rq > 0 THEN e.res = "DiskFull"
                 ELSE e.res = "ok" /\ e.acc <= acc /\ (e.rq = 0 \/ e.acc > 0)
        nok == /\ Len(new) = need
               /\ Cardinality(newset) = need
               /\ newset \subseteq F!DataFree(fm, Fs(s))
    IN IF ~resok THEN R(s, {"write"}, {pos}, TRUE)
       ELSE IF ~nok THEN R(s, {"writeblocks"}, {pos}, TRUE)
       ELSE LET g == F!AppendTo(Fs(s), pos, e.pc, new)
                t == g.files[pos].pc[Len(g.files[pos].pc)]
                w == [s.wr[e.w] EXCEPT !.dirty = @ \/ e.rq > 0,
                                       !.acc = IF need > 0 THEN {DEmpty, t} ELSE @ \cup {t}]
            IN R([s EXCEPT !.files = g.files, !.free = g.free, !.wr[e.w] = w],
                 L(~AllocOn(s) \/ AllocOrderOk(s.free, Geos(s), s.k, f.blk[Len(f.blk)], SubSeq(new, 1, IF Len(new) > 24 THEN 24 ELSE Len(new))), "allocnext"),
                 {pos}, FALSE)

StepFlush(s, e, im, raw, closing) ==
    LET w == s.wr[e.w]
        pos == w.pos
        gone(x) == [v \in DOMAIN x \ {e.w} |-> x[v]]
    IN IF s.ro
       THEN R(IF closing THEN [s EXCEPT !.wr = gone(@)] ELSE s,
              L(closing \/ e.res = "ReadOnly" \/ (e.res = "ok" /\ ~w.dirty), "res"), {}, FALSE)
       ELSE LET t == s.files[pos].pc[Len(s.files[pos].pc)]
                s1 == [s EXCEPT !.wr[e.w].dirty = FALSE, !.wr[e.w].acc = {t}]
            IN R(IF closing THEN [s1 EXCEPT !.wr = gone(@)] ELSE s1,
                 L(e.res = "ok", "res"), {pos}, e.res # "ok")

StepWriter(s, e) ==
    LET errs == F!LookupErrs(Fs(s), e.nm)
    IN IF e.res # "ok" THEN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)
       ELSE IF errs # {} THEN R(s, {"res"}, {}, TRUE)
       ELSE LET pos == F!PosOf(Fs(s), e.nm)
                t == s.files[pos].pc[Len(s.files[pos].pc)]
            IN R([s EXCEPT !.wr = (e.w :> [pos |-> pos, dirty |-> FALSE, acc |-> {t}]) @@ @], {}, {}, FALSE)

StepDel(s, e) ==
    LET errs == F!LookupErrs(Fs(s), e.nm)
    IN IF e.res # "ok" THEN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)
       ELSE IF errs # {} \/ s.ro THEN R(s, {"res"}, {}, TRUE)
       ELSE LET pos == F!PosOf(Fs(s), e.nm)
                g == F!Delete(Fs(s), pos)
            IN R([s EXCEPT !.files = g.files, !.free = g.free], {}, {}, FALSE)

StepRen(s, e) ==
    LET errs == F!RenameErrs(Fs(s), e.nm, e.to)
    IN IF e.res # "ok" THEN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)
       ELSE IF errs # {} \/ s.ro THEN R(s, {"res"}, {}, TRUE)
       ELSE R([s EXCEPT !.files = F!Rename(Fs(s), F!PosOf(Fs(s), e.nm), e.to).files], {}, {}, FALSE)

StepAttr(s, e) ==
    LET errs == F!LookupErrs(Fs(s), e.nm)
    IN IF e.res # "ok" THEN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)
       ELSE IF errs # {} \/ s.ro THEN R(s, {"res"}, {}, TRUE)
       ELSE R([s EXCEPT !.files = F!SetAttr(Fs(s), F!PosOf(Fs(s), e.nm), e.a).files], {}, {}, FALSE)

StepBadname(s, e) ==
    LET errs == F!LookupErrs(Fs(s), e.nm) \cup {"FilenameTooLong"}
    IN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, e.res = "ok")

StepRead(s, e, im) ==
    LET errs == F!LookupErrs(Fs(s), e.nm)
    IN IF errs # {} THEN R(s, L(e.res \in errs, "res"), {}, FALSE)
       ELSE R(s, L(e.res = "ok" /\ e.pc = ImPieces(s, im, F!PosOf(Fs(s), e.nm)), "read"), {}, FALSE)

StepOcc(s, e) ==
    LET errs == F!LookupErrs(Fs(s), e.nm)
    IN IF errs # {} THEN R(s, L(e.res \in errs, "res"), {}, FALSE)
       ELSE LET bs == F!BlocksOf(Fs(s), F!PosOf(Fs(s), e.nm))
            IN R(s, L(/\ e.res = "ok" /\ Len(e.oc) = Cardinality(bs)
                      /\ {e.oc[i] : i \in 1..Len(e.oc)} = bs, "occ"), {}, FALSE)

\* contents seen through a fresh opening: every given position is there with its data
ContentsOk(s, rd, poss) ==
    \A p \in poss : \E i \in 1..Len(rd) :
        rd[i].nm = s.files[p].nm /\ rd[i].res = "ok" /\ rd[i].pc = Pieces(s.files[p].pc)
StepSnap(s, e) ==
    LET clean == DOMAIN s.files \ DirtyPos(s)
        exp == {[nm |-> s.files[p].nm, a |-> s.files[p].a, f |-> s.files[p].blk[1], sz |-> Len(s.files[p].blk), p |-> p,
                 sc |-> "L", x |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, bd |-> FALSE] : p \in clean}
    IN R(s, L(e.sres = "ok" /\ exp \subseteq {e.sls[i] : i \in 1..Len(e.sls)}, "snaplist")
            \cup L(ContentsOk(s, e.sn, clean), "snapread")
            \cup L(ContentsOk(s, e.sn2, clean), "snapfill"), {}, FALSE)

(* What a crash in the middle of an operation would have left: all files   *)
(* but those being worked on (named in e.x) are there; a renamed one has   *)
(* its old or its new name.                                                *)
MidBad(s, e) ==
    LET busy == {e.x[i] : i \in 1..Len(e.x)}
        clean == {p \in DOMAIN s.files \ DirtyPos(s) : s.files[p].nm \notin busy}
        exp == {[nm |-> s.files[p].nm, a |-> s.files[p].a, f |-> s.files[p].blk[1], sz |-> Len(s.files[p].blk), p |-> p,
                 sc |-> "L", x |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, bd |-> FALSE] : p \in clean}
        moved == IF e.of \notin {"ren", "attr"} THEN {}
                 ELSE {p \in DOMAIN s.files \ DirtyPos(s) : s.files[p].nm \in busy}
    IN L(e.sres = "ok" /\ exp \subseteq {e.sls[i] : i \in 1..Len(e.sls)}, "snaplist")
       \cup L(ContentsOk(s, e.sn, clean), "snapread")
       \cup L(ContentsOk(s, e.sn2, clean), "snapfill")
       \cup L(\A p \in moved : \E i \in 1..Len(e.sn2) : e.sn2[i].nm \in busy /\ e.sn2[i].res = "ok"
                                                       /\ e.sn2[i].pc = Pieces(s.files[p].pc), "snapmoved")

StepReopen(s, e) ==
    LET s1 == [s EXCEPT !.ro = (e.ro = 1), !.wr = <<>>]
    IN R(s1, L(e.res = "ok", "reopen")
             \cup L(/\ Len(e.rd) = Cardinality(DOMAIN s.files)
                    /\ ContentsOk(s, e.rd, DOMAIN s.files), "reread"), {}, e.res # "ok")

HdrWith(k, b, nm, id) == [i \in 1..256 |->
    IF i - 1 >= HOffName[k] /\ i - 1 < HOffName[k] + 16 THEN PadTo(nm, 16)[i - HOffName[k]]
    ELSE IF i - 1 = HOffId[k] THEN id[1] ELSE IF i - 1 = HOffId[k] + 1 THEN id[2] ELSE b[i]]
StepHdrset(s, e, raw) ==
    LET errs == IF Len(e.nm) > 16 THEN {"FilenameTooLong"} ELSE {}
        h == HeaderLoc[s.k]
    IN IF e.res # "ok" THEN R(s, L(Judge(s, e, errs, TRUE), "res"), {}, FALSE)
       ELSE IF errs # {} \/ s.ro THEN R(s, {"res"}, {}, TRUE)
       ELSE R([s EXCEPT !.hnm = e.nm, !.id = e.id],
              L(raw[h] = HdrWith(s.k, s.raw[h], e.nm, e.id), "header"), {}, FALSE)

StepWsec(s, e) ==
    LET errs == (IF e.n # 256 THEN {"WriteUnderrun"} ELSE {})
                \cup (IF ~ValidLoc(s.k, s.trk, e.loc) THEN {"InvalidLocation"} ELSE {})
                \cup (IF s.ro THEN {"ReadOnly"} ELSE {})
    IN R(s, L(e.res \in errs, "res"), {}, e.res = "ok")

StepGeos(s, e) ==
    R([s EXCEPT !.border = e.bd, !.free = @ \ {e.bd}], L(e.res = "ok", "res"), {}, e.res # "ok")

\* formatting: from any state to the empty disk
FormatBad(k, e, raw) ==
    LET h == HeaderLoc[k] d == FirstDirLoc[k]
    IN L(h \in DOMAIN raw /\ raw[h] = FreshHeader(k, e.nm, e.id), "fheader")
       \cup L(d \in DOMAIN raw /\ raw[d] = FreshDir, "fdir")
       \cup L(\A l \in BamLocs[k] \ {h} : l \in DOMAIN raw /\ raw[l] = FreshMapSector(k, l), "fbam")
       \cup L({e.nz[i] : i \in 1..Len(e.nz)} \subseteq ({h, d} \cup BamLocs[k]), "fleft")
       \* what the library says the disk can hold
       \cup L(e.mde = MaxEntries[k] /\ e.tdb = Cardinality(FreshFree[k] \ DirTrackLocs[k]), "flimits")
StepFormat(s, e, raw) ==
    IF e.res = "ok" /\ Len(e.nm) <= 16 /\ ~s.ro
    THEN R([s EXCEPT !.on = TRUE, !.border = 0, !.hnm = e.nm, !.id = e.id, !.dirb = <<FirstDirLoc[s.k]>>,
                     !.files = <<>>, !.free = FreshFree[s.k], !.wr = <<>>, !.age = 0, !.im = <<>>],
           FormatBad(s.k, e, raw), {}, FALSE)
    ELSE IF e.res = "ok" THEN R(s, {"res"}, {}, TRUE)
    ELSE R(s, L(Judge(s, e, IF Len(e.nm) > 16 THEN {"FilenameTooLong"} ELSE {}, TRUE), "res"), {}, FALSE)

Op(s, e, im, raw) ==
    CASE e.op = "create" -> StepCreate(s, e, im, raw)
      [] e.op = "nfde" -> StepNfde(s, e, im, raw)
      [] e.op = "write" -> StepWrite(s, e, im, raw)
      [] e.op = "flush" -> StepFlush(s, e, im, raw, FALSE)
      [] e.op = "drop" -> StepFlush(s, e, im, raw, TRUE)
      \* a writer that has flushed everything: leaving it unused, and closing it later, changes nothing
      [] e.op = "park" -> R([s EXCEPT !.wr = [v \in DOMAIN @ \ {e.w} |-> @[v]]], L(~s.wr[e.w].dirty, "parked"), {}, FALSE)
      [] e.op = "unpark" -> R(s, L(e.res = "ok", "res"), {}, FALSE)
      [] e.op = "writer" -> StepWriter(s, e)
      [] e.op = "del" -> StepDel(s, e)
      [] e.op = "ren" -> StepRen(s, e)
      [] e.op = "attr" -> StepAttr(s, e)
      [] e.op = "badname" -> StepBadname(s, e)
      [] e.op = "read" -> StepRead(s, e, im)
      [] e.op = "occ" -> StepOcc(s, e)
      [] e.op = "validate" -> R(s, L(e.res = "ok" /\ e.nerr = 0, "validate"), {}, FALSE)
      [] e.op = "init" -> R(s, L(e.res = "ok", "res"), {}, FALSE)
      [] e.op = "snap" -> StepSnap(s, e)
      [] e.op = "reopen" -> StepReopen(s, e)
      [] e.op = "hdrset" -> StepHdrset(s, e, raw)
      [] e.op = "wsec" -> StepWsec(s, e)
      [] e.op = "geos" -> StepGeos(s, e)
      \* what is left in unused directory slots and free blocks means nothing
      [] e.op = "junk" -> R(s, {}, {}, e.res # "ok")
      [] e.op = "format" -> StepFormat(s, e, raw)

\* Operations that never write to the image.
Passive == {"read", "occ", "validate", "init", "snap", "reopen", "writer", "wsec", "badname",
            "park", "unpark"}
\* Operations after whose failure nothing at all may have been written.
Clean == {"del", "ren", "attr", "format", "hdrset", "writer"}

\* everything observed after the event agrees with the model state n
After(o, n, e, im, raw, freeobs, touched) ==
    LET k == n.k
        chg == ChgSet(e)
        bamlocs == BamLocs[k]
        hl == HeaderLoc[k]
        Owned(x) == (\E p \in touched : \E i \in 1..Len(n.files[p].blk) : n.files[p].blk[i] = x)
                    \/ (e.op = "del" /\ x \in n.free)
        meta == {n.dirb[i] : i \in 1..Len(n.dirb)} \cup bamlocs \cup {hl} \cup (IF n.border # 0 THEN {n.border} ELSE {})
        nochange == n.ro \/ e.op \in Passive \/ (e.op \in Clean /\ e.res # "ok") \/ (e.op = "write" /\ e.rq = 0)
        rawset == RawSet(e)
        ls == IF "ls" \in DOMAIN e THEN e.ls ELSE o.ls
        hd == IF "hd" \in DOMAIN e THEN e.hd ELSE o.hd
        exp == Listing(n)
        ifree == n.ifree
        cleanpos == DOMAIN n.files \ DirtyPos(n)
    IN L(e.bam = "ok", "bam")
       \cup L(freeobs = n.free /\ ~MbBad(k, e), "free")
       \cup L(e.bf = Cardinality(n.free) - Cardinality(n.free \cap DirTrackLocs[k]), "bf")
       \cup (IF nochange THEN L(chg = {}, "nochange")
             ELSE L(e.op = "format" \/ (\A x \in chg : x \in meta \/ Owned(x) \/ (e.op = "junk" /\ x \in n.free)), "frame"))
       \cup L(\A p \in touched : FileOk(n, im, p, TailsOf(n, p)), "content")
       \cup L(\A l \in rawset \cap F!DirSet(Fs(n)) : DirBlockOk(n, raw, l), "slots")
       \cup L((rawset \cap F!DirSet(Fs(n)) = {} /\ n.dirb = o.dirb) \/ DirLinksOk(n, raw), "dirlinks")
       \cup L(e.op \in {"format", "geos", "hdrset"} \/
              \A l \in rawset \cap (bamlocs \cup {hl}) : l \in DOMAIN o.raw /\
                  (IF l \in bamlocs THEN SameFrame(k, l, raw[l], o.raw[l]) ELSE raw[l] = o.raw[l]), "hdrframe")
       \cup (IF ("ls" \notin DOMAIN e /\ n.files = o.files /\ n.dirb = o.dirb) \/ ls = exp THEN {}
             ELSE IF NoSize(ls) = NoSize(exp) THEN {"sizes"} ELSE {"listing"})
       \cup L([hd EXCEPT !.nm = PadTo(@, 16)] = HeaderObs(n), "hd")
       \cup L(n.ro \/ (\E w \in DOMAIN n.wr : n.wr[w].dirty) \/ (ifree = n.free /\ n.mapbad = {}), "imagemap")
       \cup L((n.ifree = o.ifree /\ n.files = o.files /\ n.wr = o.wr) \/
              /\ \A p \in cleanpos : \A i \in 1..Len(n.files[p].blk) : n.files[p].blk[i] \notin ifree
              /\ \A i \in 1..Len(n.dirb) : n.dirb[i] \notin ifree
              /\ \A x \in SystemLocs[k] : x \notin ifree
              /\ n.border \notin ifree, "crashmap")
       \cup L(n.files = o.files \/ F!NamesUnique(Fs(n)), "unique")

\* ------------------------------------------------- labels and properties
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C17"}
OpProps(op) == CASE op \in {"create", "ren", "nfde", "attr", "badname"} -> {"C05"}
                 [] op = "del" -> {"C05", "C03"}
                 [] op \in {"writer", "write", "flush", "read", "drop"} -> {"C01"}
                 [] op = "occ" -> {"C03"}
                 [] op \in {"park", "unpark"} -> {"C01", "C03"}
                 [] op = "validate" -> {"C09"}
                 [] op \in {"reopen", "init", "restore"} -> {"C04"}
                 [] op = "hdrset" -> {"C12"}
                 [] op = "format" -> {"C11"}
                 [] OTHER -> {}
LabelProps(x, op) ==
    CASE x = "res" -> OpProps(op) \cup {"C06"}
      [] x \in {"slot"} -> {"C05"}
      [] x \in {"dirgrow"} -> {"C05", "C02", "C03"}
      [] x \in {"createblock", "writeblocks"} -> {"C01", "C02", "C03", "C07"}
      [] x \in {"allocfirst", "allocdir", "allocnext"} -> {"C07"}
      [] x = "write" -> {"C01", "C06"}
      [] x = "read" -> {"C01", "C02"}
      [] x = "occ" -> {"C03"}
      [] x = "validate" -> {"C09"}
      [] x \in {"snaplist", "snapread", "snapfill", "snapmoved"} -> {"C08"}
      [] x = "crashmap" -> {"C08"}
      [] x \in {"reopen", "reread"} -> {"C04", "C01"}
      [] x = "imagemap" -> {"C04"}
      [] x \in {"fheader", "fdir", "fbam", "fleft"} -> {"C11"}
      [] x = "flimits" -> {"C11", "C05"}
      [] x = "header" -> {"C12"}
      [] x \in {"bam", "free", "bf"} -> {"C03"}
      [] x = "nochange" -> {"C02"} \cup OpProps(op)
      [] x = "frame" -> {"C02"}
      [] x = "content" -> {"C01", "C02"}
      [] x = "slots" -> {"C05", "C02", "C12", "C03"}
      [] x = "dirlinks" -> {"C05"}
      [] x = "hdrframe" -> {"C02", "C12"}
      [] x = "listing" -> {"C05"}
      [] x = "sizes" -> {"C03"}
      [] x = "hd" -> {"C04", "C11", "C12"}
      [] x = "unique" -> {"C05"}
      [] OTHER -> AllProps
PropsOf(s, e, x) ==
    LabelProps(x, e.op)
    \cup (IF s.ro THEN {"C17"} ELSE {})
    \cup (IF e.res # "ok" /\ e.op # "flush" /\ ~s.ro THEN {"C06"} ELSE {})
    \cup (IF e.op = "write" /\ "acc" \in DOMAIN e /\ e.acc < e.rq THEN {"C06"} ELSE {})
    \cup (IF e.op = "format" \/ (s.age <= 9 /\ s.on) THEN {"C11"} ELSE {})
    \cup (IF e.op \in {"reopen", "init", "restore"} THEN {"C04"} ELSE {})
Report(s, e, labels) == {x \in labels : Prop = "ALL" \/ Prop \in PropsOf(s, e, x)}

\* ----------------------------------------------------------------- steps
Step(s, e) ==
    IF e.op = "end" THEN [st |-> s, bad |-> {}]
    ELSE IF e.op = "fatal" THEN [st |-> s, bad |-> {e.res}]
    ELSE IF e.op = "new"
         THEN [st |-> [Off(s.saved) EXCEPT !.k = e.k, !.trk = e.trk], bad |-> L(e.res = "ok", "open")]
    ELSE IF e.op = "mid" THEN [st |-> s, bad |-> IF s.dead \/ ~s.on \/ s.ro THEN {} ELSE Report(s, e, MidBad(s, e))]
    ELSE IF e.op = "dirty" THEN [st |-> [s EXCEPT !.raw = <<>>, !.on = FALSE], bad |-> {}]
    ELSE IF e.op = "save" THEN [st |-> [s EXCEPT !.saved = IF s.dead \/ ~s.on THEN @ ELSE (e.i :> [s EXCEPT !.saved = <<>>]) @@ @], bad |-> {}]
    ELSE IF e.op = "restore" /\ e.i \notin DOMAIN s.saved THEN [st |-> [s EXCEPT !.dead = TRUE], bad |-> {}]
    ELSE IF e.op = "restore" /\ e.res # "ok" THEN [st |-> [s EXCEPT !.dead = TRUE], bad |-> {"open"}]
    ELSE IF "chg" \notin DOMAIN e THEN [st |-> [s EXCEPT !.dead = TRUE], bad |-> Report(s, e, {"res"})]
    ELSE
    LET s0 == IF e.op = "restore" THEN [s.saved[e.i] EXCEPT !.saved = s.saved, !.wr = <<>>, !.ro = FALSE, !.dead = FALSE] ELSE s
    IN IF s0.dead \/ (~s0.on /\ e.op # "format") THEN [st |-> s0, bad |-> {}]
    ELSE
    IF e.res = "panic" THEN [st |-> [s0 EXCEPT !.dead = TRUE], bad |-> {"panic"}]
    ELSE
    LET im == ChgIm(e) @@ s0.im
        raw == RawMap(e) @@ s0.raw
        r == IF e.op = "restore" THEN R(s0, {}, {}, FALSE) ELSE Op(s0, e, im, raw)
        freeobs == FreeObs(s0, e)
        ok == r.st.on
        remap == ok /\ (e.op = "format" \/ RawSet(e) \cap BamLocs[s0.k] # {})
        ts == ChangedMap(s0.k, raw, s0.raw)
        n == IF ~remap THEN r.st
             ELSE IF e.op = "format" \/ Cardinality(ts) > 8
                  THEN [r.st EXCEPT !.ifree = FreeInImage(s0.k, raw), !.mapbad = BadMapTracks(s0.k, raw, 1..LastTrk[s0.k])]
                  ELSE [r.st EXCEPT !.ifree = (@ \ LocsOnTracks(s0.k, ts)) \cup FreeOnTracks(s0.k, raw, ts),
                                    !.mapbad = (@ \ ts) \cup BadMapTracks(s0.k, raw, ts)]
        aft == IF r.fatal \/ ~ok THEN {} ELSE After(s0, n, e, im, raw, freeobs, r.touched)
        all == r.bad \cup aft
        dead == r.fatal \/ (all \cap {"listing", "slots", "dirlinks", "content", "dirgrow", "bam", "unique"} # {})
        fin == [n EXCEPT !.im = IF e.op = "format" /\ e.res = "ok" THEN <<>> ELSE im, !.raw = raw, !.free = freeobs,
                         !.ls = IF "ls" \in DOMAIN e THEN e.ls ELSE @,
                         !.hd = IF "hd" \in DOMAIN e THEN e.hd ELSE @,
                         !.dead = dead, !.age = @ + 1]
    IN [st |-> fin, bad |-> Report(s0, e, all)]

\* (TLC tabulates a constant definition only if no bound name in it is also the name of a
\*  variable, so the variables have names used nowhere else)
VARIABLES tIdx, tSt, tBad
Init == tIdx = 0 /\ tSt = Off(<<>>) /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ \E r \in {Step(tSt, Tr[tIdx + 1])} : tSt' = r.st /\ tBad' = r.bad
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tSt, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op,
          dead |-> tSt.dead]
=============================================================================
