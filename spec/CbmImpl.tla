------------------------------- MODULE CbmImpl ------------------------------
(***************************************************************************)
(* The library at the grain of single writes to the image.  Each command   *)
(* of CbmFsMC becomes the sequence of writes the code makes (create_file,  *)
(* next_free_directory_entry, ChainWriter, free_locations, positioned      *)
(* writes of entries, BamWriter with two sections); memory holds the free  *)
(* map in use and each writer's tail block.  A crash may come between any  *)
(* two writes: CrashSafe is an invariant of every intermediate state.      *)
(* Between commands, the image and the memory together must mean the state *)
(* of CbmFs that the command leads to (Refines).                           *)
(***************************************************************************)
EXTENDS CbmFsMC

CONSTANT Variant      \* "code", or the name of a wrong ordering for which the invariants must fail

VARIABLES iDisk,   \* the image: blk, ent, dnext, map
          iMem,    \* free (map in use), wr: writer -> [pos, loc, buf, dirty]
          iProg,   \* writes of the running command still to be made
          iDone    \* what the command will have changed in memory and abstractly, and the file worked on
ivars == <<iDisk, iMem, iProg, iDone, mSt>>

None == [k |-> "none"]
Junk == [k |-> "junk"]           \* what old data looks like when read as a directory
NoBlk == [nx |-> 0, c |-> <<>>]
Old == [nx |-> 0, c |-> <<9>>]   \* old data in a free block
Sections == {DirB \cup {b \in DataB : b <= 100 + NData \div 2}, {b \in DataB : b > 100 + NData \div 2}}
SectionSeq == LET a == CHOOSE x \in Sections : 1 \in x IN <<a, CHOOSE x \in Sections : x # a>>
AllPos == {d * 8 + i : d \in DirB, i \in 0..(Epb - 1)}

\* ------------------------------------------------------- reading the image
RECURSIVE DirWalk(_, _, _)
DirWalk(dk, d, n) == IF n = 0 THEN <<>> ELSE <<d>> \o (IF dk.dnext[d] = 0 THEN <<>> ELSE DirWalk(dk, dk.dnext[d], n - 1))
DirSeq(dk) == DirWalk(dk, 1, NDir + 1)
RECURSIVE BlkWalk(_, _, _)
BlkWalk(dk, b, n) == IF n = 0 THEN <<>> ELSE <<b>> \o (IF dk.blk[b].nx = 0 THEN <<>> ELSE BlkWalk(dk, dk.blk[b].nx, n - 1))
ChainOf(dk, e) == BlkWalk(dk, e.first, NData + 1)
Contents(dk, e) == LET b == ChainOf(dk, e) IN [i \in 1..Len(b) |-> dk.blk[b[i]].c]
Listed(dk, p) == \E i \in 1..Len(DirSeq(dk)) : p \div 8 = DirSeq(dk)[i]
DirFine(dk) == LET ds == DirSeq(dk) IN
    Len(ds) <= NDir /\ \A p \in AllPos : Listed(dk, p) => dk.ent[p] # Junk

\* -------------------------------------------------------- single writes
Apply(dk, x) ==
    CASE x.t = "blk" -> [dk EXCEPT !.blk[x.l] = x.v]
      [] x.t = "head" -> [dk EXCEPT !.blk[x.l] = NoBlk]
      [] x.t = "link" -> [dk EXCEPT !.blk[x.l].nx = x.v]
      [] x.t = "ent" -> [dk EXCEPT !.ent[x.p] = x.v]
      [] x.t = "size" -> [dk EXCEPT !.ent[x.p].sz = @ + 1]
      [] x.t = "name" -> [dk EXCEPT !.ent[x.p].nm = x.v]
      [] x.t = "dir" -> [dk EXCEPT !.ent = [p \in AllPos |-> IF p \div 8 = x.l THEN None ELSE @[p]], !.dnext[x.l] = 0]
      [] x.t = "dlink" -> [dk EXCEPT !.dnext[x.l] = x.v]
      [] x.t = "map" -> [dk EXCEPT !.map = (@ \ x.s) \cup (x.v \cap x.s)]
MapWrites(free) == LET w == [i \in 1..2 |-> [t |-> "map", s |-> SectionSeq[i], v |-> free]]
                   IN IF Variant = "skipsection" THEN <<w[1]>> ELSE w

\* ------------------------------------- commands as sequences of writes
(* Each returns [prog, mem, st, busy]: the writes, the memory and the      *)
(* abstract state afterwards, and the names worked on.                     *)
GrowWrites(d, last, free) ==
    IF Variant = "linkfirst" THEN <<[t |-> "dlink", l |-> last, v |-> d], [t |-> "dir", l |-> d]>> \o MapWrites(free \ {d})
    ELSE <<[t |-> "dir", l |-> d]>> \o MapWrites(free \ {d}) \o <<[t |-> "dlink", l |-> last, v |-> d]>>
\* find by name as the code does: in listing order on the image
FindPos(dk, n) == {p \in AllPos : Listed(dk, p) /\ dk.ent[p] # None /\ dk.ent[p] # Junk /\ dk.ent[p].nm = n}
FreePos(dk) == LET ds == DirSeq(dk) IN
    SelectSeq([i \in 1..(Len(ds) * Epb) |-> ds[((i - 1) \div Epb) + 1] * 8 + ((i - 1) % Epb)], LAMBDA p : dk.ent[p] = None)
LastDirB(dk) == LET ds == DirSeq(dk) IN ds[Len(ds)]

Nothing(st) == [prog |-> <<>>, mem |-> iMem, st |-> st, busy |-> {}]
ICreate(c) ==
    LET fp == FreePos(iDisk)
        growable == iMem.free \cap DirB
        Place(free, p, pre, g) ==
            {LET f2 == free \ {b} IN
             [prog |-> pre \o <<[t |-> "head", l |-> b],
                                [t |-> "ent", p |-> p, v |-> [k |-> "file", nm |-> c.n, first |-> b, sz |-> 1]]>>
                       \o (IF Variant = "createnoflush" THEN <<>> ELSE MapWrites(f2)),
              mem |-> [iMem EXCEPT !.free = f2],
              st |-> [mSt EXCEPT !.fs = F!Create(g, p, c.n, 130, b)], busy |-> {}] : b \in Pick(free \cap DataB)}
    IN IF Len(c.n) > 2 \/ FindPos(iDisk, c.n) # {} THEN {Nothing(mSt)}
       ELSE IF fp # <<>>
            THEN IF iMem.free \cap DataB = {} THEN {Nothing(mSt)} ELSE Place(iMem.free, fp[1], <<>>, mSt.fs)
       ELSE IF growable = {} THEN {Nothing(mSt)}
       ELSE UNION {LET pre == GrowWrites(d, LastDirB(iDisk), iMem.free)
                       f1 == iMem.free \ {d}
                       g == F!Grow(mSt.fs, d)
                   IN IF f1 \cap DataB = {}
                      THEN {[prog |-> pre, mem |-> [iMem EXCEPT !.free = f1], st |-> [mSt EXCEPT !.fs = g], busy |-> {}]}
                      ELSE Place(f1, d * 8, pre, g) : d \in Pick(growable)}
IWriter(c) ==
    LET ps == FindPos(iDisk, c.n) IN
    IF ps = {} THEN {Nothing(mSt)}
    ELSE LET p == CHOOSE x \in ps : TRUE
             b == ChainOf(iDisk, iDisk.ent[p])
             l == b[Len(b)]
         IN {[prog |-> <<>>,
              mem |-> [iMem EXCEPT !.wr = (c.w :> [pos |-> p, loc |-> l, buf |-> iDisk.blk[l].c, dirty |-> TRUE]) @@ @],
              st |-> [mSt EXCEPT !.wr = (c.w :> [pos |-> p, dirty |-> FALSE]) @@ @], busy |-> {}]}
\* ChainWriter::write: fill the tail block; when full, write it, prepare the next block, count, link
RECURSIVE WriteSteps(_, _, _, _, _)
WriteSteps(w, n, b, free, acc) ==
    IF n = 0 THEN {[prog |-> acc, w |-> w, free |-> free, new |-> <<>>, k |-> 0]}
    ELSE IF Len(w.buf) < CapC
    THEN LET k == IF n < CapC - Len(w.buf) THEN n ELSE CapC - Len(w.buf)
         IN {[r EXCEPT !.k = @ + k] : r \in WriteSteps([w EXCEPT !.buf = @ \o [i \in 1..k |-> b]], n - k, b, free, acc)}
    ELSE IF free \cap DataB = {} THEN {[prog |-> Append(acc, [t |-> "blk", l |-> w.loc, v |-> [nx |-> 0, c |-> w.buf]]),
                                         w |-> w, free |-> free, new |-> <<>>, k |-> 0]}
    ELSE UNION {{[r EXCEPT !.new = <<x>> \o @]
                 : r \in WriteSteps([w EXCEPT !.loc = x, !.buf = <<>>], n, b, free \ {x},
                        acc \o <<[t |-> "blk", l |-> w.loc, v |-> [nx |-> 0, c |-> w.buf]],
                                 [t |-> "blk", l |-> x, v |-> NoBlk],
                                 [t |-> "size", p |-> w.pos],
                                 [t |-> "link", l |-> w.loc, v |-> x]>>)} : x \in Pick(free \cap DataB)}
IWrite(c) ==
    LET w == iMem.wr[c.w] f == mSt.fs.files[w.pos]
    IN {[prog |-> r.prog,
         mem |-> [iMem EXCEPT !.free = r.free, !.wr[c.w] = [r.w EXCEPT !.dirty = @ \/ c.len > 0]],
         st |-> [mSt EXCEPT !.fs = F!AppendTo(mSt.fs, w.pos, Cut(F!Room(f), r.k, c.b), r.new), !.wr[c.w].dirty = @ \/ c.len > 0],
         busy |-> {f.nm}] : r \in WriteSteps(w, c.len, c.b, iMem.free, <<>>)}
IFlush(c) ==
    LET w == iMem.wr[c.w]
        gone == c.op = "drop"
    IN {[prog |-> IF ~w.dirty THEN <<>>
                  ELSE <<[t |-> "blk", l |-> w.loc, v |-> [nx |-> 0, c |-> w.buf]]>>
                       \o (IF Variant = "flushnomap" THEN <<>> ELSE MapWrites(iMem.free)),
         mem |-> IF gone THEN [iMem EXCEPT !.wr = Without(@, c.w)] ELSE [iMem EXCEPT !.wr[c.w].dirty = FALSE],
         st |-> IF gone THEN [mSt EXCEPT !.wr = Without(@, c.w)] ELSE [mSt EXCEPT !.wr[c.w].dirty = FALSE],
         busy |-> {mSt.fs.files[w.pos].nm}]}
IDel(c) ==
    LET ps == FindPos(iDisk, c.n) IN
    IF ps = {} THEN {Nothing(mSt)}
    ELSE LET p == CHOOSE x \in ps : TRUE
             b == ChainOf(iDisk, iDisk.ent[p])
             f2 == iMem.free \cup {b[i] : i \in 1..Len(b)}
         IN {[prog |-> IF Variant = "delnomap" THEN <<[t |-> "ent", p |-> p, v |-> None]>>
                       ELSE MapWrites(f2) \o <<[t |-> "ent", p |-> p, v |-> None]>>,
              mem |-> [iMem EXCEPT !.free = f2],
              st |-> [mSt EXCEPT !.fs = F!Delete(mSt.fs, p)], busy |-> {c.n}]}
IRen(c) ==
    LET ps == FindPos(iDisk, c.n) IN
    IF ps = {} \/ Len(c.m) > 2 \/ FindPos(iDisk, c.m) # {} THEN {Nothing(mSt)}
    ELSE LET p == CHOOSE x \in ps : TRUE
         IN {[prog |-> <<[t |-> "name", p |-> p, v |-> c.m]>>, mem |-> iMem,
              st |-> [mSt EXCEPT !.fs = F!Rename(mSt.fs, p, c.m)], busy |-> {c.n}]}
Compile(c) == CASE c.op = "create" -> ICreate(c)
                [] c.op = "writer" -> IWriter(c)
                [] c.op = "write" -> IWrite(c)
                [] c.op \in {"flush", "drop"} -> IFlush(c)
                [] c.op = "del" -> IDel(c)
                [] c.op = "ren" -> IRen(c)

\* ------------------------------------------------------------- behaviour
Idle == [on |-> FALSE]
IInit == /\ Init
         /\ iDisk = [blk |-> [b \in DataB |-> Old], ent |-> [p \in AllPos |-> IF p \div 8 = 1 THEN None ELSE Junk],
                     dnext |-> [d \in DirB |-> IF d = 1 THEN 0 ELSE 1], map |-> Start.free]
         /\ iMem = [free |-> Start.free, wr |-> <<>>]
         /\ iProg = <<>> /\ iDone = Idle
Begin == /\ ~iDone.on
         /\ \E c \in Cmds(mSt) : /\ Legal(mSt, c)
                                 /\ \E r \in Compile(c) : /\ iProg' = r.prog
                                                          /\ iDone' = [on |-> TRUE, mem |-> r.mem, st |-> r.st, busy |-> r.busy]
         /\ UNCHANGED <<iDisk, iMem, mSt>>
Store == /\ iDone.on /\ iProg # <<>>
         /\ iDisk' = Apply(iDisk, iProg[1]) /\ iProg' = Tail(iProg)
         /\ UNCHANGED <<iMem, iDone, mSt>>
End == /\ iDone.on /\ iProg = <<>>
       /\ iMem' = iDone.mem /\ mSt' = iDone.st /\ iDone' = Idle
       /\ UNCHANGED <<iDisk, iProg>>
INext == Begin \/ Store \/ End
ISpec == IInit /\ [][INext]_ivars

\* ------------------------------------------------------------ invariants
DirtyNames == {mSt.fs.files[mSt.wr[w].pos].nm : w \in {x \in DOMAIN mSt.wr : mSt.wr[x].dirty}}
InWork == DirtyNames \cup (IF iDone.on THEN iDone.busy ELSE {})
(* A crash now: the directory can be read, and every file not being worked *)
(* on is listed, complete, and its blocks are marked used.                 *)
CrashSafe ==
    /\ DirFine(iDisk)
    /\ \A p \in DOMAIN mSt.fs.files :
         LET f == mSt.fs.files[p] e == iDisk.ent[p] IN
         f.nm \notin InWork =>
            /\ Listed(iDisk, p) /\ e.k = "file" /\ e.nm = f.nm
            /\ ChainOf(iDisk, e) = f.blk /\ Contents(iDisk, e) = f.pc
            /\ \A i \in 1..Len(f.blk) : f.blk[i] \notin iDisk.map
    /\ \A d \in {DirSeq(iDisk)[i] : i \in 1..Len(DirSeq(iDisk))} : d \notin iDisk.map
\* during a renaming the file is there under one of its names
RenameSafe == \A p \in DOMAIN mSt.fs.files :
    (iDone.on /\ mSt.fs.files[p].nm \in iDone.busy /\ p \in DOMAIN iDone.st.fs.files /\ mSt.fs.files[p].nm \notin DirtyNames
     /\ iDone.st.fs.files[p].nm # mSt.fs.files[p].nm)
       => /\ iDisk.ent[p].nm \in {mSt.fs.files[p].nm, iDone.st.fs.files[p].nm}
          /\ Contents(iDisk, iDisk.ent[p]) = mSt.fs.files[p].pc
(* Between commands: image and memory mean the abstract state.             *)
Tail1(s) == SubSeq(s, 1, Len(s) - 1)
Refines ==
    ~iDone.on =>
      LET s == mSt.fs IN
      /\ iMem.free = s.free
      /\ DirSeq(iDisk) = s.dirb
      /\ \A p \in AllPos : Listed(iDisk, p) =>
           IF p \in DOMAIN s.files
           THEN LET e == iDisk.ent[p] f == s.files[p]
                    ws == {w \in DOMAIN iMem.wr : iMem.wr[w].pos = p}
                IN /\ e.k = "file" /\ e.nm = f.nm /\ e.sz = Len(f.blk) /\ ChainOf(iDisk, e) = f.blk
                   /\ Tail1(Contents(iDisk, e)) = Tail1(f.pc)
                   /\ IF ws = {} THEN Contents(iDisk, e) = f.pc
                      ELSE \A w \in ws : iMem.wr[w].buf = f.pc[Len(f.pc)] /\ iMem.wr[w].loc = f.blk[Len(f.blk)]
           ELSE iDisk.ent[p] = None
      /\ DirtyNames = {} => iDisk.map = s.free
=============================================================================
