------------------------------ MODULE CbmFsMC -------------------------------
(***************************************************************************)
(* The file system of CbmFs on a small disk, with every possible choice of *)
(* blocks, for exhaustive checking.  Commands include those that fail.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NData,          \* number of data blocks
          NDir,           \* number of blocks for the directory
          Epb,            \* entries per directory block
          CapC,           \* bytes per block
          Names,          \* file names; those longer than 2 are too long
          Writers,        \* writer handles
          Lens, Bytes,    \* what may be written
          MaxLen,         \* longest file considered
          AnyBlock        \* TRUE: any free block may be chosen, FALSE: the lowest

SCat(x, y) == x \o y
SLen(x) == Len(x)
Same(x) == x
F == INSTANCE CbmFs WITH Cap <- CapC, CCat <- SCat, CLen <- SLen, CEmpty <- <<>>,
                         NameMax <- 2, NLen <- SLen, Norm <- Same

DataB == 101..(100 + NData)
DirB == 1..NDir
fm == [epb |-> Epb, data |-> DataB, dirtrk |-> DirB, sys |-> {0}]
Start == [dirb |-> <<1>>, files |-> <<>>, free |-> DataB \cup (DirB \ {1})]

Pick(S) == IF AnyBlock THEN S ELSE {CHOOSE x \in S : \A y \in S : x <= y}
\* all sequences of k different elements of S
RECURSIVE Choices(_, _)
Choices(S, k) == IF k = 0 THEN {<<>>}
                 ELSE UNION {{<<b>> \o r : r \in Choices(S \ {b}, k - 1)} : b \in Pick(S)}
\* n bytes b cut into pieces for file f
RECURSIVE Cut(_, _, _)
Cut(room, n, b) == IF n = 0 THEN <<>>
                   ELSE IF room = 0 THEN Cut(CapC, n, b)
                   ELSE LET k == IF n < room THEN n ELSE room
                        IN <<[i \in 1..k |-> b]>> \o Cut(CapC, n - k, b)

(* A state is [fs, wr]; wr: writer -> [pos, dirty].                        *)
Busy(st, p) == \E w \in DOMAIN st.wr : st.wr[w].pos = p
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Cmds(st) ==
    {[op |-> "create", n |-> n] : n \in Names}
    \cup {[op |-> "writer", w |-> w, n |-> n] : w \in Writers \ DOMAIN st.wr, n \in Names}
    \cup {[op |-> "write", w |-> w, len |-> k, b |-> b] : w \in DOMAIN st.wr, k \in Lens, b \in Bytes}
    \cup {[op |-> "flush", w |-> w] : w \in DOMAIN st.wr}
    \cup {[op |-> "drop", w |-> w] : w \in DOMAIN st.wr}
    \cup {[op |-> "del", n |-> n] : n \in Names}
    \cup {[op |-> "ren", n |-> n, m |-> m] : n, m \in Names}
\* the library's contract: a file is deleted only when nobody writes it, one writer per file
Legal(st, c) ==
    CASE c.op = "del" -> F!Has(st.fs, c.n) => ~Busy(st, F!PosOf(st.fs, c.n))
      [] c.op = "writer" -> F!Has(st.fs, c.n) => ~Busy(st, F!PosOf(st.fs, c.n))
      [] c.op = "write" -> F!FileLen(st.fs.files[st.wr[c.w].pos]) + c.len <= MaxLen
      [] OTHER -> TRUE

DoCreate(st, c) ==
    LET s == st.fs
        slots == F!FreeSlots(fm, s)
        \* the directory grows before the data block is searched
        grown == IF slots = <<>> THEN {F!Grow(s, d) : d \in Pick(F!DirFree(fm, s))} ELSE {s}
        blocked == Len(c.n) > 2 \/ F!Has(s, c.n)
    IN IF blocked THEN {st}
       ELSE IF F!CreateErrs(fm, s, c.n) # {}
            THEN IF slots = <<>> /\ F!DirFree(fm, s) # {} THEN {[st EXCEPT !.fs = g] : g \in grown} ELSE {st}
       ELSE UNION {{[st EXCEPT !.fs = F!Create(g, F!FreeSlots(fm, g)[1], c.n, 130, b)] : b \in Pick(F!DataFree(fm, g))} : g \in grown}
DoWrite(st, c) ==
    LET s == st.fs
        p == st.wr[c.w].pos
        k == F!Accepts(fm, s, p, c.len)
        need == F!NeedBlocks(s.files[p], k)
        pcs == Cut(F!Room(s.files[p]), k, c.b)
    IN {[st EXCEPT !.fs = F!AppendTo(s, p, pcs, new), !.wr[c.w].dirty = @ \/ c.len > 0]
          : new \in Choices(F!DataFree(fm, s), need)}
Do(st, c) ==
    LET s == st.fs IN
    CASE c.op = "create" -> DoCreate(st, c)
      [] c.op = "writer" -> IF ~F!Has(s, c.n) THEN {st}
                            ELSE {[st EXCEPT !.wr = (c.w :> [pos |-> F!PosOf(s, c.n), dirty |-> FALSE]) @@ @]}
      [] c.op = "write" -> DoWrite(st, c)
      [] c.op = "flush" -> {[st EXCEPT !.wr[c.w].dirty = FALSE]}
      [] c.op = "drop" -> {[st EXCEPT !.wr = Without(@, c.w)]}
      [] c.op = "del" -> IF ~F!Has(s, c.n) THEN {st} ELSE {[st EXCEPT !.fs = F!Delete(s, F!PosOf(s, c.n))]}
      [] c.op = "ren" -> IF F!RenameErrs(s, c.n, c.m) # {} THEN {st}
                         ELSE {[st EXCEPT !.fs = F!Rename(s, F!PosOf(s, c.n), c.m)]}

VARIABLE mSt
Init == mSt = [fs |-> Start, wr |-> <<>>]
Next == \E c \in Cmds(mSt) : Legal(mSt, c) /\ mSt' \in Do(mSt, c)
Spec == Init /\ [][Next]_mSt

\* ------------------------------------------------------------- invariants
InvExcl == F!Excl(fm, mSt.fs)
InvAcct == F!Acct(fm, mSt.fs)
InvNames == F!NamesUnique(mSt.fs)
InvShape == F!Shape(fm, mSt.fs)
InvWriters == \A w \in DOMAIN mSt.wr : mSt.wr[w].pos \in DOMAIN mSt.fs.files
\* entries are listed in slot order, a new one in the first free slot
InvOrder == LET o == F!FileOrder(fm, mSt.fs) IN Len(o) = Cardinality(DOMAIN mSt.fs.files)

\* -------------------------------------------------------- step properties
Data(f) == LET RECURSIVE Cat(_)
               Cat(p) == IF p = <<>> THEN <<>> ELSE p[1] \o Cat(Tail(p))
           IN Cat(f.pc)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Kept(s, t) == DOMAIN s.files \cap DOMAIN t.files
\* contents only ever grow at the end, for at most one file per step
StepContent == LET s == mSt.fs t == mSt'.fs IN
    /\ \A p \in Kept(s, t) : IsPre(Data(s.files[p]), Data(t.files[p])) /\ IsPre(s.files[p].blk, t.files[p].blk)
    /\ Cardinality({p \in Kept(s, t) : s.files[p] # t.files[p]}) <= 1
\* at most one file appears or disappears per step, and then no other one changes
StepIsolation == LET s == mSt.fs t == mSt'.fs IN
    /\ Cardinality((DOMAIN s.files \cup DOMAIN t.files) \ Kept(s, t)) <= 1
    /\ (DOMAIN s.files # DOMAIN t.files) => \A p \in Kept(s, t) : s.files[p] = t.files[p]
\* space moves only between the free set, the directory and the one file concerned
StepSpace == LET s == mSt.fs t == mSt'.fs IN
    /\ \A p \in DOMAIN s.files \ DOMAIN t.files : t.free = s.free \cup F!BlocksOf(s, p)
    /\ (DOMAIN s.files \subseteq DOMAIN t.files) => t.free \subseteq s.free
Steps == [][StepContent /\ StepIsolation /\ StepSpace]_mSt
=============================================================================
