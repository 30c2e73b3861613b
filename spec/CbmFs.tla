-------------------------------- MODULE CbmFs --------------------------------
(***************************************************************************)
(* The file system as its user sees it.  A state is a record               *)
(*   dirb  : sequence of the directory blocks, in chain order              *)
(*   files : function from directory position (location*8+slot) to         *)
(*           [nm, a, blk, pc]: name, attribute byte, the blocks of the     *)
(*           file in order, the contents of each block                     *)
(*   free  : the set of blocks that can be allocated                       *)
(* and the operators below are its transitions.  They are parametric in    *)
(* the geometry (fm) and in how block contents are represented (CCat,      *)
(* CLen, Cap), so that the same text is model-checked on a small disk      *)
(* (CbmFsMC, CbmImpl) and used to judge histories of the real library      *)
(* on real disks (CbmFsTrace).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cap,            \* data bytes per block (254)
          CCat(_, _),     \* contents of a block extended by a piece
          CLen(_),        \* number of bytes
          CEmpty,         \* contents of an empty block
          NameMax,        \* longest file name (16)
          NLen(_),        \* length of a name
          Norm(_)         \* a name without trailing padding
(* fm (a record) gives: slots per directory block `epb`, the data blocks   *)
(* `data`, the directory track `dirtrk` (set of locations), system blocks  *)
(* `sys`.                                                                  *)

\* ------------------------------------------------------------- observers
Positions(fm, s) == [i \in 1..(Len(s.dirb) * fm.epb) |->
                        s.dirb[((i - 1) \div fm.epb) + 1] * 8 + ((i - 1) % fm.epb)]
Names(s) == {s.files[p].nm : p \in DOMAIN s.files}
Has(s, nm) == \E p \in DOMAIN s.files : s.files[p].nm = Norm(nm)
PosOf(s, nm) == CHOOSE p \in DOMAIN s.files : s.files[p].nm = Norm(nm)
BlocksOf(s, p) == {s.files[p].blk[i] : i \in 1..Len(s.files[p].blk)}
FreeSlots(fm, s) == LET used == DOMAIN s.files IN SelectSeq(Positions(fm, s), LAMBDA p : p \notin used)
FileOrder(fm, s) == LET used == DOMAIN s.files IN SelectSeq(Positions(fm, s), LAMBDA p : p \in used)
DataFree(fm, s) == s.free \cap fm.data
DirFree(fm, s) == s.free \cap fm.dirtrk
FileLen(f) == Cap * (Len(f.blk) - 1) + CLen(f.pc[Len(f.pc)])
Room(f) == Cap - CLen(f.pc[Len(f.pc)])
DirSet(s) == {s.dirb[i] : i \in 1..Len(s.dirb)}
UsedBlocks(fm, s) == fm.sys \cup DirSet(s) \cup UNION {BlocksOf(s, p) : p \in DOMAIN s.files}

\* ------------------------------------------------------------- invariants
Excl(fm, s) ==
    /\ \A p, q \in DOMAIN s.files : p # q => BlocksOf(s, p) \cap BlocksOf(s, q) = {}
    /\ \A p \in DOMAIN s.files : /\ BlocksOf(s, p) \cap (fm.sys \cup DirSet(s)) = {}
                                 /\ Cardinality(BlocksOf(s, p)) = Len(s.files[p].blk)
    /\ Cardinality(DirSet(s)) = Len(s.dirb)
Acct(fm, s) == s.free = (fm.data \cup fm.dirtrk \cup fm.sys) \ UsedBlocks(fm, s)
NamesUnique(s) == Cardinality(Names(s)) = Cardinality(DOMAIN s.files)
Shape(fm, s) == \A p \in DOMAIN s.files :
    LET f == s.files[p] IN /\ Len(f.blk) = Len(f.pc) /\ Len(f.blk) >= 1
                           /\ \A i \in 1..(Len(f.pc) - 1) : CLen(f.pc[i]) = Cap
                           /\ Len(f.pc) > 1 => CLen(f.pc[Len(f.pc)]) > 0
                           /\ BlocksOf(s, p) \subseteq fm.data

\* ----------------------------------------------------- which errors apply
CreateErrs(fm, s, nm) ==
    (IF NLen(nm) > NameMax THEN {"FilenameTooLong"} ELSE {})
    \cup (IF Has(s, nm) THEN {"FileExists"} ELSE {})
    \cup (IF DataFree(fm, s) = {} THEN {"DiskFull"} ELSE {})
    \cup (IF FreeSlots(fm, s) = <<>> /\ DirFree(fm, s) = {} THEN {"DiskFull"} ELSE {})
RenameErrs(s, old, new) ==
    (IF ~Has(s, old) THEN {"NotFound"} ELSE {})
    \cup (IF NLen(new) > NameMax THEN {"FilenameTooLong"} ELSE {})
    \cup (IF Has(s, new) THEN {"FileExists"} ELSE {})
LookupErrs(s, nm) == IF ~Has(s, nm) THEN {"NotFound"} ELSE {}

\* ------------------------------------------------------------ transitions
\* the directory grows by block d
Grow(s, d) == [s EXCEPT !.dirb = Append(@, d), !.free = @ \ {d}]
Create(s, pos, nm, a, b) ==
    [s EXCEPT !.files = (pos :> [nm |-> Norm(nm), a |-> a, blk |-> <<b>>, pc |-> <<CEmpty>>]) @@ @,
              !.free = @ \ {b}]
Delete(s, pos) ==
    [s EXCEPT !.files = [p \in DOMAIN @ \ {pos} |-> @[p]],
              !.free = @ \cup BlocksOf(s, pos)]
Rename(s, pos, nm) == [s EXCEPT !.files[pos].nm = Norm(nm)]
SetAttr(s, pos, a) == [s EXCEPT !.files[pos].a = a]

(* Appending: `pcs` is the data cut at block boundaries (the first piece   *)
(* fills up the last block unless that is already full).                   *)
NewPieces(f, pcs) == IF pcs = <<>> THEN f.pc
                     ELSE IF Room(f) > 0
                          THEN SubSeq(f.pc, 1, Len(f.pc) - 1)
                               \o <<CCat(f.pc[Len(f.pc)], pcs[1])>> \o Tail(pcs)
                          ELSE f.pc \o pcs
\* how many bytes of an n-byte write fit / how many new blocks they need
Accepts(fm, s, pos, n) ==
    LET room == Room(s.files[pos]) + Cap * Cardinality(DataFree(fm, s))
    IN IF n <= room THEN n ELSE room
NeedBlocks(f, n) == IF n <= Room(f) THEN 0 ELSE ((n - Room(f)) + Cap - 1) \div Cap
AppendTo(s, pos, pcs, new) ==
    LET f == s.files[pos]
    IN [s EXCEPT !.files[pos].pc = NewPieces(f, pcs),
                 !.files[pos].blk = @ \o new,
                 !.free = @ \ {new[i] : i \in 1..Len(new)}]
=============================================================================
