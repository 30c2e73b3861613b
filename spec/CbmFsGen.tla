------------------------------ MODULE CbmFsGen ------------------------------
(***************************************************************************)
(* Behaviours of the small file system for replaying in the real library:  *)
(* one shortest behaviour per transition of the state graph (breadth-first *)
(* search with the history hidden by the view; the history is printed for  *)
(* every transition that is generated).                                    *)
(***************************************************************************)
EXTENDS CbmFsMC, Json
CONSTANT Depth
VARIABLE gHist
GInit == Init /\ gHist = <<>>
GNext == /\ Len(gHist) < Depth
         /\ \E c \in Cmds(mSt) : Legal(mSt, c) /\ mSt' \in Do(mSt, c) /\ gHist' = Append(gHist, c)
GSpec == GInit /\ [][GNext]_<<mSt, gHist>>
GView == mSt
\* contents do not matter for choosing behaviours, only their lengths
LView == [files |-> [p \in DOMAIN mSt.fs.files |-> <<mSt.fs.files[p].nm, F!FileLen(mSt.fs.files[p])>>],
          nfree |-> Cardinality(mSt.fs.free), ndir |-> Len(mSt.fs.dirb), wr |-> mSt.wr]
Emit == PrintT("GEN " \o ToJson(gHist'))
=============================================================================
