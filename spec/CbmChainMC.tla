----------------------------- MODULE CbmChainMC -----------------------------
(***************************************************************************)
(* Following block chains and validating a disk, for every way N blocks    *)
(* can be linked.  Each block's link is another block, an end of chain, or *)
(* nonsense; two files start somewhere, and any of the blocks may be       *)
(* marked used.  The machine is the library's: it walks each file's chain  *)
(* remembering the blocks seen, notes the owner of every block, and        *)
(* compares owners with the map.  It is checked against what chains,       *)
(* owners and inconsistencies are, and to always come to an end.  Every    *)
(* disk is also printed, to be built byte by byte and given to the real    *)
(* library (CbmImageTrace judges its answers).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Starts, Emitting
Blocks == 1..N
\* ends: 100 (not even the link bytes in use), 101, 102, 103 (0, 1, all data bytes); 200, 201: no such track, sector
Ends == {101, 102, 103}
Bad == {100, 200, 201}
Links == Blocks \cup Ends \cup Bad

VARIABLES cL, cF, cU, cI, cAt, cSeen, cOwn, cOver, cBroken
vars == <<cL, cF, cU, cI, cAt, cSeen, cOwn, cOver, cBroken>>

\* ------------------------------------------------------ what should be
RECURSIVE It(_, _)
It(s, i) == IF i = 1 THEN s ELSE cL[It(s, i - 1)]
EndsAt(s, n) == /\ \A i \in 1..(n - 1) : cL[It(s, i)] \in Blocks
                /\ cL[It(s, n)] \in Ends
Sound(s) == \E n \in Blocks : EndsAt(s, n)
Chain(s) == LET n == CHOOSE n \in Blocks : EndsAt(s, n) IN [i \in 1..n |-> It(s, i)]
Members(s) == {Chain(s)[i] : i \in 1..Len(Chain(s))}
SoundFiles == {i \in 1..2 : Sound(cF[i])}
Owned == UNION {Members(cF[i]) : i \in SoundFiles}

\* -------------------------------------------------------- the machine
Init == /\ cL \in [Blocks -> Links]
        /\ cF \in {f \in Blocks \X Blocks : f[1] \in Starts}
        /\ cU \in SUBSET Blocks
        /\ cI = 1 /\ cAt = cF[1] /\ cSeen = <<>>
        /\ cOwn = <<>> /\ cOver = {} /\ cBroken = {}
SeenSet == {cSeen[i] : i \in 1..Len(cSeen)}
NextFile == /\ cI' = cI + 1 /\ cSeen' = <<>>
            /\ cAt' = IF cI = 1 THEN cF[2] ELSE 0
\* one more block of the chain
Step == /\ cI \in 1..2 /\ cAt \in Blocks /\ cAt \notin SeenSet
        /\ cSeen' = Append(cSeen, cAt) /\ cAt' = cL[cAt]
        /\ UNCHANGED <<cL, cF, cU, cI, cOwn, cOver, cBroken>>
\* the chain has ended
Finish == /\ cI \in 1..2 /\ cAt \in Ends
          /\ cOver' = cOver \cup (SeenSet \cap DOMAIN cOwn)
          /\ cOwn' = [b \in DOMAIN cOwn \cup SeenSet |-> IF b \in DOMAIN cOwn THEN cOwn[b] ELSE cI]
          /\ NextFile /\ UNCHANGED <<cL, cF, cU, cBroken>>
\* a loop, or a link to nowhere
Fail == /\ cI \in 1..2 /\ (cAt \in SeenSet \/ cAt \in Bad)
        /\ cBroken' = cBroken \cup {cI}
        /\ NextFile /\ UNCHANGED <<cL, cF, cU, cOwn, cOver>>
Next == Step \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars
Done == cI = 3

\* ---------------------------------------------------------- properties
Walked == cI \in 1..2 =>
    /\ Len(cSeen) <= N /\ Cardinality(SeenSet) = Len(cSeen)
    /\ cAt \in Ends => Sound(cF[cI]) /\ cSeen = Chain(cF[cI])
    /\ (cAt \in Bad \/ cAt \in SeenSet) => ~Sound(cF[cI])
Reported == Done =>
    /\ cBroken = (1..2) \ SoundFiles
    /\ DOMAIN cOwn = Owned
    /\ cOver = IF SoundFiles = 1..2 THEN Members(cF[1]) \cap Members(cF[2]) ELSE {}
    \* every inconsistency is one of: used but unowned, owned but free, owned twice, broken
    /\ (cBroken = {} /\ cOver = {} /\ cU = Owned) <=>
       (/\ SoundFiles = 1..2 /\ Members(cF[1]) \cap Members(cF[2]) = {}
        /\ \A b \in Blocks : (b \in cU) = (\E i \in 1..2 : b \in Members(cF[i])))
CanStep == Done \/ ENABLED Next
\* every step brings the end nearer
Measure == (3 - cI) * (N + 2) - Len(cSeen)
Ending == [][Measure' < Measure]_vars
Emit == (Emitting /\ cI' = 3) => PrintT("GEN " \o ToJson([l |-> [i \in Blocks |-> cL[i]], f |-> cF, u |-> [i \in Blocks |-> IF i \in cU THEN 1 ELSE 0]]))
=============================================================================
