--------------------------- MODULE CbmAddrTrace ----------------------------
(***************************************************************************)
(* Which files are disk images, and where each sector lies in them.        *)
(* Judges recorded opens, creations, and complete address maps (all        *)
(* 256 x 256 track/sector pairs).                                          *)
(***************************************************************************)
EXTENDS CbmGeometry, Json, IOUtils

CONSTANT Prop
Tr == ndJsonDeserialize(IOEnv.TRACE)
L(cond, label) == IF cond THEN {} ELSE {label}

\* the standard images: <<kind, tracks, with error table>>
Geometries == {<<"d64", 35, FALSE>>, <<"d64", 35, TRUE>>, <<"d64", 40, FALSE>>, <<"d64", 40, TRUE>>,
               <<"d71", 70, FALSE>>, <<"d71", 70, TRUE>>, <<"d81", 80, FALSE>>, <<"d81", 80, TRUE>>}
SizeOf == [q \in Geometries |-> ImageSize(q[1], q[2], q[3])]
ASSUME {SizeOf[q] : q \in Geometries} = {174848, 175531, 196608, 197376, 349696, 351062, 819200, 822400}
\* sizes alone tell the geometries apart
ASSUME \A p, q \in Geometries : p # q => SizeOf[p] # SizeOf[q]
ExtKind(x) == IF x \in {"d64", "D64"} THEN "d64" ELSE IF x \in {"d71", "D71"} THEN "d71"
              ELSE IF x \in {"d81", "D81"} THEN "d81" ELSE "any"
Recognised(kind, size) == {q \in Geometries : (kind = "any" \/ q[1] = kind) /\ SizeOf[q] = size}
ErrLen(q) == IF q[3] THEN NSectors(q[1], q[2]) ELSE 0

\* the address map of an image: every location of the disk, and its first byte
Addresses == [q \in Geometries |-> {<<l, 256 * Index(q[1], l)>> : l \in {x \in 256..(q[2] * 256 + 255) : ValidLoc(q[1], q[2], x)}}]
\* it is a bijection between the locations and the 256-byte pieces
ASSUME \A q \in Geometries :
    {a[2] : a \in Addresses[q]} = {256 * i : i \in 0..(NSectors(q[1], q[2]) - 1)}
    /\ Cardinality(Addresses[q]) = NSectors(q[1], q[2])

Judge(e) ==
    IF e.op = "end" THEN {}
    ELSE IF e.op = "fatal" \/ e.res = "panic" THEN {"crash"}
    ELSE LET q == IF e.op = "open" THEN <<>> ELSE <<e.k, e.trk, e.err>> IN
    CASE e.op = "open" ->
           LET r == Recognised(IF e.via = "any" THEN ExtKind(e.ext) ELSE e.via, e.size)
           IN L(e.after = e.size, "openchange")
              \cup (IF r = {} THEN L(e.res # "ok", "accepted")
                    ELSE LET x == CHOOSE x \in r : TRUE
                         IN IF e.res # "ok" THEN {"refused"}
                            ELSE L(e.k = x[1] /\ e.trk = x[2] /\ e.et = ErrLen(x), "geometry"))
      [] e.op = "create" ->
           IF e.new /\ e.had >= 0 THEN L(e.res # "ok" /\ e.kept, "overwrote")
           ELSE L(e.res = "ok", "create")
                \cup L(e.res # "ok" \/ (e.size = SizeOf[q] /\ e.zero /\ e.otrk = e.trk /\ e.et = ErrLen(q)), "created")
      [] e.op = "map" ->
           IF e.res # "ok" THEN {"refused"}
           ELSE L({e.hits[i] : i \in 1..Len(e.hits)} = Addresses[q], "map")
                \cup L(Len(e.hits) + e.refused = 65536 /\ e.other = 0, "maprefuse")
                \cup L(e.etok, "errtable") \cup L(e.same, "readchange")
      [] e.op = "mem" ->
           L(e.res = "ok" /\ {e.acc[i] : i \in 1..Len(e.acc)} = {a[1] : a \in Addresses[q]} /\ e.wrong = 0, "mem")
      [] e.op = "write" ->
           LET ok == e.t <= 255 /\ ValidLoc(e.k, e.trk, Loc(e.t, e.s)) /\ e.n = 256
               pos == IF ok THEN 256 * Index(e.k, Loc(e.t, e.s)) ELSE 0
           IN L(e.len, "writelen")
              \cup (IF ok THEN L(e.res = "ok" /\ e.lo = pos /\ e.hi = pos + 255 /\ e.eq /\ e.back, "write")
                    ELSE L(e.res # "ok" /\ e.lo = -1, "writerefuse"))
      [] OTHER -> {"unknown"}

LabelProps(x) == IF x = "readchange" THEN {"C16", "C17"} ELSE {"C16"}
VARIABLES tIdx, tBad
Init == tIdx = 0 /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ tBad' = {x \in Judge(Tr[tIdx + 1]) : Prop = "ALL" \/ Prop \in LabelProps(x)}
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op]
=============================================================================
