--------------------------- MODULE CbmTextTrace ----------------------------
(* Judges recorded PETSCII conversions and sprite pictures against CbmText. *)
EXTENDS CbmText, FiniteSets, Json, IOUtils, TLC

CONSTANT Prop
Tr == ndJsonDeserialize(IOEnv.TRACE)
L(cond, label) == IF cond THEN {} ELSE {label}
Set(s) == {s[i] : i \in 1..Len(s)}

Judge(e) ==
    IF e.op = "end" THEN {}
    ELSE IF e.res = "panic" /\ e.op # "pad" THEN {"crash"}
    ELSE CASE e.op = "chars" ->            \* every Unicode character
              L(e.n = 1112064 /\ e.one = e.n, "charlen")
              \cup L(Set(e.map) = {<<c, PetCode(c)>> : c \in Representable}, "charmap")
           [] e.op = "codes" -> L(e.map = [i \in 1..256 |-> <<PetChar(i - 1)>>], "codemap")
           [] e.op = "str" ->
              L(e.p = FromText(e.in), "fromtext") \cup L(e.len = Len(e.in) /\ e.emp = (e.in = <<>>), "length")
              \cup L(Set(e.same) = {TRUE}, "variants") \cup L(e.back = ToText(FromText(e.in)), "totext")
           [] e.op = "id" ->
              L(e.b = IdOf(FromText(e.in)), "id") \cup L(Set(e.same) = {TRUE}, "variants") \cup L(e.back = ToText(e.b), "totext")
           [] e.op = "bytes" ->
              L(e.out = ToText(e.in), "totext") \cup L(e.dbg = DebugText(e.in), "debug")
              \cup L(Set(e.same) \subseteq {TRUE} /\ e.len = Len(e.in), "variants")
           [] e.op = "pad" ->
              IF Len(e.in) > e.w THEN L(e.res = "err", "padrefuse")
              ELSE L(e.res = "ok" /\ e.out = PadOut(e.in, e.w, e.pad), "pad")
           [] e.op = "unpad" -> L(e.out = Unpad(e.in, e.pad), "unpad")
           [] e.op = "sprite" -> L(e.back = e.b, "spritebytes") \cup L(e.lines = SpriteLines(e.b), "spritelines")
           [] OTHER -> {"unknown"}

LabelProps(x) == CASE x \in {"spritebytes", "spritelines"} -> {"C19"}
                   [] x = "crash" -> {"C18", "C19"}
                   [] OTHER -> {"C18"}
VARIABLES tIdx, tBad
Init == tIdx = 0 /\ tBad = {}
Next == /\ tIdx < Len(Tr)
        /\ tBad' = {x \in Judge(Tr[tIdx + 1]) : Prop = "ALL" \/ Prop \in LabelProps(x)}
        /\ tIdx' = tIdx + 1
Spec == Init /\ [][Next]_<<tIdx, tBad>>
NoBad == tBad = {}
View == tIdx
Short == [l |-> tIdx, bad |-> tBad, op |-> IF tIdx = 0 THEN "" ELSE Tr[tIdx].op]
=============================================================================
