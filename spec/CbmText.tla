------------------------------ MODULE CbmText -------------------------------
(***************************************************************************)
(* What text the library and the tool print: PETSCII and its conversion    *)
(* to and from Unicode, sprites as block graphics, hex dumps, directory    *)
(* lines, the printed free-block map.  Text is a string of printable ASCII *)
(* in which any other character, and " \ ~, is written ~hex; (its code).   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ----------------------------------------------------------------- PETSCII
NoChar == 65533                 \* U+FFFD stands for codes without a counterpart
NoCode == 127                   \* the code for characters without a counterpart
Rep(x, n) == [i \in 1..n |-> x]
Seg(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Graphics == <<160, 9612, 9604, 9620, 9601, 9614, 9618, 9621, NoChar, NoChar, 9621, 9507, 9623, 9495, 9491, 9602,
              9487, 9531, 9523, 9515, 9614, 9613, 9621, 9620, 9620, 9603, 10003, 9622, 9629, 9496, 9624>>
Upper == <<9473>> \o Seg(65, 90) \o <<9547, NoChar, 9475, 9618, NoChar>>
PetTable == Rep(NoChar, 32)                                        \* 00-1f control codes
            \o Seg(32, 64) \o Seg(97, 122)                         \* 20-5a punctuation, digits, a-z
            \o <<91, 163, 93, 8593, 8592>>                         \* 5b-5f
            \o Upper                                               \* 60-7f A-Z
            \o Rep(NoChar, 32)                                     \* 80-9f control codes
            \o Graphics \o <<9626>>                                \* a0-bf
            \o Upper                                               \* c0-df
            \o Graphics \o <<9618>>                                \* e0-ff
ASSUME Len(PetTable) = 256
PetChar(b) == PetTable[b + 1]
Representable == {PetTable[i] : i \in 1..256}
\* the code of a character: the first one shown as it
CodeOf == [c \in Representable |-> CHOOSE b \in 0..255 : PetChar(b) = c /\ \A d \in 0..(b - 1) : PetChar(d) # c]
PetCode(c) == IF c \in Representable THEN CodeOf[c] ELSE NoCode
ToText(bs) == [i \in 1..Len(bs) |-> PetChar(bs[i])]
FromText(cs) == [i \in 1..Len(cs) |-> PetCode(cs[i])]
\* a two-byte identifier: the first two bytes, absent ones as zero
IdOf(bs) == [i \in 1..2 |-> IF i <= Len(bs) THEN bs[i] ELSE 0]
\* conversions lose nothing that is representable
ASSUME \A c \in Representable : PetChar(PetCode(c)) = c
ASSUME \A c \in 97..122 : PetCode(c) = c - 32 /\ PetCode(c - 32) = c
ASSUME \A c \in 32..64 : PetCode(c) = c

RECURSIVE Unpad(_, _)
Unpad(bs, p) == IF bs # <<>> /\ bs[Len(bs)] = p THEN Unpad(SubSeq(bs, 1, Len(bs) - 1), p) ELSE bs
PadOut(bs, w, p) == [i \in 1..w |-> IF i <= Len(bs) THEN bs[i] ELSE p]
RECURSIVE Quoted(_)
Quoted(cs) == IF cs = <<>> THEN <<>> ELSE (IF cs[1] = 34 THEN <<92, 34>> ELSE <<cs[1]>>) \o Quoted(Tail(cs))
DebugText(bs) == <<34>> \o Quoted(ToText(bs)) \o <<34>>

\* ----------------------------------------------------------------- sprites
SpriteBit(b, x, y) == (b[3 * y + (x \div 8) + 1] \div (2 ^ (7 - (x % 8)))) % 2
Pixel(b, x, y) == IF y < 21 THEN SpriteBit(b, x, y) ELSE 0
\* the block graphic with given pixels: upper left, upper right, lower left, lower right
Glyph == <<32, 9623, 9622, 9604, 9629, 9616, 9630, 9631, 9624, 9626, 9612, 9625, 9600, 9628, 9627, 9608>>
SpriteLine(b, r) == [c \in 1..12 |->
    Glyph[1 + 8 * Pixel(b, 2 * c - 2, 2 * r) + 4 * Pixel(b, 2 * c - 1, 2 * r)
            + 2 * Pixel(b, 2 * c - 2, 2 * r + 1) + Pixel(b, 2 * c - 1, 2 * r + 1)]]
SpriteLines(b) == [r \in 1..11 |-> SpriteLine(b, r - 1)]

\* ----------------------------------------------------------- strings
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex2 == [b \in 0..255 |-> Digits[(b \div 16) + 1] \o Digits[(b % 16) + 1]]
Hex4(n) == Hex2[(n \div 256) % 256] \o Hex2[n % 256]
RECURSIVE HexS(_)
HexS(n) == IF n < 16 THEN Digits[n + 1] ELSE HexS(n \div 16) \o Digits[(n % 16) + 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digits[n + 1] ELSE Dec(n \div 10) \o Digits[(n % 10) + 1]
Dec2(n) == IF n < 10 THEN "0" \o Dec(n) ELSE Dec(n)
Printable == <<" ", "!", "~22;", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
    "[", "~5c;", "]", "^", "_", "`",
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
    "{", "|", "}", "~7e;">>
CharS(c) == IF c >= 32 /\ c <= 126 THEN Printable[c - 31] ELSE "~" \o HexS(c) \o ";"
PetS == [b \in 0..255 |-> CharS(PetChar(b))]
RECURSIVE Join(_, _, _)
Join(f, i, n) == IF i > n THEN "" ELSE IF i = n THEN f[i]
                 ELSE LET m == (i + n) \div 2 IN Join(f, i, m) \o Join(f, m + 1, n)
Concat(f) == Join(f, 1, Len(f))
TextS(cs) == Concat([i \in 1..Len(cs) |-> CharS(cs[i])])
NameS(bs) == Concat([i \in 1..Len(bs) |-> PetS[bs[i]]])
Blanks(n) == IF n <= 0 THEN "" ELSE Concat([i \in 1..n |-> " "])

\* --------------------------------------------------------------- hex dumps
HexCell == [b \in 0..255 |-> Hex2[b] \o " "]
AsciiCell == [b \in 0..255 |-> IF b >= 32 /\ b <= 126 THEN Printable[b - 31] ELSE "."]
HexLine(bs, o) == LET n == IF Len(bs) - o >= 16 THEN 16 ELSE Len(bs) - o
                  IN (IF o < 65536 THEN Hex4(o) ELSE HexS(o)) \o ": " \o Concat([i \in 1..n |-> HexCell[bs[o + i]]])
                     \o Blanks(3 * (16 - n)) \o Concat([i \in 1..n |-> AsciiCell[bs[o + i]]])
HexLines(bs) == IF bs = <<>> THEN <<"0000: ">>
                ELSE [i \in 1..((Len(bs) + 15) \div 16) |-> HexLine(bs, 16 * (i - 1))]
=============================================================================
