-------------------------------- MODULE Uni --------------------------------
(***************************************************************************)
(* Characters.  ASCII is specified here; what Unicode says about the other *)
(* characters (letter?, white space?, upper and lower case) is data: a     *)
(* table handed over by the harness, which reads it from the Rust standard *)
(* library for the characters that occur in the inputs (trusted base).     *)
(***************************************************************************)
EXTENDS Strs, UniData

\* The table is sorted: position of c between lo and hi.
RECURSIVE UTabPos(_, _, _)
UTabPos(c, lo, hi) ==
  LET m == (lo + hi) \div 2
  IN  IF lo >= hi THEN lo ELSE IF UTabRecs[m].c >= c THEN UTabPos(c, lo, m) ELSE UTabPos(c, m + 1, hi)
UTab == Fun([c \in {UTabRecs[i].c : i \in 1..Len(UTabRecs)} |-> UTabRecs[UTabPos(c, 1, Len(UTabRecs))]])

IsAsciiUpper(c) == c >= 65 /\ c <= 90
IsAsciiLower(c) == c >= 97 /\ c <= 122
IsDigit(c) == c >= 48 /\ c <= 57

Up(c) == IF c < 128 THEN <<IF IsAsciiLower(c) THEN c - 32 ELSE c>> ELSE UTab[c].up
Low(c) == IF c < 128 THEN <<IF IsAsciiUpper(c) THEN c + 32 ELSE c>> ELSE UTab[c].lo
IsAlpha(c) == IF c < 128 THEN IsAsciiUpper(c) \/ IsAsciiLower(c) ELSE UTab[c].alpha
IsAlnum(c) == IF c < 128 THEN IsAsciiUpper(c) \/ IsAsciiLower(c) \/ IsDigit(c) ELSE UTab[c].alpha \/ UTab[c].num
IsSpace(c) == IF c < 128 THEN c = 32 \/ (c >= 9 /\ c <= 13) ELSE UTab[c].ws

AsciiUpC(c) == IF IsAsciiLower(c) THEN c - 32 ELSE c
AsciiLowC(c) == IF IsAsciiUpper(c) THEN c + 32 ELSE c

\* Simple functions on texts.
Upper(s) == Fold(LAMBDA a, c : a \o Up(c), <<>>, s)
Lower(s) == Fold(LAMBDA a, c : a \o Low(c), <<>>, s)

OnlyAlpha(s) == SelectSeq(s, IsAlpha)
OnlyAsciiUpper(s) == SelectSeq(s, IsAsciiUpper)
OnlyAsciiLower(s) == SelectSeq(s, IsAsciiLower)

\* The text without leading and trailing white space.
RECURSIVE TrimStart(_)
TrimStart(s) == IF Len(s) > 0 /\ IsSpace(s[1]) THEN TrimStart(Tail(s)) ELSE s
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF Len(s) > 0 /\ IsSpace(s[Len(s)]) THEN TrimEnd(DropLast(s, 1)) ELSE s
Trim(s) == TrimEnd(TrimStart(s))

\* Number of bytes of a character in UTF-8.
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
=============================================================================
