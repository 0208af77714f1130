-------------------------------- MODULE Strs --------------------------------
(***************************************************************************)
(* Text as the specification sees it: a sequence of Unicode code points.   *)
(* Everything in this module is a constant-level operator, so it can be    *)
(* used by the state machines of the algorithms and evaluated by TLC.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, AsciiTab, Loops

\* The same sequence / the same function.  (They only make TLC compute and keep
\* the values instead of evaluating them again at every use.)
Tup(f) == f \o <<>>
Fun(f) == f @@ <<>>

\* And back: the TLA+ string of an ASCII character.
CodeToStr == Fun(
  [c \in 32..126 |-> IF c \in {34, 92} THEN "?" ELSE CHOOSE x \in DOMAIN AsciiCode : AsciiCode[x] = c])

\* The code points of a literal.
S(str) == Tup([i \in 1..Len(str) |-> AsciiCode[SubSeq(str, i, i)]])
\* A set of literals.
Lits(set) == {S(x) : x \in set}
\* The set of characters of a literal.
Chars(str) == {AsciiCode[SubSeq(str, i, i)] : i \in 1..Len(str)}

\* No character.
None == 0 - 1
\* i-th character (1-based) or None.
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE None

\* p occurs in s at position i.
MatchAt(s, i, p) == i >= 1 /\ i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
\* One of the literals of `set`, all of length n, occurs in s at position i.
OneOfAt(s, i, n, set) == i >= 1 /\ i + n - 1 <= Len(s) /\ SubSeq(s, i, i + n - 1) \in set
StartsWith(s, p) == MatchAt(s, 1, p)
EndsWith(s, p) == MatchAt(s, Len(s) - Len(p) + 1, p)

\* First n / last n / all but the first n / all but the last n.
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
LastN(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
DropLast(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)

Replicate(n, c) == Tup([i \in 1..n |-> c])
\* Pad s on the right with c up to n characters.
PadTo(s, n, c) == IF Len(s) >= n THEN s ELSE s \o Replicate(n - Len(s), c)

\* Smallest position >= i where p occurs in s, 0 if there is none.
FindFrom(s, p, i) ==
  LET f[j \in Nat] == IF j + Len(p) - 1 > Len(s) THEN 0
                      ELSE IF SubSeq(s, j, j + Len(p) - 1) = p THEN j ELSE f[j + 1]
  IN  f[i]
Contains(s, p) == FindFrom(s, p, 1) > 0

\* Replace every non overlapping occurrence of p (non empty), left to right.
ReplaceFrom(s, p, t, i) ==
  LET f[j \in Nat] == LET k == FindFrom(s, p, j)
                      IN  IF k = 0 THEN SubSeq(s, j, Len(s)) ELSE SubSeq(s, j, k - 1) \o t \o f[k + Len(p)]
  IN  f[i]
ReplaceAll(s, p, t) == IF FindFrom(s, p, 1) = 0 THEN s ELSE ReplaceFrom(s, p, t, 1)
\* Replace a prefix / a suffix.
ReplaceStart(s, p, t) == IF StartsWith(s, p) THEN t \o Drop(s, Len(p)) ELSE s
ReplaceEnd(s, p, t) == IF EndsWith(s, p) THEN DropLast(s, Len(p)) \o t ELSE s

\* Concatenation of a sequence of sequences.
Flat(ss) == Fold(LAMBDA a, x : a \o x, <<>>, ss)

\* The same with sep between them.
Join(ss, sep) == Flat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

\* s is a prefix of t.
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* c occurs in s.
SeqHasChar(s, c) == \E i \in 1..Len(s) : s[i] = c

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsDiff(a, b) == IF a > b THEN a - b ELSE b - a

cA == 65   cB == 66   cC == 67   cD == 68   cE == 69   cF == 70   cG == 71
cH == 72   cI == 73   cJ == 74   cK == 75   cL == 76   cM == 77   cN == 78
cO == 79   cP == 80   cQ == 81   cR == 82   cS == 83   cT == 84   cU == 85
cV == 86   cW == 87   cX == 88   cY == 89   cZ == 90
c0 == 48   c1 == 49   c2 == 50   c3 == 51   c4 == 52   c5 == 53   c6 == 54
c7 == 55   c8 == 56   c9 == 57
cSpace == 32   cDash == 45   cQuote == 39   cPipe == 124
=============================================================================
