----------------------------- MODULE RulesText -----------------------------
(***************************************************************************)
(* The text format shared by the rule files (Daitch-Mokotoff, Beider-Morse).*)
(* A recogniser looks at text s from position i and answers with the       *)
(* position after what it recognised (0: not recognised).                  *)
(***************************************************************************)
EXTENDS Uni

NL == 10   CR == 13   TAB == 9   DQ == 34   BackSlash == 92

SkipWhile(s, i, set) ==
  LET f[j \in Nat] == IF j <= Len(s) /\ s[j] \in set THEN f[j + 1] ELSE j IN f[i]
SkipBlanks(s, i) == SkipWhile(s, i, {cSpace, TAB})
FindChar(s, c, i) ==
  LET f[j \in Nat] == IF j > Len(s) THEN 0 ELSE IF s[j] = c THEN j ELSE f[j + 1] IN f[i]
CountChar(s, c, i, j) == Cardinality({k \in i..j : s[k] = c})

rSlashes == S("//")  rOpen == S("/*")  rClose == S("*/")  rQuoted == <<BackSlash, DQ>>
rTrue == S("true")  rFalse == S("false")  rInclude == S("#include ")

\* The rest of the line from i: for error messages.
LineFrom(s, i) == LET j == FindChar(s, NL, i) IN IF j = 0 THEN SubSeq(s, i, Len(s)) ELSE SubSeq(s, i, j - 1)

\* Blanks, an optional // comment, and the end of the line or of the text.
EndOfLine(s, i) ==
  LET j == SkipBlanks(s, i)
      e == FindChar(s, NL, j)
      k == IF MatchAt(s, j, rSlashes) THEN (IF e = 0 THEN Len(s) + 1 ELSE e) ELSE j
  IN  IF k > Len(s) THEN k
      ELSE IF s[k] = NL THEN k + 1
      ELSE IF s[k] = CR /\ At(s, k + 1) = NL THEN k + 2
      ELSE 0

\* "..." on one line; a content that starts with an escaped quote is that quote alone.
NoPart == [ok |-> FALSE, text |-> <<>>, next |-> 0]
Part(s, i) ==
  IF At(s, i) # DQ THEN NoPart
  ELSE IF MatchAt(s, i + 1, rQuoted)
  THEN (IF At(s, i + 3) = DQ THEN [ok |-> TRUE, text |-> rQuoted, next |-> i + 4] ELSE NoPart)
  ELSE LET j == FindChar(s, DQ, i + 1)
       IN  IF j = 0 \/ CountChar(s, NL, i + 1, j - 1) > 0 THEN NoPart ELSE [ok |-> TRUE, text |-> SubSeq(s, i + 1, j - 1), next |-> j + 1]

\* Four parts separated by blanks, then the end of the line.
NoQuad == [ok |-> FALSE, a |-> <<>>, b |-> <<>>, c |-> <<>>, d |-> <<>>, next |-> 0]
PartThenBlank(s, i) ==
  LET p == Part(s, i)
      j == SkipBlanks(s, p.next)
  IN  IF p.ok /\ j > p.next THEN [p EXCEPT !.next = j] ELSE NoPart
Quadruplet(s, i) ==
  LET p1 == PartThenBlank(s, i)
      p2 == PartThenBlank(s, p1.next)
      p3 == PartThenBlank(s, p2.next)
      p4 == Part(s, p3.next)
      e == EndOfLine(s, p4.next)
  IN  IF ~p1.ok THEN NoQuad ELSE IF ~p2.ok THEN NoQuad ELSE IF ~p3.ok THEN NoQuad
      ELSE IF ~p4.ok THEN NoQuad ELSE IF e = 0 THEN NoQuad
      ELSE [ok |-> TRUE, a |-> p1.text, b |-> p2.text, c |-> p3.text, d |-> p4.text, next |-> e]

\* x=y
Folding(s, i) ==
  IF i + 2 <= Len(s) /\ s[i + 1] = 61
  THEN LET e == IF {s[i], s[i + 2]} \cap {NL, CR} = {} THEN EndOfLine(s, i + 3) ELSE 0 IN [ok |-> e > 0, from |-> s[i], to |-> s[i + 2], next |-> e]
  ELSE [ok |-> FALSE, from |-> 0, to |-> 0, next |-> 0]

\* A comment over several lines, then the end of the line; `lines`: on how many lines.
MultiLine(s, i) ==
  LET j == IF MatchAt(s, i, rOpen) THEN FindFrom(s, rClose, i + 2) ELSE 0
      e == IF j = 0 THEN 0 ELSE EndOfLine(s, j + 2)
  IN  [ok |-> e > 0, lines |-> IF e > 0 THEN 1 + CountChar(s, NL, i + 2, j - 1) ELSE 0, next |-> e]

\* Language detection rule: pattern languages true|false
LangLine(s, i) ==
  LET no == [ok |-> FALSE, pattern |-> <<>>, langs |-> <<>>, accept |-> FALSE, next |-> 0]
      j == FindChar(s, cSpace, i)
      k == IF j = 0 THEN 0 ELSE FindChar(s, cSpace, j + 1)
      t == IF k = 0 THEN FALSE ELSE MatchAt(s, k + 1, rTrue)
      f == IF k = 0 THEN FALSE ELSE MatchAt(s, k + 1, rFalse)
      e == IF t THEN EndOfLine(s, k + 5) ELSE IF f THEN EndOfLine(s, k + 6) ELSE 0
  IN  IF j <= i \/ k <= j + 1 \/ e = 0 THEN no
      ELSE IF CountChar(s, NL, i, k) > 0 THEN no
      ELSE [ok |-> TRUE, pattern |-> SubSeq(s, i, j - 1), langs |-> SubSeq(s, j + 1, k - 1), accept |-> t, next |-> e]

AsciiLetters == (65..90) \cup (97..122)
\* (Letters and digits of any alphabet.)
IsFileNameChar(c) == c \in {cDash, 95} \/ IsAlnum(c)
SkipFileName(s, i) == LET f[j \in Nat] == IF j <= Len(s) /\ IsFileNameChar(s[j]) THEN f[j + 1] ELSE j IN f[i]

Include(s, i) ==
  LET j == IF MatchAt(s, i, rInclude) THEN SkipFileName(s, i + 9) ELSE 0
      e == IF j > i + 9 THEN EndOfLine(s, j) ELSE 0
  IN  [ok |-> e > 0, name |-> IF e > 0 THEN SubSeq(s, i + 9, j - 1) ELSE <<>>, next |-> e]

LanguageLine(s, i) ==
  LET j == SkipWhile(s, i, AsciiLetters)
      e == IF j > i THEN EndOfLine(s, j) ELSE 0
  IN  [ok |-> e > 0, name |-> IF e > 0 THEN SubSeq(s, i, j - 1) ELSE <<>>, next |-> e]

\* Pieces of s between separators c (always at least one piece).
Split(s, c) ==
  LET f[i \in Nat] == LET j == FindChar(s, c, i)
                      IN  IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o f[j + 1]
  IN  f[1]
=============================================================================
