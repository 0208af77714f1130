------------------------------ MODULE Cologne ------------------------------
(***************************************************************************)
(* Cologne phonetics (Koelner Phonetik).  The machine reads the upper-case *)
(* text; only A-Z count as letters, but the character that follows a       *)
(* letter is taken as it is in the text.                                   *)
(***************************************************************************)
EXTENDS Uni

ColVowels == Chars("AEIJOUY")
ColSoft == Chars("CSZ")
ColF == Chars("FPVW")
ColG == Chars("GKQ")
ColBeforeX == Chars("CKQ")
ColInitialC == Chars("AHKLOQRUX")
ColInnerC == Chars("AHKOQUX")

ColFold(c) == IF c = 196 THEN cA ELSE IF c = 220 THEN cU ELSE IF c = 214 THEN cO ELSE c

ColStart(s) ==
  LET u == Upper(s)
  IN  [w |-> Tup([i \in 1..Len(u) |-> ColFold(u[i])]), i |-> 1, code |-> <<>>,
       last |-> None,    \* the last code produced, written or not ('-' for H)
       prev |-> cDash,   \* the last letter read
       done |-> FALSE, tag |-> "start"]

\* Emit one code: ignored codes, repetitions and inner zeros are not written.
ColPush(code, last, d) ==
  IF d # cDash /\ d # last /\ (d # c0 \/ code = <<>>) THEN Append(code, d) ELSE code

ColDigits(st, c, next) ==
  IF c \in ColVowels THEN <<c0>>
  ELSE IF c = cB \/ (c = cP /\ next # cH) THEN <<c1>>
  ELSE IF c \in {cD, cT} /\ next \notin ColSoft THEN <<c2>>
  ELSE IF c \in ColF THEN <<c3>>
  ELSE IF c \in ColG THEN <<c4>>
  ELSE IF c = cX /\ st.prev \notin ColBeforeX THEN <<c4, c8>>
  ELSE IF c \in {cS, cZ} THEN <<c8>>
  ELSE IF c = cC THEN
     IF st.code = <<>> THEN (IF next \in ColInitialC THEN <<c4>> ELSE <<c8>>)
     ELSE IF st.prev \in {cS, cZ} \/ next \notin ColInnerC THEN <<c8>> ELSE <<c4>>
  ELSE IF c \in {cD, cT, cX} THEN <<c8>>
  ELSE IF c = cR THEN <<c7>>
  ELSE IF c = cL THEN <<c5>>
  ELSE IF c \in {cM, cN} THEN <<c6>>
  ELSE <<cDash>>  \* H

RECURSIVE ColPushAll(_, _, _)
ColPushAll(code, last, ds) ==
  IF ds = <<>> THEN [code |-> code, last |-> last]
  ELSE ColPushAll(ColPush(code, last, Head(ds)), Head(ds), Tail(ds))

ColStep(st) ==
  IF st.i > Len(st.w) THEN [st EXCEPT !.done = TRUE, !.tag = "end"]
  ELSE LET c == st.w[st.i]
           next == IF st.i < Len(st.w) THEN st.w[st.i + 1] ELSE cDash
       IN  IF ~IsAsciiUpper(c) THEN [st EXCEPT !.i = @ + 1, !.tag = "skip"]
           ELSE LET r == ColPushAll(st.code, st.last, ColDigits(st, c, next))
                IN  [st EXCEPT !.i = @ + 1, !.code = r.code, !.last = r.last, !.prev = c, !.tag = "letter"]

RECURSIVE ColUntil(_)
ColUntil(st) ==
  IF st.done THEN st ELSE ColUntil(Fold(LAMBDA q, k : IF q.done THEN q ELSE ColStep(q), st, Chunk))
ColRun(start) == LET st == ColUntil(start) IN st.code
ColEncode(s) == ColRun(ColStart(s))
=============================================================================
