------------------------------- MODULE Phonex -------------------------------
(***************************************************************************)
(* Phonex (Lait and Randell): a preprocessed name is transcoded letter by  *)
(* letter into a code of exactly `max` characters.                         *)
(***************************************************************************)
EXTENDS Uni

PhxLettersUpper(s) == Upper(OnlyAlpha(s))
PhxDefault == 4

RECURSIVE PhxStripS(_)
PhxStripS(w) == IF Len(w) > 0 /\ w[Len(w)] = cS THEN PhxStripS(DropLast(w, 1)) ELSE w

PhxPairs(w) ==
  IF StartsWith(w, <<cK, cN>>) THEN <<cN>> \o Tail(w)
  ELSE IF StartsWith(w, <<cP, cH>>) THEN <<cF>> \o Tail(w)
  ELSE IF StartsWith(w, <<cW, cR>>) THEN <<cR>> \o Tail(w)
  ELSE w
PhxDropH(w) == IF Len(w) > 0 /\ w[1] = cH THEN Tail(w) ELSE w
PhxFirst(w) ==
  IF w = <<>> THEN w
  ELSE LET c == w[1]
           by == IF c \in {cE, cI, cO, cU, cY} THEN cA
                 ELSE IF c = cP THEN cB
                 ELSE IF c = cV THEN cF
                 ELSE IF c \in {cK, cQ} THEN cC
                 ELSE IF c = cJ THEN cG
                 ELSE IF c = cZ THEN cS
                 ELSE c
       IN  <<by>> \o Tail(w)
PhxPre(s) == PhxFirst(PhxDropH(PhxPairs(PhxStripS(PhxLettersUpper(s)))))

PhxVowelOrEnd(c) == c \in {cA, cE, cI, cO, cU, cY, 97, 101, 105, 111, 117, 121, None}

\* The code of letter c followed by next (None at the end); None: no code,
\* the code of the letter before still stands.
PhxCode(c, next) ==
  IF c \in {cB, cP, cF, cV} THEN c1
  ELSE IF c \in {cC, cS, cK, cG, cJ, cQ, cX, cZ} THEN c2
  ELSE IF c \in {cD, cT} THEN (IF next = cC THEN None ELSE c3)
  ELSE IF c = cL THEN (IF PhxVowelOrEnd(next) THEN c4 ELSE None)
  ELSE IF c \in {cM, cN} THEN c5
  ELSE IF c = cR THEN (IF PhxVowelOrEnd(next) THEN c6 ELSE None)
  ELSE c0
\* M and N swallow a D or a G that follows.
PhxSwallows(c, next) == c \in {cM, cN} /\ next \in {cD, cG}

PhxStart(max, s) ==
  [w |-> PhxPre(s), i |-> 1, out |-> <<>>, code |-> c0, last |-> c0, push |-> c0,
   done |-> FALSE, tag |-> "start"]

PhxStep(max, st) ==
  IF st.i > Len(st.w) \/ Len(st.out) >= max
  THEN [st EXCEPT !.out = Take(PadTo(st.out, max, c0), max), !.done = TRUE, !.tag = "pad"]
  ELSE LET c == st.w[st.i]
           next == At(st.w, st.i + 1)
           d == PhxCode(c, next)
           code == IF d = None THEN st.code ELSE d
           sw == PhxSwallows(c, next)
           first == st.i = 1
           out1 == IF first THEN <<c>> ELSE st.out
           \* The code is written when it is new; the first letter stands for
           \* itself, unless it swallowed the second one.
           wr == code # c0 /\ st.last # code /\ (~first \/ sw)
           out2 == IF wr THEN Append(out1, code) ELSE out1
           push == IF wr THEN code ELSE IF first THEN c ELSE st.push
       IN  [st EXCEPT !.i = IF sw THEN @ + 2 ELSE @ + 1, !.out = out2, !.code = code, !.push = push,
                      !.last = IF first /\ ~sw THEN code ELSE push,
                      !.tag = IF wr THEN (IF sw THEN "swallow" ELSE "code") ELSE IF first THEN "first" ELSE "none"]

RECURSIVE PhxUntil(_, _)
PhxUntil(max, st) ==
  IF st.done THEN st ELSE PhxUntil(max, Fold(LAMBDA q, k : IF q.done THEN q ELSE PhxStep(max, q), st, Chunk))
PhxRun(max, start) == LET st == PhxUntil(max, start) IN st.out
PhxEncode(max, s) == PhxRun(max, PhxStart(max, s))
=============================================================================
