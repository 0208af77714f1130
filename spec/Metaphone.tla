----------------------------- MODULE Metaphone -----------------------------
(***************************************************************************)
(* Metaphone.  The machine reads the prepared word letter by letter and    *)
(* writes at most `max` characters (NoLimit: as many as there are).        *)
(***************************************************************************)
EXTENDS Uni

NoLimit == -1
MetDefault == 4

MetVowels == Chars("AEIOU")
MetFront == Chars("EIY")
MetVarson == Chars("CSPTG")
MetPlain == Chars("FJLMNR")

mCIA == S("CIA")  mGN == S("GN")  mSH == S("SH")  mSIO == S("SIO")  mSIA == S("SIA")
mTIA == S("TIA")  mTIO == S("TIO")  mTCH == S("TCH")  mTH == S("TH")

MetVowelAt(w, i) == At(w, i) \in MetVowels
MetFrontAt(w, i) == At(w, i) \in MetFront

\* Initial exceptions.
MetPrepare(u) ==
  LET a == At(u, 1)  b == At(u, 2)
  IN  IF a \in {cK, cG, cP} /\ b = cN THEN Tail(u)
      ELSE IF a = cA /\ b = cE THEN Tail(u)
      ELSE IF a = cW /\ b = cR THEN Tail(u)
      ELSE IF a = cW /\ b = cH THEN <<cW>> \o Drop(u, 2)
      ELSE IF a = cX THEN <<cS>> \o Tail(u)
      ELSE u

\* What letter i of w writes, and how many letters after it are consumed.
Wr(t, n) == [t |-> t, skip |-> n]
MetC(w, i) ==
  LET last == i = Len(w)  prevS == At(w, i - 1) = cS  nextH == At(w, i + 1) = cH
      front == ~last /\ MetFrontAt(w, i + 1)
  IN  IF prevS /\ front THEN <<>>
      ELSE IF MatchAt(w, i, mCIA) THEN <<cX>>
      ELSE IF front THEN <<cS>>
      ELSE IF prevS /\ nextH THEN <<cK>>
      ELSE IF nextH THEN (IF i = 1 /\ Len(w) > 3 /\ MetVowelAt(w, 3) THEN <<cK>> ELSE <<cX>>)
      ELSE <<cK>>
MetG(w, i) ==
  LET nextH == At(w, i + 1) = cH
      nextLast == i + 1 = Len(w)
  IN  IF nextH /\ (nextLast \/ ~MetVowelAt(w, i + 2)) THEN <<>>
      ELSE IF i > 1 /\ MatchAt(w, i, mGN) THEN <<>>
      ELSE IF At(w, i - 1) # cG /\ MetFrontAt(w, i + 1) THEN <<cJ>>
      ELSE <<cK>>
MetLetter(w, i) ==
  LET c == w[i]
      prev == At(w, i - 1)
      next == At(w, i + 1)
      last == i = Len(w)
  IN  IF c \in MetVowels THEN Wr(IF i = 1 THEN <<c>> ELSE <<>>, 0)
      ELSE IF c = cB THEN Wr(IF prev = cM /\ last THEN <<>> ELSE <<cB>>, 0)
      ELSE IF c = cC THEN Wr(MetC(w, i), 0)
      ELSE IF c = cD THEN IF next = cG /\ MetFrontAt(w, i + 2) THEN Wr(<<cJ>>, 2) ELSE Wr(<<cT>>, 0)
      ELSE IF c = cG THEN Wr(MetG(w, i), 0)
      ELSE IF c = cH THEN Wr(IF prev \notin MetVarson /\ MetVowelAt(w, i + 1) THEN <<cH>> ELSE <<>>, 0)
      ELSE IF c \in MetPlain THEN Wr(<<c>>, 0)
      ELSE IF c = cK THEN Wr(IF prev = cC THEN <<>> ELSE <<cK>>, 0)
      ELSE IF c = cP THEN Wr(IF next = cH THEN <<cF>> ELSE <<cP>>, 0)
      ELSE IF c = cQ THEN Wr(<<cK>>, 0)
      ELSE IF c = cS THEN Wr(IF MatchAt(w, i, mSH) \/ MatchAt(w, i, mSIO) \/ MatchAt(w, i, mSIA)
                             THEN <<cX>> ELSE <<cS>>, 0)
      ELSE IF c = cT THEN Wr(IF MatchAt(w, i, mTIA) \/ MatchAt(w, i, mTIO) THEN <<cX>>
                             ELSE IF MatchAt(w, i, mTCH) THEN <<>>
                             ELSE IF MatchAt(w, i, mTH) THEN <<c0>>
                             ELSE <<cT>>, 0)
      ELSE IF c = cV THEN Wr(<<cF>>, 0)
      ELSE IF c \in {cW, cY} THEN Wr(IF MetVowelAt(w, i + 1) THEN <<c>> ELSE <<>>, 0)
      ELSE IF c = cX THEN Wr(<<cK, cS>>, 0)
      ELSE IF c = cZ THEN Wr(<<cS>>, 0)
      ELSE Wr(<<>>, 0)

MetStart(max, s) ==
  LET u == Upper(s)
  IN  IF Len(u) = 1 /\ u[1] < 128
      \* A word of one letter is its own code.
      THEN [w |-> u, i |-> 1, code |-> u, done |-> TRUE, tag |-> "single"]
      ELSE [w |-> MetPrepare(u), i |-> 1, code |-> <<>>, done |-> FALSE, tag |-> "start"]

MetStep(max, st) ==
  IF st.i > Len(st.w) THEN [st EXCEPT !.done = TRUE, !.tag = "end"]
  ELSE IF max # NoLimit /\ Len(st.code) >= max THEN [st EXCEPT !.done = TRUE, !.tag = "full"]
  ELSE LET c == st.w[st.i]
       IN  IF c # cC /\ At(st.w, st.i - 1) = c
           THEN [st EXCEPT !.i = @ + 1, !.tag = "double"]
           ELSE LET r == MetLetter(st.w, st.i)
                    code == st.code \o r.t
                IN  [st EXCEPT !.i = @ + 1 + r.skip,
                               !.code = IF max = NoLimit THEN code ELSE Take(code, max),
                               !.tag = IF r.t = <<>> THEN "silent" ELSE "code"]

RECURSIVE MetUntil(_, _)
MetUntil(max, st) ==
  IF st.done THEN st ELSE MetUntil(max, Fold(LAMBDA q, k : IF q.done THEN q ELSE MetStep(max, q), st, Chunk))
MetRun(max, start) == LET st == MetUntil(max, start) IN st.code
MetEncode(max, s) == MetRun(max, MetStart(max, s))
=============================================================================
