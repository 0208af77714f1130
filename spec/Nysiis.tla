------------------------------- MODULE Nysiis -------------------------------
(***************************************************************************)
(* NYSIIS.  The name is rewritten in place, from left to right, and every  *)
(* letter that differs from the (rewritten) letter before it goes to the   *)
(* key.  The strict form keeps six characters.                             *)
(***************************************************************************)
EXTENDS Uni

NysVowels == Chars("AEIOU")
nMAC == S("MAC")  nMCC == S("MCC")  nKN == S("KN")  nNN == S("NN")  nK == S("K")  nC == S("C")
nPH == S("PH")  nPF == S("PF")  nFF == S("FF")  nSCH == S("SCH")  nSSS == S("SSS")
nY == S("Y")  nD == S("D")  nAF == S("AF")  nAY == S("AY")
NysEndY == Lits({"EE", "IE"})
NysEndD == Lits({"DT", "RT", "RD", "NT", "ND"})

NysHead(w) ==
  LET w1 == ReplaceStart(w, nMAC, nMCC)
      w2 == ReplaceStart(w1, nKN, nNN)
      w3 == ReplaceStart(w2, nK, nC)
      w4 == IF StartsWith(w3, nPH) \/ StartsWith(w3, nPF) THEN nFF \o Drop(w3, 2) ELSE w3
  IN  ReplaceStart(w4, nSCH, nSSS)
NysTail(w) ==
  LET w1 == IF Len(w) >= 2 /\ LastN(w, 2) \in NysEndY THEN DropLast(w, 2) \o nY ELSE w
  IN  IF Len(w1) >= 2 /\ LastN(w1, 2) \in NysEndD THEN DropLast(w1, 2) \o nD ELSE w1

\* What replaces letter i; it may be longer than one letter, the letters
\* after i are then overwritten too.
NysTranscode(w, i) ==
  LET prev == w[i-1]  c == w[i]  next == At(w, i + 1)  next2 == At(w, i + 2)
  IN  IF c = cE /\ next = cV THEN nAF
      ELSE IF c \in NysVowels THEN <<cA>>
      ELSE IF c = cQ THEN <<cG>>
      ELSE IF c = cZ THEN <<cS>>
      ELSE IF c = cM THEN <<cN>>
      ELSE IF c = cK THEN (IF next = cN THEN nNN ELSE <<cC>>)
      ELSE IF c = cS /\ next = cC /\ next2 = cH THEN nSSS
      ELSE IF c = cP /\ next = cH THEN nFF
      ELSE IF c = cH /\ (prev \notin NysVowels \/ next \notin NysVowels) THEN <<prev>>
      ELSE IF c = cW /\ prev \in NysVowels THEN <<prev>>
      ELSE <<c>>

NysFinish(key, strict) ==
  LET k1 == IF Len(key) > 1 /\ key[Len(key)] = cS THEN DropLast(key, 1) ELSE key
      k2 == IF Len(k1) > 2 /\ LastN(k1, 2) = nAY THEN DropLast(k1, 2) \o nY ELSE k1
      k3 == IF Len(key) > 1 /\ Len(k2) > 0 /\ k2[Len(k2)] = cA THEN DropLast(k2, 1) ELSE k2
  IN  IF strict THEN Take(k3, 6) ELSE k3

NysStart(strict, s) ==
  LET w == Upper(OnlyAlpha(s))
      v == NysTail(NysHead(w))
  IN  IF w = <<>> THEN [w |-> w, i |-> 1, key |-> <<>>, done |-> TRUE, tag |-> "empty"]
      ELSE [w |-> v, i |-> 2, key |-> <<v[1]>>, done |-> FALSE, tag |-> "start"]

NysStep(strict, st) ==
  IF st.i > Len(st.w) THEN [st EXCEPT !.key = NysFinish(st.key, strict), !.done = TRUE, !.tag = "end"]
  ELSE LET t == NysTranscode(st.w, st.i)
           i == st.i
           v == Tup([j \in 1..Len(st.w) |-> IF j >= i /\ j < i + Len(t) THEN t[j - i + 1] ELSE st.w[j]])
       IN  [st EXCEPT !.i = @ + 1, !.w = v,
                      !.key = IF v[i] # v[i-1] THEN Append(@, v[i]) ELSE @,
                      !.tag = IF v[i] # v[i-1] THEN "key" ELSE "repeat"]

RECURSIVE NysUntil(_, _)
NysUntil(strict, st) ==
  IF st.done THEN st ELSE NysUntil(strict, Fold(LAMBDA q, k : IF q.done THEN q ELSE NysStep(strict, q), st, Chunk))
NysRun(strict, start) == LET st == NysUntil(strict, start) IN st.key
NysEncode(strict, s) == NysRun(strict, NysStart(strict, s))
=============================================================================
