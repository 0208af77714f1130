---------------------------- MODULE MatchRating ----------------------------
(***************************************************************************)
(* Match rating approach: the code of a name, and the comparison of two    *)
(* names.                                                                  *)
(***************************************************************************)
EXTENDS Uni

MraVowels == Chars("AEIOUaeiou")
MraPunct == Chars("-&'.,")
\* Consonants whose doubling is simplified, one after the other.
MraDoubles == S("BCDFGHJKLMNPQRSTVWXYZ")

\* Accented letters that are folded to plain ones.
MraFoldTable == Fun(
  [c \in {192, 200, 204, 210, 217, 193, 201, 205, 211, 218, 221, 194, 202, 206, 212, 219, 374,
          195, 213, 209, 196, 203, 207, 214, 220, 376, 197, 199, 336, 368,
          224, 232, 236, 242, 249, 225, 233, 237, 243, 250, 253, 226, 234, 238, 244, 251, 375,
          227, 245, 241, 228, 235, 239, 246, 252, 255, 229, 231, 337, 369} |->
     IF c \in {192, 193, 194, 195, 196, 197} THEN cA
     ELSE IF c \in {200, 201, 202, 203} THEN cE
     ELSE IF c \in {204, 205, 206, 207} THEN cI
     ELSE IF c \in {210, 211, 212, 213, 214, 336} THEN cO
     ELSE IF c \in {217, 218, 219, 220, 368} THEN cU
     ELSE IF c \in {221, 374, 376} THEN cY
     ELSE IF c = 209 THEN cN
     ELSE IF c = 199 THEN cC
     ELSE IF c \in {224, 225, 226, 227, 228, 229} THEN 97
     ELSE IF c \in {232, 233, 234, 235} THEN 101
     ELSE IF c \in {236, 237, 238, 239} THEN 105
     ELSE IF c \in {242, 243, 244, 245, 246, 337} THEN 111
     ELSE IF c \in {249, 250, 251, 252, 369} THEN 117
     ELSE IF c \in {253, 375, 255} THEN 121
     ELSE IF c = 241 THEN 110 ELSE 99])
MraFoldable == DOMAIN MraFoldTable
MraFold(c) == IF c < 128 THEN c ELSE IF c \in MraFoldable THEN MraFoldTable[c] ELSE c

MraKeep(c) == c \notin MraPunct /\ ~IsSpace(c)
\* Upper case, punctuation and white space removed, accents removed.
MraClean(s) == LET u == SelectSeq(Upper(s), MraKeep) IN Tup([i \in 1..Len(u) |-> MraFold(u[i])])
\* Vowels go away, except in front.
MraNoVowels(w) ==
  IF w = <<>> THEN w
  ELSE (IF MraKeep(w[1]) THEN <<w[1]>> ELSE <<>>) \o
       SelectSeq(Tail(w), LAMBDA c : c \notin MraVowels /\ MraKeep(c))
RECURSIVE MraSingles(_, _)
MraSingles(w, k) ==
  IF k > Len(MraDoubles) THEN w
  ELSE MraSingles(ReplaceAll(w, <<MraDoubles[k], MraDoubles[k]>>, <<MraDoubles[k]>>), k + 1)
MraFirst3Last3(w) == IF Len(w) > 6 THEN Take(w, 3) \o LastN(w, 3) ELSE w

MraTooShort(s) == Len(Trim(s)) <= 1

MraStart(s) == [w |-> s, pc |-> IF MraTooShort(s) THEN "short" ELSE "clean", done |-> FALSE]
MraStep(st) ==
  CASE st.pc = "short" -> [st EXCEPT !.w = <<>>, !.done = TRUE]
    [] st.pc = "clean" -> [st EXCEPT !.w = MraClean(@), !.pc = "vowels"]
    [] st.pc = "vowels" -> [st EXCEPT !.w = MraNoVowels(@), !.pc = "singles"]
    [] st.pc = "singles" -> [st EXCEPT !.w = MraSingles(Upper(@), 1), !.pc = "cut"]
    [] st.pc = "cut" -> [st EXCEPT !.w = MraFirst3Last3(@), !.done = TRUE]
RECURSIVE MraUntil(_)
MraUntil(st) ==
  IF st.done THEN st ELSE MraUntil(Fold(LAMBDA q, k : IF q.done THEN q ELSE MraStep(q), st, Chunk))
MraRun(start) == LET st == MraUntil(start) IN st.w
MraEncode(s) == MraRun(MraStart(s))

(***************************************************************************)
(* Comparison.  Position by position from the left and from the right,     *)
(* equal characters are struck out of both codes; what is left of the      *)
(* longer remainder tells the similarity rating.                           *)
(***************************************************************************)
MraMinimum(sum) == IF sum <= 4 THEN 5 ELSE IF sum <= 7 THEN 4 ELSE IF sum <= 11 THEN 3 ELSE IF sum = 12 THEN 2 ELSE 1

\* Strike characters i (from the left) then i (from the right).
Strike(p, i, j) ==
  IF p.a[i] = p.b[j]
  THEN [a |-> [p.a EXCEPT ![i] = cSpace], b |-> [p.b EXCEPT ![j] = cSpace]]
  ELSE p
RECURSIVE MraStrike(_, _)
MraStrike(p, k) ==
  IF k > Len(p.a) \/ k > Len(p.b) THEN p
  ELSE LET q == Strike(p, k, k)
       IN  MraStrike(Strike(q, Len(q.a) - k + 1, Len(q.b) - k + 1), k + 1)
NotStruck(c) == c # cSpace
MraLeft(s) == Len(SelectSeq(s, NotStruck))
MraRating(a, b) ==
  LET p == MraStrike([a |-> a, b |-> b], 1)
      r1 == MraLeft(p.a)  r2 == MraLeft(p.b)
  IN  AbsDiff(6, Max2(r1, r2))

MraEquals(s, t) ==
  IF MraTooShort(s) \/ MraTooShort(t) THEN FALSE
  ELSE IF s = t THEN TRUE
  ELSE LET a == MraEncode(s)  b == MraEncode(t)
       IN  IF AbsDiff(Len(a), Len(b)) >= 3 THEN FALSE
           ELSE MraRating(a, b) >= MraMinimum(Len(a) + Len(b))
=============================================================================
