--------------------------- MODULE RefinedSoundex ---------------------------
(***************************************************************************)
(* Refined Soundex: the first letter followed by the codes of all letters  *)
(* (the first one included), where a code equal to the one before it is    *)
(* written once.  Letters outside A-Z have no code.                        *)
(***************************************************************************)
EXTENDS Uni

RsxDefaultMap == S("01360240043788015936020505")
RsxLettersUpper(s) == Upper(OnlyAlpha(s))

RsxStart(map, s) ==
  LET w == RsxLettersUpper(s)
  IN  IF w = <<>> THEN [w |-> w, i |-> 1, code |-> <<>>, prev |-> None, done |-> TRUE, tag |-> "empty"]
      ELSE [w |-> w, i |-> 1, code |-> <<w[1]>>, prev |-> None, done |-> FALSE, tag |-> "first"]

RsxStep(map, st) ==
  IF st.i > Len(st.w) THEN [st EXCEPT !.done = TRUE, !.tag = "end"]
  ELSE LET c == st.w[st.i]
       IN  IF ~IsAsciiUpper(c) THEN [st EXCEPT !.i = @ + 1, !.tag = "unmapped"]
           ELSE IF map[c - 64] = st.prev THEN [st EXCEPT !.i = @ + 1, !.tag = "repeat"]
           ELSE [st EXCEPT !.i = @ + 1, !.prev = map[c - 64], !.code = Append(@, map[c - 64]), !.tag = "code"]

RECURSIVE RsxUntil(_, _)
RsxUntil(map, st) ==
  IF st.done THEN st ELSE RsxUntil(map, Fold(LAMBDA q, k : IF q.done THEN q ELSE RsxStep(map, q), st, Chunk))
RsxRun(map, start) == LET st == RsxUntil(map, start) IN st.code
RsxEncode(map, s) == RsxRun(map, RsxStart(map, s))

\* Declarative form: the sequence of codes without stuttering.
RsxDeclarative(map, s) ==
  LET w == RsxLettersUpper(s)
      m == OnlyAsciiUpper(w)
      ds == Tup([i \in 1..Len(m) |-> map[m[i] - 64]])
      keep == {i \in 1..Len(ds) : i = 1 \/ ds[i] # ds[i-1]}
      nth(k) == ds[CHOOSE i \in keep : Cardinality({j \in keep : j <= i}) = k]
  IN  IF w = <<>> THEN <<>> ELSE <<w[1]>> \o [k \in 1..Cardinality(keep) |-> nth(k)]
=============================================================================
