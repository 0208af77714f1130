------------------------------ MODULE Soundex ------------------------------
(***************************************************************************)
(* Soundex, as a machine that reads a name letter by letter.               *)
(* A configuration is [map, hw]: the code of each of the 26 letters (the   *)
(* code '-' makes a letter silent) and whether H and W are transparent.    *)
(***************************************************************************)
EXTENDS Uni

Silent == cDash
SdxDefaultMap == S("01230120022455012623010202")
SdxGenealogyMap == S("-123-12--22455-12623-1-2-2")
SdxDefault == [map |-> SdxDefaultMap, hw |-> TRUE]

\* The names are first reduced to their letters, in upper case.
LettersUpper(s) == Upper(OnlyAlpha(s))

\* A configuration made from a mapping: H and W are transparent unless the
\* mapping has silent letters of its own.
SdxFromMap(m) == [map |-> m, hw |-> \A i \in 1..Len(m) : m[i] # Silent]

SdxCode(cfg, c) == IF IsAsciiUpper(c) THEN cfg.map[c - 64] ELSE Silent

SdxStart(cfg, s) ==
  LET w == LettersUpper(s)
  IN  IF w = <<>> THEN [w |-> w, i |-> 1, code |-> <<>>, prev |-> Silent, done |-> TRUE, tag |-> "empty"]
      ELSE [w |-> w, i |-> 2, code |-> <<w[1]>>, prev |-> SdxCode(cfg, w[1]), done |-> FALSE, tag |-> "first"]

SdxStep(cfg, st) ==
  IF Len(st.code) = 4 \/ st.i > Len(st.w)
  THEN [st EXCEPT !.code = PadTo(st.code, 4, c0), !.done = TRUE, !.tag = "pad"]
  ELSE LET c == st.w[st.i]
           d == SdxCode(cfg, c)
       IN  IF cfg.hw /\ c \in {cH, cW} THEN [st EXCEPT !.i = @ + 1, !.tag = "hw"]
           ELSE IF d = Silent THEN [st EXCEPT !.i = @ + 1, !.tag = "silent"]
           ELSE IF d = c0 THEN [st EXCEPT !.i = @ + 1, !.prev = d, !.tag = "vowel"]
           ELSE IF d = st.prev THEN [st EXCEPT !.i = @ + 1, !.tag = "repeat"]
           ELSE [st EXCEPT !.i = @ + 1, !.prev = d, !.code = Append(@, d), !.tag = "code"]

RECURSIVE SdxUntil(_, _)
SdxUntil(cfg, st) ==
  IF st.done THEN st ELSE SdxUntil(cfg, Fold(LAMBDA q, k : IF q.done THEN q ELSE SdxStep(cfg, q), st, Chunk))
SdxRun(cfg, start) == LET st == SdxUntil(cfg, start) IN st.code
SdxEncode(cfg, s) == SdxRun(cfg, SdxStart(cfg, s))

(***************************************************************************)
(* The textbook definition, used to check the machine: drop the            *)
(* transparent letters, merge runs of the same code, drop the vowels.      *)
(***************************************************************************)
SdxDeclarative(cfg, s) ==
  LET w == LettersUpper(s)
      kept(c) == ~(cfg.hw /\ c \in {cH, cW}) /\ SdxCode(cfg, c) # Silent
      tail == SelectSeq(Tail(w), kept)
      ds == Tup(<<SdxCode(cfg, w[1])>> \o [i \in 1..Len(tail) |-> SdxCode(cfg, tail[i])])
      keep == {i \in 2..Len(ds) : ds[i] # c0 /\ ds[i] # ds[i-1]}
      nth(k) == ds[CHOOSE i \in keep : Cardinality({j \in keep : j <= i}) = k]
  IN  IF w = <<>> THEN <<>>
      ELSE <<w[1]>> \o [k \in 1..3 |-> IF k <= Cardinality(keep) THEN nth(k) ELSE c0]
=============================================================================
