----------------------------- MODULE MC_BmName -----------------------------
(***************************************************************************)
(* Beider-Morse names of several words: a machine with a list of what      *)
(* remains to be written, literal texts and names to encode, for every     *)
(* text made of a few given pieces.                                        *)
(***************************************************************************)
EXTENDS BmConfigs, MCIn
CONSTANT Show
VARIABLES bnOpt, bnText, bnSt
bnVars == <<bnOpt, bnText, bnSt>>
C == BmCfgs[2]
BnTexts == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}}

Lit(s) == [k |-> "lit", s |-> s]
Name(s) == [k |-> "name", s |-> s]
\* A name that is to be taken as it is.
Leaf(w, ls) == [k |-> "leaf", s |-> w, ls |-> ls]
Both(rest, stuck) == <<Lit(<<40>>), Name(rest), Lit(S(")-(")), Name(stuck), Lit(<<41>>)>>
\* What a name is made of.
Parts(o, s) ==
  LET low == Lower(s)
      ls == BmGuess(C.langs[o.nt], s)
      w == Tup([i \in 1..Len(low) |-> BmDash(low[i])])
      n == IF o.nt = "gen" THEN BmPrefixLen(w) ELSE 0
      ws == Words(w)
  IN  IF o.nt = "gen" /\ StartsWith(w, bD) THEN Both(Drop(w, 2), <<100>> \o Drop(w, 2))
      ELSE IF n > 0 THEN Both(Drop(w, n), SubSeq(w, 1, n - 1) \o Drop(w, n))
      ELSE IF o.concat THEN <<Leaf(Join(BmKeepWords(o.nt, ws), <<cSpace>>), ls)>>
      ELSE IF Len(ws) = 1 THEN <<Leaf(ws[1], ls)>>
      ELSE Flat([k \in 1..Len(ws) |-> IF k = 1 THEN <<Name(ws[k])>> ELSE <<Lit(<<cDash>>), Name(ws[k])>>])
BnStart(s) == [todo |-> <<Name(s)>>, out |-> <<>>, open |-> 0, steps |-> 0]
BnStep(o, st) ==
  LET x == Head(st.todo)  rest == Tail(st.todo)
  IN  CASE x.k = "lit" -> [st EXCEPT !.todo = rest, !.out = @ \o x.s,
                                     !.open = @ + (IF x.s[1] = 40 THEN 1 ELSE IF x.s = <<41>> THEN 0 - 1 ELSE 0)]
        [] x.k = "leaf" -> [st EXCEPT !.todo = rest, !.out = @ \o PhText(BmPhonemes(C, o, x.s, x.ls))]
        [] x.k = "name" -> [st EXCEPT !.todo = Parts(o, x.s) \o rest, !.steps = @ + 1]
BnInit == bnOpt \in SetOfSeq(MCInput.opts) /\ bnText \in BnTexts /\ bnSt = BnStart(bnText)
BnNext == bnSt.todo # <<>> /\ bnSt' = BnStep(bnOpt, bnSt) /\ UNCHANGED <<bnOpt, bnText>>
BnSpec == BnInit /\ [][BnNext]_bnVars /\ WF_bnVars(BnNext)

Terminates == <>(bnSt.todo = <<>>)
\* Parts of a name are shorter than the name, or are taken as they are, or are single words.
Shorter(o, s) ==
  \A k \in 1..Len(Parts(o, s)) :
    LET x == Parts(o, s)[k]
    IN  x.k = "name" => Len(x.s) < Len(Lower(s)) \/ (Len(Words(x.s)) = 1 /\ Words(x.s)[1] = x.s /\ Parts(o, x.s)[1].k # "name")
Decreasing == \A k \in 1..Len(bnSt.todo) : bnSt.todo[k].k = "name" => Shorter(bnOpt, bnSt.todo[k].s)
Nested == bnSt.open >= 0 /\ (bnSt.todo = <<>> => bnSt.open = 0)
Written == [][IsPrefixOf(bnSt.out, bnSt'.out)]_bnVars
AtEnd == bnSt.todo = <<>> => bnSt.out = BmEncode(C, bnOpt, bnText)
Emit == Show /\ bnSt.todo = <<>> =>
  PrintT(<<"CASE", ToJson([op |-> "bmx", in |-> bnText, langs |-> [k |-> "guess", s |-> <<>>],
     enc |-> [alg |-> "bm", how |-> "new", cfg |-> 1, nt |-> bnOpt.nt, rt |-> bnOpt.rt, concat |-> bnOpt.concat, max |-> bnOpt.max],
     expect |-> bnSt.out])>>)
=============================================================================
