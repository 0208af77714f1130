------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The regular expressions of the Beider-Morse rules: literals, ".", "[]"  *)
(* and "[^]" classes with ranges, "( | )", "*", "+", "?", "^" and "$".     *)
(* A parsed expression is an alternative of concatenations of nodes:       *)
(*   [t, c, neg, set, alts]                                                *)
(* t in {"chr","any","set","grp","bol","eol"} with an occurrence q in      *)
(* {"1","*","+","?"}.                                                      *)
(***************************************************************************)
EXTENDS RulesText

ReNode(t, c, neg, set, alts) == [t |-> t, c |-> c, neg |-> neg, set |-> set, alts |-> alts, q |-> "1"]

\* Parser state: p.ok, p.next (position), p.r (result)
ReBad == [ok |-> FALSE, next |-> 0, r |-> <<>>]

\* The members of a class from position i up to "]": a sequence of <<lo, hi>>.
RECURSIVE ReClass(_, _, _, _)
ReClass(s, i, first, acc) ==
  IF i > Len(s) THEN ReBad
  ELSE IF s[i] = 93 /\ ~first THEN [ok |-> TRUE, next |-> i + 1, r |-> acc]
  ELSE IF s[i] \in {91, 92, 38, 126} THEN ReBad
  ELSE IF At(s, i + 1) = 45 /\ At(s, i + 2) \notin {93, None}
  THEN (IF s[i + 2] < s[i] THEN ReBad ELSE ReClass(s, i + 3, FALSE, Append(acc, <<s[i], s[i + 2]>>)))
  ELSE ReClass(s, i + 1, FALSE, Append(acc, <<s[i], s[i]>>))

\* alt: finished alternatives, cat: nodes of the current one.
RECURSIVE ReParse(_, _, _, _, _)
ReParse(s, i, depth, alt, cat) ==
  IF i > Len(s)
  THEN IF depth = 0 THEN [ok |-> TRUE, next |-> i, r |-> Append(alt, cat)] ELSE ReBad
  ELSE LET c == s[i]
       IN  IF c = 124 THEN ReParse(s, i + 1, depth, Append(alt, cat), <<>>)
           ELSE IF c = 41 THEN (IF depth = 0 THEN ReBad ELSE [ok |-> TRUE, next |-> i + 1, r |-> Append(alt, cat)])
           ELSE IF c = 40
           THEN LET g == ReParse(s, i + 1, depth + 1, <<>>, <<>>)
                IN  IF ~g.ok THEN ReBad
                    ELSE ReParse(s, g.next, depth, alt, Append(cat, ReNode("grp", 0, FALSE, <<>>, g.r)))
           ELSE IF c = 91
           THEN LET neg == At(s, i + 1) = 94
                    k == ReClass(s, IF neg THEN i + 2 ELSE i + 1, TRUE, <<>>)
                IN  IF ~k.ok THEN ReBad
                    ELSE ReParse(s, k.next, depth, alt, Append(cat, ReNode("set", 0, neg, k.r, <<>>)))
           ELSE IF c \in {42, 43, 63}
           THEN IF cat = <<>> THEN ReBad
                ELSE IF cat[Len(cat)].q # "1" THEN ReBad
                ELSE ReParse(s, i + 1, depth, alt,
                       [cat EXCEPT ![Len(cat)].q = IF c = 42 THEN "*" ELSE IF c = 43 THEN "+" ELSE "?"])
           ELSE IF c = 46 THEN ReParse(s, i + 1, depth, alt, Append(cat, ReNode("any", 0, FALSE, <<>>, <<>>)))
           ELSE IF c = 94 THEN ReParse(s, i + 1, depth, alt, Append(cat, ReNode("bol", 0, FALSE, <<>>, <<>>)))
           ELSE IF c = 36 THEN ReParse(s, i + 1, depth, alt, Append(cat, ReNode("eol", 0, FALSE, <<>>, <<>>)))
           ELSE IF c \in {92, 123, 125} THEN ReBad
           ELSE ReParse(s, i + 1, depth, alt, Append(cat, ReNode("chr", c, FALSE, <<>>, <<>>)))
ReCompile(s) == ReParse(s, 1, 0, <<>>, <<>>)

InClass(set, c) == \E k \in 1..Len(set) : c >= set[k][1] /\ c <= set[k][2]

\* The positions where a match that starts at i can end.
RECURSIVE ReOne(_, _, _)
RECURSIVE ReNodeEnds(_, _, _)
RECURSIVE ReStar(_, _, _, _)
RECURSIVE ReCat(_, _, _, _)
ReAlts(alts, s, i) == UNION {ReCat(alts[k], 1, s, i) : k \in 1..Len(alts)}
ReOne(n, s, i) ==
  IF n.t = "chr" THEN (IF At(s, i) = n.c THEN {i + 1} ELSE {})
  ELSE IF n.t = "any" THEN (IF i <= Len(s) /\ At(s, i) # NL THEN {i + 1} ELSE {})
  ELSE IF n.t = "set" THEN (IF i <= Len(s) /\ InClass(n.set, At(s, i)) # n.neg THEN {i + 1} ELSE {})
  ELSE IF n.t = "bol" THEN (IF i = 1 THEN {i} ELSE {})
  ELSE IF n.t = "eol" THEN (IF i = Len(s) + 1 THEN {i} ELSE {})
  ELSE ReAlts(n.alts, s, i)
\* Ends after any number of further occurrences from the set `new`.
ReStar(n, s, all, new) ==
  LET nxt == (UNION {ReOne(n, s, j) : j \in new}) \ all
  IN  IF nxt = {} THEN all ELSE ReStar(n, s, all \cup nxt, nxt)
ReNodeEnds(n, s, i) ==
  IF n.q = "1" THEN ReOne(n, s, i)
  ELSE IF n.q = "?" THEN {i} \cup ReOne(n, s, i)
  ELSE IF n.q = "*" THEN ReStar(n, s, {i}, {i})
  ELSE LET one == ReOne(n, s, i) IN ReStar(n, s, one, one)
ReCat(cat, k, s, i) ==
  IF k > Len(cat) THEN {i} ELSE UNION {ReCat(cat, k + 1, s, j) : j \in ReNodeEnds(cat[k], s, i)}

\* The expression matches somewhere in s.
ReSearch(re, s) == \E i \in 1..Len(s) + 1 : ReAlts(re, s, i) # {}

(***************************************************************************)
(* Contexts of phonetic rules.  They are regular expressions, except that  *)
(* an expression without "[" is a plain text, whatever else it holds, and  *)
(* that an expression that is one class is a class of literal characters.  *)
(* A context is <<kind, text, member, expression>>.                        *)
(***************************************************************************)
Ctx(k, t, m, re) == [k |-> k, t |-> t, m |-> m, re |-> re]
CtxOf(s) ==
  LET bol == Len(s) > 0 /\ s[1] = 94
      eol == Len(s) > 0 /\ s[Len(s)] = 36
      body1 == IF bol THEN Tail(s) ELSE s
      content == IF eol THEN DropLast(body1, 1) ELSE body1
      general == LET r == ReCompile(s) IN IF r.ok THEN Ctx("re", <<>>, FALSE, r.r) ELSE Ctx("bad", <<>>, FALSE, <<>>)
  IN  IF 91 \notin {s[i] : i \in 1..Len(s)}
      THEN IF bol /\ eol THEN (IF content = <<>> THEN Ctx("empty", <<>>, FALSE, <<>>) ELSE Ctx("equals", content, FALSE, <<>>))
           ELSE IF content = <<>> THEN Ctx("all", <<>>, FALSE, <<>>)
           ELSE IF bol THEN Ctx("starts", content, FALSE, <<>>) ELSE Ctx("ends", content, FALSE, <<>>)
      ELSE IF StartsWith(content, <<91>>) /\ EndsWith(content, <<93>>)
      THEN LET in1 == DropLast(Tail(content), 1)
               neg == StartsWith(in1, <<94>>)
               in == IF neg THEN Tail(in1) ELSE in1
           IN  IF 91 \in {in1[i] : i \in 1..Len(in1)} THEN general
               ELSE IF bol /\ eol THEN Ctx("equalsc", in, ~neg, <<>>)
               ELSE IF bol THEN Ctx("startsc", in, ~neg, <<>>)
               ELSE Ctx("endsc", in, ~neg, <<>>)
      ELSE general

CtxMatch(c, s) ==
  IF c.k = "all" THEN TRUE
  ELSE IF c.k = "empty" THEN s = <<>>
  ELSE IF c.k = "equals" THEN s = c.t
  ELSE IF c.k = "starts" THEN StartsWith(s, c.t)
  ELSE IF c.k = "ends" THEN EndsWith(s, c.t)
  ELSE IF c.k = "equalsc" THEN Len(s) = 1 /\ SeqHasChar(c.t, s[1]) = c.m
  ELSE IF c.k = "startsc" THEN Len(s) > 0 /\ SeqHasChar(c.t, s[1]) = c.m
  ELSE IF c.k = "endsc" THEN Len(s) > 0 /\ SeqHasChar(c.t, s[Len(s)]) = c.m
  ELSE ReSearch(c.re, s)
=============================================================================
