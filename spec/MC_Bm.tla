------------------------------- MODULE MC_Bm -------------------------------
(***************************************************************************)
(* Beider-Morse on one word, one rule at a time: the guess of the          *)
(* languages, the rules of the language, and the two rewritings of every   *)
(* phoneme; with the configurations of the run, on every word made of a    *)
(* few given pieces.                                                       *)
(***************************************************************************)
EXTENDS BmConfigs, MCIn
CONSTANT Show
VARIABLES mbCfg, mbOpt, mbText, mbSt
mbVars == <<mbCfg, mbOpt, mbText, mbSt>>

C == BmCfgs[mbCfg]
MbTexts == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}}
\* o.concat or one word: otherwise there is nothing to encode.
MbWord(o, s) == IF o.concat THEN Join(BmKeepWords(o.nt, Words(Lower(s))), <<cSpace>>) ELSE Words(Lower(s))[1]
MbSense(o, s) == (o.concat \/ Len(Words(Lower(s))) = 1) /\ (o.nt = "gen" => BmPrefixLen(Lower(s)) = 0 /\ ~StartsWith(Lower(s), bD)) /\ ~SeqHasChar(s, cDash)

MbStart(c, o, s) ==
  [pc |-> "guess", k |-> 1, i |-> 1, langs |-> c.langs[o.nt].langs, ls |-> LAny, l |-> bAny, low |-> Lower(s), w |-> MbWord(o, s),
   src |-> <<>>, ps |-> <<>>, cur |-> <<>>, done |-> FALSE]
\* The rules of the rewriting under way.
MbRules(c, o, st) == BmRulesFor(c, o.nt, o.rt, IF st.pc = "final1" THEN bCommon ELSE st.l)
MbNextPhase(st, ps) ==
  IF st.pc = "final1" THEN [st EXCEPT !.pc = "final2", !.src = ps, !.ps = <<>>, !.k = 1, !.i = 0]
  ELSE [st EXCEPT !.pc = "end", !.ps = ps, !.done = TRUE]
MbStep(c, o, st) ==
  CASE st.pc = "guess" ->
         LET rs == c.langs[o.nt].rules
         IN  IF st.k <= Len(rs) THEN [st EXCEPT !.langs = GuessOne(st.low, @, rs[st.k]), !.k = @ + 1]
             ELSE LET ls == IF st.langs = {} THEN LAny ELSE LSome(st.langs)
                  IN  [st EXCEPT !.pc = "main", !.ls = ls, !.l = IF LSingle(ls) THEN CHOOSE x \in ls.s : TRUE ELSE bAny,
                                 !.ps = <<[t |-> <<>>, l |-> ls]>>]
    [] st.pc = "main" ->
         IF st.i <= Len(st.w)
         THEN LET r == BmRuleStep(BmRulesFor(c, o.nt, "rules", st.l), st.w, st.i, st.ps, o.max)
              IN  [st EXCEPT !.i = r.i, !.ps = r.ps]
         ELSE [st EXCEPT !.pc = "final1", !.src = st.ps, !.ps = <<>>, !.k = 1, !.i = 0]
    [] OTHER ->
         LET rules == MbRules(c, o, st)
         IN  IF DOMAIN rules = {} THEN MbNextPhase(st, st.src)
             ELSE IF st.k > Len(st.src) THEN MbNextPhase(st, st.ps)
             ELSE LET p == st.src[st.k]
                  IN  IF st.i = 0 THEN [st EXCEPT !.i = 1, !.cur = <<[t |-> <<>>, l |-> p.l]>>]
                      ELSE IF st.i <= Len(p.t)
                      THEN LET r == BmKeep(BmRuleStep(rules, p.t, st.i, st.cur, o.max), p.t[st.i])
                           IN  [st EXCEPT !.i = r.i, !.cur = r.ps]
                      ELSE [st EXCEPT !.ps = PhMerge(@, st.cur, p.l), !.k = @ + 1, !.i = 0, !.cur = <<>>]

MbInit ==
  /\ mbCfg \in 1..Len(BmCfgs) /\ mbOpt \in SetOfSeq(MCInput.opts) /\ mbText \in MbTexts
  /\ "none" \notin DOMAIN C /\ MbSense(mbOpt, mbText)
  /\ mbSt = MbStart(C, mbOpt, mbText)
MbNext == ~mbSt.done /\ mbSt' = MbStep(C, mbOpt, mbSt) /\ UNCHANGED <<mbCfg, mbOpt, mbText>>
MbSpec == MbInit /\ [][MbNext]_mbVars /\ WF_mbVars(MbNext)

Terminates == <>(mbSt.done)
Rank(pc) == CASE pc = "guess" -> 1 [] pc = "main" -> 2 [] pc = "final1" -> 3 [] pc = "final2" -> 4 [] pc = "end" -> 5
Nearer == \/ Rank(mbSt'.pc) > Rank(mbSt.pc)
          \/ mbSt'.pc = mbSt.pc /\ (mbSt'.k > mbSt.k \/ (mbSt'.k = mbSt.k /\ mbSt'.i > mbSt.i))
Progress == [][Nearer]_mbVars
\* A guess only takes languages away.
Guesses == [][mbSt'.langs \subseteq mbSt.langs]_mbVars
\* Phonemes are in order, without two of the same text.
InOrder(ps) == \A k \in 2..Len(ps) : TextLess(ps[k - 1].t, ps[k].t)
\* They are for languages of the name, and for some of them.
Within(l) == ~LEmpty(l) /\ (mbSt.ls.k = "some" => l.k = "some" /\ l.s \subseteq mbSt.ls.s)
Phonemes ==
  \A ps \in {mbSt.ps, mbSt.src, mbSt.cur} :
    InOrder(ps) /\ (mbSt.pc # "guess" => \A k \in 1..Len(ps) : Within(ps[k].l))
\* At most as many as asked for, before the results of the rewritings are merged.
Bounded ==
  /\ mbSt.pc = "main" => Len(mbSt.ps) <= Max2(1, mbOpt.max)
  /\ Len(mbSt.cur) <= Max2(1, mbOpt.max)
  /\ mbSt.pc = "final1" => Len(mbSt.src) <= Max2(1, mbOpt.max)
  /\ Len(mbSt.ps) <= Max2(1, mbOpt.max) * Max2(1, Len(mbSt.src))
AtEnd == mbSt.done => PhText(mbSt.ps) = BmEncode(C, mbOpt, mbText)
Emit == Show /\ mbSt.done =>
  PrintT(<<"CASE", ToJson([op |-> "bmx", in |-> mbText, langs |-> [k |-> "guess", s |-> <<>>],
     enc |-> [alg |-> "bm", how |-> "new", cfg |-> mbCfg - 1, nt |-> mbOpt.nt, rt |-> mbOpt.rt, concat |-> mbOpt.concat, max |-> mbOpt.max],
     expect |-> PhText(mbSt.ps)])>>)
=============================================================================
