--------------------------- MODULE DaitchMokotoff ---------------------------
(***************************************************************************)
(* Daitch-Mokotoff Soundex: the machine that reads a rule text (DmsP...),  *)
(* and the machine that encodes a name with the rules (Dms...).            *)
(***************************************************************************)
EXTENDS RulesText

---------------------------------------------------------------------------
\* Reading the rules: one construct per step.
DmsError(s, i, line) == [line |-> line, content |-> LineFrom(s, i)]
DmsPStart(s) == [i |-> 1, line |-> 0, rules |-> <<>>, folds |-> <<>>, done |-> FALSE, err |-> FALSE,
                 at |-> [line |-> 0, content |-> <<>>], tag |-> "start"]
DmsPStep(s, st) ==
  IF st.i > Len(s) THEN [st EXCEPT !.done = TRUE, !.tag = "end"]
  ELSE
  LET i == st.i
      line == st.line + 1
      q == Quadruplet(s, i)
      f == Folding(s, i)
      e == EndOfLine(s, i)
      m == MultiLine(s, i)
      fail(tag) == [st EXCEPT !.done = TRUE, !.err = TRUE, !.at = DmsError(s, i, line), !.tag = tag]
  IN  IF q.ok
      THEN IF q.a = <<>> THEN fail("empty pattern")
           ELSE [st EXCEPT !.i = q.next, !.line = line, !.tag = "rule",
                   !.rules = Append(@, [p |-> q.a, start |-> Split(q.b, cPipe), vowel |-> Split(q.c, cPipe),
                                        other |-> Split(q.d, cPipe)])]
      ELSE IF f.ok THEN [st EXCEPT !.i = f.next, !.line = line, !.tag = "fold", !.folds = Append(@, <<f.from, f.to>>)]
      ELSE IF e > 0 THEN [st EXCEPT !.i = e, !.line = line, !.tag = "blank"]
      ELSE IF m.ok THEN [st EXCEPT !.i = m.next, !.line = line + m.lines - 1, !.tag = "comment"]
      ELSE fail("unknown line")
RECURSIVE DmsPRun(_, _)
DmsPRun(s, st) == IF st.done THEN st ELSE DmsPRun(s, Fold(LAMBDA q, k : IF q.done THEN q ELSE DmsPStep(s, q), st, Chunk))

\* Longest pattern first (in bytes), rules of the same length in file order.
ByteLen(s) == Fold(LAMBDA a, c : a + Utf8Len(c), 0, s)
DmsInsert(r, rs) ==
  LET f[i \in Nat] == IF i > Len(rs) THEN i ELSE IF ByteLen(rs[i].p) < ByteLen(r.p) THEN i ELSE f[i + 1]
      at == f[1]
  IN  SubSeq(rs, 1, at - 1) \o <<r>> \o SubSeq(rs, at, Len(rs))
DmsSort(rs) == Fold(LAMBDA acc, r : DmsInsert(r, acc), <<>>, rs)

\* The rules of every first character, and the character foldings (the last one wins).
DmsTable(rules, folds) ==
  [rules |-> Fun([c \in {rules[i].p[1] : i \in 1..Len(rules)} |->
                DmsSort(SelectSeq(rules, LAMBDA r : r.p[1] = c))]),
   folds |-> Fun([c \in {folds[i][1] : i \in 1..Len(folds)} |->
                folds[CHOOSE i \in 1..Len(folds) : folds[i][1] = c /\ \A j \in i+1..Len(folds) : folds[j][1] # c][2]])]
DmsBuild(s) ==
  LET st == DmsPRun(s, DmsPStart(s))
  IN  IF st.err THEN [ok |-> FALSE, line |-> st.at.line, content |-> st.at.content]
      ELSE [ok |-> TRUE, table |-> DmsTable(st.rules, st.folds)]

---------------------------------------------------------------------------
\* Encoding.  t: table, fold: ASCII folding on?, all: every branch or the
\* first replacement only.
DmsVowels == Chars("aeiou")
DmsLength == 6

DmsNotSpace(c) == ~IsSpace(c)
DmsChar(t, fold, c) ==
  LET l == Low(c)[1] IN IF fold /\ l \in DOMAIN t.folds THEN t.folds[l] ELSE l
DmsSource(t, fold, s) ==
  LET w == SelectSeq(s, DmsNotSpace) IN Tup([i \in 1..Len(w) |-> DmsChar(t, fold, w[i])])

\* First rule of rs that matches w at i (0: none).
DmsFind(rs, w, i) ==
  LET f[k \in Nat] == IF k > Len(rs) THEN 0 ELSE IF MatchAt(w, i, rs[k].p) THEN k ELSE f[k + 1] IN f[1]

\* A branch: its code, and the last replacement it applied (fresh: none yet).
DmsBranch0 == [code |-> <<>>, last |-> <<>>, fresh |-> TRUE]
DmsApply(b, r, force) ==
  [code |-> IF b.fresh \/ force \/ ~EndsWith(b.last, r) THEN Take(b.code \o r, DmsLength) ELSE b.code,
   last |-> r, fresh |-> FALSE]
SeqHas(q, x) == \E i \in 1..Len(q) : q[i] = x
\* All branches of bs with all replacements rs, without duplicates.
DmsExpand(bs, rs, force) ==
  Fold(LAMBDA acc, b : Fold(LAMBDA a, r : LET n == DmsApply(b, r, force) IN IF SeqHas(a, n) THEN a ELSE Append(a, n), acc, rs),
       <<>>, bs)

DmsStart(t, fold, s) ==
  [w |-> DmsSource(t, fold, s), i |-> 1, bs |-> <<DmsBranch0>>, prev |-> None, done |-> FALSE, tag |-> "start"]
DmsStep(t, all, st) ==
  IF st.i > Len(st.w)
  THEN [st EXCEPT !.bs = Tup([k \in 1..Len(st.bs) |-> [st.bs[k] EXCEPT !.code = PadTo(@, DmsLength, c0)]]),
                  !.done = TRUE, !.tag = "end"]
  ELSE LET c == st.w[st.i]
       IN  IF c \notin DOMAIN t.rules THEN [st EXCEPT !.i = @ + 1, !.tag = "no rules"]
           ELSE LET k == DmsFind(t.rules[c], st.w, st.i)
                IN  IF k = 0 THEN [st EXCEPT !.i = @ + 1, !.prev = c, !.tag = "no match"]
                    ELSE LET r == t.rules[c][k]
                             n == Len(r.p)
                             reps == IF st.prev = None THEN r.start
                                     ELSE IF At(st.w, st.i + n) \in DmsVowels THEN r.vowel ELSE r.other
                             force == (st.prev = 109 /\ c = 110) \/ (st.prev = 110 /\ c = 109)
                         IN  [st EXCEPT !.bs = DmsExpand(@, IF all THEN reps ELSE Take(reps, 1), force),
                                        !.i = @ + n, !.prev = c,
                                        !.tag = IF st.prev = None THEN "start" ELSE IF force THEN "force"
                                                ELSE IF At(st.w, st.i + n) \in DmsVowels THEN "vowel" ELSE "other"]
RECURSIVE DmsUntil(_, _, _)
DmsUntil(t, all, st) ==
  IF st.done THEN st ELSE DmsUntil(t, all, Fold(LAMBDA q, k : IF q.done THEN q ELSE DmsStep(t, all, q), st, Chunk))
DmsRun(t, all, start) == LET st == DmsUntil(t, all, start) IN Tup([k \in 1..Len(st.bs) |-> st.bs[k].code])

DmsCodes(t, fold, s) == DmsRun(t, TRUE, DmsStart(t, fold, s))
DmsFirst(t, fold, s) == DmsRun(t, FALSE, DmsStart(t, fold, s))[1]

DmsSoundex(t, fold, s) == Join(DmsCodes(t, fold, s), <<cPipe>>)
DmsEncode(t, fold, s) == DmsFirst(t, fold, s)
=============================================================================
