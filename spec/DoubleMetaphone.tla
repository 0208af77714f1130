-------------------------- MODULE DoubleMetaphone --------------------------
(***************************************************************************)
(* Double Metaphone.  The machine reads the trimmed, upper-case text and   *)
(* writes a primary and an alternate code of at most `max` characters      *)
(* each.  The rules look at positions counted in UTF-8 bytes, so the text  *)
(* is a row of cells: a character followed by one empty cell for each of   *)
(* its further bytes.  `i` is the 0-based cell index, as in the rules.     *)
(***************************************************************************)
EXTENDS Uni

DmpNoLimit == -1
DmpDefault == 4

Cells(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s
            ELSE Flat([i \in 1..Len(s) |-> <<s[i]>> \o Replicate(Utf8Len(s[i]) - 1, None)])

\* Character at cell i (0-based); None out of the text or inside a character.
Ch(v, i) == At(v, i + 1)
\* One of the literals of set occurs at cell i, within n cells.
Has(v, i, n, set) == OneOfAt(v, i + 1, n, set)

DmpVowels == Chars("AEIOUY")
VowelAt(v, i) == Ch(v, i) \in DmpVowels

xSilent == Lits({"GN", "KN", "PN", "WR", "PS"})
xCZ == S("CZ")  xWITZ == S("WITZ")
xCHIA == Lits({"CHIA"})  xACH == Lits({"ACH"})  xMACHER == Lits({"BACHER", "MACHER"})
xCAESAR == Lits({"CAESAR"})  xCH == Lits({"CH"})  xCZs == Lits({"CZ"})  xWICZ == Lits({"WICZ"})
xCIA == Lits({"CIA"})  xCC == Lits({"CC"})  xCKGQ == Lits({"CK", "CG", "CQ"})
xCIEY == Lits({"CI", "CE", "CY"})  xCIOEA == Lits({"CIO", "CIE", "CIA"})
xspCQG == Lits({" C", " Q", " G"})  xCEI == Lits({"CE", "CI"})
xCHAE == Lits({"CHAE"})  xMC == Lits({"MC"})
xHARAC == Lits({"HARAC", "HARIS"})  xHOR == Lits({"HOR", "HYM", "HIA", "HEM"})  xCHORE == Lits({"CHORE"})
xSCH == Lits({"SCH"})  xORCHES == Lits({"ORCHES", "ARCHIT", "ORCHID"})
xLRNM == Chars("LRNMBHFVW ")
xHU == Lits({"HU"})  xUCCE == Lits({"UCCEE", "UCCES"})
xDG == Lits({"DG"})  xDTD == Lits({"DT", "DD"})
xEY == Lits({"EY"})  xLI == Lits({"LI"})  xER == Lits({"ER"})  xET == Lits({"ET"})  xIER == Lits({"IER"})
xES == Lits({"ES", "EP", "EB", "EL", "EY", "IB", "IL", "IN", "IE", "EI", "ER"})
xDANGER == Lits({"DANGER", "RANGER", "MANGER"})  xRGY == Lits({"RGY", "OGY"})
xAGGI == Lits({"AGGI", "OGGI"})  xVAN_ == Lits({"VAN ", "VON "})
xJOSE == Lits({"JOSE"})  xSAN_ == Lits({"SAN "})
xILLO == Lits({"ILLO", "ILLA", "ALLE"})  xASOS == Lits({"AS", "OS"})  xALLE == Lits({"ALLE"})
xUMB == Lits({"UMB"})  xIE == Lits({"IE"})  xMEMA == Lits({"ME", "MA"})
xISL == Lits({"ISL", "YSL"})  xSUGAR == Lits({"SUGAR"})  xSH == Lits({"SH"})
xHEIM == Lits({"HEIM", "HOEK", "HOLM", "HOLZ"})  xSIOA == Lits({"SIO", "SIA"})
xSC == Lits({"SC"})  xAIOI == Lits({"AI", "OI"})
xOO == Lits({"OO", "ER", "EN", "UY", "ED", "EM"})  xEREN == Lits({"ER", "EN"})
xTION == Lits({"TION"})  xTIA == Lits({"TIA", "TCH"})  xTH == Lits({"TH"})  xTTH == Lits({"TTH"})
xOMAM == Lits({"OM", "AM"})  xWR == Lits({"WR"})  xWH == Lits({"WH"})
xEWSKI == Lits({"EWSKI", "EWSKY", "OWSKI", "OWSKY"})  xWICZWITZ == Lits({"WICZ", "WITZ"})
xIAU == Lits({"IAU", "EAU"})  xAUOU == Lits({"AU", "OU"})  xZO == Lits({"ZO", "ZI", "ZA"})
tSK == S("SK")  tKS == S("KS")  tTK == S("TK")  tKN == S("KN")  tKL == S("KL")
tTS == S("TS")  tFX == S("FX")

SlavoGermanic(v) == (\E i \in 1..Len(v) : v[i] \in {cW, cK}) \/ Contains(v, xCZ) \/ Contains(v, xWITZ)

\* A rule writes p to the primary and a to the alternate code and consumes
\* `skip` further characters.
W2(p, a, n, tag) == [p |-> p, a |-> a, skip |-> n, tag |-> tag]
W1(p, n, tag) == [p |-> p, a |-> p, skip |-> n, tag |-> tag]
Doubled(v, i, c) == IF Ch(v, i + 1) = c THEN 1 ELSE 0

---------------------------------------------------------------------------
CondC0(v, i) ==
  IF Has(v, i, 4, xCHIA) THEN TRUE
  ELSE IF i < 2 THEN FALSE
  ELSE IF VowelAt(v, i - 2) THEN FALSE
  ELSE IF ~Has(v, i - 1, 3, xACH) THEN FALSE
  ELSE Ch(v, i + 2) \notin {cI, cE} \/ Has(v, i - 2, 6, xMACHER)

CondCh0(v, i) ==
  /\ i = 0
  /\ Has(v, i + 1, 5, xHARAC) \/ Has(v, i + 1, 3, xHOR)
  /\ ~Has(v, 0, 5, xCHORE)
\* (The rule also looks for "VAN"/"VON" in a four-letter window: never.)
CondCh1(v, i) ==
  \/ Has(v, 0, 3, xSCH)
  \/ i > 1 /\ Has(v, i - 2, 6, xORCHES)
  \/ i > 1 /\ Ch(v, i + 2) \in {cT, cS}
  \/ /\ i = 0 \/ Ch(v, i - 1) \in {cA, cO, cU, cE}
     /\ Ch(v, i + 2) \in xLRNM \/ i + 1 = Len(v) - 1

RuleCH(v, i) ==
  IF i > 0 /\ Has(v, i, 4, xCHAE) THEN W2(<<cK>>, <<cX>>, 1, "chae")
  ELSE IF CondCh0(v, i) \/ CondCh1(v, i) THEN W1(<<cK>>, 1, "ch-greek")
  ELSE IF i > 0 THEN (IF Has(v, 0, 2, xMC) THEN W1(<<cK>>, 1, "mch") ELSE W2(<<cX>>, <<cK>>, 1, "ch"))
  ELSE W1(<<cX>>, 1, "ch-first")

RuleCC(v, i) ==
  IF Ch(v, i + 2) \in {cI, cE, cH} /\ ~Has(v, i + 2, 2, xHU)
  THEN IF (i = 1 /\ Ch(v, 0) = cA) \/ Has(v, i - 1, 5, xUCCE)
       THEN W1(tKS, 2, "accident") ELSE W1(<<cX>>, 2, "bacci")
  ELSE W1(<<cK>>, 1, "pierce")

RuleC(v, i) ==
  IF CondC0(v, i) THEN W1(<<cK>>, 1, "c0")
  ELSE IF i = 0 /\ Has(v, i, 6, xCAESAR) THEN W1(<<cS>>, 1, "caesar")
  ELSE IF Has(v, i, 2, xCH) THEN RuleCH(v, i)
  ELSE IF Has(v, i, 2, xCZs) /\ (i < 2 \/ ~Has(v, i - 2, 4, xWICZ)) THEN W2(<<cS>>, <<cX>>, 1, "cz")
  ELSE IF Has(v, i + 1, 3, xCIA) THEN W1(<<cX>>, 2, "focaccia")
  ELSE IF Has(v, i, 2, xCC) /\ ~(i = 1 /\ Ch(v, 0) = cM) THEN RuleCC(v, i)
  ELSE IF Has(v, i, 2, xCKGQ) THEN W1(<<cK>>, 1, "ck")
  ELSE IF Has(v, i, 2, xCIEY)
       THEN (IF Has(v, i, 3, xCIOEA) THEN W2(<<cS>>, <<cX>>, 1, "cio") ELSE W1(<<cS>>, 1, "ci"))
  ELSE IF Has(v, i + 1, 2, xspCQG) THEN W1(<<cK>>, 2, "mac c")
  ELSE IF Ch(v, i + 1) \in {cC, cK, cQ} /\ ~Has(v, i + 1, 2, xCEI) THEN W1(<<cK>>, 1, "c-k")
  ELSE W1(<<cK>>, 0, "c")

RuleD(v, i) ==
  IF Has(v, i, 2, xDG)
  THEN IF Ch(v, i + 2) \in {cI, cE, cY} THEN W1(<<cJ>>, 2, "edge") ELSE W1(tTK, 1, "edgar")
  ELSE IF Has(v, i, 2, xDTD) THEN W1(<<cT>>, 1, "dt") ELSE W1(<<cT>>, 0, "d")

RuleGH(v, i) ==
  IF i > 0 /\ ~VowelAt(v, i - 1) THEN W1(<<cK>>, 1, "gh-cons")
  ELSE IF i = 0 THEN W1(IF Ch(v, i + 2) = cI THEN <<cJ>> ELSE <<cK>>, 1, "gh-first")
  ELSE IF \/ i > 1 /\ Ch(v, i - 2) \in {cB, cH, cD}
          \/ i > 2 /\ Ch(v, i - 3) \in {cB, cH, cD}
          \/ i > 3 /\ Ch(v, i - 4) \in {cB, cH}
       THEN W1(<<>>, 1, "parker")
  ELSE IF i > 2 /\ Ch(v, i - 1) = cU /\ Ch(v, i - 3) \in {cC, cG, cL, cR, cT} THEN W1(<<cF>>, 1, "laugh")
  ELSE IF Ch(v, i - 1) # cI THEN W1(<<cK>>, 1, "gh")
  ELSE W1(<<>>, 1, "igh")

RuleG(v, i, sg) ==
  IF Ch(v, i + 1) = cH THEN RuleGH(v, i)
  ELSE IF Ch(v, i + 1) = cN THEN
     IF i = 1 /\ VowelAt(v, 0) /\ ~sg THEN W2(tKN, <<cN>>, 1, "agn")
     ELSE IF ~Has(v, i + 2, 2, xEY) /\ ~sg THEN W2(<<cN>>, tKN, 1, "gn")
     ELSE W1(tKN, 1, "gney")
  ELSE IF Has(v, i + 1, 2, xLI) /\ ~sg THEN W2(tKL, <<cL>>, 1, "gli")
  ELSE IF \/ i = 0 /\ (Ch(v, i + 1) = cY \/ Has(v, i + 1, 2, xES))
          \/ /\ Has(v, i + 1, 2, xER) \/ Ch(v, i + 1) = cY
             /\ ~Has(v, 0, 6, xDANGER)
             /\ i = 0 \/ Ch(v, i - 1) \notin {cE, cI}
             /\ i = 0 \/ ~Has(v, i - 1, 3, xRGY)
       THEN W2(<<cK>>, <<cJ>>, 1, "ger")
  ELSE IF Ch(v, i + 1) \in {cE, cI, cY} \/ (i > 0 /\ Has(v, i - 1, 4, xAGGI)) THEN
     IF Has(v, 0, 4, xVAN_) \/ Has(v, 0, 3, xSCH) \/ Has(v, i + 1, 2, xET) THEN W1(<<cK>>, 1, "get")
     ELSE IF Has(v, i + 1, 3, xIER) THEN W1(<<cJ>>, 1, "gier")
     ELSE W2(<<cJ>>, <<cK>>, 1, "biaggi")
  ELSE IF Ch(v, i + 1) = cG THEN W1(<<cK>>, 1, "gg")
  ELSE W1(<<cK>>, 0, "g")

RuleH(v, i) ==
  IF (i = 0 \/ VowelAt(v, i - 1)) /\ VowelAt(v, i + 1) THEN W1(<<cH>>, 1, "h") ELSE W1(<<>>, 0, "h-silent")

RuleJ(v, i, sg) ==
  IF Has(v, i, 4, xJOSE) \/ Has(v, 0, 4, xSAN_)
  THEN IF (i = 0 /\ Ch(v, i + 4) = cSpace) \/ Len(v) = 4 \/ Has(v, 0, 4, xSAN_)
       THEN W1(<<cH>>, 0, "jose") ELSE W2(<<cJ>>, <<cH>>, 0, "jose-")
  ELSE LET n == Doubled(v, i, cJ)
       IN  IF i = 0 THEN W2(<<cJ>>, <<cA>>, n, "j-first")
           ELSE IF VowelAt(v, i - 1) /\ ~sg /\ Ch(v, i + 1) \in {cA, cO} THEN W2(<<cJ>>, <<cH>>, n, "bajador")
           ELSE IF i = Len(v) - 1 THEN W2(<<cJ>>, <<cSpace>>, n, "j-last")
           ELSE IF Ch(v, i + 1) \notin Chars("LTKSNMBZ") /\ Ch(v, i - 1) \notin {cS, cK, cL}
                THEN W1(<<cJ>>, n, "j")
           ELSE W1(<<>>, n, "j-none")

CondL0(v, i) ==
  \/ Len(v) >= 3 /\ i = Len(v) - 3 /\ i > 0 /\ Has(v, i - 1, 4, xILLO)
  \/ /\ Has(v, Len(v) - 2, 2, xASOS) \/ Ch(v, Len(v) - 1) \in {cA, cO}
     /\ Has(v, i - 1, 4, xALLE)
RuleL(v, i) ==
  IF Ch(v, i + 1) = cL
  THEN IF CondL0(v, i) THEN W2(<<cL>>, <<>>, 1, "cabrillo") ELSE W1(<<cL>>, 1, "ll")
  ELSE W1(<<cL>>, 0, "l")

RuleM(v, i) ==
  W1(<<cM>>,
     IF Ch(v, i + 1) = cM \/ (i > 0 /\ Has(v, i - 1, 3, xUMB) /\ (i + 1 = Len(v) - 1 \/ Has(v, i + 2, 2, xER)))
     THEN 1 ELSE 0, "m")

RuleP(v, i) ==
  IF Ch(v, i + 1) = cH THEN W1(<<cF>>, 1, "ph")
  ELSE W1(<<cP>>, IF Ch(v, i + 1) \in {cP, cB} THEN 1 ELSE 0, "p")

RuleR(v, i, sg) ==
  LET n == Doubled(v, i, cR)
  IN  IF i > 3 /\ i = Len(v) - 1 /\ ~sg /\ Has(v, i - 2, 2, xIE) /\ ~Has(v, i - 4, 2, xMEMA)
      THEN W2(<<>>, <<cR>>, n, "rogier") ELSE W1(<<cR>>, n, "r")

RuleSC(v, i) ==
  IF Ch(v, i + 2) = cH THEN
     IF Has(v, i + 3, 2, xOO)
     THEN IF Has(v, i + 3, 2, xEREN) THEN W2(<<cX>>, tSK, 2, "schenker") ELSE W1(tSK, 2, "school")
     ELSE IF i = 0 /\ ~VowelAt(v, 3) /\ Ch(v, 3) # cW THEN W2(<<cX>>, <<cS>>, 2, "schl")
     ELSE W1(<<cX>>, 2, "sch")
  ELSE IF Ch(v, i + 2) \in {cI, cE, cY} THEN W1(<<cS>>, 2, "sci")
  ELSE W1(tSK, 2, "sc")

RuleS(v, i, sg) ==
  IF i > 0 /\ Has(v, i - 1, 3, xISL) THEN W1(<<>>, 0, "isle")
  ELSE IF i = 0 /\ Has(v, i, 5, xSUGAR) THEN W2(<<cX>>, <<cS>>, 0, "sugar")
  ELSE IF Has(v, i, 2, xSH)
       THEN (IF Has(v, i + 1, 4, xHEIM) THEN W1(<<cS>>, 1, "sheim") ELSE W1(<<cX>>, 1, "sh"))
  ELSE IF Has(v, i, 3, xSIOA)
       THEN (IF sg THEN W1(<<cS>>, 2, "sio-sg") ELSE W2(<<cS>>, <<cX>>, 2, "sio"))
  ELSE IF (i = 0 /\ Ch(v, i + 1) \in {cM, cN, cL, cW}) \/ Ch(v, i + 1) = cZ
       THEN W2(<<cS>>, <<cX>>, Doubled(v, i, cZ), "smith")
  ELSE IF Has(v, i, 2, xSC) THEN RuleSC(v, i)
  ELSE LET n == IF Ch(v, i + 1) \in {cS, cZ} THEN 1 ELSE 0
       IN  IF i > 1 /\ i = Len(v) - 1 /\ Has(v, i - 2, 2, xAIOI)
           THEN W2(<<>>, <<cS>>, n, "artois") ELSE W1(<<cS>>, n, "s")

RuleT(v, i) ==
  IF Has(v, i, 4, xTION) \/ Has(v, i, 3, xTIA) THEN W1(<<cX>>, 2, "tion")
  ELSE IF Has(v, i, 2, xTH) \/ Has(v, i, 3, xTTH)
  THEN IF Has(v, i + 2, 2, xOMAM) \/ Has(v, 0, 4, xVAN_) \/ Has(v, 0, 3, xSCH)
       THEN W1(<<cT>>, 1, "thomas") ELSE W2(<<c0>>, <<cT>>, 1, "th")
  ELSE W1(<<cT>>, IF Ch(v, i + 1) \in {cT, cD} THEN 1 ELSE 0, "t")

RuleW(v, i) ==
  IF Has(v, i, 2, xWR) THEN W1(<<cR>>, 1, "wr")
  ELSE IF i = 0 /\ VowelAt(v, i + 1) THEN W2(<<cA>>, <<cF>>, 0, "wasserman")
  ELSE IF i = 0 /\ Has(v, i, 2, xWH) THEN W1(<<cA>>, 0, "wh")
  ELSE IF \/ i > 0 /\ i = Len(v) - 1 /\ VowelAt(v, i - 1)
          \/ i > 0 /\ Has(v, i - 1, 5, xEWSKI)
          \/ Has(v, 0, 3, xSCH)
       THEN W2(<<>>, <<cF>>, 0, "arnow")
  ELSE IF Has(v, i, 4, xWICZWITZ) THEN W2(tTS, tFX, 3, "filipowicz")
  ELSE W1(<<>>, 0, "w-silent")

RuleX(v, i) ==
  IF i = 0 THEN W1(<<cS>>, 0, "x-first")
  ELSE LET n == IF Ch(v, i + 1) \in {cC, cX} THEN 1 ELSE 0
       IN  IF /\ i = Len(v) - 1
              /\ (i > 2 /\ Has(v, i - 3, 3, xIAU)) \/ (i > 1 /\ Has(v, i - 2, 2, xAUOU))
           THEN W1(<<>>, n, "breaux") ELSE W1(tKS, n, "x")

RuleZ(v, i, sg) ==
  IF Ch(v, i + 1) = cH THEN W1(<<cJ>>, 1, "zhao")
  ELSE LET n == Doubled(v, i, cZ)
       IN  IF Has(v, i + 1, 2, xZO) \/ (sg /\ i > 0 /\ Ch(v, i - 1) # cT)
           THEN W2(<<cS>>, tTS, n, "zz") ELSE W1(<<cS>>, n, "z")

Rule(v, i, sg) ==
  LET c == Ch(v, i)
  IN  IF c \in DmpVowels THEN W1(IF i = 0 THEN <<cA>> ELSE <<>>, 0, IF i = 0 THEN "vowel-first" ELSE "vowel")
      ELSE IF c = cB THEN W1(<<cP>>, Doubled(v, i, c), "b")
      ELSE IF c = 199 THEN W1(<<cS>>, 0, "cedilla")
      ELSE IF c = cC THEN RuleC(v, i)
      ELSE IF c = cD THEN RuleD(v, i)
      ELSE IF c = cF THEN W1(<<cF>>, Doubled(v, i, c), "f")
      ELSE IF c = cG THEN RuleG(v, i, sg)
      ELSE IF c = cH THEN RuleH(v, i)
      ELSE IF c = cJ THEN RuleJ(v, i, sg)
      ELSE IF c = cK THEN W1(<<cK>>, Doubled(v, i, c), "k")
      ELSE IF c = cL THEN RuleL(v, i)
      ELSE IF c = cM THEN RuleM(v, i)
      ELSE IF c = cN THEN W1(<<cN>>, Doubled(v, i, c), "n")
      ELSE IF c = 209 THEN W1(<<cN>>, 0, "enye")
      ELSE IF c = cP THEN RuleP(v, i)
      ELSE IF c = cQ THEN W1(<<cK>>, Doubled(v, i, c), "q")
      ELSE IF c = cR THEN RuleR(v, i, sg)
      ELSE IF c = cS THEN RuleS(v, i, sg)
      ELSE IF c = cT THEN RuleT(v, i)
      ELSE IF c = cV THEN W1(<<cF>>, Doubled(v, i, c), "v")
      ELSE IF c = cW THEN RuleW(v, i)
      ELSE IF c = cX THEN RuleX(v, i)
      ELSE IF c = cZ THEN RuleZ(v, i, sg)
      ELSE W1(<<>>, 0, "other")

\* The cell of the next character, n characters further (past the end: the length).
RECURSIVE NextCell(_, _, _)
NextCell(v, i, n) ==
  IF i >= Len(v) THEN Len(v)
  ELSE IF v[i + 1] = None THEN NextCell(v, i + 1, n)
  ELSE IF n = 0 THEN i
  ELSE NextCell(v, i + 1, n - 1)

DmpLimit(max, t) == IF max = DmpNoLimit THEN t ELSE Take(t, max)

DmpStart(max, s) ==
  LET v == Cells(Upper(Trim(s)))
  IN  [v |-> v, i |-> IF Len(v) >= 2 /\ SubSeq(v, 1, 2) \in xSilent THEN 1 ELSE 0,
       sg |-> SlavoGermanic(v), p |-> <<>>, a |-> <<>>, done |-> FALSE, tag |-> "start"]

DmpStep(max, st) ==
  IF st.i >= Len(st.v) THEN [st EXCEPT !.done = TRUE, !.tag = "end"]
  ELSE IF max # DmpNoLimit /\ Len(st.p) >= max /\ Len(st.a) >= max
  THEN [st EXCEPT !.done = TRUE, !.tag = "full"]
  ELSE LET r == Rule(st.v, st.i, st.sg)
       IN  [st EXCEPT !.p = DmpLimit(max, @ \o r.p), !.a = DmpLimit(max, @ \o r.a),
                      !.i = NextCell(st.v, @ + 1, r.skip), !.tag = r.tag]

RECURSIVE DmpUntil(_, _)
DmpUntil(max, st) ==
  IF st.done THEN st ELSE DmpUntil(max, Fold(LAMBDA q, k : IF q.done THEN q ELSE DmpStep(max, q), st, Chunk))
DmpRun(max, start) == LET st == DmpUntil(max, start) IN [p |-> st.p, a |-> st.a]
DmpEncode(max, s) == DmpRun(max, DmpStart(max, s))
=============================================================================
