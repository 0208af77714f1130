----------------------------- MODULE MC_Encode -----------------------------
(***************************************************************************)
(* The machines of the algorithms without rule files, one step at a time,  *)
(* on every text made of a few given pieces.  The invariants say what must *)
(* be true of an algorithm whatever its rules are; where there is another  *)
(* definition of the code, the machine must agree with it at its end.      *)
(* Every behaviour is written out, to be replayed on the code.             *)
(***************************************************************************)
EXTENDS Encoders, MCIn
CONSTANT Show
VARIABLES encCfg, encText, encSt
encVars == <<encCfg, encText, encSt>>

EncPieces == SetOfSeq(MCFrags)
EncTexts == {Flat(q) : q \in UNION {[1..n -> EncPieces] : n \in 0..MCInput.max}}

Start(e, s) ==
  CASE e.alg = "sdx" -> SdxStart(SdxCfgOf(e), s)
    [] e.alg = "rsx" -> RsxStart(RsxMapOf(e), s)
    [] e.alg = "col" -> ColStart(s)
    [] e.alg = "cav1" -> CavStart(1, s)
    [] e.alg = "cav2" -> CavStart(2, s)
    [] e.alg = "met" -> MetStart(MaxOf(e, MetDefault), s)
    [] e.alg = "dmp" -> DmpStart(MaxOf(e, DmpDefault), s)
    [] e.alg = "nys" -> NysStart(StrictOf(e), s)
    [] e.alg = "phx" -> PhxStart(MaxOf(e, PhxDefault), s)
    [] e.alg = "mra" -> MraStart(s)
Step(e, st) ==
  CASE e.alg = "sdx" -> SdxStep(SdxCfgOf(e), st)
    [] e.alg = "rsx" -> RsxStep(RsxMapOf(e), st)
    [] e.alg = "col" -> ColStep(st)
    [] e.alg = "cav1" -> CavStep(1, st)
    [] e.alg = "cav2" -> CavStep(2, st)
    [] e.alg = "met" -> MetStep(MaxOf(e, MetDefault), st)
    [] e.alg = "dmp" -> DmpStep(MaxOf(e, DmpDefault), st)
    [] e.alg = "nys" -> NysStep(StrictOf(e), st)
    [] e.alg = "phx" -> PhxStep(MaxOf(e, PhxDefault), st)
    [] e.alg = "mra" -> MraStep(st)
\* What has been written so far.
Written(e, st) ==
  CASE e.alg = "nys" -> st.key
    [] e.alg = "phx" -> st.out
    [] e.alg = "dmp" -> st.p
    [] e.alg = "mra" -> st.w
    [] OTHER -> st.code

EncInit == encCfg \in SetOfSeq(MCInput.encs) /\ encText \in EncTexts /\ encSt = Start(encCfg, encText)
EncNext == ~encSt.done /\ encSt' = Step(encCfg, encSt) /\ UNCHANGED <<encCfg, encText>>
EncSpec == EncInit /\ [][EncNext]_encVars /\ WF_encVars(EncNext)

---------------------------------------------------------------------------
(* Every machine stops. *)
Terminates == <>(encSt.done)
\* Every step gets nearer to the end.
Nearer == encSt'.done \/ (IF encCfg.alg = "mra" THEN encSt'.pc # encSt.pc ELSE encSt'.i > encSt.i)
Progress == [][Nearer]_encVars
\* What has been written stays (until the last step, for the algorithms that
\* take away something at the end).
Stays == IsPrefixOf(Written(encCfg, encSt), Written(encCfg, encSt'))
         \/ encCfg.alg = "mra" \/ (encCfg.alg \in {"nys", "phx"} /\ encSt'.done)
Grows == [][Stays]_encVars

---------------------------------------------------------------------------
(* At the end. *)
Code == Written(encCfg, encSt)
Alpha(str) == Chars(str)
IsUnicodeLetterUp(c) == IsAlpha(c) \/ c > 127
\* c may stand at position k of a code.
CharOk(e, c, k) ==
  CASE e.alg \in {"sdx", "rsx"} -> IF k = 1 THEN IsUnicodeLetterUp(c) ELSE \E i \in 1..26 : c = (IF e.alg = "sdx" THEN SdxCfgOf(e).map ELSE RsxMapOf(e))[i] \/ c = c0
    [] e.alg = "col" -> c \in 48..56 /\ (c = c0 => k = 1)
    [] e.alg = "cav1" -> c \in Alpha("1AKSTPFMNWRLY")
    [] e.alg = "cav2" -> c \in Alpha("1AKSTPFMNWRLY")
    [] e.alg = "met" -> c \in Alpha("0BFHJKLMNPRSTWXY") \/ (k = 1 /\ (c \in MetVowels \/ Len(Code) = 1))
    [] e.alg = "dmp" -> c \in Alpha("0FHJKLMNPRSTX") \/ c = cSpace \/ (c = cA)
    [] e.alg = "nys" -> IsUnicodeLetterUp(c)
    [] e.alg = "phx" -> IF k = 1 THEN IsUnicodeLetterUp(c) \/ c = c0 ELSE c \in 48..54
    [] e.alg = "mra" -> c \notin MraPunct /\ ~IsSpace(c) /\ ~IsAsciiLower(c) /\ (k > 1 => c \notin MraVowels)
Lengths(e, n) ==
  CASE e.alg = "sdx" -> n \in {0, 4}
    [] e.alg = "cav1" -> n = 6
    [] e.alg = "cav2" -> n = 10
    [] e.alg = "phx" -> n = MaxOf(e, PhxDefault)
    [] e.alg = "mra" -> n <= 6
    [] e.alg = "nys" -> (StrictOf(e) => n <= 6)
    [] e.alg = "met" -> MaxOf(e, MetDefault) = NoLimit \/ n <= MaxOf(e, MetDefault) \/ n = 1
    [] e.alg = "dmp" -> MaxOf(e, DmpDefault) = DmpNoLimit \/ (n <= MaxOf(e, DmpDefault) /\ Len(encSt.a) <= MaxOf(e, DmpDefault))
    [] OTHER -> TRUE
\* Another definition of the same code.
Defined(e, s) ==
  CASE e.alg = "sdx" -> SdxDeclarative(SdxCfgOf(e), s)
    [] e.alg = "rsx" -> RsxDeclarative(RsxMapOf(e), s)
    [] OTHER -> SimpleEncode(e, s)
\* With a maximum, the code is the start of the code without one (C08).
Unlimited(e) ==
  CASE e.alg \in {"met", "dmp"} -> [alg |-> e.alg, how |-> "new", max |-> NoLimit]
    [] e.alg = "nys" -> [alg |-> "nys", how |-> "new", strict |-> FALSE]
    [] e.alg = "phx" -> [alg |-> "phx", how |-> "new", max |-> 30]
LimitOf(e) ==
  CASE e.alg = "met" -> MaxOf(e, MetDefault) [] e.alg = "dmp" -> MaxOf(e, DmpDefault)
    [] e.alg = "nys" -> IF StrictOf(e) THEN 6 ELSE NoLimit [] e.alg = "phx" -> MaxOf(e, PhxDefault)
OnlyCuts ==
  encCfg.alg \in {"met", "dmp", "nys", "phx"} =>
    LET full == SimpleEncode(Unlimited(encCfg), encText)
        n == LimitOf(encCfg)
    IN  (encCfg.alg = "met" /\ Len(encText) <= 1) \/ Code = (IF n = NoLimit THEN full ELSE Take(full, n))
\* The case of ASCII letters does not matter (C23).
AsciiUp(s) == Tup([i \in 1..Len(s) |-> IF IsAsciiLower(s[i]) THEN s[i] - 32 ELSE s[i]])
AsciiLow(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]])
NoCase == Code = SimpleEncode(encCfg, AsciiUp(encText)) /\ Code = SimpleEncode(encCfg, AsciiLow(encText))
AtEnd ==
  encSt.done =>
    /\ \A k \in 1..Len(Code) : CharOk(encCfg, Code[k], k)
    /\ Lengths(encCfg, Len(Code))
    /\ Code = Defined(encCfg, encText)
    /\ OnlyCuts
    /\ NoCase
\* Runs of the same code do not occur where the algorithm merges them.
Merged ==
  encSt.done /\ encCfg.alg = "rsx" => \A k \in 2..Len(Code) - 1 : Code[k] # Code[k + 1]

CaseOf(e, s, code) ==
  IF e.alg = "dmp" THEN [op |-> "dmpx", enc |-> e, in |-> s, expect |-> DmpAll(e, s)]
  ELSE [op |-> "enc", enc |-> e, in |-> s, expect |-> code]
Emit == Show /\ encSt.done => PrintT(<<"CASE", ToJson(CaseOf(encCfg, encText, Code))>>)
=============================================================================
