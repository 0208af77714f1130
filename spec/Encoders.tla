------------------------------ MODULE Encoders ------------------------------
(***************************************************************************)
(* The public operations of the algorithms that need no rule files, as     *)
(* functions of an encoder configuration e (a record with e.alg) and texts.*)
(***************************************************************************)
EXTENDS Soundex, RefinedSoundex, Cologne, Caverphone, Phonex, Metaphone, Nysiis, MatchRating, DoubleMetaphone, CharSeq, Relations

SimpleAlgs == {"sdx", "rsx", "col", "cav1", "cav2", "met", "dmp", "nys", "phx", "mra"}

\* The configuration of an encoder made in one of the documented ways.
SdxCfgOf(e) ==
  CASE e.how = "default" -> SdxDefault
    [] e.how = "const" -> [map |-> SdxDefaultMap, hw |-> e.hw]
    [] e.how = "genealogy" -> SdxFromMap(SdxGenealogyMap)
    [] e.how = "new" -> [map |-> e.map, hw |-> e.hw]
    [] OTHER -> SdxFromMap(e.map)
RsxMapOf(e) == IF e.how = "default" THEN RsxDefaultMap ELSE e.map
MaxOf(e, default) == IF e.how = "default" THEN default ELSE e.max
StrictOf(e) == IF e.how = "default" THEN TRUE ELSE e.strict

SimpleEncode(e, s) ==
  CASE e.alg = "sdx" -> SdxEncode(SdxCfgOf(e), s)
    [] e.alg = "rsx" -> RsxEncode(RsxMapOf(e), s)
    [] e.alg = "col" -> ColEncode(s)
    [] e.alg = "cav1" -> CavEncode(1, s)
    [] e.alg = "cav2" -> CavEncode(2, s)
    [] e.alg = "met" -> MetEncode(MaxOf(e, MetDefault), s)
    [] e.alg = "dmp" -> DmpEncode(MaxOf(e, DmpDefault), s).p
    [] e.alg = "nys" -> NysEncode(StrictOf(e), s)
    [] e.alg = "phx" -> PhxEncode(MaxOf(e, PhxDefault), s)
    [] e.alg = "mra" -> MraEncode(s)

SimpleEquals(e, s, t) ==
  IF e.alg = "mra" THEN MraEquals(s, t) ELSE SimpleEncode(e, s) = SimpleEncode(e, t)
SimpleDifference(e, s, t) == CodeDifference(SimpleEncode(e, s), SimpleEncode(e, t))

\* An encoder from a mapping text: 26 characters, or the characters handed back.
MappingCtor(alg, m, s) ==
  IF Len(m) # 26 THEN [ok |-> FALSE, v |-> m]
  ELSE [ok |-> TRUE, v |-> IF alg = "sdx" THEN SdxEncode(SdxFromMap(m), s) ELSE RsxEncode(m, s)]

dmpPrimary == S("[primary=")   dmpAlternate == S(", alternate=")   dmpClose == S("]")
DmpAll(e, s) ==
  LET r == DmpEncode(MaxOf(e, DmpDefault), s)
  IN  [p |-> r.p, a |-> r.a, e |-> r.p, ea |-> r.a, d |-> dmpPrimary \o r.p \o dmpAlternate \o r.a \o dmpClose]
DmpEqual(e, s, t, alt) ==
  LET a == DmpEncode(MaxOf(e, DmpDefault), s)  b == DmpEncode(MaxOf(e, DmpDefault), t)
  IN  IF alt THEN a.a = b.a ELSE a.p = b.p
=============================================================================
