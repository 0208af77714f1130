------------------------------- MODULE Types -------------------------------
(* The values calls return. *)
EXTENDS Integers, Sequences, FiniteSets

IsScalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
IsText(t) == DOMAIN t = 1..Len(t) /\ \A i \in 1..Len(t) : IsScalar(t[i])
IsTexts(l) == \A i \in 1..Len(l) : IsText(l[i])
IsError(o) ==
  /\ o.k \in {"parse", "UnknownNameType", "UnknownRuleType", "ParseConfiguration", "WrongFilename",
              "WrongPhoneme", "BadContextRegex", "BadRule"}
  /\ IsText(o.content)
  /\ (o.k = "parse" => o.line >= 1)
  /\ o.codes = <<>>

OutcomeOk(op, o) ==
  CASE op = "enc" -> IsText(o)
    [] op = "bmx" -> IsText(o)
    [] op = "eq" -> o \in BOOLEAN
    [] op = "dmpeq" -> o \in BOOLEAN
    [] op = "dif" -> o \in Nat
    [] op = "dmpx" -> IsText(o.p) /\ IsText(o.a) /\ IsText(o.e) /\ IsText(o.ea) /\ IsText(o.d)
    [] op = "dmsx" -> Len(o.all) >= 1 /\ Len(o.first) = 1 /\ IsTexts(o.all) /\ IsTexts(o.first) /\ IsText(o.s) /\ IsText(o.e)
    [] op = "ctor" -> o.ok \in BOOLEAN /\ IsText(o.v)
    [] op = "dmsb" -> IF o.ok THEN \A i \in 1..Len(o.codes) : IsTexts(o.codes[i]) ELSE IsError(o)
    [] op = "bml" -> IF o.ok THEN IsTexts(o.codes) ELSE IsError(o)
    [] op = "chs" -> IsText(o.out) /\ o.len \in Nat
    [] op = "lset" -> o.empty \in BOOLEAN /\ o.single \in BOOLEAN /\ IsText(o.any)
=============================================================================
