------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Name types, language sets and errors as texts.                          *)
(***************************************************************************)
EXTENDS Strs, LanguageSets

nAsh == S("ash")   nGen == S("gen")   nSep == S("sep")   nLangFile == S("_languages.txt")
NameTypeTexts == {nAsh, nGen, nSep}
\* The name type a text names (none: <<>>).
NameTypeOf(s) == IF s \in NameTypeTexts THEN s ELSE <<>>
\* The name type whose file of languages has this name.
NameTypeOfFile(s) ==
  IF \E t \in NameTypeTexts : s = t \o nLangFile THEN SubSeq(s, 1, 3) ELSE <<>>

nAny == S("ANY_LANGUAGE")   nNone == S("NO_LANGUAGES")
\* A language set in text: its languages in order, with commas.
NamLess(a, b) ==
  LET f[i \in Nat] == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE f[i + 1]
  IN  f[1]
RECURSIVE NamSorted(_)
NamSorted(set) ==
  IF set = {} THEN <<>>
  ELSE LET m == CHOOSE x \in set : \A y \in set : x = y \/ NamLess(x, y) IN <<m>> \o NamSorted(set \ {m})
LanguageSetText(l) ==
  IF l.k = "any" THEN nAny ELSE IF l.k = "none" THEN nNone ELSE Join(NamSorted(l.s), <<44>>)

\* A parsing error in text: file (if known), line, a description and the content of the line.
nUnknown == S("Unknown")   nError == S("Error parsing rule file ")   nColon == S(" : ")
Digits(n) ==
  LET f[k \in Nat] == IF k < 10 THEN <<48 + k>> ELSE Append(f[k \div 10], 48 + (k % 10)) IN f[n]
ErrorHead(file, line) == nError \o (IF file = <<>> THEN nUnknown ELSE file) \o <<58>> \o Digits(line) \o <<32>>
ErrorTail(content) == nColon \o content
IsErrorText(m, file, line, content) ==
  LET h == ErrorHead(file, line)  t == ErrorTail(content)
  IN  /\ Len(m) > Len(h) + Len(t)
      /\ SubSeq(m, 1, Len(h)) = h
      /\ SubSeq(m, Len(m) - Len(t) + 1, Len(m)) = t
=============================================================================
