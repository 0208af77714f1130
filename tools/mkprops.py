#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Encoders are total",
 "Every public encoder, built with any configuration its constructors accept, returns a result for every Unicode text "
 "(empty, one character, blank, non-ASCII, multi-byte or expanding case mapping, very long) and never panics. "
 "The same holds for every comparison (equality of codes, difference) and for every builder or parser, which answers a malformed rule text "
 "or configuration folder with an error value instead of a panic.",
 ["inputs", "configurations"], "all texts, all accepted configurations, all rule texts and configuration folders",
 "The tests use a few hundred names, nearly all ASCII; slicing by bytes, indexing and unwrap only fail on inputs nobody wrote down (16 such panics were found and fixed here).",
 ["src/*.rs", "src/beider_morse/*.rs"],
 [("char-based iteration instead of byte slicing", "src/metaphone.rs, src/double_metaphone.rs, src/match_rating_approach.rs"),
  ("Result-returning parsers", "src/rules_parser.rs, src/daitch_mokotoff.rs, src/beider_morse/*.rs")],
 ["return or unwinding of every public call"])

prop("C02", "Soundex codes are the Soundex definition",
 "The Soundex code of a text is computed on its alphabetic characters in upper case: empty if there are none, otherwise exactly four characters, the first letter followed by the "
 "codes of the following letters in order, where a letter with code '0' (or one skipped) writes nothing, equal adjacent codes are written once with a '0' letter in between breaking the run, and the rest is padded with '0'. "
 "Letters whose code is '-' or that are outside A-Z are skipped without breaking a run, and so are H and W when their special treatment is on; the default mapping is 01230120022455012623010202 with that treatment on. "
 "A mapping given as text must have exactly 26 characters (otherwise it is refused, handing back its characters), and a mapping given without the H/W flag enables the special treatment unless it contains '-'.",
 ["inputs", "configurations"], "all texts, all 26-character mappings, both H/W settings",
 "Tests fix about a hundred names with three mappings; interactions of silent letters, H/W, vowels and custom mappings occur for arbitrary letter sequences.",
 ["src/soundex.rs", "src/lib.rs"],
 [("get_mapping_code / encode", "src/soundex.rs"), ("soundex_clean", "src/lib.rs")], ["Soundex::encode", "Soundex constructors"])

prop("C03", "Refined Soundex codes are the Refined Soundex definition",
 "The Refined Soundex code of a text is computed on its alphabetic characters in upper case: empty if there are none, otherwise the first of these letters followed by the mapped code of every letter A-Z "
 "(the first letter included), in order, where a code equal to the previous written one is left out and letters outside A-Z are skipped. "
 "The default mapping is 01360240043788015936020505, and a mapping given as text must have exactly 26 characters, otherwise it is refused with its characters.",
 ["inputs", "configurations"], "all texts, all 26-character mappings",
 "Tests cover a dozen names; the property is about every letter sequence and mapping.",
 ["src/refined_soundex.rs", "src/lib.rs"], [("encode", "src/refined_soundex.rs")], ["RefinedSoundex::encode", "constructors"])

prop("C04", "Cologne codes follow the Koelner Phonetik rules",
 "The Cologne code of a text follows the Koelner Phonetik table letter by letter (vowels and Y and J 0; B and P not before H 1; D and T 2 unless before C, S, Z, then 8; F, V, W and PH 3; G, K, Q 4; X 48 or 8 after C, K, Q; L 5; M and N 6; R 7; S and Z 8; "
 "C 4 initially before A H K L O Q R U X, elsewhere before A H K O Q U X unless after S or Z, otherwise 8; H nothing), with umlauts read as their base vowels and other characters skipped. "
 "A code equal to the code just produced is not written again and 0 is written only at the very beginning.",
 ["inputs"], "all texts",
 "Context rules depend on the neighbours of each letter and on what was produced before; tests cover around 150 words.",
 ["src/cologne.rs"], [("encode / CologneOutput", "src/cologne.rs")], ["Cologne::encode"])

prop("C05", "Caverphone 1 and 2 apply the published rule list",
 "The Caverphone 1 (2) code of a text is what the published ordered list of Caverphone 1.0 (2.0) replacements produces from its letters a-z in lower case, padded with 1 and cut to exactly 6 (10) characters. "
 "Characters that are not letters a-z after lower-casing never influence the code.",
 ["inputs"], "all texts, both versions",
 "About fifty ordered replacements interact; tests sample a few hundred words.",
 ["src/caverphone.rs", "src/helper.rs"], [("ordered replacements", "src/caverphone.rs"), ("replace_end, replace_compact_all_to_uppercase", "src/helper.rs")],
 ["Caverphone1::encode", "Caverphone2::encode"])

prop("C06", "Metaphone codes follow the Metaphone rules",
 "The Metaphone code of a text follows the commons-codec Metaphone rules: initial exceptions (KN, GN, PN, AE, WR, WH, X), doubled letters other than C read once, each letter transcribed according to its neighbours in the word, vowels kept only in front, and characters that are no letters A-Z skipped but still seen as neighbours. "
 "A text of a single ASCII character is its own code in upper case.",
 ["inputs", "configurations"], "all texts, all maximum lengths including none",
 "Each letter rule looks up to three letters around; tests cover about a hundred words.",
 ["src/metaphone.rs"], [("per-letter rules", "src/metaphone.rs")], ["Metaphone::encode"])

prop("C07", "Double Metaphone computes the published primary and alternate codes",
 "The primary and alternate Double Metaphone codes of a text are those of the commons-codec Double Metaphone rules applied to the trimmed upper-case text (initial silent letters, Slavo-Germanic detection, and the context rules of every letter). "
 "Encoding gives the primary code, the alternate encoding the alternate one, and two texts are double-metaphone equal exactly when their primary (or, if asked, alternate) codes are equal.",
 ["inputs", "configurations"], "all texts, all maximum lengths including none",
 "There are more than a hundred context rules; tests, although they use long word lists, reach each rule in few contexts and check mostly length 4.",
 ["src/double_metaphone.rs"], [("double_metaphone and handle_* rules", "src/double_metaphone.rs")],
 ["DoubleMetaphone::{double_metaphone,encode,encode_alternate,is_double_metaphone_equal}"])

prop("C08", "A maximum code length only cuts the code",
 "For Metaphone (texts of two characters or more), Double Metaphone (primary and alternate) and strict NYSIIS, the code with a maximum length n (6 for strict NYSIIS) is exactly the first n characters of the unlimited code. "
 "A Phonex code has exactly the configured length, and the code for a shorter length is a prefix of the code for a longer one. "
 "The defaults are 4 for Metaphone, Double Metaphone and Phonex, and strict for NYSIIS.",
 ["inputs", "configurations"], "all texts, all pairs of lengths",
 "Needs every text against every length; tests check a couple of lengths for a couple of words.",
 ["src/metaphone.rs", "src/double_metaphone.rs", "src/nysiis.rs", "src/phonex.rs"],
 [("length checks in the loops", "src/metaphone.rs, src/double_metaphone.rs, src/phonex.rs"), ("strict truncation", "src/nysiis.rs")], ["encode with several lengths"])

prop("C09", "Match rating codes follow the match rating approach",
 "The match rating code of a text is empty if it is at most one character after trimming; otherwise it is the upper-case text without white space, the characters - & ' . , and accents, with every vowel but a leading one removed, "
 "doubled consonants made single (pair by pair, B to Z in alphabetical order, each replaced from the left without overlaps), and if more than six characters remain, the first three and the last three.",
 ["inputs"], "all texts", "Cleaning, vowel removal, pair reduction and cutting interact; tests check steps on single examples.",
 ["src/match_rating_approach.rs"], [("clean_name, remove_vowels, remove_double_consonants, get_first_3_last_3", "src/match_rating_approach.rs")],
 ["MatchRatingApproach::encode"])

prop("C10", "Match rating comparison follows the rating table",
 "Two texts match when neither is shorter than two characters after trimming and they are identical, or when the lengths of their match rating codes differ by less than three and the similarity rating reaches the minimum for the sum of the lengths (5 up to 4, 4 up to 7, 3 up to 11, 2 at 12). "
 "The rating is 6 minus (in absolute value) the larger number of characters left over after equal characters at equal positions from the left and from the right have been struck out.",
 ["inputs"], "all pairs of texts", "A relation on pairs; tests cover about sixty pairs.",
 ["src/match_rating_approach.rs"], [("is_encoded_equals, left_to_right_then_right_to_left_processing, get_min_rating", "src/match_rating_approach.rs")],
 ["MatchRatingApproach::is_encoded_equals"])

prop("C11", "NYSIIS keys follow the NYSIIS rules",
 "The NYSIIS key of a text is computed on its alphabetic characters in upper case by the NYSIIS rules: rewriting of the first letters (MAC, KN, K, PH, PF, SCH) and the last letters (EE, IE, DT, RT, RD, NT, ND), left-to-right transcription of every further letter in place with letters equal to their rewritten predecessor left out, and removal of a final S, AY to Y, and final A. "
 "The strict form keeps the first six characters, and a text without letters has an empty key.",
 ["inputs", "configurations"], "all texts, strict or not", "In-place rewriting makes later letters depend on earlier ones; tests cover about a hundred names.",
 ["src/nysiis.rs"], [("transcode and encode", "src/nysiis.rs")], ["Nysiis::encode"])

prop("C12", "Phonex codes follow the Phonex rules",
 "The Phonex code of a text is computed on its alphabetic characters in upper case by the Phonex rules: trailing S removed, KN, PH, WR and H in front simplified, the first letter replaced by its class representative, then each letter coded according to its successor (D and T silent before C; L and R silent before consonants; M and N swallowing a following D or G) without repetitions and without 0, padded with 0 to the configured length.",
 ["inputs", "configurations"], "all texts, all code lengths", "The running 'last code' state depends on the whole prefix; tests cover about fifty names.",
 ["src/phonex.rs"], [("preprocess, transcode, encode", "src/phonex.rs")], ["Phonex::encode"])

prop("C13", "Daitch-Mokotoff codes follow the rule table",
 "With any rule table, the Daitch-Mokotoff codes of a text are those obtained by reading it (white space removed, lower case, folded to ASCII by the table's foldings if folding is on) from left to right with the longest matching rule, choosing the replacement for the start of the text, before a vowel, or otherwise, and not repeating a replacement the previous one already ended with (except between adjacent m and n), with codes cut and padded with 0 to six characters. "
 "With branching, every alternative yields a branch, in table order and without duplicated branches; encoding, and non-branching mode, give the single code that takes the first alternative at every step, which is also the first of the branching codes. "
 "The embedded default table is the commons-codec rule file.",
 ["inputs", "configurations"], "all texts, all rule tables, folding on or off, branching on or off",
 "Branch sets multiply over the text and depend on table order; tests use one table and about sixty words.",
 ["src/daitch_mokotoff.rs", "rules/dmrules.txt"], [("inner_soundex, Branch, Rule", "src/daitch_mokotoff.rs")],
 ["DaitchMokotoffSoundex::{soundex,inner_soundex,encode}"])

prop("C14", "Daitch-Mokotoff rule texts parse exactly or fail at their line",
 "A Daitch-Mokotoff rule text made of rules (four quoted parts), foldings (x=y), blank lines, // comments and multi-line comments, in any order and mixture, builds an encoder with exactly these rules and foldings. "
 "Any other text is refused with a parse error whose line number is the (1-based) line of the first construct that is not one of these and whose line content is that line's text from there.",
 ["inputs"], "all rule texts", "Parsers must be right for every arrangement of lines; tests use one file and a few broken lines.",
 ["src/daitch_mokotoff.rs", "src/rules_parser.rs"], [("parse_rules", "src/daitch_mokotoff.rs"), ("nom grammar", "src/rules_parser.rs")],
 ["DaitchMokotoffSoundexBuilder::build"])

prop("C15", "Beider-Morse language guessing applies every matching rule in order",
 "The languages guessed for a text are obtained by starting from all languages of the name type and applying, in file order, every language rule whose pattern matches the lower-case text, keeping only its languages if the rule accepts and removing them if it does not. "
 "If nothing is left, any language is possible. The guess decides which rules encode the text.",
 ["inputs", "configurations"], "all texts, all language rule files", "Some 200 regular expressions act in sequence; tests guess about a dozen words.",
 ["src/beider_morse/lang.rs"], [("guess_languages", "src/beider_morse/lang.rs")], ["BeiderMorse::encode on configurations whose output reveals the guess"])

prop("C16", "Beider-Morse phonemes are those the rules derive",
 "The code of a word in given languages consists of exactly the phonemes (in ascending order, each once, joined by |) derived by reading the word left to right with the first rule, in file order, whose pattern and both contexts match (a character without a rule is skipped), combining every phoneme with every alternative of the rule whose languages are compatible, and then rewriting each phoneme with the common and then the language's final rules, where characters without a rule are kept. "
 "Applying a rule to the phonemes never yields more of them than the configured maximum, the first ones being kept (the phonemes of a final rule are limited for each phoneme rewritten); a single language selects that language's rules, otherwise those of 'any' are used.",
 ["inputs", "configurations"], "all words, language sets, rule sets, name types, rule types, and maxima", "The engine multiplies alternatives; tests check around forty words with one rule set each.",
 ["src/beider_morse/engine.rs", "src/beider_morse/rule.rs", "src/beider_morse/regex_optim.rs"],
 [("PhonemeBuilder::apply, RulesApplication::invoke, apply_final_rule", "src/beider_morse/engine.rs"), ("Rule parsing and contexts", "src/beider_morse/rule.rs, regex_optim.rs")],
 ["BeiderMorse::{encode,encode_with_languages}"])

prop("C17", "Beider-Morse handles prefixes and words by name type",
 "For generic names, a text starting with d' or with one of the name prefixes followed by a space encodes as (code of the rest)-(code of prefix and rest joined), recursively. "
 "Otherwise the words of the text (hyphens count as spaces) are taken, for Sephardic names only what follows the last apostrophe, and for Ashkenazi and Sephardic names without the prefixes of the name type; they are encoded as one text joined by spaces if concatenation is on, and otherwise word by word with the codes joined by '-' (a text of a single word is encoded as it is, in the languages given).",
 ["inputs", "configurations"], "all texts, name types, both concatenation modes", "Combinations of prefixes, apostrophes, hyphens and word counts; tests try a handful.",
 ["src/beider_morse/engine.rs"], [("encode_with_language_set", "src/beider_morse/engine.rs")], ["BeiderMorse::{encode,encode_with_languages}"])

prop("C18", "Beider-Morse configurations load exactly or fail with the right error",
 "A configuration folder loads exactly the languages, language rules and phonetic rules (with included files and comments) its files describe for the three name types. "
 "If a file is missing, or a line, pattern or phoneme cannot be read, loading fails with an error of the matching kind, and for a line that cannot be parsed with its line number and text.",
 ["inputs", "configurations"], "all folders of rule files", "Parsing is exercised by tests on the shipped files and two broken ones.",
 ["src/beider_morse/mod.rs", "src/beider_morse/languages.rs", "src/beider_morse/lang.rs", "src/beider_morse/rule.rs", "src/rules_parser.rs"],
 [("ConfigFiles::new", "src/beider_morse/mod.rs"), ("parsers", "src/beider_morse/rule.rs, lang.rs, languages.rs, src/rules_parser.rs")], ["ConfigFiles::new", "BeiderMorse::encode with the loaded configuration"])

prop("C19", "Language sets form the algebra of any, none and finite sets",
 "Restricting two language sets gives their intersection and merging them their union, where 'any' is neutral for restriction and absorbing for merging and 'no language' the reverse when it is the argument; for the remaining cases, restricting or merging with any or none on the receiving side gives the same result as the other way round. "
 "A set is empty if it is 'none' or a finite set without languages, a singleton if it is a finite set of one language, its representative is its alphabetically first language, and an empty finite set of texts converts to 'none'.",
 ["inputs"], "all pairs of language sets", "Algebraic laws over all pairs of sets; tests check single examples.",
 ["src/beider_morse/languages.rs"], [("LanguageSet", "src/beider_morse/languages.rs")], ["LanguageSet methods"])

prop("C20", "Character slices are the characters at these positions",
 "A character sequence over a text reports the number of its characters, and indexing it by any kind of range gives exactly the characters at the positions of the range that exist in the text (none if the range is empty, reversed or starts behind the end), whatever the byte widths of the characters.",
 ["inputs"], "all texts and ranges of every kind", "Arbitrary mixes of byte widths with arbitrary bounds; tests check a few ranges on one string.",
 ["src/helper.rs"], [("Index implementations", "src/helper.rs")], ["CharSequence index, len, is_empty"])

prop("C21", "Equality and difference agree with the codes",
 "For every encoder other than match rating, two texts are encoded-equal exactly when their codes are equal. "
 "The difference of two texts for Soundex and Refined Soundex is the number of positions, up to the shorter code, at which their codes have the same character, and 0 if one of the codes is empty. "
 "Both are symmetric, and a text always equals itself.",
 ["inputs", "configurations"], "all encoders and pairs of texts", "A relation over pairs for ten encoders; tests check a dozen pairs.",
 ["src/lib.rs"], [("Encoder::is_encoded_equals, SoundexCommons::difference", "src/lib.rs")], ["is_encoded_equals", "difference"])

prop("C22", "Encoding is a pure function of configuration and text",
 "The result of a call depends only on the encoder's configuration and the arguments of the call: not on the calls made before on the same or on other encoders, nor on calls running at the same time in other threads sharing the encoder. "
 "A copy or clone of an encoder, one built again from the same configuration, and one written out and read back with serde give the same results as the original.",
 ["histories", "schedules"], "all sequences and interleavings of calls on shared encoders", "Tests make single calls on fresh encoders in one thread.",
 ["src/*.rs", "src/beider_morse/*.rs"], [("stateless encoders, &self methods", "src/*.rs")], ["every public call in a recorded multi-threaded history"])

prop("C23", "Case never matters",
 "Changing the case of ASCII letters in a text changes no code of any encoder, no difference, and no comparison of codes.",
 ["inputs", "configurations"], "all texts, all case patterns, all encoders", "All 2^n case patterns of all texts; tests lower- or upper-case single words.",
 ["src/*.rs", "src/beider_morse/*.rs"], [("upper- or lower-casing in every encoder", "src/*.rs, src/beider_morse/engine.rs, lang.rs")], ["every encoder on case variants"])

prop("C24", "Names, language sets and errors read and write as texts",
 "A text names a name type exactly when it is ash, gen or sep (for a file: that name followed by _languages.txt), any other text gives an error that carries it, and a name type written as text or with serde reads back as itself. "
 "A language set is shown as ANY_LANGUAGE, NO_LANGUAGES or its languages in order joined by commas, and survives serde. "
 "An error of a rule text or rule file is shown with the file (or Unknown), the number of the line, and its content, and survives serde.",
 ["inputs"], "all texts, language sets, and broken rules", "Round trips and refusals over all texts; tests check a few messages.",
 ["src/beider_morse/mod.rs", "src/beider_morse/languages.rs", "src/lib.rs", "src/rules_parser.rs"],
 [("NameType conversions", "src/beider_morse/mod.rs"), ("LanguageSet Display", "src/beider_morse/languages.rs"), ("PhoneticError, ParseError", "src/lib.rs")],
 ["FromStr, TryFrom, Display and serde of NameType, LanguageSet, ParseError"])

prop("C25", "Builders keep exactly the settings told",
 "An encoder built with a builder has the settings last told to the builder, whatever the order in which they were told and however often, and the defaults for the others: folding to ASCII for Daitch-Mokotoff; generic names, approximate rules, words joined, and at most 20 phonemes for Beider-Morse. "
 "Building or cloning changes no encoder built before. Two encoders of the same kind and with the same rules compare as equal (==) exactly when their settings are equal.",
 ["histories", "configurations"], "all sequences of builder calls, builds and clones", "All orders and repetitions of settings; tests set one or two, once, in one order.",
 ["src/beider_morse/mod.rs", "src/daitch_mokotoff.rs"],
 [("BeiderMorseBuilder", "src/beider_morse/mod.rs"), ("DaitchMokotoffSoundexBuilder", "src/daitch_mokotoff.rs")],
 ["the name_type, rule_type, concat, max_phonemes, ascii_folding, build, clone and == calls of a history"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
