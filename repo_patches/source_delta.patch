From c67e01269003a5fe9e84d7ddb67fee430edd22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 01/21] fix: soundex panics on letters that are not in the
 mapping

---
 src/soundex.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..b07ad34 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -98,7 +98,12 @@ impl Soundex {
     }
 
     fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+        // Only 'A' to 'Z' are mapped, any other letter is silent.
+        (ch as usize)
+            .checked_sub(65)
+            .and_then(|index| self.mapping.get(index))
+            .copied()
+            .unwrap_or(SILENT)
     }
 }
 
-- 
2.43.0


From 43d622e2984f5f2c6bd0f039232f3337ed22defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/21] fix: refined soundex panics on letters that are not in
 the mapping

---
 src/refined_soundex.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..49b79a0 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -57,8 +57,12 @@ impl RefinedSoundex {
         Self { mapping }
     }
 
-    fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+    fn get_mapping_code(&self, ch: char) -> Option<char> {
+        // Only 'A' to 'Z' are mapped.
+        (ch as usize)
+            .checked_sub(65)
+            .and_then(|index| self.mapping.get(index))
+            .copied()
     }
 }
 
@@ -175,11 +179,13 @@ impl Encoder for RefinedSoundex {
         let mut previous: Option<char> = None;
 
         for ch in value.chars() {
-            let code_value = self.get_mapping_code(ch);
-            if Some(code_value) != previous {
-                code.push(code_value);
+            // A letter without mapping has no code.
+            if let Some(code_value) = self.get_mapping_code(ch) {
+                if Some(code_value) != previous {
+                    code.push(code_value);
+                }
+                previous = Some(code_value);
             }
-            previous = Some(code_value);
         }
 
         code
-- 
2.43.0


From ed9b456f1d3aa1133096e31805a565836eb06378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/21] fix: metaphone uses char index as byte index

---
 src/metaphone.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..674e846 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,8 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        // `index` is in chars and not in bytes.
+        text.chars().skip(index).take(test.len()).eq(test.chars())
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -124,7 +125,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From 417f73379a3ef100829e3f6e1a955138aff685cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/21] fix: double metaphone panics when slicing inside a
 multibyte character

---
 src/double_metaphone.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..eddd961 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -230,8 +230,8 @@ impl DoubleMetaphone {
 
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
+        // `None` if out of range or if it splits a multibyte character.
+        if let Some(target) = value.get(start..start + length) {
             return criteria.contains(&target);
         }
 
@@ -246,8 +246,8 @@ impl DoubleMetaphone {
         }
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
+        // `None` if out of range or if it splits a multibyte character.
+        if let Some(target) = value.get(start..start + length) {
             return criteria.contains(&target);
         }
 
@@ -255,8 +255,10 @@ impl DoubleMetaphone {
     }
 
     fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+        if index >= 0 {
+            return value
+                .get(index as usize..)
+                .and_then(|remains| remains.chars().next());
         }
 
         None
-- 
2.43.0


From 8e332edfee0f8f8b537c8720772a515cd53acb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/21] fix: double metaphone capacity overflow with a large
 max_code_length

---
 src/double_metaphone.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index eddd961..c2c8c6b 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -56,9 +56,11 @@ impl DoubleMetaphoneResult {
     fn new(max_length: Option<usize>) -> Self {
         // If no `max_length` is given, allocate resulting string with
         // a capacity of 10. It should be sufficient without realloc.
+        // It is also an upper bound, `max_length` can be as large as `usize::MAX`.
+        let capacity = max_length.map_or(10, |v| v.min(10));
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(capacity),
+            alternate: String::with_capacity(capacity),
             max_length,
         }
     }
-- 
2.43.0


From 2766f04f914aaa4f751e37430b5107c49f0eb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 06/21] fix: match rating approach panics on multibyte or empty
 codes

---
 src/match_rating_approach.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..5eb56b0 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,14 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let len = value.chars().count();
+        if len > 6 {
+            value
+                .chars()
+                .enumerate()
+                .filter(|(index, _)| *index < 3 || *index >= len - 3)
+                .map(|(_, c)| c)
+                .collect()
         } else {
             value
         }
@@ -151,11 +157,11 @@ impl MatchRatingApproach {
         let mut n1: Vec<char> = name1.chars().collect();
         let mut n2: Vec<char> = name2.chars().collect();
 
-        let n1len = n1.len() - 1;
-        let n2len = n2.len() - 1;
+        let n1len = n1.len();
+        let n2len = n2.len();
 
-        for i in 0..n1.len() {
-            if i > n2len {
+        for i in 0..n1len {
+            if i >= n2len {
                 break;
             }
 
@@ -169,8 +175,8 @@ impl MatchRatingApproach {
             let c1: &char = n1.get(n1.len() - (i + 1)).unwrap();
             let c2: &char = n2.get(n2.len() - (i + 1)).unwrap();
             if c1 == c2 {
-                n1[n1len - i] = ' ';
-                n2[n2len - i] = ' ';
+                n1[n1len - (i + 1)] = ' ';
+                n2[n2len - (i + 1)] = ' ';
             }
         }
 
-- 
2.43.0


From cb050d51e300c1e8c84da684abce05f53817836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/21] fix: match rating approach lengths are in chars and not
 in bytes

---
 src/match_rating_approach.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 5eb56b0..a865f18 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -180,20 +180,20 @@ impl MatchRatingApproach {
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
+        if r1 > r2 {
+            6usize.abs_diff(r1)
         } else {
-            6usize.abs_diff(r2.len())
+            6usize.abs_diff(r2)
         }
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().is_empty() || value.trim().chars().count() == 1 {
             return String::new();
         }
 
@@ -210,7 +210,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -221,11 +221,14 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        let length1 = name1.chars().count();
+        let length2 = name2.chars().count();
+
+        if length1.abs_diff(length2) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = length1 + length2;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 67ab9f492a18204caae6683a39d39f618679b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 08/21] fix: caverphone keeps letters other than a to z and may
 slice inside them

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From 660c63573d60467441f0552e3692a45c1856e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 09/21] fix: nysiis strict truncation may slice inside a
 multibyte character

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From 37a7d765703aa78e87f1208ac60296f68464ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 10/21] fix: phonex max_code_length is in chars and not in
 bytes

---
 src/phonex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..45bd8db 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -165,7 +165,7 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if result.chars().count() == self.max_code_length {
                 break 'char_iter;
             }
 
@@ -209,7 +209,7 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while result.chars().count() < self.max_code_length {
             result.push('0');
         }
 
-- 
2.43.0


From 853cb0eb0a3c02e617c1c8510a9a7f6e0c1e6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 11/21] fix: daitch mokotoff pattern length is in chars and not
 in bytes

---
 src/daitch_mokotoff.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..40cec23 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -83,7 +83,7 @@ impl Rule {
     }
 
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
@@ -96,8 +96,7 @@ impl Rule {
         }
 
         let next_index = self.get_pattern_length();
-        let next_char_is_vowel =
-            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);
+        let next_char_is_vowel = is_vowel(context.chars().nth(next_index), false);
         if next_char_is_vowel {
             return &self.replacement_before_vowel;
         }
-- 
2.43.0


From 7fd42698b79e7523eaea239771d9f362fd05661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 12/21] fix: daitch mokotoff line number after a multiline
 comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 40cec23..36f1703 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -500,7 +500,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 8461c526193749d710ba59580832099d94866a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 13/21] fix: daitch mokotoff builder panics on a rule with an
 empty pattern

---
 src/daitch_mokotoff.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 36f1703..af21d67 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -478,8 +478,10 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                // The parser accepts an empty pattern, but it can't match anything.
+                let ch = rule.pattern.chars().next().ok_or_else(|| {
+                    build_error(line_number, None, remains, "Empty pattern".to_string())
+                })?;
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From e5c455324c33d6457dc88c83df4fb690b6cbea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 14/21] fix: beider morse rules parser panics on a rule with an
 empty pattern

---
 src/beider_morse/rule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..f7243c4 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -252,7 +252,9 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
+            let ch = pattern.chars().next().ok_or_else(|| {
+                BMError::BadRule(format!("Empty pattern in {filename} at line {line_number}"))
+            })?;
             result.entry(ch).or_default().push(rule);
             continue;
         }
-- 
2.43.0


From bfcf7f6bab92307bc47590ff41aa9a28ffb7d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 15/21] fix: ConfigFiles::new panics when a languages file is
 missing

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..21ed24b 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -154,7 +154,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.to_string()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From af494f6d2eddf38cbaa174f5856703035850ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 16/21] fix: wrong line content in beider morse parsing errors

---
 src/beider_morse/lang.rs | 3 +--
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 21ed24b..c510987 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,8 +119,6 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
@@ -132,6 +130,7 @@ fn parse_lang(
                 languages: langs,
                 pattern,
             });
+            remains = rm;
             continue;
         }
 
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index f7243c4..e1b2214 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -267,7 +267,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -281,6 +280,7 @@ fn parse_rule(
                 }
             })?;
             result.extend(rules);
+            remains = rm;
             continue;
         }
 
-- 
2.43.0


From dc5fecff3080464c5ad6b726899fa12774b7db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 17/21] fix: phonex code longer than max_code_length when the
 first letter swallows the second

---
 src/phonex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index 45bd8db..a0131ed 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -196,7 +196,11 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            if last != code
+                && code != '0'
+                && i != 0
+                && result.chars().count() < self.max_code_length
+            {
                 result.push(code);
                 last_push = code;
             }
-- 
2.43.0


From 14a0d03e268b5760119b36dab62103d416cb22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 18/21] fix: daitch mokotoff panics when a non ascii
 replacement crosses the code length

---
 src/daitch_mokotoff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index af21d67..f5325fc 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -47,7 +47,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        while self.builder.chars().count() < MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -58,10 +58,10 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
+        if append && self.builder.chars().count() < MAX_LENGTH {
             self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
+            if self.builder.chars().count() > MAX_LENGTH {
+                self.builder = self.builder.chars().take(MAX_LENGTH).collect();
             }
         }
 
-- 
2.43.0


From b7c23e9b9278e8bbad1ae67bcc56abae34b50c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 19/21] fix: a Beider-Morse rule file that includes itself
 overflows the stack

---
 src/beider_morse/rule.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index e1b2214..5a9b761 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -215,6 +215,19 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_rule_file(resolver, filename, &[])
+}
+
+/// Parse a rule file. `parents` are the files being parsed that include it, directly or not.
+fn parse_rule_file(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &[&str],
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.contains(&filename) {
+        return Err(BMError::BadRule(format!("{filename} includes itself")).into());
+    }
+    let files = [parents, &[filename]].concat();
     let content = resolver.resolve(filename)?;
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
@@ -267,7 +280,7 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
+            let rules = parse_rule_file(resolver, include_filename, &files).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
                         line_number,
-- 
2.43.0


From 848d921db1650b4bf0e1ec808aadd68253e358d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 20/21] fix: rule parts, foldings and language rules do not go
 over the end of their line

---
 src/rules_parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..e4c69e8 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -68,8 +68,12 @@ pub fn end_of_line<'a>(
 /// Recognize something between two double quote (`"..."`).
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and everything up to "\"". A part never goes over the end of its line.
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch| ch == '"' || ch == '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
@@ -91,7 +95,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\r\n"), char('='), none_of("\r\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
@@ -99,8 +106,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0


From ad333098b251af532970392502a3da4e43fd8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:49 +0000
Subject: [PATCH 21/21] fix: a character slice up to and with the largest
 position overflows

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 0740afb..67a53e2 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -176,7 +176,7 @@ impl Index<RangeInclusive<usize>> for CharSequence<'_> {
     type Output = str;
 
     fn index(&self, index: RangeInclusive<usize>) -> &Self::Output {
-        &self[*index.start()..*index.end() + 1]
+        &self[*index.start()..index.end().saturating_add(1)]
     }
 }
 
-- 
2.43.0

