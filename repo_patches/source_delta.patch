From 0e590307b2f2428756620d013546b6ed765ec84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 01/23] fix: Soundex panics on letters outside A-Z

---
 src/soundex.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/soundex.rs b/src/soundex.rs
index 00b47d2..a80e204 100644
--- a/src/soundex.rs
+++ b/src/soundex.rs
@@ -97,8 +97,13 @@ impl Soundex {
         }
     }
 
+    /// Letters outside `A`..=`Z` have no code, they are treated as silent.
     fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+        if ch.is_ascii_uppercase() {
+            self.mapping[ch as usize - 65]
+        } else {
+            SILENT
+        }
     }
 }
 
-- 
2.43.0


From aa7d38e2624ae33fa89f10a7d4133f0d4c4b61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 02/23] fix: RefinedSoundex panics on letters outside A-Z

---
 src/refined_soundex.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/refined_soundex.rs b/src/refined_soundex.rs
index 6917de0..67d1755 100644
--- a/src/refined_soundex.rs
+++ b/src/refined_soundex.rs
@@ -57,8 +57,13 @@ impl RefinedSoundex {
         Self { mapping }
     }
 
-    fn get_mapping_code(&self, ch: char) -> char {
-        self.mapping[ch as usize - 65]
+    /// Letters outside `A`..=`Z` have no code.
+    fn get_mapping_code(&self, ch: char) -> Option<char> {
+        if ch.is_ascii_uppercase() {
+            Some(self.mapping[ch as usize - 65])
+        } else {
+            None
+        }
     }
 }
 
@@ -176,10 +181,12 @@ impl Encoder for RefinedSoundex {
 
         for ch in value.chars() {
             let code_value = self.get_mapping_code(ch);
-            if Some(code_value) != previous {
-                code.push(code_value);
+            if let Some(code_value) = code_value {
+                if Some(code_value) != previous {
+                    code.push(code_value);
+                }
             }
-            previous = Some(code_value);
+            previous = code_value;
         }
 
         code
-- 
2.43.0


From a8a8ca785f3847da6272c41f14a2b051813ab0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 03/23] fix: Caverphone panics or lets non ASCII letters
 through in its code

---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7ed4b1e..0740afb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -70,7 +70,7 @@ where
 pub fn remove_all_non_letter(string: String) -> String {
     string
         .chars()
-        .filter(|&c| c.is_lowercase())
+        .filter(|&c| c.is_ascii_lowercase())
         .collect::<String>()
 }
 
-- 
2.43.0


From caf754eb899557e334060b90e9eb605cd64e6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 04/23] fix: Metaphone mixes byte and char positions, and
 panics on non ASCII input

---
 src/metaphone.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/metaphone.rs b/src/metaphone.rs
index b74b90f..8daaa26 100644
--- a/src/metaphone.rs
+++ b/src/metaphone.rs
@@ -65,7 +65,8 @@ impl Metaphone {
     }
 
     fn region_match(text: &str, index: usize, test: &str) -> bool {
-        index + test.len() - 1 < text.len() && text[index..].starts_with(test)
+        let mut remains = text.chars().skip(index);
+        test.chars().all(|ch| remains.next() == Some(ch))
     }
 
     fn is_last_char(wdsz: usize, n: usize) -> bool {
@@ -86,7 +87,7 @@ impl Encoder for Metaphone {
     fn encode(&self, value: &str) -> String {
         let inwd = value.to_uppercase();
 
-        if inwd.len() == 1 {
+        if inwd.chars().count() == 1 {
             return inwd;
         }
 
@@ -124,7 +125,7 @@ impl Encoder for Metaphone {
             _ => local.push_str(&inwd),
         }
 
-        let wdsz = local.len();
+        let wdsz = local.chars().count();
 
         let mut skip = 0;
         for (index, symb) in local.chars().enumerate() {
-- 
2.43.0


From ae1eb2b561557c2738f75220a81925dbec288fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 05/23] fix: strict Nysiis panics when the code is cut inside a
 non ASCII char

---
 src/nysiis.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nysiis.rs b/src/nysiis.rs
index 2c75944..65bbb99 100644
--- a/src/nysiis.rs
+++ b/src/nysiis.rs
@@ -214,8 +214,7 @@ impl Encoder for Nysiis {
         };
 
         if self.strict {
-            let min = std::cmp::min(result.len(), TRUE_LENGTH);
-            result[..min].to_string()
+            result.chars().take(TRUE_LENGTH).collect()
         } else {
             result
         }
-- 
2.43.0


From bc1d8b68af4d0156e2539c375e4459e9f19902f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 06/23] fix: MatchRatingApproach counts bytes instead of chars,
 and panics on non ASCII names

---
 src/match_rating_approach.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index 0c1ae62..c952a36 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -130,8 +130,13 @@ impl MatchRatingApproach {
     }
 
     fn get_first3_last3(value: String) -> String {
-        if value.len() > 6 {
-            format!("{}{}", &value[0..3], &value[value.len() - 3..])
+        let len = value.chars().count();
+        if len > 6 {
+            value
+                .chars()
+                .take(3)
+                .chain(value.chars().skip(len - 3))
+                .collect()
         } else {
             value
         }
@@ -174,20 +179,20 @@ impl MatchRatingApproach {
             }
         }
 
-        let r1: String = n1.iter().filter(|c| c != &&' ').collect();
-        let r2: String = n2.iter().filter(|c| c != &&' ').collect();
+        let r1 = n1.iter().filter(|c| c != &&' ').count();
+        let r2 = n2.iter().filter(|c| c != &&' ').count();
 
-        if r1.len() > r2.len() {
-            6usize.abs_diff(r1.len())
+        if r1 > r2 {
+            6usize.abs_diff(r1)
         } else {
-            6usize.abs_diff(r2.len())
+            6usize.abs_diff(r2)
         }
     }
 }
 
 impl Encoder for MatchRatingApproach {
     fn encode(&self, value: &str) -> String {
-        if value.trim().is_empty() || value.trim().len() == 1 {
+        if value.trim().is_empty() || value.trim().chars().count() == 1 {
             return String::new();
         }
 
@@ -204,7 +209,7 @@ impl Encoder for MatchRatingApproach {
             return false;
         }
 
-        if first.trim().len() == 1 || second.trim().len() == 1 {
+        if first.trim().chars().count() == 1 || second.trim().chars().count() == 1 {
             return false;
         }
 
@@ -215,11 +220,14 @@ impl Encoder for MatchRatingApproach {
         let name1 = self.encode(first);
         let name2 = self.encode(second);
 
-        if name1.len().abs_diff(name2.len()) >= 3 {
+        let name1_len = name1.chars().count();
+        let name2_len = name2.chars().count();
+
+        if name1_len.abs_diff(name2_len) >= 3 {
             return false;
         }
 
-        let sum_length = name1.len() + name2.len();
+        let sum_length = name1_len + name2_len;
 
         let min_rating = MatchRatingApproach::get_minimum_rating(sum_length);
         let count = MatchRatingApproach::left_to_right_then_right_to_left_processing(name1, name2);
-- 
2.43.0


From 90227cbc0f43b9abc2150afae7303cafe60908ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 07/23] fix: MatchRatingApproach comparison panics when a name
 has an empty code

---
 src/match_rating_approach.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/match_rating_approach.rs b/src/match_rating_approach.rs
index c952a36..f007285 100644
--- a/src/match_rating_approach.rs
+++ b/src/match_rating_approach.rs
@@ -156,11 +156,8 @@ impl MatchRatingApproach {
         let mut n1: Vec<char> = name1.chars().collect();
         let mut n2: Vec<char> = name2.chars().collect();
 
-        let n1len = n1.len() - 1;
-        let n2len = n2.len() - 1;
-
         for i in 0..n1.len() {
-            if i > n2len {
+            if i >= n2.len() {
                 break;
             }
 
@@ -171,11 +168,11 @@ impl MatchRatingApproach {
                 n2[i] = ' ';
             }
 
-            let c1: &char = n1.get(n1.len() - (i + 1)).unwrap();
-            let c2: &char = n2.get(n2.len() - (i + 1)).unwrap();
-            if c1 == c2 {
-                n1[n1len - i] = ' ';
-                n2[n2len - i] = ' ';
+            let last1 = n1.len() - (i + 1);
+            let last2 = n2.len() - (i + 1);
+            if n1[last1] == n2[last2] {
+                n1[last1] = ' ';
+                n2[last2] = ' ';
             }
         }
 
-- 
2.43.0


From 9945ffbbadda2d0e848113013b3b98e29a2c0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 08/23] fix: DoubleMetaphone mixes byte and char positions, and
 panics on non ASCII input

---
 src/double_metaphone.rs | 51 ++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index c75b172..68f294e 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -15,8 +15,6 @@
  * limitations under the License.
  */
 use std::fmt::{Display, Formatter};
-use std::iter::Peekable;
-use std::str::CharIndices;
 
 use serde::{Deserialize, Serialize};
 
@@ -221,6 +219,11 @@ impl DoubleMetaphone {
             || value.contains("WITZ")
     }
 
+    /// Length in chars: every index is a char index.
+    fn len(value: &str) -> usize {
+        value.chars().count()
+    }
+
     fn contains(value: &str, start: isize, length: usize, criteria: Vec<&str>) -> bool {
         let result = false;
 
@@ -230,9 +233,9 @@ impl DoubleMetaphone {
 
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+        let target: String = value.chars().skip(start).take(length).collect();
+        if Self::len(&target) == length {
+            return criteria.contains(&target.as_str());
         }
 
         result
@@ -246,17 +249,17 @@ impl DoubleMetaphone {
         }
         let start = start as usize;
 
-        if start + length <= value.len() {
-            let target: &str = &value[start..start + length];
-            return criteria.contains(&target);
+        let target: String = value.chars().skip(start).take(length).collect();
+        if Self::len(&target) == length {
+            return criteria.contains(&target.as_str());
         }
 
         result
     }
 
     fn char_at(value: &str, index: isize) -> Option<char> {
-        if index >= 0 && (index as usize) < value.len() {
-            return value[index as usize..].chars().next();
+        if index >= 0 {
+            return value.chars().nth(index as usize);
         }
 
         None
@@ -284,7 +287,7 @@ impl DoubleMetaphone {
 
         let slavo_germanic = Self::is_slavo_germanic(value);
 
-        let mut iterator: Peekable<CharIndices<'_>> = value.char_indices().peekable();
+        let mut iterator = value.chars().enumerate();
         let mut char_index: Option<(usize, char)> = iterator.next();
         if SILENT_START.iter().any(|sl| value.starts_with(sl)) {
             char_index = iterator.next();
@@ -511,7 +514,7 @@ impl DoubleMetaphone {
             || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
-                    || (index as usize) + 1 == value.len() - 1))
+                    || (index as usize) + 1 == Self::len(value) - 1))
     }
 
     fn handle_cc(value: &str, result: &mut DoubleMetaphoneResult, index: isize) -> usize {
@@ -688,7 +691,8 @@ impl DoubleMetaphone {
             || Self::contains(value, 0, 4, vec!["SAN "])
         {
             //-- obvious Spanish, "Jose", "San Jacinto" --//
-            if (index == 0 && (Self::char_at(value, index + 4) == Some(' ')) || value.len() == 4)
+            if (index == 0 && (Self::char_at(value, index + 4) == Some(' '))
+                || Self::len(value) == 4)
                 || Self::contains(value, 0, 4, vec!["SAN "])
             {
                 result.append_char('H', None);
@@ -709,7 +713,7 @@ impl DoubleMetaphone {
                     || Self::char_at(value, index + 1) == Some('O'))
             {
                 result.append_char('J', Some('H'));
-            } else if (index as usize) == value.len() - 1 {
+            } else if (index as usize) == Self::len(value) - 1 {
                 result.append_char('J', Some(' '));
             } else if !Self::contains_array(value, index + 1, 1, L_T_K_S_N_M_B_Z)
                 && (index == 0 || !Self::contains(value, index - 1, 1, vec!["S", "K", "L"]))
@@ -740,17 +744,18 @@ impl DoubleMetaphone {
     }
 
     fn condition_l0(value: &str, index: isize) -> bool {
-        if value.len() >= 3
-            && (index as usize) == value.len() - 3
+        if Self::len(value) >= 3
+            && (index as usize) == Self::len(value) - 3
             && index > 0
             && Self::contains(value, index - 1, 4, vec!["ILLO", "ILLA", "ALLE"])
         {
             return true;
         }
 
-        ((value.len() > 1 && Self::contains(value, value.len() as isize - 2, 2, vec!["AS", "OS"]))
+        ((Self::len(value) > 1
+            && Self::contains(value, Self::len(value) as isize - 2, 2, vec!["AS", "OS"]))
             || (!value.is_empty()
-                && Self::contains(value, value.len() as isize - 1, 1, vec!["A", "O"])))
+                && Self::contains(value, Self::len(value) as isize - 1, 1, vec!["A", "O"])))
             && !value.is_empty()
             && Self::contains(value, index - 1, 4, vec!["ALLE"])
     }
@@ -762,7 +767,7 @@ impl DoubleMetaphone {
 
         index > 0
             && Self::contains(value, index - 1, 3, vec!["UMB"])
-            && ((index + 1) == value.len() as isize - 1
+            && ((index + 1) == Self::len(value) as isize - 1
                 || Self::contains(value, index + 2, 2, vec!["ER"]))
     }
 
@@ -787,7 +792,7 @@ impl DoubleMetaphone {
         slavo_germanic: bool,
     ) -> usize {
         if index > 3
-            && index == value.len() as isize - 1
+            && index == Self::len(value) as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
             && !Self::contains(value, index - 4, 2, vec!["ME", "MA"])
@@ -851,7 +856,7 @@ impl DoubleMetaphone {
             Self::handle_sc(value, result, index)
         } else {
             if index > 1
-                && index == value.len() as isize - 1
+                && index == Self::len(value) as isize - 1
                 && Self::contains(value, index - 2, 2, vec!["AI", "OI"])
             {
                 //-- french e.g. "resnais", "artois" --//
@@ -954,7 +959,7 @@ impl DoubleMetaphone {
             }
             0
         } else if (index > 0
-            && index == value.len() as isize - 1
+            && index == Self::len(value) as isize - 1
             && is_vowel(
                 Self::char_at(value, index - 1).map(|c| c.to_ascii_lowercase()),
                 true,
@@ -985,7 +990,7 @@ impl DoubleMetaphone {
             result.append_char('S', None);
             0
         } else {
-            if !((index == value.len() as isize - 1)
+            if !((index == Self::len(value) as isize - 1)
                 && ((index > 2 && Self::contains(value, index - 3, 3, vec!["IAU", "EAU"]))
                     || (index > 1 && Self::contains(value, index - 2, 2, vec!["AU", "OU"]))))
             {
-- 
2.43.0


From f4b60c82289508b946fea8a9306ae2af6ad3a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 09/23] fix: DoubleMetaphone never recognizes VAN/VON before CH

---
 src/double_metaphone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 68f294e..02be784 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -507,7 +507,7 @@ impl DoubleMetaphone {
     }
 
     fn condition_ch1(value: &str, index: isize) -> bool {
-        (Self::contains(value, 0, 4, vec!["VAN", "VON"])
+        (Self::contains(value, 0, 4, vec!["VAN ", "VON "])
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-- 
2.43.0


From 6f5c634c1aa17e7f173aed554fef6126a1c50cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 10/23] fix: DoubleMetaphone misses CHT and CHS in the first
 two positions

---
 src/double_metaphone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 02be784..134c94e 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -511,7 +511,7 @@ impl DoubleMetaphone {
             || Self::contains(value, 0, 3, vec!["SCH"]))
             || (index > 1
                 && Self::contains(value, index - 2, 6, vec!["ORCHES", "ARCHIT", "ORCHID"]))
-            || (index > 1 && Self::contains(value, index + 2, 1, vec!["T", "S"]))
+            || Self::contains(value, index + 2, 1, vec!["T", "S"])
             || ((index == 0 || Self::contains(value, index - 1, 1, vec!["A", "O", "U", "E"]))
                 && (Self::contains_array(value, index + 2, 1, L_R_N_M_B_H_F_V_W_SPACE)
                     || (index as usize) + 1 == Self::len(value) - 1))
-- 
2.43.0


From 3715f4af0b53df90549978222b24c51ad438ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 11/23] fix: DoubleMetaphone misses final IER in short words

---
 src/double_metaphone.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 134c94e..18903de 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -791,8 +791,7 @@ impl DoubleMetaphone {
         index: isize,
         slavo_germanic: bool,
     ) -> usize {
-        if index > 3
-            && index == Self::len(value) as isize - 1
+        if index == Self::len(value) as isize - 1
             && !slavo_germanic
             && Self::contains(value, index - 2, 2, vec!["IE"])
             && !Self::contains(value, index - 4, 2, vec!["ME", "MA"])
-- 
2.43.0


From a481dd5f8692676bbf57b085b1176e8e51964541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 12/23] fix: Phonex code does not always have the maximum code
 length

---
 src/phonex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/phonex.rs b/src/phonex.rs
index aa80d15..a0131ed 100644
--- a/src/phonex.rs
+++ b/src/phonex.rs
@@ -165,7 +165,7 @@ impl Encoder for Phonex {
 
         'char_iter: while let Some((mut i, curr)) = chars.next() {
             // We reach max_code_length we stop here.
-            if result.len() == self.max_code_length {
+            if result.chars().count() == self.max_code_length {
                 break 'char_iter;
             }
 
@@ -196,7 +196,11 @@ impl Encoder for Phonex {
                 i += 1;
             }
 
-            if last != code && code != '0' && i != 0 {
+            if last != code
+                && code != '0'
+                && i != 0
+                && result.chars().count() < self.max_code_length
+            {
                 result.push(code);
                 last_push = code;
             }
@@ -209,7 +213,7 @@ impl Encoder for Phonex {
         }
 
         // Pad to ensure we meet `max_code_length`
-        while result.len() < self.max_code_length {
+        while result.chars().count() < self.max_code_length {
             result.push('0');
         }
 
-- 
2.43.0


From 39332e126498b978f2bb47ab331f70db3d33acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 13/23] fix: DoubleMetaphone panics when the maximum code
 length is huge

---
 src/double_metaphone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/double_metaphone.rs b/src/double_metaphone.rs
index 18903de..d3fc74f 100644
--- a/src/double_metaphone.rs
+++ b/src/double_metaphone.rs
@@ -55,8 +55,8 @@ impl DoubleMetaphoneResult {
         // If no `max_length` is given, allocate resulting string with
         // a capacity of 10. It should be sufficient without realloc.
         Self {
-            primary: String::with_capacity(max_length.unwrap_or(10)),
-            alternate: String::with_capacity(max_length.unwrap_or(10)),
+            primary: String::with_capacity(max_length.map_or(10, |v| v.min(10))),
+            alternate: String::with_capacity(max_length.map_or(10, |v| v.min(10))),
             max_length,
         }
     }
-- 
2.43.0


From 1e7128884c76605b2e1dcaeaf441144ef7f9c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 14/23] fix: DaitchMokotoffSoundex skips too many chars after a
 non ASCII pattern

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..4ab2fdf 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -83,7 +83,7 @@ impl Rule {
     }
 
     fn get_pattern_length(&self) -> usize {
-        self.pattern.len()
+        self.pattern.chars().count()
     }
 
     fn matches(&self, context: &str) -> bool {
-- 
2.43.0


From 9d65c9f0e91270cfb9749f50762245c10b002e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 15/23] fix: DaitchMokotoffSoundex panics when a non ASCII code
 is truncated

---
 src/daitch_mokotoff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 4ab2fdf..0cf33e6 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -47,7 +47,7 @@ impl Default for Branch<'_> {
 impl<'a> Branch<'a> {
     /// Finish matching [MAX_LENGTH] by appending `0`.
     fn finish(&mut self) {
-        while self.builder.len() < MAX_LENGTH {
+        while self.builder.chars().count() < MAX_LENGTH {
             self.builder.push('0');
         }
     }
@@ -58,10 +58,10 @@ impl<'a> Branch<'a> {
             .map_or(true, |v| !v.ends_with(replacement))
             || append_force;
 
-        if append && self.builder.len() < MAX_LENGTH {
+        if append && self.builder.chars().count() < MAX_LENGTH {
             self.builder.push_str(replacement);
-            if self.builder.len() > MAX_LENGTH {
-                self.builder = self.builder[0..MAX_LENGTH].to_string();
+            if self.builder.chars().count() > MAX_LENGTH {
+                self.builder = self.builder.chars().take(MAX_LENGTH).collect();
             }
         }
 
-- 
2.43.0


From 6f7ea24a05c9a2a9d31db40603df9d3f90ec8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 16/23] fix: DaitchMokotoffSoundexBuilder panics on a rule with
 an empty pattern

---
 src/daitch_mokotoff.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 0cf33e6..f90ee41 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -479,9 +479,17 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
-                rules.entry(ch).or_default().push(rule);
+                match rule.pattern.chars().next() {
+                    Some(ch) => rules.entry(ch).or_default().push(rule),
+                    None => {
+                        return Err(build_error(
+                            line_number,
+                            None,
+                            remains,
+                            "Pattern is empty".to_string(),
+                        ))
+                    }
+                }
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 17efa6431d75f2c659cd6f27d05e9b3454b9caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 17/23] fix: DaitchMokotoffSoundexBuilder reports a wrong line
 number after a multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index f90ee41..6056d5b 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -509,7 +509,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 7abc07a554a3f59c57a67ae7e94c2b8da07498b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 18/23] fix: a Beider-Morse rule with an empty pattern panics

---
 src/beider_morse/rule.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..cce3f0c 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -228,7 +228,6 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
-            remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
             let left_context: Either<Regex, OptimizedRegex> =
@@ -252,8 +251,18 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
-            result.entry(ch).or_default().push(rule);
+            match pattern.chars().next() {
+                Some(ch) => result.entry(ch).or_default().push(rule),
+                None => {
+                    return Err(build_error(
+                        line_number,
+                        Some(filename.to_string()),
+                        remains,
+                        "Pattern is empty".to_string(),
+                    ))
+                }
+            }
+            remains = rm;
             continue;
         }
 
-- 
2.43.0


From f1fb8fea5e2006e72af883a42661ec315f7da19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 19/23] fix: a missing Beider-Morse languages file panics

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..e8f07b8 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -154,7 +154,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From 17e1c62490effabe06f4f12faf39c085e8ab8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 20/23] fix: Beider-Morse language rule error reports the wrong
 line and no filename

---
 src/beider_morse/lang.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index e8f07b8..7a50400 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,8 +119,6 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
@@ -132,13 +130,14 @@ fn parse_lang(
                 languages: langs,
                 pattern,
             });
+            remains = rm;
             continue;
         }
 
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
-- 
2.43.0


From 863e345ad4f837679ae856fc848c48a49f92ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 21/23] fix: encode_with_languages panics when there is no rule
 for the language

---
 src/beider_morse/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/beider_morse/engine.rs b/src/beider_morse/engine.rs
index ecadcde..f16eae3 100644
--- a/src/beider_morse/engine.rs
+++ b/src/beider_morse/engine.rs
@@ -198,6 +198,12 @@ impl PhoneticEngine<'_> {
         } else {
             "any"
         };
+        // There is no rule for an unknown language, use the generic rules
+        let known = self
+            .rules
+            .rules(self.name_type, PrivateRuleType::Rules, l)
+            .is_some();
+        let l = if known { l } else { "any" };
         let rules = self
             .rules
             .rules(self.name_type, PrivateRuleType::Rules, l)
-- 
2.43.0


From d9b650a6fc7555cbf7ea8864a6ce131a0431fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 22/23] fix: DaitchMokotoffSoundex returns the same code twice

---
 src/daitch_mokotoff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index 6056d5b..4fa1a72 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -363,7 +363,10 @@ impl DaitchMokotoffSoundex {
                                     || (last_char == 'n' && ch == 'm');
                                 next_branch.process_next_replacement(next_replacement, force);
                                 // Perhaps use the crate "linked-hash-map" but its major version is 0, and I want to release a major version
-                                if !next_branches.contains(&next_branch) {
+                                if !next_branches
+                                    .iter()
+                                    .any(|other| other.builder == next_branch.builder)
+                                {
                                     next_branches.push(next_branch);
                                 }
                                 if !branching {
-- 
2.43.0


From 330b5a2b967fdc85b3b5472763004fe019bf4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 23/23] fix: a Beider-Morse include error shows the line after
 the include

---
 src/beider_morse/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cce3f0c..86f3023 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -274,7 +274,6 @@ fn parse_rule(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_rule(resolver, include_filename).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -287,6 +286,7 @@ fn parse_rule(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0

