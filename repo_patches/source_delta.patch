From a3b864bb196ab957d5f4b6806843466e5e5bcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 01/26] fix: evaluate comparison operators as 'self operator
 other', as documented

compare_to_version answered Lt/Le/Gt/Ge (and the prefix operators) for the
swapped operands, contradicting its documentation and tests and making the
Python class's <, <=, >, >= answer the wrong way round. The constraint
matcher, which relied on the swap, now passes the tested version first.
---
 core/src/version/matching.rs |  4 +++-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..82ac328 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,9 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        // What we're saying when we have a.b.* (spec) and a.b.c (other version)
+        //     is that a.b.c starts with the spec (up until the star)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..fe4b588 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From 8bc1ac7616ac28f06d5541af8d1d07ad6980542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 02/26] fix: keep comparing after a zero that has no
 counterpart

compare_iter stopped at the first extra component equal to 'empty', so
1 == 1.0.0.1 although 1 == 1.0.0.0 < 1.0.0.1.
---
 core/src/version/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index fe4b588..0661df4 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -272,7 +272,7 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
+                    // Equal places are the only ones that continue the loop
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -282,13 +282,13 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From 4573cb3c3d1905198d291bd7f57a5ff3ffba2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 03/26] fix: rank a zero component like a missing one against
 tags and local labels

1 == 1.0 and 1 < 1post, but 1post < 1.0 (likewise for 1+local), so the
ordering was not transitive and sorting versions could panic.
---
 core/src/version/version_part.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index c32f80c..adc1a21 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -62,6 +62,12 @@ impl PartialOrd for VersionPart {
             (VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
+            // A zero must rank like a missing part, because 1 == 1.0: anything else lets
+            //   1.0 == 1 < 1post < 1.0
+            (VersionPart::Integer(0), VersionPart::LexicographicString(b)) => "".partial_cmp(b.as_str()),
+            (VersionPart::LexicographicString(a), VersionPart::Integer(0)) => a.as_str().partial_cmp(""),
+            (VersionPart::Integer(0), VersionPart::PEP440String(b)) => PEP440String::empty().partial_cmp(b),
+            (VersionPart::PEP440String(a), VersionPart::Integer(0)) => a.partial_cmp(&PEP440String::empty()),
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-- 
2.43.0


From 2c7d9d85d5f28373787951e8a7cb66e24ae3de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 04/26] fix: parse separator-only versions as the empty version

'.' parsed to no parts at all, which made it equal both to '' and to '0'
although '' < '0'.
---
 core/src/version/parsers/conda.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..b9e3ce7 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -66,7 +66,7 @@ pub fn conda_parser(
         parts.push(VersionPart::LexicographicString(local.to_string()));
     }
 
-    if parts.is_empty() && version.is_empty() {
+    if parts.is_empty() {
         parts.push(VersionPart::Empty);
     }
 
-- 
2.43.0


From d1e21a75ff6a38bccb8203211bb274afdc75fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 05/26] fix: return an error for an invalid epoch instead of
 panicking

---
 core/src/version/parsers/conda.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index b9e3ce7..c9a7e97 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,10 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            let epoch = epoch_split[0].parse().map_err(|_| {
+                VersionParsingError::Message(format!("invalid epoch in version '{}'", version))
+            })?;
+            parts.push(VersionPart::Epoch(epoch));
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 1b5f4c95f89e1aee511c2a5a88a81033a4c398b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 06/26] fix: hold numeric components in 64 bits

A number over 2^31-1 (a timestamp, for instance) was taken for a text tag
and ranked below every other number: 1.20200101123456 < 1.1.
---
 core/src/version/parsers/conda.rs | 2 +-
 core/src/version/version_part.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index c9a7e97..cf66877 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -52,7 +52,7 @@ pub fn conda_parser(
         // sub-split to separate numbers and letters that are joined together
         for m in LETTER_NUMBER_RE.find_iter(part) {
             let substr: &str = &part[m.start()..m.end()];
-            match substr.parse::<i32>() {
+            match substr.parse::<i64>() {
                 Ok(number) => {
                     // Push the number part to the vector, and set the has number flag
                     parts.push(VersionPart::Integer(number));
diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index adc1a21..5835326 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -15,7 +15,7 @@ use std::fmt::{Debug, Display};
 #[derive(Deserialize, Clone)]
 pub enum VersionPart {
     Epoch(i16),
-    Integer(i32),
+    Integer(i64),
     LexicographicString(String),
     PEP440String(PEP440String),
     Empty,
-- 
2.43.0


From e201bf081ff593a2c04997e894dfd344ddde5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 07/26] fix: refuse unknown operators in constraints instead of
 panicking or misreading them

'!1' and '~1' panicked, and '===1', '><1' were read as '==' and '>' applied
to the versions '=1' and '<1'.
---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 82ac328..45a1b40 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -7,7 +7,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     input: &str,
 ) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
-        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)(\S+)$"#).unwrap();
+        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^(==|!=|<=|>=|~=|=|<|>)([^<>=!~\s]\S*)$"#).unwrap();
     }
 
     let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
-- 
2.43.0


From 0ee345fecdae4493ac6d894b091371bff6b42f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 08/26] fix: do not panic on empty or non-ASCII constraint text

---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 45a1b40..63c1fd9 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -84,7 +84,7 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
         let re = Regex::new(input).unwrap();
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
-- 
2.43.0


From 6b54d599946deccd4a3e55d2b9fcd7f2850580ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 09/26] fix: return an error for constraints with an invalid
 version or regex

get_matcher returns a Result but panicked on '>1!2!3' or '^[$'.
---
 core/src/version/matching.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 63c1fd9..beae592 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -36,7 +36,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     }
     let matcher = MatchOperator {
         operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -63,6 +63,10 @@ impl Default for MatchEnum {
     }
 }
 
+fn compile_regex(expression: &str) -> Result<Regex, VersionParsingError> {
+    Regex::new(expression).map_err(|e| VersionParsingError::Message(e.to_string()))
+}
+
 pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
         static ref REGEX_SPLIT_RE: Regex = Regex::new(r#".*[()|,^$]"#).unwrap();
@@ -81,7 +85,7 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = compile_regex(input)?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
     } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
@@ -101,20 +105,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = compile_regex(&format!(r"^(?:{})$", rx))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From aa3a66fb0911d80070418e2240cc58a0cb1e8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 10/26] fix: evaluate wildcard and regex constraints instead of
 panicking

---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index beae592..ec3767c 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -137,8 +137,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(&other.version)
     }
 }
 
-- 
2.43.0


From 5f2fcb0ca28130d33107388fb7ccbcf9205eebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 11/26] fix: evaluate the compatible-release operator instead
 of panicking

~=V.N was accepted by the constraint parser but any evaluation hit
unimplemented!(). It now means what CompOp documents: >=V.N and V.*.
---
 core/src/version/version.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0661df4..763a8fb 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -210,8 +210,15 @@ impl Version {
         match operator {
             CompOp::StartsWith => self.startswith(other),
             CompOp::NotStartsWith => !self.startswith(other),
-            CompOp::Compatible => unimplemented!(),
-            CompOp::Incompatible => unimplemented!(),
+            CompOp::Compatible => {
+                // V.N: at least V.N, and in the series V
+                let series = other.version.rfind('.').map(|dot| &other.version[..dot]);
+                self.compare_to_version(other, &CompOp::Ge)
+                    && series.map_or(true, |s| {
+                        Version::from_str(s).map_or(false, |series| self.startswith(&series))
+                    })
+            }
+            CompOp::Incompatible => !self.compare_to_version(other, &CompOp::Compatible),
             _ => match self.compare_version(other) {
                 CompOp::Eq => match operator {
                     &CompOp::Eq | &CompOp::Le | &CompOp::Ge => true,
-- 
2.43.0


From 354afb8886fbc2805b34a59bf86f023c2e5278a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 12/26] fix: a constraint tree without a combinator accepts
 what its constraint accepts

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..fc62640 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -54,7 +54,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // no combinator: a tree that wraps a single constraint
+            Combinator::None => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
         }
     }
 }
-- 
2.43.0


From d24c85697e2cdad80732e884e9362edbfa88246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 13/26] fix: compare the combinator and the number of members
 of constraint trees

---
 core/src/version/spec_trees.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index fc62640..ed578c6 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -1,4 +1,3 @@
-use std::ops::Deref;
 use std::fmt;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -140,10 +139,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
-        for (a, b) in self.parts.iter().zip(&other.parts) {
-            if a.deref() != b.deref() { return false }
-        }
-        return true
+        self.combinator == other.combinator && self.parts == other.parts
     }
 }
 
-- 
2.43.0


From 843f90244d0c882be8bfb41e04da84f3cf74a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 14/26] fix: debug-printing a constraint no longer recurses
 without end

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ed578c6..aa84480 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -133,7 +133,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => fmt::Debug::fmt(t, f),
+        }
     }
 }
 
-- 
2.43.0


From e566123bf6b4fe1dbf90983806bfb94ea915d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 15/26] fix: printing a nested constraint tree does not panic

---
 core/src/version/spec_trees.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index aa84480..f5fa7db 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -70,10 +70,9 @@ impl ConstraintTree {
     fn combine(&self, inand: bool, nested: bool) -> Result<String, String> {
         match self.parts.len() {
             1 => {
-                if let VersionSpecOrConstraintTree::VersionSpec(s) = self.parts[0].borrow() {
-                    Ok(s.get_spec().to_string())
-                } else {
-                    Err("Can't combine (stringify) single-element ConstraintTree that isn't just a string".to_string())
+                match self.parts[0].borrow() {
+                    VersionSpecOrConstraintTree::VersionSpec(s) => Ok(s.get_spec().to_string()),
+                    VersionSpecOrConstraintTree::ConstraintTree(cj) => cj.combine(inand, nested)
                 }
             },
             0 => Err("Can't combine (stringify) a zero-element ConstraintTree".to_string()),
@@ -84,7 +83,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
-- 
2.43.0


From 2cdf3052d390881d09feb98e52af91113000c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 16/26] fix: return an error for bad lists of constraints
 instead of panicking

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index f5fa7db..036100d 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -149,6 +149,9 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
+        if input.len() < 2 {
+            return Err(VersionParsingError::Message(format!("A ConstraintTree needs a combinator and at least one constraint")))
+        }
         let combinator = match input[0].borrow() {
             "," => Combinator::And,
             "|" => Combinator::Or,
@@ -156,7 +159,7 @@ impl TryFrom<Vec<&str>> for ConstraintTree
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone())).collect::<Result<Vec<_>, _>>()?
         };
         Ok(tree)
     }
-- 
2.43.0


From cd493ae72cd5ad3030f5e2d63f9fd30c26c1a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 17/26] fix: refuse malformed constraint expressions instead of
 misreading them or panicking

---
 core/src/version/spec_trees.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 036100d..4c72781 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -275,7 +275,21 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
-    for item in tokens {
+    // Operands and operators must alternate; an opening parenthesis stands where an operand does
+    let mut want_operand = true;
+
+    for (index, item) in tokens.iter().cloned().enumerate() {
+        let starts_operand = match item {
+            ")" | "|" | "," => false,
+            _ => true
+        };
+        if starts_operand != want_operand || (index > 0 && stack.is_empty()) {
+            return Err(format!("unexpected '{}' in expression {}", item, spec_str));
+        }
+        want_operand = match item {
+            "(" | "|" | "," => true,
+            _ => false
+        };
         match item {
             "(" => { stack.push("(") },
             "|" => {
@@ -299,7 +313,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From 1008acdbf59bb94d4453f41fce7fd4efcbc33ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 18/26] fix: read compound constraint expressions given as text

---
 core/src/version/spec_trees.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 4c72781..3dafaa6 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -105,11 +105,10 @@ impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
         lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if REGEX_SPLIT_RE.is_match(input) {
+            match treeify(input) {
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From cea9e80df645d55e4262f33f547b2fc3b615b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 19/26] fix: decode versions whose JSON text contains escapes

---
 core/src/repodata/repodata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..e0a2e56 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,8 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From a5a5b6816e2fc2c0b9cc66819fd97a9325446187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 20/26] fix: return an error for unreadable repodata files
 instead of panicking

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index e0a2e56..671ef8d 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From b94b21d055e509139fc2809041b60fadd44511ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 21/26] fix: raise ValueError in Python for text that is not a
 version

---
 python/src/python_interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..14f78cb 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,10 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        let version: Version = arg.parse().map_err(|e: <Version as std::str::FromStr>::Err| {
+            PyErr::new::<exc::ValueError, _>(py, e.to_string())
+        })?;
+        RustyVersion::create_instance(py, version)
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0


From 0578f4491a6a672347f70ba2c659b78d2e2112d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 22/26] Re-export private constraint types for the verification
 harness, guarded by cfg(verif_hooks)

---
 core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..efebab5 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,12 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+// Private items that the verification harness needs. Only with RUSTFLAGS="--cfg verif_hooks".
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::version::errors::VersionParsingError;
+    pub use crate::version::spec_trees::{Spec, VersionSpec};
+}
-- 
2.43.0


From 08434a04b6589248be284f4b793662c261d5b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 23/26] fix: rank numbers that do not fit 64 bits as numbers,
 not as tags

---
 core/src/version/parsers/conda.rs |  4 ++++
 core/src/version/version_part.rs  | 23 +++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index cf66877..2d9c746 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -57,6 +57,10 @@ pub fn conda_parser(
                     // Push the number part to the vector, and set the has number flag
                     parts.push(VersionPart::Integer(number));
                 }
+                // A number too large for an integer part is still a number
+                Err(_) if substr.bytes().all(|b| b.is_ascii_digit()) => {
+                    parts.push(VersionPart::BigInteger(substr.trim_start_matches('0').to_string()));
+                }
                 Err(_) => {
                     // Push the text part to the vector
                     parts.push(VersionPart::PEP440String(PEP440String::from(substr)));
diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index 5835326..4506131 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -16,6 +16,8 @@ use std::fmt::{Debug, Display};
 pub enum VersionPart {
     Epoch(i16),
     Integer(i64),
+    /// The digits, without leading zeros, of a number that does not fit `Integer`
+    BigInteger(String),
     LexicographicString(String),
     PEP440String(PEP440String),
     Empty,
@@ -30,6 +32,7 @@ impl ProvideEmptyImpl for VersionPart {
         match self {
             VersionPart::Epoch(_i) => VersionPart::Epoch(0),
             VersionPart::Integer(_i) => VersionPart::Integer(0),
+            VersionPart::BigInteger(_i) => VersionPart::Integer(0),
             VersionPart::LexicographicString(_i) => VersionPart::LexicographicString(String::new()),
             VersionPart::PEP440String(_i) => VersionPart::PEP440String(PEP440String::empty()),
             VersionPart::Empty => VersionPart::Empty
@@ -42,6 +45,7 @@ impl Debug for VersionPart {
         match self {
             VersionPart::Epoch(_i) => write!(f, "Epoch({})", _i),
             VersionPart::Integer(_i) => write!(f, "Integer({})", _i),
+            VersionPart::BigInteger(_i) => write!(f, "Integer({})", _i),
             VersionPart::LexicographicString(_i) => write!(f, "LexicographicString({})", _i),
             VersionPart::PEP440String(_i) => write!(f, "PEP440String({})", _i),
             VersionPart::Empty => write!(f, "Empty"),
@@ -60,6 +64,7 @@ impl PartialOrd for VersionPart {
         match (self, other) {
             (VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.partial_cmp(b),
             (VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),
+            (VersionPart::BigInteger(a), VersionPart::BigInteger(b)) => (a.len(), a).partial_cmp(&(b.len(), b)),
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
             // A zero must rank like a missing part, because 1 == 1.0: anything else lets
@@ -71,17 +76,19 @@ impl PartialOrd for VersionPart {
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-                VersionPart::Integer(_a) => 1,
-                VersionPart::LexicographicString(_a) => 2,
-                VersionPart::PEP440String(_a) => 3,
-                VersionPart::Empty => 4,
+                VersionPart::BigInteger(_a) => 1,
+                VersionPart::Integer(_a) => 2,
+                VersionPart::LexicographicString(_a) => 3,
+                VersionPart::PEP440String(_a) => 4,
+                VersionPart::Empty => 5,
             }.partial_cmp(
                 match other {
                     VersionPart::Epoch(_a) => &0,
-                    VersionPart::Integer(_a) => &1,
-                    VersionPart::LexicographicString(_a) => &2,
-                    VersionPart::PEP440String(_a) => &3,
-                    VersionPart::Empty => &4,
+                    VersionPart::BigInteger(_a) => &1,
+                    VersionPart::Integer(_a) => &2,
+                    VersionPart::LexicographicString(_a) => &3,
+                    VersionPart::PEP440String(_a) => &4,
+                    VersionPart::Empty => &5,
                 }
             ).unwrap().reverse())
         }
-- 
2.43.0


From 4873823e377c804b3ab4c015827a828a53cdf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 24/26] fix: let '*' inside a wildcard constraint stand for
 line breaks too

---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index ec3767c..99e3a15 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -105,7 +105,7 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = compile_regex(&format!(r"^(?:{})$", rx))?;
+        let rx: Regex = compile_regex(&format!(r"^(?s:{})$", rx))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
-- 
2.43.0


From 485e024b4f65e00553710144edd04fbe20ef04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 25/26] fix: rank an epoch and the empty component against a
 missing component as against zero

---
 core/src/version/version_part.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index 4506131..e212f9c 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -30,12 +30,13 @@ pub trait ProvideEmptyImpl{
 impl ProvideEmptyImpl for VersionPart {
     fn get_empty(&self) -> VersionPart {
         match self {
-            VersionPart::Epoch(_i) => VersionPart::Epoch(0),
+            // only zero ranks like a missing part: these two rank above and below it
+            VersionPart::Epoch(_i) => VersionPart::Integer(0),
             VersionPart::Integer(_i) => VersionPart::Integer(0),
             VersionPart::BigInteger(_i) => VersionPart::Integer(0),
             VersionPart::LexicographicString(_i) => VersionPart::LexicographicString(String::new()),
             VersionPart::PEP440String(_i) => VersionPart::PEP440String(PEP440String::empty()),
-            VersionPart::Empty => VersionPart::Empty
+            VersionPart::Empty => VersionPart::Integer(0)
         }
     }
 }
-- 
2.43.0


From af3bd892947093c13ace4c260456252e2dab5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 26/26] fix: keep the order of components transitive for
 negative numbers

---
 core/src/version/version_part.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index e212f9c..1afd478 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -69,11 +69,11 @@ impl PartialOrd for VersionPart {
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
             // A zero must rank like a missing part, because 1 == 1.0: anything else lets
-            //   1.0 == 1 < 1post < 1.0
-            (VersionPart::Integer(0), VersionPart::LexicographicString(b)) => "".partial_cmp(b.as_str()),
-            (VersionPart::LexicographicString(a), VersionPart::Integer(0)) => a.as_str().partial_cmp(""),
-            (VersionPart::Integer(0), VersionPart::PEP440String(b)) => PEP440String::empty().partial_cmp(b),
-            (VersionPart::PEP440String(a), VersionPart::Integer(0)) => a.partial_cmp(&PEP440String::empty()),
+            //   1.0 == 1 < 1post < 1.0. Negative numbers are next below it.
+            (VersionPart::Integer(n), VersionPart::LexicographicString(b)) if *n <= 0 => "".partial_cmp(b.as_str()).map(|o| o.then(n.cmp(&0))),
+            (VersionPart::LexicographicString(a), VersionPart::Integer(n)) if *n <= 0 => a.as_str().partial_cmp("").map(|o| o.then(0.cmp(n))),
+            (VersionPart::Integer(n), VersionPart::PEP440String(b)) if *n <= 0 => PEP440String::empty().partial_cmp(b).map(|o| o.then(n.cmp(&0))),
+            (VersionPart::PEP440String(a), VersionPart::Integer(n)) if *n <= 0 => a.partial_cmp(&PEP440String::empty()).map(|o| o.then(0.cmp(n))),
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-- 
2.43.0

