From a1b1fb382680c36c447e4a88558558e8d392d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 01/14] fix: ignore a "tel:" that follows the phone-context
 instead of panicking

---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..13bfbd4 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,9 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            // Only a "tel:" standing before the phone-context introduces the number.
+            let index_of_rfc_prefix =
+                number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From e0a9625bbb8ab4efcab89af0da7faa01f68abd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 02/14] fix: use the plus sign when keeping alpha chars and the
 caller has no single international prefix

---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 13bfbd4..0399286 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1566,7 +1566,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 metadata.preferred_international_prefix()
             }
-        });
+        }).filter(|international_prefix| !international_prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From 372376fed432ea59c4d8c6494518e339582c7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 03/14] fix: do not panic in original format when the
 international form has no leading plus

---
 src/phonenumberutil/phonenumberutil_internal.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 0399286..a347778 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1283,9 +1283,11 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                // There is no plus sign when the number was returned as raw input.
+                Cow::Owned(formatted.strip_prefix(PLUS_SIGN).unwrap_or(&formatted).to_string())
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From a57183f670d6c6d20a88f6acd1172490509d7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 04/14] fix: keep a borrowed format result when formatting for
 mobile dialing

---
 src/phonenumberutil/phonenumberutil_internal.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index a347778..a07096f 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
@@ -908,10 +904,9 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            return Ok(Cow::Owned(
+                self.format(&number_no_extension, format)?.into_owned(),
+            ));
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0


From 399f310ccb31ad091cfb49d31175456cdff6b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 05/14] fix: treat an empty extension as a missing one when
 matching numbers

---
 src/phonenumberutil/helper_functions.rs         | 2 +-
 src/phonenumberutil/phonenumberutil_internal.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/helper_functions.rs b/src/phonenumberutil/helper_functions.rs
index ce9664a..8e362f1 100644
--- a/src/phonenumberutil/helper_functions.rs
+++ b/src/phonenumberutil/helper_functions.rs
@@ -459,7 +459,7 @@ pub(crate) fn copy_core_fields_only(from_number: &PhoneNumber) -> PhoneNumber {
     let mut to_number = PhoneNumber::new();
     to_number.set_country_code(from_number.country_code());
     to_number.set_national_number(from_number.national_number());
-    if let Some(extension) = &from_number.extension {
+    if let Some(extension) = from_number.extension.as_ref().filter(|ext| !ext.is_empty()) {
         to_number.set_extension(extension.clone());
     }
     if from_number.italian_leading_zero() {
diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index a07096f..30d1c50 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2819,8 +2819,8 @@ impl PhoneNumberUtilInternal {
         second_number_in: &PhoneNumber,
     ) -> MatchType {
         // Early exit if both had extensions and these are different.
-        if first_number_in.has_extension()
-            && second_number_in.has_extension()
+        if !first_number_in.extension().is_empty()
+            && !second_number_in.extension().is_empty()
             && first_number_in.extension() != second_number_in.extension()
         {
             return MatchType::NoMatch;
-- 
2.43.0


From f9a0ed15062051cb12d50e1e64405d23c5382fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 06/14] fix: drop the national prefix after a bare country
 calling code before judging the rest

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 30d1c50..3cef8af 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2193,6 +2193,9 @@ impl PhoneNumberUtilInternal {
                     "Number without country calling code prefix: {:?}",
                     phone_number_and_carrier_code
                 );
+                // The national prefix is not part of the potential national number.
+                let potential_national_number =
+                    Cow::Owned(phone_number_and_carrier_code.0.into_owned());
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
                 // be a better result and keep that instead.
-- 
2.43.0


From b924594c6208de815d13b2434455a95af3c425f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 07/14] fix: do not accept an extension after a two-digit
 number

---
 src/phonenumberutil/phone_number_regexps_and_mappings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/phonenumberutil/phone_number_regexps_and_mappings.rs b/src/phonenumberutil/phone_number_regexps_and_mappings.rs
index 57fa41c..92956bb 100644
--- a/src/phonenumberutil/phone_number_regexps_and_mappings.rs
+++ b/src/phonenumberutil/phone_number_regexps_and_mappings.rs
@@ -285,12 +285,12 @@ impl PhoneNumberRegExpsAndMappings {
         let alphanum = fast_cat::concat_str!(VALID_ALPHA_INCL_UPPERCASE, DIGITS);
         let extn_patterns_for_parsing = create_extn_pattern(true);
         let valid_phone_number = format!(
-                // moved 2-digits pattern to an end for match full number first
-                "[{}]*(?:[{}{}]*{}){{3,}}[{}{}{}{}]*|{}{{{}}}",
+                // 2-digits pattern goes first, so an extension may follow only the longer form
+                "{}{{{}}}|[{}]*(?:[{}{}]*{}){{3,}}[{}{}{}{}]*",
+                DIGITS, MIN_LENGTH_FOR_NSN,
                 PLUS_CHARS,
                 VALID_PUNCTUATION, STAR_SIGN, DIGITS,
                 VALID_PUNCTUATION, STAR_SIGN, DIGITS, VALID_ALPHA,
-                DIGITS, MIN_LENGTH_FOR_NSN, 
             );
 
         let rfc3966_phone_digit = format!("({}|{})", DIGITS, RFC3966_VISUAL_SEPARATOR);
@@ -324,7 +324,7 @@ impl PhoneNumberRegExpsAndMappings {
             separator_pattern: Regex::new(&format!("[{}]+", VALID_PUNCTUATION)).unwrap(),
             extn_patterns_for_matching: create_extn_pattern(false),
             extn_pattern: Regex::new(&format!("(?i)(?:{})$", &extn_patterns_for_parsing)).unwrap(),
-            valid_phone_number_pattern: Regex::new(&format!("(?i)^(?:{})(?:{})?$", 
+            valid_phone_number_pattern: Regex::new(&format!("(?i)^(?:{}(?:{})?)$", 
                 &valid_phone_number,
                 &extn_patterns_for_parsing
             )).unwrap(),
-- 
2.43.0


From 74f7e7b1cf2217ecab92279855f0121995bc4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 08/14] fix: match plan patterns against the whole number, not
 their first alternative only

---
 .../phonenumberutil_internal.rs               |  7 +++++--
 src/regex_based_matcher.rs                    |  8 ++++----
 src/regexp_cache.rs                           | 20 +++++++++++++++++--
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 3cef8af..a68a604 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -502,8 +502,11 @@ impl PhoneNumberUtilInternal {
             {
                 continue;
             }
-            let pattern_to_match = self.reg_exps.regexp_cache.get_regex(format.pattern())?;
-            if pattern_to_match.full_match(national_number) {
+            let pattern_to_match = self
+                .reg_exps
+                .regexp_cache
+                .get_full_match_regex(format.pattern())?;
+            if pattern_to_match.is_match(national_number) {
                 return Ok(Some(format));
             }
         }
diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..090b33c 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,13 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            let regexp = self.cache.get_full_match_regex(number_pattern)?;
+            Ok(regexp.is_match(phone_number))
         }
     }
 }
diff --git a/src/regexp_cache.rs b/src/regexp_cache.rs
index d8f3cf1..a16dc64 100644
--- a/src/regexp_cache.rs
+++ b/src/regexp_cache.rs
@@ -23,7 +23,9 @@ use thiserror::Error;
 pub struct InvalidRegexError(#[from] regex::Error);
 
 pub struct RegexCache {
-    cache: DashMap<String, Arc<regex::Regex>>
+    cache: DashMap<String, Arc<regex::Regex>>,
+    /// The same patterns, compiled to match a whole string only.
+    full_match_cache: DashMap<String, Arc<regex::Regex>>,
 }
 
 impl RegexCache {
@@ -31,6 +33,7 @@ impl RegexCache {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
             cache: DashMap::with_capacity(capacity),
+            full_match_cache: DashMap::with_capacity(capacity),
         }
     }
 
@@ -44,4 +47,17 @@ impl RegexCache {
             Ok(entry.value().clone())
         }
     }
-}
\ No newline at end of file
+
+    /// Returns `pattern` anchored at both ends. Checking that an unanchored match spans the
+    /// whole string is not the same: the first alternative that matches may be shorter.
+    pub fn get_full_match_regex(&self, pattern: &str) -> Result<Arc<regex::Regex>, InvalidRegexError> {
+        if let Some(regex) = self.full_match_cache.get(pattern) {
+            Ok(regex.value().clone())
+        } else {
+            let entry = self.full_match_cache.entry(pattern.to_string()).or_try_insert_with(|| {
+                regex::Regex::new(&format!("^(?:{pattern})$")).map(Arc::new)
+            })?;
+            Ok(entry.value().clone())
+        }
+    }
+}
-- 
2.43.0


From e8158b2376f523528cb7a1753b36aa82cc7fa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 09/14] fix: refuse trailing commas and hyphens in possible
 length lists

---
 .../com/google/i18n/phonenumbers/BuildMetadataFromXml.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
index c6ce40b..d23b42b 100644
--- a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
+++ b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
@@ -548,7 +548,7 @@ public class BuildMetadataFromXml {
     if (possibleLengthString.length() == 0) {
       throw new RuntimeException("Empty possibleLength string found.");
     }
-    String[] lengths = possibleLengthString.split(",");
+    String[] lengths = possibleLengthString.split(",", -1);
     Set<Integer> lengthSet = new TreeSet<Integer>();
     for (int i = 0; i < lengths.length; i++) {
       String lengthSubstring = lengths[i];
@@ -562,7 +562,7 @@ public class BuildMetadataFromXml {
               + "length string %s.", possibleLengthString));
         }
         // Strip the leading and trailing [], and split on the -.
-        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-");
+        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-", -1);
         if (minMax.length != 2) {
           throw new RuntimeException(String.format("Ranges must have exactly one - character: "
               + "missing for %s.", possibleLengthString));
-- 
2.43.0


From a3aa8b16f0c9972816c1cbdc646c00ebc1f9ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 10/14] fix: report a metadata source file that could not be
 written

---
 .../com/google/i18n/phonenumbers/RustMetadataGenerator.java  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java b/tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java
index e17518e..3d88c1a 100644
--- a/tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java
+++ b/tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java
@@ -117,7 +117,10 @@ public final class RustMetadataGenerator {
     pw.println("pub const "+constantName+": [u8; "+dataLength+"] = [");
     emitStaticArrayData(pw, data);
     pw.println("];");
-    pw.flush();
+    // PrintWriter swallows I/O errors: a table that could not be written must not look like success.
+    if (pw.checkError()) {
+      throw new IOException("The metadata source file could not be written.");
+    }
   }
 
   /** Emits the Rust code corresponding to the binary metadata as a static byte array. */
-- 
2.43.0


From a713e0d806c76905d34b2810a8a5b9087dcc7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/14] fix: do not fall back to number types where a region
 has leading digits

---
 src/phonenumberutil/phonenumberutil_internal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index a68a604..981c573 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -987,12 +987,14 @@ impl PhoneNumberUtilInternal {
                 .get(code) else {
                 return Ok(None);
             };
-            if metadata.has_leading_digits() && self
+            if metadata.has_leading_digits() {
+                if self
                     .reg_exps
                     .regexp_cache
                     .get_regex(metadata.leading_digits())?
                     .matches_start(&national_number) {
-                return Ok(Some(code));
+                    return Ok(Some(code));
+                }
             } else if self
                 .get_number_type_helper(&national_number, metadata) != PhoneNumberType::Unknown {
                 return Ok(Some(code));
-- 
2.43.0


From d7961fa1673145f9ae7ed40ee5654a37fe7e396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 12/14] fix: apply the national prefix transform rule whenever
 its last group matched

---
 .../phonenumberutil_internal.rs               | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 981c573..f5844a4 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2729,16 +2729,15 @@ impl PhoneNumberUtilInternal {
         let first_capture = captures.as_ref().and_then(|c| c.get(1));
         let second_capture = captures.as_ref().and_then(|c| c.get(2));
 
-        let condition = |first_capture: &regex::Match<'_>| {
-            !transform_rule.is_empty()
-                && (second_capture.is_some_and(|c| !c.is_empty())
-                    || !first_capture.is_empty() && second_capture.is_none())
-        };
-
-        if let Some(first_capture) = first_capture.filter(condition) {
-            // here we can safe unwrap because first_capture.is_some() anyway
-            let carrier_code_temp = if second_capture.is_some() {
-                Some(first_capture.as_str())
+        // The last of the (at most two) groups captures the part of the prefix which
+        // decides whether the transform rule applies; with two groups, the first one
+        // captures the carrier code.
+        let has_two_groups = captures.as_ref().is_some_and(|c| c.len() > 2);
+        let captured_part_of_prefix = if has_two_groups { second_capture } else { first_capture };
+
+        if !transform_rule.is_empty() && captured_part_of_prefix.is_some_and(|c| !c.is_empty()) {
+            let carrier_code_temp = if has_two_groups {
+                first_capture.map(|c| c.as_str())
             } else {
                 None
             };
-- 
2.43.0


From 8965af1e4bf4e62bc6918024b1b73e67ceaa9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 13/14] hooks for runtime monitors, compiled only with --cfg
 rlibphonenumber_verif

---
 src/phonenumberutil/phonenumberutil.rs |  4 ++
 src/phonenumberutil/verif_hooks.rs     | 21 ++++++
 src/phonenumberutil/verif_hooks_ops.rs | 97 ++++++++++++++++++++++++++
 3 files changed, 122 insertions(+)
 create mode 100644 src/phonenumberutil/verif_hooks.rs
 create mode 100644 src/phonenumberutil/verif_hooks_ops.rs

diff --git a/src/phonenumberutil/phonenumberutil.rs b/src/phonenumberutil/phonenumberutil.rs
index 7dce612..f0172f2 100644
--- a/src/phonenumberutil/phonenumberutil.rs
+++ b/src/phonenumberutil/phonenumberutil.rs
@@ -618,3 +618,7 @@ impl PhoneNumberUtil {
     }
 }
 
+// Entry points for runtime monitors: compiled only with `--cfg rlibphonenumber_verif`.
+#[cfg(rlibphonenumber_verif)]
+#[path = "verif_hooks.rs"]
+mod verif_hooks;
diff --git a/src/phonenumberutil/verif_hooks.rs b/src/phonenumberutil/verif_hooks.rs
new file mode 100644
index 0000000..2deec2f
--- /dev/null
+++ b/src/phonenumberutil/verif_hooks.rs
@@ -0,0 +1,21 @@
+//! Entry points for runtime monitors. Nothing here is compiled in an ordinary build:
+//! `--cfg rlibphonenumber_verif` adds an instance over other plans than the compiled-in ones,
+//! `--cfg rlibphonenumber_verif_ops` the operations the crate keeps to itself.
+
+use super::PhoneNumberUtil;
+use crate::{
+    phonemetadata::PhoneMetadataCollection,
+    phonenumberutil::phonenumberutil_internal::PhoneNumberUtilInternal,
+};
+
+#[doc(hidden)]
+impl PhoneNumberUtil {
+    /// An instance over other plans than the compiled-in ones.
+    pub fn verif_with_metadata(plans: PhoneMetadataCollection) -> Self {
+        Self { util_internal: PhoneNumberUtilInternal::new_for_metadata(plans) }
+    }
+}
+
+#[cfg(rlibphonenumber_verif_ops)]
+#[path = "verif_hooks_ops.rs"]
+mod ops;
diff --git a/src/phonenumberutil/verif_hooks_ops.rs b/src/phonenumberutil/verif_hooks_ops.rs
new file mode 100644
index 0000000..149dfea
--- /dev/null
+++ b/src/phonenumberutil/verif_hooks_ops.rs
@@ -0,0 +1,97 @@
+//! Operations the crate keeps to itself, for runtime monitors (`--cfg rlibphonenumber_verif_ops`).
+
+use std::collections::HashSet;
+
+use crate::{
+    GetExampleNumberError, InvalidNumberError, InvalidRegexError, MatchType, NumberLengthType,
+    PhoneNumber, PhoneNumberFormat, PhoneNumberType, PhoneNumberUtil, ValidationError,
+    phonemetadata::NumberFormat,
+};
+
+#[doc(hidden)]
+impl PhoneNumberUtil {
+    pub fn verif_supported_types_for_region(&self, region: &str) -> Option<HashSet<PhoneNumberType>> {
+        self.util_internal.get_supported_types_for_region(region)
+    }
+    pub fn verif_supported_types_for_non_geo_entity(&self, country_code: i32) -> Option<HashSet<PhoneNumberType>> {
+        self.util_internal.get_supported_types_for_non_geo_entity(country_code)
+    }
+    pub fn verif_supported_calling_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_calling_codes().collect()
+    }
+    pub fn verif_supported_global_network_calling_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_global_network_calling_codes().collect()
+    }
+    pub fn verif_ndd_prefix_for_region(&self, region: &str, strip_non_digits: bool) -> Option<String> {
+        self.util_internal.get_ndd_prefix_for_region(region, strip_non_digits)
+    }
+    pub fn verif_has_valid_country_calling_code(&self, country_code: i32) -> bool {
+        self.util_internal.has_valid_country_calling_code(country_code)
+    }
+    pub fn verif_country_mobile_token(&self, country_code: i32) -> Option<char> {
+        self.util_internal.get_country_mobile_token(country_code)
+    }
+    pub fn verif_format_by_pattern(
+        &self, number: &PhoneNumber, format: PhoneNumberFormat, rules: &[NumberFormat],
+    ) -> Result<String, InvalidRegexError> {
+        self.util_internal.format_by_pattern(number, format, rules)
+    }
+    pub fn verif_format_with_preferred_carrier_code(
+        &self, number: &PhoneNumber, fallback: &str,
+    ) -> Result<String, InvalidRegexError> {
+        self.util_internal.format_national_number_with_preferred_carrier_code(number, fallback)
+    }
+    pub fn verif_is_possible_number_for_type_with_reason(
+        &self, number: &PhoneNumber, number_type: PhoneNumberType,
+    ) -> Result<NumberLengthType, ValidationError> {
+        self.util_internal.is_possible_number_for_type_with_reason(number, number_type)
+    }
+    pub fn verif_is_possible_number_for_type(&self, number: &PhoneNumber, number_type: PhoneNumberType) -> bool {
+        self.util_internal.is_possible_number_for_type(number, number_type)
+    }
+    pub fn verif_is_possible_number_for_string(&self, text: &str, region: &str) -> bool {
+        self.util_internal.is_possible_number_for_string(text, region)
+    }
+    pub fn verif_example_number_for_type_and_region(
+        &self, region: &str, number_type: PhoneNumberType,
+    ) -> Result<PhoneNumber, GetExampleNumberError> {
+        self.util_internal
+            .get_example_number_for_type_and_region_code(region, number_type)
+            .map_err(|err| err.into_public())
+    }
+    pub fn verif_example_number_for_non_geo_entity(
+        &self, country_code: i32,
+    ) -> Result<PhoneNumber, GetExampleNumberError> {
+        self.util_internal
+            .get_example_number_for_non_geo_entity(country_code)
+            .map_err(|err| err.into_public())
+    }
+    pub fn verif_match_texts(&self, first: &str, second: &str) -> Result<MatchType, InvalidNumberError> {
+        self.util_internal
+            .is_number_match_with_two_strings(first, second)
+            .map_err(|err| err.into_public())
+    }
+    pub fn verif_match_text(&self, first: &PhoneNumber, second: &str) -> Result<MatchType, InvalidNumberError> {
+        self.util_internal
+            .is_number_match_with_one_string(first, second)
+            .map_err(|err| err.into_public())
+    }
+    pub fn verif_normalize(&self, text: &str) -> String {
+        self.util_internal.normalize(text)
+    }
+    pub fn verif_normalize_digits_only(&self, text: &str) -> String {
+        self.util_internal.normalize_digits_only(text).to_string()
+    }
+    pub fn verif_normalize_diallable_chars_only(&self, text: &str) -> String {
+        self.util_internal.normalize_diallable_chars_only(text)
+    }
+    pub fn verif_is_viable_phone_number(&self, text: &str) -> bool {
+        self.util_internal.is_viable_phone_number(text)
+    }
+    pub fn verif_is_format_eligible_for_as_you_type_formatter(&self, format: &str) -> bool {
+        self.util_internal.is_format_eligible_for_as_you_type_formatter(format)
+    }
+    pub fn verif_formatting_rule_has_first_group_only(&self, rule: &str) -> bool {
+        self.util_internal.formatting_rule_has_first_group_only(rule)
+    }
+}
-- 
2.43.0


From c666742aecb505fb17082caabbde860e716d1f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 14/14] verif hooks: independent of the private functions'
 string and iterator types

---
 src/phonenumberutil/verif_hooks_ops.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/phonenumberutil/verif_hooks_ops.rs b/src/phonenumberutil/verif_hooks_ops.rs
index 149dfea..de25fb0 100644
--- a/src/phonenumberutil/verif_hooks_ops.rs
+++ b/src/phonenumberutil/verif_hooks_ops.rs
@@ -17,13 +17,13 @@ impl PhoneNumberUtil {
         self.util_internal.get_supported_types_for_non_geo_entity(country_code)
     }
     pub fn verif_supported_calling_codes(&self) -> Vec<i32> {
-        self.util_internal.get_supported_calling_codes().collect()
+        self.util_internal.get_supported_calling_codes().into_iter().collect()
     }
     pub fn verif_supported_global_network_calling_codes(&self) -> Vec<i32> {
-        self.util_internal.get_supported_global_network_calling_codes().collect()
+        self.util_internal.get_supported_global_network_calling_codes().into_iter().collect()
     }
     pub fn verif_ndd_prefix_for_region(&self, region: &str, strip_non_digits: bool) -> Option<String> {
-        self.util_internal.get_ndd_prefix_for_region(region, strip_non_digits)
+        self.util_internal.get_ndd_prefix_for_region(region, strip_non_digits).map(Into::into)
     }
     pub fn verif_has_valid_country_calling_code(&self, country_code: i32) -> bool {
         self.util_internal.has_valid_country_calling_code(country_code)
@@ -34,12 +34,12 @@ impl PhoneNumberUtil {
     pub fn verif_format_by_pattern(
         &self, number: &PhoneNumber, format: PhoneNumberFormat, rules: &[NumberFormat],
     ) -> Result<String, InvalidRegexError> {
-        self.util_internal.format_by_pattern(number, format, rules)
+        self.util_internal.format_by_pattern(number, format, rules).map(Into::into)
     }
     pub fn verif_format_with_preferred_carrier_code(
         &self, number: &PhoneNumber, fallback: &str,
     ) -> Result<String, InvalidRegexError> {
-        self.util_internal.format_national_number_with_preferred_carrier_code(number, fallback)
+        self.util_internal.format_national_number_with_preferred_carrier_code(number, fallback).map(Into::into)
     }
     pub fn verif_is_possible_number_for_type_with_reason(
         &self, number: &PhoneNumber, number_type: PhoneNumberType,
@@ -77,13 +77,13 @@ impl PhoneNumberUtil {
             .map_err(|err| err.into_public())
     }
     pub fn verif_normalize(&self, text: &str) -> String {
-        self.util_internal.normalize(text)
+        self.util_internal.normalize(text).into()
     }
     pub fn verif_normalize_digits_only(&self, text: &str) -> String {
-        self.util_internal.normalize_digits_only(text).to_string()
+        self.util_internal.normalize_digits_only(text).into()
     }
     pub fn verif_normalize_diallable_chars_only(&self, text: &str) -> String {
-        self.util_internal.normalize_diallable_chars_only(text)
+        self.util_internal.normalize_diallable_chars_only(text).into()
     }
     pub fn verif_is_viable_phone_number(&self, text: &str) -> bool {
         self.util_internal.is_viable_phone_number(text)
-- 
2.43.0

