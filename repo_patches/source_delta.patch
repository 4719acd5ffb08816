From c322b5b0b4ba13be053e2da2feb9134c321382a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 1/8] Add a simulation seam for the embedded database (cfg
 phonenumber_sim, off by default)

---
 src/metadata/database.rs | 19 ++++++++++++++++++-
 src/metadata/mod.rs      |  6 ++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index a15e852..84f3a4c 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -29,7 +29,24 @@ const DATABASE: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/database.bin")
 
 /// The Google provided metadata database, used as default.
 pub static DEFAULT: Lazy<Database> =
-    Lazy::new(|| Database::from(postcard::from_bytes(DATABASE).unwrap()).unwrap());
+    Lazy::new(|| Database::from(postcard::from_bytes(embedded()).unwrap()).unwrap());
+
+/// The serialized form of the default database.
+fn embedded() -> &'static [u8] {
+    // Simulation seam, compiled out unless `--cfg phonenumber_sim` is given.
+    #[cfg(phonenumber_sim)]
+    if let Some(bytes) = SIM_EMBEDDED.get() {
+        return bytes;
+    }
+
+    DATABASE
+}
+
+/// Simulation seam: when set before first use, these bytes take the place of
+/// the embedded database, so that a run can start from a smaller one.
+#[cfg(phonenumber_sim)]
+#[doc(hidden)]
+pub static SIM_EMBEDDED: std::sync::OnceLock<&'static [u8]> = std::sync::OnceLock::new();
 
 /// Representation of a database of metadata for phone number.
 #[derive(Clone, Debug)]
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 2541232..fdea939 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -12,6 +12,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+// `phonenumber_sim` is a bare cfg, it is not declared in `Cargo.toml`.
+#![allow(unexpected_cfgs)]
+
 mod format;
 pub use self::format::Format;
 
@@ -23,6 +26,9 @@ mod metadata;
 pub use self::metadata::{Descriptors, Metadata};
 
 mod database;
+#[cfg(phonenumber_sim)]
+#[doc(hidden)]
+pub use self::database::SIM_EMBEDDED;
 pub use self::database::{DEFAULT as DATABASE, Database};
 
 /// XML loading helpers.
-- 
2.43.0


From 0a51ac0cf1dc94168afabee89bed5f14a80a8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 2/8] fix: report a descriptor without nationalNumberPattern
 instead of panicking

Database::from unwrapped the pattern right before the code that turns its
absence into a MissingValue error.
---
 src/metadata/database.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/metadata/database.rs b/src/metadata/database.rs
index 84f3a4c..bba4f99 100644
--- a/src/metadata/database.rs
+++ b/src/metadata/database.rs
@@ -85,9 +85,6 @@ impl Database {
 
         let descriptor =
             |desc: loader::Descriptor| -> Result<super::Descriptor, error::LoadMetadata> {
-                desc.national_number.as_ref().unwrap();
-                desc.national_number.as_ref().unwrap();
-
                 Ok(super::Descriptor {
                     national_number: desc
                         .national_number
-- 
2.43.0


From 3ea1ac494f6b60b3259cf09a488f1cf66fe61bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 3/8] fix: reject malformed possibleLengths instead of
 panicking

An empty part, a range without its end, a multi-byte last character or
a range up to 65535 panicked in slicing or overflowed.
---
 src/metadata/loader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 769357c..7eacb69 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -318,14 +318,14 @@ fn descriptor<R: BufRead>(
         let mut result = Vec::new();
 
         for part in value.split(',').map(str::trim) {
-            if part.as_bytes()[0] == b'[' {
-                let mut parts = part.split('-');
+            if let Some(range) = part.strip_prefix('[') {
+                let mut parts = range.split('-');
 
                 if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    let start = start[1..].parse::<u16>()?;
-                    let end = end[..end.len() - 1].parse::<u16>()?;
+                    let start = start.parse::<u16>()?;
+                    let end = end.strip_suffix(']').unwrap_or_default().parse::<u16>()?;
 
-                    for i in start..end + 1 {
+                    for i in start..=end {
                         result.push(i);
                     }
                 }
-- 
2.43.0


From 0b8b25d46050ff250bee9905eb54bf5114504bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 4/8] fix: return an error when the database lacks the
 reference region

parse_with unwrapped the metadata of the reference region, which a custom
database need not contain.
---
 src/parser/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index fb6dc53..1985647 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -190,8 +190,7 @@ pub fn country_code<'a>(
         }
 
         country::Source::Default => {
-            if let Some(country) = country {
-                let meta = database.by_id(country.as_ref()).unwrap();
+            if let Some(meta) = country.and_then(|c| database.by_id(c.as_ref())) {
                 let code = meta.country_code.to_string();
 
                 if number.national.starts_with(&code)
-- 
2.43.0


From 82a3038edbd4c2fea3b8eda970bfdf4f18499690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 5/8] fix: do not panic on region IDs unknown to country::Id

source_for already yields None for such an ID when a country code has one
region; with several regions it unwrapped the conversion.
---
 src/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index fb6ba37..4ca52f2 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -165,11 +165,11 @@ pub fn source_for(
         if let Some(pattern) = meta.leading_digits.as_ref() {
             if let Some(index) = pattern.find(national) {
                 if index.start() == 0 {
-                    return Some(Left(region.parse().unwrap()));
+                    return region.parse().ok().map(Left);
                 }
             }
         } else if number_type(meta, national) != Type::Unknown {
-            return Some(Left(region.parse().unwrap()));
+            return region.parse().ok().map(Left);
         }
     }
 
-- 
2.43.0


From ece056de698ecaa945adfe9f8d86896cdd5c75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 6/8] fix: do not panic when a transform rule applies without a
 carrier group

The first group of nationalPrefixForParsing may be absent or optional.
---
 src/parser/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 1985647..1698c2c 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -331,7 +331,7 @@ pub fn national_number<'a>(meta: &Metadata, mut number: Number<'a>) -> Number<'a
             return number;
         }
 
-        number.carrier = Some(first.unwrap().into());
+        number.carrier = first.map(Into::into);
         number.national = transformed.into();
     }
 
-- 
2.43.0


From 5c2b235e5eba29281f1ede8f32dbee4686fca07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 7/8] fix: skip deeply nested unknown elements without
 recursion

ignore() called itself for every nested element, so that a damaged document
could overflow the stack.
---
 src/metadata/loader.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/metadata/loader.rs b/src/metadata/loader.rs
index 7eacb69..62c908b 100644
--- a/src/metadata/loader.rs
+++ b/src/metadata/loader.rs
@@ -573,17 +573,23 @@ fn format<R: BufRead>(
 
 fn ignore<R: BufRead>(reader: &mut Reader<R>, name: &[u8]) -> Result<(), error::LoadMetadata> {
     let mut buffer = Vec::new();
+    // The open elements, outermost first; kept on the heap since how deeply
+    // elements are nested is up to the document.
+    let mut open = vec![name.to_vec()];
 
     loop {
         match reader.read_event_into(&mut buffer)? {
             Event::Text(_) | Event::Comment(_) | Event::Empty(_) => (),
 
-            Event::Start(ref e) => {
-                let name = e.name().into_inner();
-                ignore(reader, name)?
-            }
+            Event::Start(ref e) => open.push(e.name().into_inner().to_vec()),
+
+            Event::End(ref e) if open.last().is_some_and(|n| n == e.name().into_inner()) => {
+                open.pop();
 
-            Event::End(ref e) if e.name().into_inner() == name => return Ok(()),
+                if open.is_empty() {
+                    return Ok(());
+                }
+            }
 
             Event::End(ref e) => {
                 return Err(error::Metadata::MismatchedTag(
-- 
2.43.0


From 46c2337908d38de786316dc45142241c7273bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 8/8] fix: do not panic when a transform rule applies to a
 format without groups

---
 src/formatter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 288783b..667883f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -240,13 +240,12 @@ fn replace(
         .pattern()
         .replace(
             national,
-            &*if let Some(transform) = transform {
-                let first = consts::FIRST_GROUP
+            &*if let Some(transform) = transform
+                && let Some(first) = consts::FIRST_GROUP
                     .captures(formatter.format())
-                    .unwrap()
-                    .get(1)
-                    .unwrap()
-                    .as_str();
+                    .and_then(|groups| groups.get(1))
+            {
+                let first = first.as_str();
                 let format = transform.replace(consts::NP, meta.national_prefix().unwrap_or(""));
                 let format = format.replace(consts::FG, &format!("${}", first));
                 let format = format.replace(consts::CC, carrier.unwrap_or(""));
-- 
2.43.0

